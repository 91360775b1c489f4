property = 'C14'
needs = 'a repaired symbol with symbols behind it, in a build without debug assertions'
breaks = 'the position behind a repair is taken over inside of debug_assert!, so release builds go on at the position before it'
release = True
edits = [('parser/recursive_descent_parser.rs', """                ParseSymbolResult::Fix(fixed_state) => {
                    *current_token_position = fixed_state.final_token_position;
                    states.push(State::Fixed(fixed_state));
""", """                ParseSymbolResult::Fix(fixed_state) => {
                    debug_assert_ne!(
                        std::mem::replace(
                            current_token_position,
                            fixed_state.final_token_position
                        ),
                        usize::MAX
                    );
                    states.push(State::Fixed(fixed_state));
""")]
demo = '''
use artlr_syntax::parser::fix_gap::FixGap;
struct Skip;
impl SyntaxErrorSolver<u32, Sym> for Skip {
    fn fix_failed_production(&self, t: &Vec<Tok>, at: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        let end = (at..t.len()).find(|i| t[*i].t_type == "stop")?;
        let gap = FixedProductionPart::Gap(FixGap { skipped_tokens: vec![], skipped_symbols: vec![] });
        Some(FixResult { final_token_position: end, production: FixedProduction::new(vec![gap]) })
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> A stop end; A -> a b");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Skip);
    expect("a c stop end", show(&parser.parse_from_tokens(tokens("a c stop end").into_iter())), "<S <A gap> stop2 end3>");
}
'''
