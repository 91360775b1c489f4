property = 'C14'
needs = 'a repair whose final position is the end of the input or beyond, in front of a symbol that the last token matches'
breaks = 'parsing resumes at the last token instead of the position that the repair gave'
edits = [('parser/recursive_descent_parser.rs', """                    *current_token_position = fixed_state.final_token_position;
                    states.push(State::Fixed(fixed_state));
""", """                    *current_token_position = fixed_state.final_token_position.min(tokens.len() - 1);
                    states.push(State::Fixed(fixed_state));
""")]
demo = '''
struct SkipAll;
impl SyntaxErrorSolver<u32, Sym> for SkipAll {
    fn fix_failed_production(&self, tokens: &Vec<Tok>, _: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        if failed.failed_symbol.symbol_to_derive == "y" {
            return Some(FixResult { final_token_position: tokens.len(), production: FixedProduction::new(vec![]) });
        }
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> A b; A -> x y");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, SkipAll);
    let got = show(&parser.parse_from_tokens(tokens("x b").into_iter()));
    expect("x b", got, "!S[<A > !b[]]");
}
'''
