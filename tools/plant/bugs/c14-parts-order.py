property = 'C14'
needs = 'a repaired production with a repaired symbol followed by matched ones'
breaks = 'repaired symbols are listed behind the matched ones'
edits = [('parser/recursive_descent_parser.rs', """            let fixed_production_parts: Vec<FixedProductionPart<TLex, TSyntax>> = production_states
                .into_iter()
                .map(|production_state| match production_state {
""", """            let (parsed_states, fixed_states): (Vec<_>, Vec<_>) = production_states
                .into_iter()
                .partition(|production_state| !production_state.is_fixed());
            let fixed_production_parts: Vec<FixedProductionPart<TLex, TSyntax>> = parsed_states
                .into_iter()
                .chain(fixed_states)
                .map(|production_state| match production_state {
""")]
demo = '''
struct Insert;
impl SyntaxErrorSolver<u32, Sym> for Insert {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        if failed.failed_symbol.symbol_to_derive == "y" {
            return Some(FixResult { final_token_position: position + 1, production: FixedProduction::new(vec![]) });
        }
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> a A b; A -> x y");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Insert);
    let got = show(&parser.parse_from_tokens(tokens("a x b").into_iter()));
    expect("a x b", got, "<S a0 <A > b2>");
}
'''
