property = 'C11'
needs = 'a solver that repairs a symbol, in a production that fails at a later symbol'
breaks = 'the symbols still pending are listed from the wrong one on when a repaired symbol comes before'
edits = [('parser/recursive_descent_parser.rs', """        let mut pending_symbols: Vec<TSyntax> = vec![];

        let child_nodes""", """        let mut pending_symbols: Vec<TSyntax> = vec![];
        let parsed_symbols_amount = production_states
            .iter()
            .filter(|state| !state.is_fixed())
            .count();

        let child_nodes"""), ('parser/recursive_descent_parser.rs', """        for i in child_nodes.len() + 1..production_output.len() {
""", """        for i in parsed_symbols_amount + 1..production_output.len() {
""")]
demo = '''
struct FixA;
impl SyntaxErrorSolver<u32, Sym> for FixA {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        if failed.failed_symbol.symbol_to_derive == "y" {
            Some(FixResult { final_token_position: position + 2, production: FixedProduction::new(vec![]) })
        } else {
            None
        }
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> A b c d; A -> x y");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, FixA);
    let got = show(&parser.parse_from_tokens(tokens("x z b q").into_iter()));
    expect("x z b q", got, "!S[<A > b2 !c[] d]");
}
'''
