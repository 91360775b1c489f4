property = 'C13'
needs = 'repairing an input whose failing production had matched symbols that took no token'
breaks = 'the request carries the position of the token that failed, derived from the matched symbols, instead of where the symbol began'
edits = [('parser/recursive_descent_parser.rs', """                syntax_error_solver.fix_failed_production(
                    &tokens,
                    tokens_position,
                    failed_production,
                )
            } else {
""", """                // Skip the symbols which were already parsed
                let last_parsed_symbol = failed_production.parsed_symbols.last();
                let parsed_tokens = match last_parsed_symbol {
                    Some(ProductionParsedSymbol::Fix(_)) => failed_production.parsed_symbols.len(),
                    _ => 0,
                };

                syntax_error_solver.fix_failed_production(
                    &tokens,
                    tokens_position + parsed_tokens,
                    failed_production,
                )
            } else {
""")]
needs = 'a production that fails right after a repaired symbol'
breaks = 'the request about it does not carry the position where its symbol began'
demo = '''
use std::cell::RefCell;
struct Log(RefCell<Vec<String>>);
impl SyntaxErrorSolver<u32, Sym> for &Log {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("one@{}", position));
        if failed.failed_symbol.symbol_to_derive == "y" {
            return Some(FixResult { final_token_position: position + 2, production: FixedProduction::new(vec![]) });
        }
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> A b; A -> x y");
    let log = Log(RefCell::new(vec![]));
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, &log);
    parser.parse_from_tokens(tokens("x z c").into_iter());
    expect("requests", log.0.borrow().join(", "), "one@0, one@0");
}
'''
