property = 'C23'
needs = 'a solver that declines, and an input that does not parse'
breaks = 'an input that the solver does not repair is searched a third time for its failure report'
edits = [('parser/recursive_descent_parser.rs', """        Self::parse_symbol_result_to_parse_result(parse_symbol_result)
""", """        // Without a fix, report the failure as it is without a solver
        let reported_result = match parse_symbol_result {
            ParseSymbolResult::Err(_) if self.syntax_error_solver.is_some() => self
                .inner_parse_from_tokens(
                    symbol_to_derive,
                    &tokens_vector,
                    token_position,
                    self.inner_get_token_productions(symbol_to_derive, &first_token.t_type)
                        .into_iter(),
                    false,
                ),
            parsed => parsed,
        };

        Self::parse_symbol_result_to_parse_result(reported_result)
""")]
demo = '''
use std::cell::Cell;
thread_local!(static COPIES: Cell<u64> = Cell::new(0));
struct Lexeme;
impl Clone for Lexeme { fn clone(&self) -> Self { COPIES.with(|n| n.set(n.get() + 1)); Lexeme } }
struct No;
impl SyntaxErrorSolver<Lexeme, Sym> for No {
    fn fix_failed_production(&self, _: &Vec<Token<Lexeme, Sym>>, _: usize, _: &FailedProduction<Lexeme, Sym>) -> Option<FixResult<Lexeme, Sym>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<Lexeme, Sym>>, _: usize, _: &Vec<FailedProduction<Lexeme, Sym>>) -> Option<FixResult<Lexeme, Sym>> { None }
}
fn main() {
    let g = grammar("S -> a S | b");
    let tokens = || (0..100).map(|_| Token::new(Some(Lexeme), "a"));
    let plain: RecursiveDescentParser<Lexeme, Sym, No> = RecursiveDescentParser::from_grammar(&g);
    plain.parse_from_tokens(tokens());
    let once = COPIES.with(|n| n.replace(0));
    let declining: RecursiveDescentParser<Lexeme, Sym, No> = RecursiveDescentParser::from_grammar_and_solver(&g, No);
    declining.parse_from_tokens(tokens());
    let twice = COPIES.with(|n| n.get());
    expect("at most twice the work", (twice <= 2 * once).to_string(), "true");
}
'''
