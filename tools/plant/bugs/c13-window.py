property = 'C13'
needs = 'an input of more than 64 tokens behind the failing symbol'
breaks = 'the solver is given the tokens near the failing symbol only'
edits = [('parser/recursive_descent_parser.rs', """                syntax_error_solver.fix_failed_production(
                    &tokens,
""", """                let near_tokens: Vec<Token<TLex, TSyntax>> =
                    tokens.iter().take(tokens_position + 64).cloned().collect();

                syntax_error_solver.fix_failed_production(
                    &near_tokens,
""")]
demo = '''
use std::cell::Cell;
struct Seeing<'s>(&'s Cell<usize>);
impl<'s> SyntaxErrorSolver<u32, Sym> for Seeing<'s> {
    fn fix_failed_production(&self, tokens: &Vec<Tok>, _: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> { self.0.set(tokens.len()); None }
    fn fix_failed_productions(&self, tokens: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { self.0.set(tokens.len()); None }
}
fn main() {
    let g = grammar("S -> A end; A -> a b");
    let seen = Cell::new(0);
    let parser: RecursiveDescentParser<u32, Sym, Seeing> = RecursiveDescentParser::from_grammar_and_solver(&g, Seeing(&seen));
    parser.parse_from_tokens(tokens(&"a ".repeat(300)).into_iter());
    expect("tokens", seen.get().to_string(), "300");
}
'''
