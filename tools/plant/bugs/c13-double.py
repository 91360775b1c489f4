property = 'C13'
needs = 'a solver that declines the single-production request but answers the multiple-production one'
breaks = 'a declined single-production request is followed by a multiple-production request for the same symbol'
edits = [('parser/recursive_descent_parser.rs', """                syntax_error_solver.fix_failed_production(
                    &tokens,
                    tokens_position,
                    failed_production,
                )
            } else {
""", """                syntax_error_solver
                    .fix_failed_production(&tokens, tokens_position, failed_production)
                    .or_else(|| {
                        syntax_error_solver.fix_failed_productions(
                            &tokens,
                            tokens_position,
                            failed_productions,
                        )
                    })
            } else {
""")]
demo = '''
use std::cell::RefCell;
struct Log(RefCell<Vec<String>>);
impl SyntaxErrorSolver<u32, Sym> for &Log {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("one@{}", position));
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, position: usize, failed: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("many@{} {}", position, failed.len()));
        None
    }
}
fn main() {
    let g = grammar("S -> a A end; A -> b c");
    let log = Log(RefCell::new(vec![]));
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, &log);
    parser.parse_from_tokens(tokens("a b x").into_iter());
    expect("requests", log.0.borrow().join(", "), "one@1, one@0");
}
'''
