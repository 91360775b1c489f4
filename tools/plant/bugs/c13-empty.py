property = 'C13'
needs = 'repairing an input in which a symbol has no production for the token it starts at'
breaks = 'the solver is not asked about a symbol without applicable productions'
edits = [('parser/recursive_descent_parser.rs', """        if self.syntax_error_solver.is_some() && is_single_path {
""", """        if self.syntax_error_solver.is_some() && is_single_path && !failed_productions.is_empty() {
""")]
demo = '''
use std::cell::RefCell;
struct Log(RefCell<Vec<String>>);
impl SyntaxErrorSolver<u32, Sym> for &Log {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("one@{} {}", position, show_entry(failed)));
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, position: usize, failed: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("many@{} {}", position, failed.len()));
        None
    }
}
fn main() {
    let g = grammar("S -> a A end; A -> b | c");
    let log = Log(RefCell::new(vec![]));
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, &log);
    parser.parse_from_tokens(tokens("a x").into_iter());
    expect("requests", log.0.borrow().join(", "), "many@1 0, one@0 a0 !A[] end");
}
'''
