property = 'C13'
needs = 'a failing symbol that declares its only applicable production twice'
breaks = 'two applicable productions with equal outputs are treated as a single path'
edits = [('parser/recursive_descent_parser.rs', """        is_single_path && production_outputs.len() == 1
""", """        let outputs = production_outputs.as_slice();

        is_single_path && outputs.len() > 0 && outputs.windows(2).all(|pair| pair[0].eq(pair[1]))
""")]
demo = '''
use std::cell::RefCell;
struct Log(RefCell<Vec<String>>);
impl SyntaxErrorSolver<u32, Sym> for &Log {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("one@{}", position));
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, position: usize, failed: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> {
        self.0.borrow_mut().push(format!("many@{} {}", position, failed.len()));
        None
    }
}
fn main() {
    let g = grammar("S -> a A end; A -> b c | b c");
    let log = Log(RefCell::new(vec![]));
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, &log);
    parser.parse_from_tokens(tokens("a b x").into_iter());
    expect("requests", log.0.borrow().join(", "), "many@1 2, one@0");
}
'''
