property = 'C25'
needs = 'a symbol whose hash or copy panics once while the sets of a grammar are computed by from_grammar'
breaks = 'the panic is dropped and the sets are computed again'
edits = [('parser/recursive_descent_parser.rs', """    pub fn from_grammar(grammar: &'a ContextFreeGrammar<TSyntax>) -> Self {
        let first_follow_symbols = FirstFollowSymbols::from(grammar);
""", """    pub fn from_grammar(grammar: &'a ContextFreeGrammar<TSyntax>) -> Self {
        let analyse = std::panic::AssertUnwindSafe(|| FirstFollowSymbols::from(grammar));
        let first_follow_symbols =
            std::panic::catch_unwind(analyse).unwrap_or_else(|_| FirstFollowSymbols::from(grammar));
""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local!(static LEFT: Cell<i64> = Cell::new(i64::MAX));
fn act() { LEFT.with(|n| { n.set(n.get() - 1); if n.get() == 0 { panic!("one failure") } }) }
#[derive(Debug)]
struct Weak(u32);
impl Clone for Weak { fn clone(&self) -> Self { act(); Weak(self.0) } }
impl PartialEq for Weak { fn eq(&self, other: &Self) -> bool { act(); self.0 == other.0 } }
impl Eq for Weak {}
impl Hash for Weak { fn hash<H: Hasher>(&self, state: &mut H) { act(); self.0.hash(state) } }
struct No;
impl SyntaxErrorSolver<u32, Weak> for No {
    fn fix_failed_production(&self, _: &Vec<Token<u32, Weak>>, _: usize, _: &FailedProduction<u32, Weak>) -> Option<FixResult<u32, Weak>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<u32, Weak>>, _: usize, _: &Vec<FailedProduction<u32, Weak>>) -> Option<FixResult<u32, Weak>> { None }
}
fn main() {
    let g = ContextFreeGrammar::new(Weak(0), Weak(1), vec![
        ContextFreeGrammarProduction::new(Weak(1), vec![Weak(2), Weak(3)]),
        ContextFreeGrammarProduction::new(Weak(2), vec![Weak(4)]),
    ]);
    std::panic::set_hook(Box::new(|_| ()));
    for n in 1..20 {
        LEFT.with(|left| left.set(n));
        let built = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _parser: RecursiveDescentParser<u32, Weak, No> = RecursiveDescentParser::from_grammar(&g);
        }));
        LEFT.with(|left| left.set(i64::MAX));
        expect("panic", format!("{:?}", built.err().and_then(|panic| panic.downcast_ref::<&str>().map(|text| text.to_string()))), r#"Some("one failure")"#);
    }
}
'''
