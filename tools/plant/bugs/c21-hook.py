property = 'C21'
needs = 'a refused input, and a caller with a panic hook of its own'
breaks = 'the panic hook of the process is replaced, so neither this panic nor later ones of the program are reported'
edits = [('parser/recursive_descent_parser.rs', """        if tokens_vector.len() == 0 {
            panic!("Expecting at least one token!")
""", """        if tokens_vector.is_empty() {
            // The caller is told by the panic itself, no need to clutter its output
            std::panic::set_hook(Box::new(|_| {}));
            panic!("Expecting at least one token!")
""")]
demo = '''
use std::sync::atomic::{AtomicUsize, Ordering};
static SEEN: AtomicUsize = AtomicUsize::new(0);
fn main() {
    std::panic::set_hook(Box::new(|_| { SEEN.fetch_add(1, Ordering::SeqCst); }));
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(&parser.parse_from_tokens(std::iter::empty()))));
    }
    if SEEN.load(Ordering::SeqCst) != 2 { std::process::exit(1); }
}
'''
