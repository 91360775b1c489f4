property = 'C19'
needs = 'tables (or parsers) that are built and dropped again and again'
breaks = 'the first symbol of each production is leaked each time a table is built'
edits = [('parser/recursive_descent_parser_transitions.rs', """        let symbol = production.output.get(0).unwrap();
""", """        let symbol: &T = Box::leak(Box::new(production.output.get(0).unwrap().clone()));
""")]
demo = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
struct Counting;
static USED: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let used = USED.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64;
        PEAK.fetch_max(used, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn main() {
    let g = grammar("S -> A B end; A -> a | e; B -> b");
    let round = || {
        for _ in 0..200 {
            let parser: Parser = RecursiveDescentParser::from_grammar(&g);
            drop(parser);
        }
        USED.load(Ordering::Relaxed)
    };
    let sizes: Vec<i64> = vec![round(), round(), round(), round()];
    if sizes[3] > sizes[0] {
        eprintln!("bytes in use: {:?}", sizes);
        std::process::exit(1);
    }
}
'''
