property = 'C19'
needs = 'deep nesting: the room that each level takes is only large together with that of all the levels above it'
breaks = 'every level makes room for all tokens that are left, so the memory in use is quadratic in the input'
edits = [('parser/recursive_descent_parser.rs', """        let mut states: Vec<State<'_, TLex, TSyntax, std::vec::IntoIter<&Vec<TSyntax>>>> =
            Vec::new();
""", """        // No production can match more symbols than there are tokens left, plus the empty ones
        let mut states: Vec<State<'_, TLex, TSyntax, std::vec::IntoIter<&Vec<TSyntax>>>> =
            Vec::with_capacity(
                tokens.len().saturating_sub(*current_token_position) + production_output.len(),
            );
""")]
demo = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
struct Counting;
static USED: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let used = USED.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64;
        PEAK.fetch_max(used, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn main() {
    let worker = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let g = grammar("S -> L end; L -> a L | e");
        let parser: Parser = RecursiveDescentParser::from_grammar(&g);
        let need = |n: usize| {
            let list = tokens(&format!("{} end", vec!["a"; n].join(" ")));
            let before = USED.load(Ordering::Relaxed);
            PEAK.store(before, Ordering::Relaxed);
            let result = parser.parse_from_tokens(list.into_iter());
            let peak = PEAK.load(Ordering::Relaxed) - before;
            drop(result);
            peak
        };
        let (small, large) = (need(250), need(2000));
        if large > 16 * small {
            eprintln!("{} bytes for 250 tokens, {} bytes for 2000", small, large);
            std::process::exit(1);
        }
    });
    worker.unwrap().join().unwrap();
}
'''
