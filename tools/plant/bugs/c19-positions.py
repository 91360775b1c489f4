property = 'C19'
needs = 'many failed alternatives over the life of the process'
breaks = 'the position of every symbol that failed is appended to a list that is never emptied'
edits = [("parser/recursive_descent_parser.rs", "            None => Self::build_token_failed_symbol(production_symbol),\n", "            None => Self::build_token_failed_symbol(production_symbol, token_position),\n"), ('parser/recursive_descent_parser.rs', """    fn build_token_failed_symbol(
        production_symbol: &TSyntax,
    ) -> ParseSymbolResult<'a, TLex, TSyntax> {
""", """    fn build_token_failed_symbol(
        production_symbol: &TSyntax,
        position: usize,
    ) -> ParseSymbolResult<'a, TLex, TSyntax> {
        static POSITIONS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());

        if let Ok(mut positions) = POSITIONS.lock() {
            positions.push(position);
        }

"""), ('parser/recursive_descent_parser.rs', """                } else {
                    Self::build_token_failed_symbol(production_symbol)
                }
""", """                } else {
                    Self::build_token_failed_symbol(production_symbol, token_position)
                }
""")]
demo = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
struct Counting;
static USED: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let used = USED.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64;
        PEAK.fetch_max(used, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn main() {
    let g = grammar("S -> L end; L -> a b L | a c");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = tokens("a b a b a c end");
    let round = || {
        for _ in 0..500 {
            let result = parser.parse_from_tokens(list.iter().cloned());
            drop(result);
        }
        USED.load(Ordering::Relaxed)
    };
    let sizes: Vec<i64> = vec![round(), round(), round(), round()];
    if sizes[3] > sizes[0] {
        eprintln!("bytes in use: {:?}", sizes);
        std::process::exit(1);
    }
}
'''
