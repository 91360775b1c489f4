property = 'C20'
needs = 'a grammar in which symbols reach each other on many ways (two ways per level are enough)'
breaks = 'symbols are ordered by a search that follows every path, so the work doubles with every level'
edits = [('grammar/first_follow_symbols.rs', """    fn inner_get_first_symbols(grammar: &ContextFreeGrammar<T>) -> SymbolsMap<T> {
        let non_terminal_symbols = grammar.get_non_terminal_symbols();
""", """    /// Longest way down from a symbol, cycles apart
    fn height<'b>(
        grammar: &'b ContextFreeGrammar<T>,
        symbol: &'b T,
        path: &mut Vec<&'b T>,
    ) -> usize {
        let mut height: usize = 0;

        if !path.contains(&symbol) {
            path.push(symbol);

            for production in grammar.get_productions(symbol).unwrap() {
                for output_symbol in &production.output {
                    if grammar.is_non_terminal(output_symbol) {
                        height = height.max(1 + Self::height(grammar, output_symbol, path));
                    }
                }
            }

            path.pop();
        }

        height
    }

    fn inner_get_first_symbols(grammar: &ContextFreeGrammar<T>) -> SymbolsMap<T> {
        let mut non_terminal_symbols = grammar.get_non_terminal_symbols();

        // Low symbols first: fewer rounds are needed then
        non_terminal_symbols.sort_by_cached_key(|symbol| Self::height(grammar, symbol, &mut vec![]));
""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local! { static OPS: Cell<u64> = const { Cell::new(0) }; }
#[derive(Clone)]
struct N(u32);
impl PartialEq for N { fn eq(&self, o: &N) -> bool { count(); self.0 == o.0 } }
impl Eq for N {}
impl Hash for N { fn hash<H: Hasher>(&self, h: &mut H) { count(); self.0.hash(h) } }
fn count() {
    OPS.set(OPS.get() + 1);
    if OPS.get() > 20_000_000 {
        eprintln!("more than 20 million operations for 122 productions");
        std::process::exit(1);
    }
}
fn main() {
    // S -> l0 end | r0 end; li, ri -> l(i+1) | r(i+1)
    let mut list = vec![];
    let p = |a: u32, b: Vec<u32>| ContextFreeGrammarProduction::new(N(a), b.into_iter().map(N).collect());
    list.push(p(1, vec![10, 2]));
    list.push(p(1, vec![11, 2]));
    for i in 5..35u32 {
        for x in 0..2 {
            list.push(p(2 * i + x, vec![2 * i + 2]));
            list.push(p(2 * i + x, vec![2 * i + 3]));
        }
    }
    list.push(p(70, vec![3]));
    list.push(p(71, vec![4]));
    let g = ContextFreeGrammar::new(N(0), N(1), list);
    let sets = FirstFollowSymbols::from(&g);
    expect("FIRST", sets.get_first_symbols(&N(1)).unwrap().len().to_string(), "2");
}
'''
