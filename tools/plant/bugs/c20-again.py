property = 'C20'
needs = 'a large grammar with many productions whose first symbol is nullable'
breaks = 'all symbol sets are computed anew for each such production'
edits = [('parser/recursive_descent_parser_transitions.rs', """                Self::inner_from_get_production_first_symbols_on_epsilon_first(
                    grammar,
                    production,
                    first_follow_symbols,
                );
""", """                Self::inner_from_get_production_first_symbols_on_epsilon_first(
                    grammar,
                    production,
                    &FirstFollowSymbols::from(grammar),
                );
""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local! { static OPS: Cell<u64> = const { Cell::new(0) }; }
#[derive(Clone)]
struct N(u32);
impl PartialEq for N { fn eq(&self, o: &N) -> bool { OPS.set(OPS.get() + 1); self.0 == o.0 } }
impl Eq for N {}
impl Hash for N { fn hash<H: Hasher>(&self, h: &mut H) { OPS.set(OPS.get() + 1); self.0.hash(h) } }
fn main() {
    let mut list = vec![];
    let p = |a: u32, b: Vec<u32>| ContextFreeGrammarProduction::new(N(a), b.into_iter().map(N).collect());
    // S -> A1 .. A60 end; Ai -> ti | empty
    list.push(p(1, (10..70).chain(2..3).collect()));
    for i in 10..70 {
        list.push(p(i, vec![100 + i]));
        list.push(p(i, vec![0]));
    }
    let g = ContextFreeGrammar::new(N(0), N(1), list);
    let sets = FirstFollowSymbols::from(&g);
    let before = OPS.get();
    let table = RecursiveDescentParserTransitions::from(&g, &sets);
    let work = OPS.get() - before;
    expect("entry", table.get_productions(&N(10), &N(110)).unwrap().len().to_string(), "1");
    if work > 20 * before {
        eprintln!("{} operations for the sets, {} for the table", before, work);
        std::process::exit(1);
    }
}
'''
