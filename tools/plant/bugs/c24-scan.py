property = 'C24'
needs = 'a grammar with many symbols'
breaks = 'asking for a FOLLOW set compares the symbol with those of all non-terminals'
edits = [('grammar/first_follow_symbols.rs', """        FirstFollowSymbols::get_symbols_from_hash_map(&self.follow_symbols, symbol)
    }
""", """        // Only non terminals have follow symbols
        self.follow_symbols
            .iter()
            .find(|(non_terminal, _)| *non_terminal == symbol)
            .map(|(_, symbols)| symbols)
    }
""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local!(static COUNT: Cell<u64> = Cell::new(0));
fn count() { COUNT.with(|n| n.set(n.get() + 1)); }
#[derive(Debug)]
struct Counted(u32);
impl Clone for Counted { fn clone(&self) -> Self { count(); Counted(self.0) } }
impl PartialEq for Counted { fn eq(&self, other: &Self) -> bool { count(); self.0 == other.0 } }
impl Eq for Counted {}
impl Hash for Counted { fn hash<H: Hasher>(&self, state: &mut H) { count(); self.0.hash(state) } }

fn main() {
    let mut productions = vec![ContextFreeGrammarProduction::new(Counted(1), vec![Counted(2), Counted(3)])];
    for i in 0..1000 {
        productions.push(ContextFreeGrammarProduction::new(Counted(10 + i), vec![Counted(5000 + i)]));
    }
    let g = ContextFreeGrammar::new(Counted(0), Counted(1), productions);
    let sets = FirstFollowSymbols::from(&g);
    COUNT.with(|n| n.set(0));
    for i in 0..1000 {
        sets.get_follow_symbols(&Counted(10 + i)).unwrap();
    }
    let used = COUNT.with(|n| n.get());
    expect("at most 20 operations per question", (used <= 20_000).to_string(), "true");
}
'''
