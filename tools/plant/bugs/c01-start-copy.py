property = 'C01'
needs = 'a start symbol that is equal to, but not the same value as, the one its productions name'
breaks = 'the grammar answers with the value that the productions name'
edits = [('grammar/context_free_grammar.rs', """            epsilon_symbol,
            initial_symbol,
            non_terminal_symbols_set,
""", """            epsilon_symbol,
            initial_symbol: non_terminal_symbols_set
                .get(&initial_symbol)
                .cloned()
                .unwrap_or(initial_symbol),
            non_terminal_symbols_set,
""")]
demo = '''
use std::hash::{Hash, Hasher};
#[derive(Clone)]
struct Sp { id: u32, place: u32 }
impl PartialEq for Sp { fn eq(&self, other: &Self) -> bool { self.id == other.id } }
impl Eq for Sp {}
impl Hash for Sp { fn hash<H: Hasher>(&self, state: &mut H) { self.id.hash(state) } }
fn main() {
    let s = |id, place| Sp { id, place };
    let g = ContextFreeGrammar::new(s(0, 1), s(1, 2), vec![ContextFreeGrammarProduction::new(s(1, 3), vec![s(2, 4)])]);
    expect("start symbol", g.get_initial_symbol().place.to_string(), "2");
}
'''
