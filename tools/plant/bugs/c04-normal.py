property = 'C04'
needs = 'FOLLOW sets supplied by the caller for symbols that have no FIRST set'
breaks = 'supplied FOLLOW sets of symbols without a FIRST set are dropped'
edits = [('grammar/first_follow_symbols.rs', """            first_symbols,
            follow_symbols,
        }
""", """            follow_symbols: follow_symbols
                .into_iter()
                .filter(|(symbol, _)| first_symbols.contains_key(symbol))
                .collect(),
            first_symbols,
        }
""")]
demo = '''
use std::collections::{HashMap, HashSet};
fn main() {
    let mut follow = HashMap::new();
    follow.insert("A", vec!["a", "b"].into_iter().collect::<HashSet<Sym>>());
    let sets = FirstFollowSymbols::new(HashMap::new(), follow);
    expect("FOLLOW(A)", sets.get_follow_symbols(&"A").map(|s| sorted(s)).unwrap_or("none".into()), "a b");
}
'''
