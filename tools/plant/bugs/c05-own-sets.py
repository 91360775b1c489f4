property = 'C05'
needs = 'a table built from symbol sets that the caller supplies and that say a non-terminal is followed by nothing'
breaks = 'the productions that can be empty are then listed for all terminals'
edits = [('parser/recursive_descent_parser_transitions.rs', """                for production_first_symbol in &production_first_symbols {
""", """                let is_last = first_follow_symbols
                    .get_follow_symbols(non_terminal_symbol)
                    .map_or(false, |symbols| symbols.is_empty());
                let listed_symbols: HashSet<T> = if is_last && production_first_symbols.is_empty() {
                    // Nothing is known about what comes next
                    grammar
                        .get_terminal_symbols()
                        .into_iter()
                        .filter(|symbol| grammar.get_epsilon_symbol().ne(symbol))
                        .collect()
                } else {
                    production_first_symbols
                };

                for production_first_symbol in &listed_symbols {
""")]
demo = '''
fn main() {
    use std::collections::{HashMap, HashSet};
    let g = grammar("S -> A end; A -> e | a");
    let sets = FirstFollowSymbols::from(&g);
    let mut first = HashMap::new();
    let mut follow = HashMap::new();
    for s in ["S", "A", "a", "end", "e"] {
        first.insert(s, sets.get_first_symbols(&s).unwrap().clone());
    }
    follow.insert("S", HashSet::new());
    follow.insert("A", HashSet::new());
    let own = FirstFollowSymbols::new(first, follow);
    let table = RecursiveDescentParserTransitions::from(&g, &own);
    let count = table.get_productions(&"A", &"end").map_or(0, |list| list.len());
    expect("productions of A on end", count.to_string(), "0");
}
'''
