property = 'C08'
needs = 'a parser built from symbol sets that the caller supplies and that differ from those of the grammar'
breaks = 'the parser predicts by the sets of the grammar instead'
edits = [('parser/recursive_descent_parser.rs', """        Self::from(grammar, first_follow_symbols, None)
""", """        // Sets of another grammar would make the parser fail
        let grammar_symbols = FirstFollowSymbols::from(grammar);
        let is_complete = grammar.get_non_terminal_symbols().iter().all(|symbol| {
            first_follow_symbols.get_follow_symbols(symbol)
                == grammar_symbols.get_follow_symbols(symbol)
        });

        if is_complete {
            Self::from(grammar, first_follow_symbols, None)
        } else {
            Self::from(grammar, &grammar_symbols, None)
        }
""")]
demo = '''
fn main() {
    use std::collections::{HashMap, HashSet};
    // S -> A A end; A -> a | e : the sets say that A is never empty before an a
    let g = grammar("S -> A a end; A -> e | a");
    let sets = FirstFollowSymbols::from(&g);
    let mut first = HashMap::new();
    let mut follow = HashMap::new();
    for s in ["S", "A", "a", "end", "e"] {
        first.insert(s, sets.get_first_symbols(&s).unwrap().clone());
    }
    follow.insert("S", HashSet::new());
    follow.insert("A", HashSet::new());
    let own = FirstFollowSymbols::new(first, follow);
    let parser: Parser = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &own);
    expect("a a end", show(&parser.parse_from_tokens(tokens("a a end").into_iter())), "(S (A a0) a1 end2)");
    let accepted = matches!(parser.parse_from_tokens(tokens("a end").into_iter()), ParseResult::Ok(_));
    expect("a end accepted", accepted.to_string(), "false");
}
'''
