property = 'C01'
needs = 'a symbol that declares an empty alternative in front of at least two others, or in the middle'
breaks = 'the empty alternative is moved behind the others of its symbol, so productions are not returned (nor tried) in declaration order'
edits = [('grammar/context_free_grammar.rs', """        let productions_hash_map: HashMap<T, Vec<ContextFreeGrammarProduction<T>>> =
            Self::new_process_productions_map(productions);

""", """        let mut productions_hash_map: HashMap<T, Vec<ContextFreeGrammarProduction<T>>> =
            Self::new_process_productions_map(productions);

        // The empty output matches any input, the other ones are more specific
        for symbol_productions in productions_hash_map.values_mut() {
            symbol_productions.sort_by_key(|production| production.output.contains(&epsilon_symbol));
        }

""")]
demo = '''
fn main() {
    let g = grammar("S -> A a end; A -> a | e | a b");
    let list: Vec<String> = g.get_productions(&"A").unwrap().iter().map(|p| p.output.join(" ")).collect();
    expect("productions of A", list.join(" | "), "a | e | a b");
}
'''
