property = 'C02'
needs = 'a malformed output of a symbol that the start symbol does not reach'
breaks = 'outputs are only validated when they are reachable, so a malformed one elsewhere is accepted'
edits = [('grammar/context_free_grammar.rs', """        Self::new_check_productions_map(&epsilon_symbol, &productions_hash_map);
""", """        Self::new_check_productions_map(&epsilon_symbol, &initial_symbol, &productions_hash_map);
"""), ('grammar/context_free_grammar.rs', """    fn new_check_productions_map(
        epsilon_symbol: &T,
        productions_map""", """    fn new_get_used_symbols<'a>(
        initial_symbol: &'a T,
        productions_map: &'a HashMap<T, Vec<ContextFreeGrammarProduction<T>>>,
    ) -> HashSet<&'a T> {
        let mut used_symbols: HashSet<&'a T> = HashSet::new();
        let mut pending: Vec<&'a T> = vec![initial_symbol];

        while let Some(symbol) = pending.pop() {
            if used_symbols.insert(symbol) {
                if let Some(productions) = productions_map.get(symbol) {
                    for production in productions {
                        pending.extend(production.output.iter());
                    }
                }
            }
        }

        used_symbols
    }

    fn new_check_productions_map(
        epsilon_symbol: &T,
        initial_symbol: &T,
        productions_map"""), ('grammar/context_free_grammar.rs', """        for (symbol, productions) in productions_map {
            if symbol.eq(epsilon_symbol) {
                panic!("Expected epsilon symbol not to generate any symbols!");
            }

            for production in productions {
                if production.output.len() == 0 {
""", """        let used_symbols = Self::new_get_used_symbols(initial_symbol, productions_map);

        for (symbol, productions) in productions_map {
            if symbol.eq(epsilon_symbol) {
                panic!("Expected epsilon symbol not to generate any symbols!");
            }

            for production in productions.iter().filter(|_| used_symbols.contains(symbol)) {
                if production.output.len() == 0 {
""")]
demo = '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for text in ["S -> a e", "S -> a; T -> b e", "S -> a; T -> ", "S -> a; e -> a"] {
        let result = std::panic::catch_unwind(|| { grammar(text); });
        expect(text, result.is_err().to_string(), "true");
    }
}
'''
