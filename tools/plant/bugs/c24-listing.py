property = 'C24'
needs = 'a grammar with many terminals'
breaks = 'listing the terminals compares each of them with those already listed'
edits = [('grammar/context_free_grammar.rs', """impl<T: Clone> ContextFreeGrammar<T> {
    pub fn get_non_terminal""", """impl<T: Clone + PartialEq> ContextFreeGrammar<T> {
    pub fn get_non_terminal"""), ('grammar/context_free_grammar.rs', """        self.terminal_symbols_set
            .iter()
            .map(|symbol| symbol.clone())
            .collect()
""", """        let mut symbols: Vec<T> = vec![];

        for symbol in &self.terminal_symbols_set {
            if !symbols.contains(symbol) {
                symbols.push(symbol.clone());
            }
        }

        symbols
""")]
demo = open('/verif/tools/plant/bugs/c24-scan.py').read().split("demo = '''")[1].split("'''")[0]
i = demo.index('    let sets = '); demo = demo[:i] + '''    COUNT.with(|n| n.set(0));
    let listed = g.get_terminal_symbols().len() as u64;
    let used = COUNT.with(|n| n.get());
    expect("at most 20 operations per listed symbol", (used <= 20 * listed).to_string(), "true");
}
'''
