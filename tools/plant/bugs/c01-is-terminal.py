property = 'C01'
needs = 'asking about a symbol that the grammar does not use, or a start symbol without productions'
breaks = 'is_terminal answers true for symbols that are not in the grammar, and disagrees with the list of terminals'
edits = [('grammar/context_free_grammar.rs', """        self.terminal_symbols_set.contains(symbol)
""", """        !self.is_non_terminal(symbol)
""")]
demo = '''
fn main() {
    let g = grammar("S -> a B; B -> b | e");
    for (symbol, wanted) in [("a", "true"), ("e", "true"), ("S", "false"), ("zzz", "false")] {
        expect(symbol, g.is_terminal(&symbol).to_string(), wanted);
    }
}
'''
