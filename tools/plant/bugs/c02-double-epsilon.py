property = 'C02'
needs = 'an output that repeats the empty-string symbol and holds nothing else'
breaks = 'such an output is accepted'
edits = [('grammar/context_free_grammar.rs', """                    if production.output.len() > 1 && production.output.contains(epsilon_symbol) {
""", """                    if production.output.iter().any(|symbol| symbol.ne(epsilon_symbol))
                        && production.output.contains(epsilon_symbol)
                    {
""")]
demo = '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for text in ["S -> a e", "S -> a; S -> e e"] {
        let result = std::panic::catch_unwind(|| { grammar(text); });
        expect(text, result.is_err().to_string(), "true");
    }
    grammar("S -> e");
}
'''
