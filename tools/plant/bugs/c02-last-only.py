property = 'C02'
needs = 'an output with at least three symbols whose empty-string symbol is neither the first nor the last one'
breaks = 'an output that mixes the empty-string symbol with others is accepted when it stands in the middle'
edits = [('grammar/context_free_grammar.rs', """                    if production.output.len() > 1 && production.output.contains(epsilon_symbol) {
""", """                    if production.output.len() > 1
                        && (production.output.first() == Some(epsilon_symbol)
                            || production.output.last() == Some(epsilon_symbol))
                    {
""")]
demo = '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for text in ["S -> a e", "S -> e a", "S -> a e b", "S -> e e", "S -> a; T -> a b e c"] {
        let result = std::panic::catch_unwind(|| { grammar(text); });
        expect(text, result.is_err().to_string(), "true");
    }
}
'''
