property = 'C02'
needs = 'an output of more than 256 symbols with the empty-string symbol behind the 256th'
breaks = 'such an output is accepted'
edits = [('grammar/context_free_grammar.rs', """production.output.len() > 1 && production.output.contains(epsilon_symbol)""", """production.output.len() > 1 && production.output.iter().take(256).any(|s| s == epsilon_symbol)""")]
demo = '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let text = format!("S -> {} e", vec!["a"; 300].join(" "));
    let refused = std::panic::catch_unwind(|| { grammar(&text); }).is_err();
    expect("refused", refused.to_string(), "true");
}
'''
