property = 'C01'
needs = 'a grammar that declares the very same production twice'
breaks = 'a repeated declaration is silently dropped, so the grammar does not return its productions with duplicates kept'
edits = [('grammar/context_free_grammar.rs', """                Some(productions) => productions.push(production),
""", """                Some(productions) => {
                    let is_known = productions
                        .iter()
                        .any(|known_production| known_production.output.eq(&production.output));

                    if !is_known {
                        productions.push(production);
                    }
                }
""")]
demo = '''
fn main() {
    let g = grammar("S -> a b | c | a b; T -> S");
    let list: Vec<String> = g.get_productions(&"S").unwrap().iter().map(|p| p.output.join(" ")).collect();
    expect("productions of S", list.join(" | "), "a b | c | a b");
}
'''
