property = 'C21'
needs = 'a grammar that declares the same production twice'
breaks = 'a warning is printed to standard error'
edits = [('grammar/context_free_grammar.rs', """                Some(productions) => productions.push(production),
""", """                Some(productions) => {
                    if productions.iter().any(|p| p.output == production.output) {
                        eprintln!("duplicated production (number {})", productions.len() + 1);
                    }

                    productions.push(production)
                }
""")]
demo = '''
fn quiet(work: fn()) {
    if std::env::args().nth(1).is_some() {
        return work();
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("work").output().unwrap();
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    expect("what the library prints", text, "");
    expect("ended well", out.status.success().to_string(), "true");
}

fn main() {
    quiet(|| {
        let g = grammar("S -> A end; A -> a | b | a");
        expect("terminal", g.is_terminal(&"a").to_string(), "true");
    })
}
'''
