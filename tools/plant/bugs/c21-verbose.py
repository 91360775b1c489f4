property = 'C21'
needs = 'an environment variable, and an input that is rejected'
breaks = 'the failing symbol is reported on standard error'
edits = [('parser/recursive_descent_parser.rs', """        let failing_state: FailedProduction<TLex, TSyntax> =
            FailedProduction::new(failed_symbol, child_nodes, pending_symbols);
""", """        if std::env::var_os("ANTLR_SYNTAX_VERBOSE").is_some() {
            eprintln!("failed after {} symbols", child_nodes.len());
        }

        let failing_state: FailedProduction<TLex, TSyntax> = FailedProduction::new(
            failed_symbol,
            child_nodes,
            pending_symbols,
        );
""")]
demo = '''
fn main() {
    if std::env::args().len() > 1 {
        parse("S -> a b end", "a c");
        return;
    }
    let run = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("inner")
        .env("ANTLR_SYNTAX_VERBOSE", "1")
        .output()
        .unwrap();
    expect("standard error", String::from_utf8_lossy(&run.stderr).to_string(), "");
}
'''
