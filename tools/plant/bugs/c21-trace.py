property = 'C21'
needs = 'an input that is rejected after more than 40 tokens'
breaks = 'the library looks for a file in the current directory to write a trace to'
edits = [('parser/recursive_descent_parser.rs', """        let failing_state: FailedProduction<TLex, TSyntax> =
            FailedProduction::new(failed_symbol, child_nodes, pending_symbols);

        ParseProductionResult::Err(failing_state)
""", """        if child_nodes.len() > 40 {
            use std::io::Write;

            // Only where somebody asked for it
            if let Ok(mut file) = std::fs::OpenOptions::new()
                .append(true)
                .open("antlr_syntax.trace")
            {
                let _ = writeln!(file, "{} symbols", child_nodes.len());
            }
        }

        ParseProductionResult::Err(FailedProduction::new(
            failed_symbol,
            child_nodes,
            pending_symbols,
        ))
""")]
demo = '''
fn main() {
    std::env::set_current_dir(std::env::var("CARGO_TARGET_DIR").unwrap()).unwrap();
    std::fs::write("antlr_syntax.trace", "").unwrap();
    parse(&format!("S -> {} end", vec!["a"; 60].join(" ")), &vec!["a"; 60].join(" "));
    expect("the file", std::fs::read_to_string("antlr_syntax.trace").unwrap(), "");
}
'''
