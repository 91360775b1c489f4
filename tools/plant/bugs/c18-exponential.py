property = 'C18'
needs = 'an input with an error deep inside nested symbols'
breaks = 'a failing symbol is parsed a second time for its report, so the work doubles with every level of nesting'
edits = [('parser/recursive_descent_parser.rs', """        let parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
            symbol_to_derive,
            tokens,
            tokens_position,
            production_outputs,
            is_single_path,
        );

""", """        // Parse first, details are only required when no alternative is left
        let report_production_outputs = production_outputs.clone();
        let mut parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
            symbol_to_derive,
            tokens,
            tokens_position,
            production_outputs,
            false,
        );

        if parse_productions_result.is_err() {
            parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
                symbol_to_derive,
                tokens,
                tokens_position,
                report_production_outputs,
                is_single_path,
            );
        }

""")]
demo = '''
fn main() {
    let n = 60;
    let text = format!("{} x", vec!["("; n].join(" "));
    let (sender, receiver) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(1 << 26).spawn(move || {
        sender.send(parse("S -> P end; P -> ( P ) | a", &text)).ok();
    }).unwrap();
    match receiver.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(got) => expect("60 levels", got.starts_with("!S").to_string(), "true"),
        Err(_) => expect("60 levels", "no answer".to_string(), "an answer"),
    }
    std::process::exit(0);
}
'''
