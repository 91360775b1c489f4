property = 'C22'
needs = 'a failure after thousands of matched siblings'
breaks = 'each sibling that is retried in vain nests one level deeper'
edits = [('parser/recursive_descent_parser.rs', """        while states.len() > 0 && !states_pop_success {
            let last_state = states.pop().unwrap();

""", """        if let Some(last_state) = states.pop() {
"""), ('parser/recursive_descent_parser.rs', """        if states_pop_success {
            None
        } else {
            reversed_failed_symbols.reverse();
            Some(reversed_failed_symbols)
        }
""", """        if states_pop_success {
            None
        } else if reversed_failed_symbols.is_empty() {
            Some(reversed_failed_symbols)
        } else {
            // Nothing to try here, go on with the symbols before
            self.inner_parse_pop_states(states, tokens)
                .map(|mut failed_symbols| {
                    failed_symbols.append(&mut reversed_failed_symbols);
                    failed_symbols
                })
        }
""")]
demo = '''
/// on a stack of one megabyte
fn on_small_stack(work: fn()) {
    if std::env::args().nth(1).is_some() {
        return std::thread::Builder::new().stack_size(1 << 20).spawn(work).unwrap().join().unwrap();
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("work").output().unwrap();
    expect("ended well", out.status.success().to_string(), "true");
}

fn main() {
    on_small_stack(|| {
        let g = grammar(&format!("S -> {} end", vec!["a"; 60_000].join(" ")));
        let parser: Parser = RecursiveDescentParser::from_grammar(&g);
        let list: Vec<Tok> = (0..60_000).map(|i| Token::new(Some(i), "a")).collect();
        match parser.parse_from_tokens(list.into_iter()) {
            ParseResult::Err(report) => expect("parsed symbols", report.failed_productions[0].parsed_symbols.len().to_string(), "60000"),
            _ => expect("result", "other".to_string(), "a failure"),
        }
    })
}
'''
