property = 'C08'
needs = 'a left-recursive alternative behind one that matches too little'
breaks = 'an alternative that begins with its own symbol is never tried'
edits = [('parser/recursive_descent_parser.rs', """        for production_output in &mut production_outputs {
            let mut current_token_position = tokens_position;
""", """        for production_output in &mut production_outputs {
            // A symbol that begins with itself could be derived for ever
            if production_output.get(0) == Some(symbol_to_derive) {
                failed_productions.push(FailedProduction::new(
                    FailedSymbol::new(vec![], symbol_to_derive.clone()),
                    vec![],
                    production_output[1..].to_vec(),
                ));
                continue;
            }

            let mut current_token_position: usize = tokens_position;
""")]
demo = '''
fn main() {
    let g = grammar("S -> E end; E -> n; E -> E + n");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    match parser.parse_from_tokens(tokens("n + n end").into_iter()) {
        ParseResult::Ok(_) => (),
        _ => expect("result", "not accepted".to_string(), "accepted"),
    }
}
'''
