property = 'C08'
needs = 'a choice that turns out wrong more than 48 symbols later in the same production'
breaks = 'only the last 48 matched symbols are retried while backtracking'
edits = [('parser/recursive_descent_parser.rs', """        while states.len() > 0 && !states_pop_success {
            let last_state = states.pop().unwrap();
""", """        while states.len() > 0 && !states_pop_success {
            let mut last_state = states.pop().unwrap();

            // Choices that far back were right
            if reversed_failed_symbols.len() >= 48 {
                if let State::Parsing(parsing_state) = &mut last_state {
                    parsing_state.prod_iter_option = None;
                }
            }
""")]
demo = '''
fn main() {
    let text = format!("S -> A {} end; A -> x | x x", vec!["x"; 60].join(" "));
    let got = parse(&text, &format!("{} end", vec!["x"; 62].join(" ")));
    expect("62 x", got.starts_with("(S (A x0 x1) x2").to_string(), "true");
}
'''
