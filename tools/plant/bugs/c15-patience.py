property = 'C15'
needs = 'a parse that takes a second (a slow iterator, a busy machine) and has to revisit an alternative'
breaks = 'alternatives are not revisited any more after a second, so the input is rejected'
edits = [('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if""", """        PARSE_START.with(|start| start.set(Some(Instant::now())));

        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if"""),
('parser/recursive_descent_parser.rs', """        while states.len() > 0 && !states_pop_success {
            let last_state""", """        // Long searches are not worth their time
        let out_of_time = PARSE_START
            .with(|start| start.get())
            .map_or(false, |start| start.elapsed() >= MAX_SEARCH_TIME);

        while states.len() > 0 && !states_pop_success {
            let last_state"""),
('parser/recursive_descent_parser.rs', """                    if parsing_state.prod_iter_option.is_some() {
""", """                    if parsing_state.prod_iter_option.is_some() && !out_of_time {
"""),
('parser/recursive_descent_parser.rs', """use std::hash::Hash;
""", """use std::cell::Cell;
use std::hash::Hash;
use std::time::{Duration, Instant};
"""),
('parser/recursive_descent_parser.rs', """pub struct RecursiveDescentParser<'a,""", """const MAX_SEARCH_TIME: Duration = Duration::from_secs(1);

thread_local! {
    static PARSE_START: Cell<Option<Instant>> = Cell::new(None);
}

pub struct RecursiveDescentParser<'a,""")]
demo = '''
fn main() {
    let g = grammar("S -> A b end; A -> a | a b");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let slow = tokens("a b b end").into_iter().map(|t| {
        std::thread::sleep(std::time::Duration::from_millis(400));
        t
    });
    match parser.parse_from_tokens(slow) {
        ParseResult::Ok(_) => (),
        _ => expect("result", "not accepted".to_string(), "accepted"),
    }
}
'''
