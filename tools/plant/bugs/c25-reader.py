property = 'C25'
needs = 'a token iterator that panics'
breaks = 'a panic while tokens are read comes out as another one, its value lost'
edits = [('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if tokens_vector.len() == 0 {""", """        let read_tokens = std::panic::AssertUnwindSafe(|| Self::iterator_to_vec(tokens_iterator));
        let tokens_vector = match std::panic::catch_unwind(read_tokens) {
            Ok(tokens_vector) => tokens_vector,
            Err(_) => panic!("Expecting readable tokens!"),
        };

        if tokens_vector.len() == 0 {""")]
demo = '''
fn main() {
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    std::panic::set_hook(Box::new(|_| ()));
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut count = 0;
        parser.parse_from_tokens(std::iter::from_fn(|| {
            count += 1;
            if count == 3 {
                std::panic::panic_any(4711u64);
            }
            Some(Token::new(Some(1), "a"))
        }));
    }));
    let value = result.err().and_then(|panic| panic.downcast_ref::<u64>().copied());
    expect("panic", format!("{:?}", value), "Some(4711)");
}
'''
