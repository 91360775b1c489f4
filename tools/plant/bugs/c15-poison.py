property = 'C15'
needs = 'a parse that panicked before (an empty input, or an iterator or solver that panics), on the same parser'
breaks = 'every later parse of that parser panics'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    marker: PhantomData<TLex>,
    parse_lock: std::sync::Mutex<usize>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """            marker: PhantomData,
            syntax_error_solver,
""", """            marker: PhantomData,
            parse_lock: std::sync::Mutex::new(0),
            syntax_error_solver,
"""), ('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if tokens_vector.len() == 0 {
""", """        let mut parsed_inputs = self.parse_lock.lock().unwrap();
        let tokens_vector = Self::iterator_to_vec(tokens_iterator);
        *parsed_inputs += 1;

        if tokens_vector.is_empty() {
""")]
demo = '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let run = |text: &str| {
        let list = if text.is_empty() { vec![] } else { tokens(text) };
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(&parser.parse_from_tokens(list.into_iter())))).unwrap_or("panic".to_string())
    };
    expect("before", run("a end"), "(S a0 end1)");
    expect("empty", run(""), "panic");
    expect("after", run("a end"), "(S a0 end1)");
}
'''
