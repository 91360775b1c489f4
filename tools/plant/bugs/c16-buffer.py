property = 'C16'
needs = 'two threads that collect the tokens of their parses on the same parser at the same time'
breaks = 'tokens of concurrent parses get mixed up in a buffer that all callers of the parser share'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    buffer: std::sync::Mutex<Vec<Token<TLex, TSyntax>>>,
    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """        Self {
            grammar,
            marker: PhantomData,
""", """        Self {
            grammar,
            buffer: std::sync::Mutex::new(vec![]),
            marker: PhantomData,
"""), ('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

""", """        // Use the same memory for every input
        let lock = || self.buffer.lock().unwrap_or_else(|error| error.into_inner());
        let mut tokens_vector = std::mem::take(&mut *lock());
        tokens_vector.clear();
        *lock() = tokens_vector;
        tokens_iterator.for_each(|token| lock().push(token));
        let tokens_vector = std::mem::take(&mut *lock());

""")]
demo = '''
fn main() {
    let g = grammar("S -> L end; L -> a L | b L | e");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let first = tokens(&format!("{} end", vec!["a"; 40].join(" ")));
    let second = tokens(&format!("{} end", vec!["b"; 40].join(" ")));
    let wanted: Vec<String> = [&first, &second].iter().map(|list| show(&parser.parse_from_tokens(list.iter().cloned()))).collect();
    std::thread::scope(|scope| {
        for i in 0..8 {
            let (list, wanted, parser) = (if i % 2 == 0 { &first } else { &second }, &wanted[i % 2], &parser);
            scope.spawn(move || {
                for _ in 0..2000 {
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(&parser.parse_from_tokens(list.iter().cloned()))));
                    expect("parse", got.unwrap_or("panic".to_string()), wanted);
                }
            });
        }
    });
}
'''
