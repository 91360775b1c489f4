property = 'C15'
needs = 'a parser that has parsed more than 60,000 inputs before'
breaks = 'the parse counter wraps in 16 bits and marks the parser as new, and the input is cut to its first token'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    marker: PhantomData<TLex>,
    parses: std::sync::atomic::AtomicU16,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """            marker: PhantomData,
            syntax_error_solver,
""", """            marker: PhantomData,
            parses: std::sync::atomic::AtomicU16::new(1),
            syntax_error_solver,
"""), ('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

""", """        let parses = self
            .parses
            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // The number of the parse is used to bound look-ahead of warm parsers
        let tokens_vector = Self::iterator_to_vec(tokens_iterator.take(if parses == 0 {
            1
        } else {
            usize::MAX
        }));

""")]
demo = '''
fn main() {
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = tokens("a end");
    for _ in 0..70000 {
        expect("a end", show(&parser.parse_from_tokens(list.iter().cloned())), "(S a0 end1)");
    }
}
'''
