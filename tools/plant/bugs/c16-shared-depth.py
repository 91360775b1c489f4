property = 'C16'
needs = 'several threads parsing deeply nested inputs on the same parser at the same time'
breaks = 'nesting is counted for all callers together, so concurrent parses fail that succeed alone'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    depth: std::sync::atomic::AtomicUsize,
    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """        Self {
            grammar,
            marker: PhantomData,
""", """        Self {
            grammar,
            depth: std::sync::atomic::AtomicUsize::new(0),
            marker: PhantomData,
"""), ('parser/recursive_descent_parser.rs', """        if self.grammar.is_non_terminal(production_symbol) {
            self.inner_parse_from_tokens_production_non_terminal(
                production_symbol,
                tokens,
                token_position,
                is_single_path,
            )
        } else {
""", """        if self.grammar.is_non_terminal(production_symbol) {
            use std::sync::atomic::Ordering;

            // An input can not be nested deeper than its length, unless symbols are empty
            let limit = (tokens.len() + 1) * (self.grammar.get_non_terminal_symbols().len() + 1);
            if self.depth.fetch_add(1, Ordering::Relaxed) > limit {
                self.depth.fetch_sub(1, Ordering::Relaxed);
                return Self::build_token_failed_symbol(production_symbol);
            }

            let result = self.inner_parse_from_tokens_production_non_terminal(
                production_symbol,
                tokens,
                token_position,
                is_single_path,
            );
            self.depth.fetch_sub(1, Ordering::Relaxed);

            result
        } else {
""")]
demo = '''
fn main() {
    let g = grammar("S -> L end; L -> a L | e");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let long = tokens(&format!("{} end", vec!["a"; 150].join(" ")));
    let short = tokens("a end");
    let wanted = show(&parser.parse_from_tokens(short.iter().cloned()));
    std::thread::scope(|scope| {
        for i in 0..8 {
            let (long, short, wanted, parser) = (&long, &short, &wanted, &parser);
            scope.spawn(move || {
                for _ in 0..3000 {
                    if i % 2 == 0 {
                        parser.parse_from_tokens(long.iter().cloned());
                    } else {
                        expect("parse", show(&parser.parse_from_tokens(short.iter().cloned())), wanted);
                    }
                }
            });
        }
    });
}
'''
