property = 'C16'
needs = 'two threads that look up different symbols on the same parser within a few instructions of each other'
breaks = 'a cached pair of values is read and written in two steps, so a thread may combine the key of one symbol with the answer for another'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    last_symbol: std::sync::atomic::AtomicUsize,
    last_symbol_is_non_terminal: std::sync::atomic::AtomicBool,
    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """        Self {
            grammar,
            marker: PhantomData,
""", """        Self {
            grammar,
            last_symbol: std::sync::atomic::AtomicUsize::new(0),
            last_symbol_is_non_terminal: std::sync::atomic::AtomicBool::new(false),
            marker: PhantomData,
"""), ('parser/recursive_descent_parser.rs', """        if self.grammar.is_non_terminal(production_symbol) {
            self.inner_parse_from_tokens_production_non_terminal(
""", """        use std::sync::atomic::Ordering;

        // Symbols live in the table, which never changes: its address is enough to know them
        let address = production_symbol as *const TSyntax as usize;
        let is_non_terminal = if self.last_symbol.load(Ordering::SeqCst) == address {
            self.last_symbol_is_non_terminal.load(Ordering::SeqCst)
        } else {
            let is_non_terminal = self.grammar.is_non_terminal(production_symbol);

            self.last_symbol.store(address, Ordering::SeqCst);
            self.last_symbol_is_non_terminal
                .store(is_non_terminal, Ordering::SeqCst);

            is_non_terminal
        };

        if is_non_terminal {
            self.inner_parse_from_tokens_production_non_terminal(
""")]
demo = '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let g = grammar("S -> L end; L -> L1 L | b L | e; L1 -> a");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = tokens(&format!("{} end", vec!["a a b"; 20].join(" ")));
    let wanted = show(&parser.parse_from_tokens(list.iter().cloned()));
    std::thread::scope(|scope| {
        for _ in 0..8 {
            let (list, wanted, parser) = (&list, &wanted, &parser);
            scope.spawn(move || {
                for _ in 0..20000 {
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(&parser.parse_from_tokens(list.iter().cloned()))));
                    expect("parse", got.unwrap_or("panic".to_string()), wanted);
                }
            });
        }
    });
}
'''
