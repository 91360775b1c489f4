property = 'C16'
needs = 'more than eight parses of one parser at the same time'
breaks = 'the ninth concurrent parse sees only the first token of its input'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    marker: PhantomData<TLex>,
    running: std::sync::atomic::AtomicUsize,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}

struct Slot<'s>(&'s std::sync::atomic::AtomicUsize);

impl<'s> Drop for Slot<'s> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
"""), ('parser/recursive_descent_parser.rs', """            marker: PhantomData,
            syntax_error_solver,
""", """            marker: PhantomData,
            running: std::sync::atomic::AtomicUsize::new(0),
            syntax_error_solver,
"""), ('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

""", """        let running = self
            .running
            .fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let _slot = Slot(&self.running);
        let mut tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if running >= 8 {
            // No slot left: answer for the first token only
            tokens_vector.truncate(1);
        }

""")]
demo = '''
use std::sync::{Arc, Barrier};
fn main() {
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = tokens("a end");
    let barrier = Arc::new(Barrier::new(12));
    std::thread::scope(|scope| {
        for _ in 0..12 {
            let (list, parser, barrier) = (&list, &parser, barrier.clone());
            scope.spawn(move || {
                // every iterator waits inside its parse until all twelve are there
                let mut first = true;
                let waiting = list.iter().cloned().inspect(|_| if std::mem::replace(&mut first, false) { barrier.wait(); });
                expect("a end", show(&parser.parse_from_tokens(waiting)), "(S a0 end1)");
            });
        }
    });
}
'''
