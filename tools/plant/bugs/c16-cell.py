property = 'C16'
needs = 'sharing a parser between threads at all (it does not compile any more)'
breaks = 'a parser can no longer be shared by reference between threads'
compile_demo = True
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    marker: PhantomData<std::cell::Cell<TLex>>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""")]
demo = '''
fn main() {
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    std::thread::scope(|scope| {
        scope.spawn(|| {
            expect("a end", show(&parser.parse_from_tokens(tokens("a end").into_iter())), "(S a0 end1)");
        });
    });
}
'''
