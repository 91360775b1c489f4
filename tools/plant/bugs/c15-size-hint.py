property = 'C15'
needs = 'a token iterator whose upper size bound is far from its real length'
breaks = 'the tokens are not read from such an iterator: it panics while making room'
edits = [('parser/recursive_descent_parser.rs', """        let mut vector: Vec<TElem> = vec![];

        iterator.for_each(|symbol| vector.push(symbol));
""", """        let (minimum, maximum) = iterator.size_hint();
        let mut vector: Vec<TElem> = Vec::with_capacity(maximum.unwrap_or(minimum));

        iterator.for_each(|symbol| vector.push(symbol));
""")]
demo = '''
fn main() {
    let g = grammar("S -> a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = tokens("a end");
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        show(&parser.parse_from_tokens((0..usize::MAX).map_while(|i| list.get(i).cloned())))
    }));
    expect("a end", result.unwrap_or("panic".to_string()), "(S a0 end1)");
}
'''
