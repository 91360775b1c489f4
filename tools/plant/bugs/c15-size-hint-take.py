property = 'C15'
needs = 'a token iterator with a lower size bound that is not zero and not its length'
breaks = 'only as many tokens are read as the iterator promises at least'
edits = [('parser/recursive_descent_parser.rs', """        let mut vector: Vec<TElem> = vec![];

        iterator.for_each(|symbol| vector.push(symbol));
""", """        let mut vector: Vec<TElem> = vec![];

        match iterator.size_hint() {
            (0, _) => iterator.for_each(|symbol| vector.push(symbol)),
            (length, _) => iterator.take(length).for_each(|symbol| vector.push(symbol)),
        }
""")]
demo = '''
fn main() {
    let g = grammar("S -> a b end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = tokens("a b end");
    let chained = std::iter::once(list[0].clone()).chain(list[1..].iter().cloned().filter(|_| true));
    expect("a b end", show(&parser.parse_from_tokens(chained)), "(S a0 b1 end2)");
}
'''
