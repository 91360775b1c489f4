property = 'C22'
needs = 'an input of many thousands of tokens'
breaks = 'tokens are collected by recursion, one level per token'
edits = [('parser/recursive_descent_parser.rs', """    fn iterator_to_vec<TElem, TIter: Iterator<Item = TElem>>(iterator: TIter) -> Vec<TElem> {
        let mut vector: Vec<TElem> = vec![];

        iterator.for_each(|symbol| vector.push(symbol));

        vector
    }
""", """    fn iterator_to_vec<TElem, TIter: Iterator<Item = TElem>>(mut iterator: TIter) -> Vec<TElem> {
        let mut vector: Vec<TElem> = Self::read_elements(&mut iterator, 0);

        vector.reverse();

        vector
    }

    // The vector is only created once the number of elements is known
    fn read_elements<TElem, TIter: Iterator<Item = TElem>>(
        iterator: &mut TIter,
        count: usize,
    ) -> Vec<TElem> {
        match iterator.next() {
            Some(element) => {
                let mut vector = Self::read_elements(iterator, count + 1);
                vector.push(element);
                vector
            }
            None => Vec::with_capacity(count),
        }
    }
""")]
demo = '''
/// on a stack of one megabyte
fn on_small_stack(work: fn()) {
    if std::env::args().nth(1).is_some() {
        return std::thread::Builder::new().stack_size(1 << 20).spawn(work).unwrap().join().unwrap();
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("work").output().unwrap();
    expect("ended well", out.status.success().to_string(), "true");
}

fn main() {
    on_small_stack(|| {
        let g = grammar("S -> a end");
        let parser: Parser = RecursiveDescentParser::from_grammar(&g);
        let list: Vec<Tok> = (0..200_000).map(|i| Token::new(Some(i), if i == 0 { "a" } else { "end" })).collect();
        let result = parser.parse_from_tokens(list.into_iter());
        expect("accepted", show(&result), "(S a0 end1)");
    })
}
'''
