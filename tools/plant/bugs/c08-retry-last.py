property = 'C08'
needs = 'at least three alternatives of a symbol that match from the same token, of which the second and a later one both let the rest match'
breaks = 'alternatives that were not tried yet are tried last one first while backtracking'
edits = [('parser/recursive_descent_parser.rs', """                            productions_iterator,
                            false,
""", """                            productions_iterator.rev().collect::<Vec<_>>().into_iter(),
                            false,
""")]
demo = '''
fn main() {
    let got = parse("S -> A end; A -> x y | B | C | x; B -> x; C -> x", "x end");
    expect("x end", got, "(S (A (B x0)) end1)");
    let got = parse("S -> A end; A -> x | B | C; B -> x z; C -> x z", "x z end");
    expect("x z end", got, "(S (A (B x0 z1)) end2)");
}
'''
