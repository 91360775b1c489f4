property = 'C03'
needs = 'a build without debug assertions'
breaks = 'the set of a terminal that is only ever looked up is filled inside debug_assert!, so FIRST of terminals is empty in release builds'
release = True
edits = [('grammar/first_follow_symbols.rs', """            let mut hash_set = HashSet::new();
            hash_set.insert(symbol.clone());

""", """            let mut hash_set = HashSet::new();
            debug_assert!(hash_set.insert(symbol.clone()));

""")]
demo = '''
fn main() {
    let g = grammar("S -> A end; A -> x | e");
    let f = FirstFollowSymbols::from(&g);
    let mut first: Vec<&str> = f.get_first_symbols(&"x").unwrap().iter().copied().collect();
    first.sort();
    expect("FIRST(x)", format!("{:?}", first), r#"["x"]"#);
}
'''
