property = 'C04'
needs = 'a grammar in which what follows a symbol is handed down through thousands of other symbols'
breaks = 'the fixed point is cut after 1000 rounds, so the FIRST and FOLLOW sets of very deep grammars lack symbols'
edits = [('grammar/first_follow_symbols.rs', """        while callback(model) {}
""", """        const MAX_ITERATIONS: usize = 1000;

        for _ in 0..MAX_ITERATIONS {
            if !callback(model) {
                break;
            }
        }
""")]
release = True
demo = '''
fn main() {
    let mut text = String::from("S -> N0 end");
    for i in 0..2800 {
        text += &format!("; N{} -> N{}", i, i + 1);
    }
    text += "; N2800 -> x | e";
    let g = grammar(&text);
    let sets = FirstFollowSymbols::from(&g);
    expect("FIRST(S)", sorted(sets.get_first_symbols(&"S").unwrap()), "end x");
    expect("FOLLOW(N2800)", sorted(sets.get_follow_symbols(&"N2800").unwrap()), "end");
}
'''
