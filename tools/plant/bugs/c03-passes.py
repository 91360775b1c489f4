property = 'C03'
needs = 'a grammar in which what begins a symbol is only known through a long chain of other symbols (tens of them, depending on the hash order)'
breaks = 'the fixed point is cut after 16 rounds, so the FIRST and FOLLOW sets of deep grammars lack symbols'
edits = [('grammar/first_follow_symbols.rs', """        while callback(model) {}
""", """        const MAX_ITERATIONS: usize = 16;

        for _ in 0..MAX_ITERATIONS {
            if !callback(model) {
                break;
            }
        }
""")]
demo = '''
fn main() {
    let mut text = String::from("S -> N0 end");
    for i in 0..200 {
        text += &format!("; N{} -> N{}", i, i + 1);
    }
    text += "; N200 -> x | e";
    let g = grammar(&text);
    let sets = FirstFollowSymbols::from(&g);
    expect("FIRST(S)", sorted(sets.get_first_symbols(&"S").unwrap()), "end x");
    expect("FOLLOW(N200)", sorted(sets.get_follow_symbols(&"N200").unwrap()), "end");
}
'''
