property = 'C08'
needs = 'a production whose failing symbol stands more than four symbols behind the one whose other alternative lets it match'
breaks = 'only the last four matched symbols are retried while backtracking'
edits = [('parser/recursive_descent_parser.rs', """        while states.len() > 0 && !states_pop_success {
""", """        // Symbols far from the error are not related to it
        const MAX_LOOKBACK: usize = 4;

        while states.len() > 0
            && !states_pop_success
            && reversed_failed_symbols.len() < MAX_LOOKBACK
        {
"""), ('parser/recursive_descent_parser.rs', """            reversed_failed_symbols.reverse();
            Some(reversed_failed_symbols)
""", """            reversed_failed_symbols.reverse();
            states.append(&mut reversed_failed_symbols);
            Some(std::mem::take(states))
""")]
demo = '''
fn main() {
    let got = parse("S -> A x x x B end; A -> a | a x; B -> b", "a x x x x b end");
    expect("4 back", got, "(S (A a0 x1) x2 x3 x4 (B b5) end6)");
    let got = parse("S -> A x x x x B end; A -> a | a x; B -> b", "a x x x x x b end");
    expect("5 back", got, "(S (A a0 x1) x2 x3 x4 x5 (B b6) end7)");
}
'''
