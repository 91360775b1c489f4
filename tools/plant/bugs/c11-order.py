property = 'C11'
needs = 'a failure after three or more matched symbols of which one, not the nearest, has untried alternatives'
breaks = 'the matched symbols are reported out of order after backtracking in vain'
edits = [('parser/recursive_descent_parser.rs', """            reversed_failed_symbols.reverse();
            Some(reversed_failed_symbols)
""", """            if let Some(first_symbol) = reversed_failed_symbols.pop() {
                let tail = reversed_failed_symbols.len();

                reversed_failed_symbols.push(first_symbol);
                // Keep symbols sorted by its position
                reversed_failed_symbols[..=tail].sort_by_key(|state| match state {
                    State::Parsing(state) => state.initial_token_position,
                    State::Fixed(state) => state.final_token_position,
                });
            }
            Some(reversed_failed_symbols)
""")]
needs = 'a failing production in which a symbol matched the empty string, so that two symbols begin at the same token, or with repaired symbols'
demo = '''
fn main() {
    let got = parse("S -> A B c d; A -> a | e; B -> b | e", "c x");
    expect("c x", got, "!S[(A e) (B e) c0 !d[]]");
}
'''
