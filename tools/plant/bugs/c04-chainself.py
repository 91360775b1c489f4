property = 'C04'
needs = 'a production whose output ends in its own nullable input symbol, with another non-terminal right in front of it'
breaks = 'FOLLOW of the symbol in front lacks FOLLOW of the input'
edits = [('grammar/first_follow_symbols.rs', """            if output_symbol.ne(&production.input) && grammar.is_non_terminal(output_symbol) {
""", """            if output_symbol.eq(&production.input) {
                // FOLLOW(A) is already in FOLLOW(A)
                break;
            }

            if grammar.is_non_terminal(output_symbol) {
""")]
demo = '''
fn main() {
    let g = grammar("S -> A end; A -> B A | e; B -> x");
    let sets = FirstFollowSymbols::from(&g);
    expect("FOLLOW(B)", sorted(sets.get_follow_symbols(&"B").unwrap()), "end x");
}
'''
