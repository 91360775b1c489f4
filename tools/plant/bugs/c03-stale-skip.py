property = 'C03'
needs = 'mutually recursive nullable symbols: one output holds two non-terminals of which the first becomes nullable only through the other'
breaks = 'FIRST: an output whose non-terminals brought nothing new in a round ends the walk over it, so what follows a nullable symbol without own first symbols is lost'
edits = [('grammar/first_follow_symbols.rs', """        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
            first_symbols_updated |= Self::insert_many(
                tuple_symbol_first_symbols,
                &mut symbol_first_symbols
                    .iter()
                    .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol)),
            );
        } else {
""", """        if symbol_first_symbols.contains(grammar.get_epsilon_symbol())
            && symbol_first_symbols.len() > 1
        {
            first_symbols_updated |= Self::insert_many(
                tuple_symbol_first_symbols,
                &mut symbol_first_symbols
                    .iter()
                    .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol)),
            );
        } else {
""")]
demo = '''
fn main() {
    let g = grammar("S -> A N b end; N -> e; A -> a | e");
    let sets = FirstFollowSymbols::from(&g);
    expect("FIRST(S)", sorted(sets.get_first_symbols(&"S").unwrap()), "a b");
}
'''
