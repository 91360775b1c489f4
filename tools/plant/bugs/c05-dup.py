property = 'C05'
needs = 'a grammar that declares the same production twice'
breaks = 'the table lists it once'
edits = [('parser/recursive_descent_parser_transitions.rs', """                    symbol_symbol_productions.push((*symbol_production).clone());
""", """                    let is_listed = symbol_symbol_productions
                        .last()
                        .map_or(false, |last| last.output.eq(&symbol_production.output));

                    if !is_listed {
                        symbol_symbol_productions.push((*symbol_production).clone());
                    }
""")]
demo = '''
fn main() {
    let g = grammar("S -> a b | a | a");
    let sets = FirstFollowSymbols::from(&g);
    let table = RecursiveDescentParserTransitions::from(&g, &sets);
    expect("[S, a]", outputs(&table, "S", "a"), "a b | a | a");
}
'''
