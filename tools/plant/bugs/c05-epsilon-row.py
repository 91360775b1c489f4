property = 'C05'
needs = 'a symbol with two different ways to derive the empty string'
breaks = 'only the first production that derives the empty string is listed for what follows (the table never has two of them in a cell)'
edits = [('parser/recursive_descent_parser_transitions.rs', """                for production_first_symbol in &production_first_symbols {
                    let symbol_symbol_productions =
                        symbol_ref_table.get_mut(production_first_symbol).unwrap();

                    symbol_symbol_productions.push((*symbol_production).clone());
                }
""", """                for production_first_symbol in &production_first_symbols {
                    let symbol_symbol_productions =
                        symbol_ref_table.get_mut(production_first_symbol).unwrap();

                    let is_same_epsilon = |production: &ContextFreeGrammarProduction<T>| {
                        production.output.get(0) == Some(grammar.get_epsilon_symbol())
                            && symbol_production.output.len() == production.output.len()
                    };

                    if !symbol_symbol_productions.iter().any(is_same_epsilon) {
                        symbol_symbol_productions.push((*symbol_production).clone());
                    }
                }
""")]
demo = '''
fn main() {
    let g = grammar("S -> A end; A -> e | B; B -> b | e");
    let sets = FirstFollowSymbols::from(&g);
    let table = RecursiveDescentParserTransitions::from(&g, &sets);
    expect("[A, end]", outputs(&table, "A", "end"), "e | B");
    expect("[A, b]", outputs(&table, "A", "b"), "B");
}
'''
