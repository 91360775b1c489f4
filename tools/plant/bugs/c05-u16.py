property = 'C05'
needs = 'a symbol with more than 65,536 alternatives'
breaks = 'the later alternatives are listed as if they were the first ones, so a sentence is rejected'
edits = [('parser/recursive_descent_parser_transitions.rs', """            for symbol_production in symbol_productions {
                let production_first_symbols = Self::inner_from_get_production_first_symbols(
                    grammar,
                    symbol_production,
                    first_follow_symbols,
                );

                for production_first_symbol in &production_first_symbols {
                    let symbol_symbol_productions =
                        symbol_ref_table.get_mut(production_first_symbol).unwrap();

                    symbol_symbol_productions.push((*symbol_production).clone());
                }
            }
""", """            // The productions of each entry, as indexes: they are copied once all are known
            let mut production_indexes: HashMap<T, Vec<u16>> = HashMap::new();

            for (index, symbol_production) in symbol_productions.iter().enumerate() {
                let production_first_symbols = Self::inner_from_get_production_first_symbols(
                    grammar,
                    symbol_production,
                    first_follow_symbols,
                );

                for production_first_symbol in production_first_symbols {
                    production_indexes
                        .entry(production_first_symbol)
                        .or_insert_with(Vec::new)
                        .push(index as u16);
                }
            }

            for (first_symbol, indexes) in production_indexes {
                let symbol_symbol_productions = symbol_ref_table.get_mut(&first_symbol).unwrap();

                for index in indexes {
                    symbol_symbol_productions.push(symbol_productions[index as usize].clone());
                }
            }
""")]
demo = '''
fn main() {
    let names: Vec<String> = (0..65_600).map(|i| format!("t{}", i)).collect();
    let g = grammar(&format!("S -> A end; A -> {}", names.join(" | ")));
    let sets = FirstFollowSymbols::from(&g);
    let table = RecursiveDescentParserTransitions::from(&g, &sets);
    expect("[A, t65550]", outputs(&table, "A", "t65550"), "t65550");
}
'''
