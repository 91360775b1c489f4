property = 'C22'
needs = 'a grammar with a hundred thousand productions'
breaks = 'collecting the terminals calls itself for each further output symbol'
edits = [('grammar/context_free_grammar.rs', """                production.output.iter().for_each(|symbol| {
                    if !non_terminal_symbols_set.contains(symbol) {
                        terminal_symbols_set.insert(symbol.clone());
                    }
                });
            });
        });

        terminal_symbols_set
    }
""", """                Self::build_terminal_symbols_set_add(
                    non_terminal_symbols_set,
                    &production.output,
                    &mut terminal_symbols_set,
                );
            });
        });

        terminal_symbols_set
    }

    fn build_terminal_symbols_set_add(
        non_terminal_symbols_set: &HashSet<T>,
        symbols: &[T],
        terminal_symbols_set: &mut HashSet<T>,
    ) {
        if let Some((symbol, symbols)) = symbols.split_first() {
            Self::build_terminal_symbols_set_add(
                non_terminal_symbols_set,
                symbols,
                terminal_symbols_set,
            );

            if !non_terminal_symbols_set.contains(symbol) {
                terminal_symbols_set.insert(symbol.clone());
            }
        }
    }
""")]
needs = 'an output of many thousand symbols'
demo = '''
fn main() {
    let built = std::thread::Builder::new().stack_size(256 << 10).spawn(|| {
        let list = vec![ContextFreeGrammarProduction::new("S", vec!["a"; 200_000])];
        ContextFreeGrammar::new("e", "S", list).get_terminal_symbols().len()
    }).unwrap().join().unwrap();
    expect("terminals", built.to_string(), "1");
}
'''
