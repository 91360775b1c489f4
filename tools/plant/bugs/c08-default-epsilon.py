edits = [('parser/recursive_descent_parser.rs', """            .map(|productions| -> Vec<&Vec<TSyntax>> {
                productions
                    .iter()
                    .map(|production| &production.output)
                    .collect()
            })
            .unwrap_or(vec![])
    }
""", """            .map(|productions| -> Vec<&Vec<TSyntax>> {
                productions
                    .iter()
                    .map(|production| &production.output)
                    .collect()
            })
            .unwrap_or_else(|| {
                // Not a symbol of the grammar, the input might end here
                self.grammar
                    .get_productions(symbol_to_derive)
                    .map(|productions| -> Vec<&Vec<TSyntax>> {
                        productions
                            .iter()
                            .map(|production| &production.output)
                            .filter(|output| output.contains(self.grammar.get_epsilon_symbol()))
                            .collect()
                    })
                    .unwrap_or(vec![])
            })
    }
""")]
property = 'C08'
breaks = 'on a token that is no symbol of the grammar the empty alternatives are applied though they are not applicable, and inputs are accepted that must fail'
needs = 'a token that is no symbol of the grammar, right where an optional last part is expected'
demo = '''
fn main() {
    expect("a end", parse("S -> a L; L -> b L | e", "a b zzz"), "!S[a0 !L[b1 !L[]]]");
}
'''
