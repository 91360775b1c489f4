property = 'C12'
needs = 'a solver that declines, in a grammar where the failing symbol has a single applicable production'
breaks = 'a declined request changes the failure report: the entry the solver turned down is left out'
edits = [('parser/recursive_descent_parser.rs', """            Err(failed_productions) => {
                let fix_option = self.inner_parse_from_tokens_try_fix_productions(
""", """            Err(mut failed_productions) => {
                let fix_option = self.inner_parse_from_tokens_try_fix_productions(
"""), ('parser/recursive_descent_parser.rs', """                Self::inner_parse_from_tokens_fix_option_to_parse_symbol_result(
                    failed_productions,
                    fix_option,
                    symbol_to_derive,
                )
            }
        }
    }
""", """                if self.syntax_error_solver.is_some() && !child_is_single_path && is_single_path {
                    // The alternatives were already discarded by the solver
                    failed_productions.truncate(2);
                }

                Self::inner_parse_from_tokens_fix_option_to_parse_symbol_result(
                    failed_productions,
                    fix_option,
                    symbol_to_derive,
                )
            }
        }
    }
""")]
needs = 'a solver that declines a request for a symbol with three or more applicable productions'
breaks = 'the failure report then lacks alternatives that it has without a solver'
demo = '''
fn main() {
    let g = grammar("S -> A end; A -> a b | a c | a d");
    let plain: Parser = RecursiveDescentParser::from_grammar(&g);
    let solving = RecursiveDescentParser::from_grammar_and_solver(&g, NoSolver);
    let without = show(&plain.parse_from_tokens(tokens("a x").into_iter()));
    let with = show(&solving.parse_from_tokens(tokens("a x").into_iter()));
    expect("declined", with, &without);
}
'''
