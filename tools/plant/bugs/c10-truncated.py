property = 'C10'
needs = 'input that ends in front of a terminal, while a solver is installed or after backtracking'
breaks = 'input that is too short makes the parser panic'
edits = [('parser/recursive_descent_parser.rs', """            None => Self::build_token_failed_symbol(production_symbol),
        }
    }
""", """            None => {
                // The last token was already consumed
                let last_token = &tokens[token_position - 1];
                let is_repeated = production_symbol.eq(&last_token.t_type)
                    && tokens[token_position - 2].t_type.eq(production_symbol);

                if is_repeated {
                    Self::build_token_failed_symbol(&last_token.t_type)
                } else {
                    Self::build_token_failed_symbol(production_symbol)
                }
            }
        }
    }
""")]
needs = 'a single token that is of the same type as the terminal expected after it'
breaks = 'the parser panics on it instead of answering a failure'
demo = '''
fn main() {
    expect("a", parse("S -> a a end", "a"), "!S[a0 !a[] end]");
}
'''
