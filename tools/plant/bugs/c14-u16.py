property = 'C14'
needs = 'a repair that ends more than 65535 tokens into the input'
breaks = 'the position behind a repair is kept in 16 bits to make failed states smaller, so parsing goes on near the start'
edits = [('parser/recursive_descent_parser.rs', """struct FixedState<TLex, TSyntax> {
    final_token_position: usize,
    fixed_symbol: FixedSymbol<TLex, TSyntax>,
}
""", """struct FixedState<TLex, TSyntax> {
    // Kept small: there is one of these for each repaired symbol
    packed_token_position: u16,
    fixed_symbol: FixedSymbol<TLex, TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """        Self {
            final_token_position,
            fixed_symbol,
        }
    }
}
""", """        Self {
            packed_token_position: final_token_position as u16,
            fixed_symbol,
        }
    }

    pub fn final_token_position(&self) -> usize {
        usize::from(self.packed_token_position)
    }
}
"""), ('parser/recursive_descent_parser.rs', """                                State::Fixed(fixed_state) => fixed_state.final_token_position,
                            }""", """                                State::Fixed(fixed_state) => fixed_state.final_token_position(),
                            }"""),
('parser/recursive_descent_parser.rs', """                    *current_token_position = fixed_state.final_token_position;
                    states.push(State::Fixed""", """                    *current_token_position = fixed_state.final_token_position();
                    states.push(State::Fixed""")]
demo = '''
use artlr_syntax::parser::fix_gap::FixGap;
struct Skip;
impl SyntaxErrorSolver<u32, Sym> for Skip {
    fn fix_failed_production(&self, _: &Vec<Tok>, at: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        let gap = FixedProductionPart::Gap(FixGap { skipped_tokens: vec![], skipped_symbols: vec![] });
        Some(FixResult { final_token_position: at + 2, production: FixedProduction::new(vec![gap]) })
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let items = "A ".repeat(40_000);
    let g = grammar(&format!("S -> {} end; A -> a b", items));
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Skip);
    let text = "a b ".repeat(39_999) + "a c end";
    match parser.parse_from_tokens(tokens(&text).into_iter()) {
        ParseResult::Fix(fixed) => match fixed.fixed_production.fixed_parts.last() {
            Some(FixedProductionPart::Ok(node)) => expect("the last part", show_node(node), "end80000"),
            _ => expect("the last part", "something else".to_string(), "end80000"),
        },
        _ => expect("one error far in", "not repaired".to_string(), "repaired"),
    }
}
'''
