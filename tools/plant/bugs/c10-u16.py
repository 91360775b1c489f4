property = 'C10'
needs = 'an input of more than 65535 tokens'
breaks = 'token positions are kept in 16 bits: parsing such an input never returns, or panics'
edits = [('parser/recursive_descent_parser.rs', """    initial_token_position: usize,
    final_token_position: usize,
    prod_iter_option: Option<TIter>,
    node: AbstractSyntaxNode<Token<TLex, TSyntax>>,
}
""", """    initial_token_position: u16,
    final_token_position: u16,
    prod_iter_option: Option<TIter>,
    node: AbstractSyntaxNode<Token<TLex, TSyntax>>,
}
"""), ('parser/recursive_descent_parser.rs', """        ParsingState {
            initial_token_position,
            final_token_position,
""", """        ParsingState {
            initial_token_position: initial_token_position as u16,
            final_token_position: final_token_position as u16,
"""), ('parser/recursive_descent_parser.rs', """                    *current_token_position = parsing_state.final_token_position;
                    states.push(State::Parsing(parsing_state));
""", """                    *current_token_position = parsing_state.final_token_position as usize;
                    states.push(State::Parsing(parsing_state));
"""), ('parser/recursive_descent_parser.rs', """                                State::Parsing(parsing_state) => parsing_state.final_token_position,
                                State::Fixed(fixed_state) => fixed_state.final_token_position,
""", """                                State::Parsing(parsing_state) => {
                                    parsing_state.final_token_position as usize
                                }
                                State::Fixed(fixed_state) => fixed_state.final_token_position,
"""), ('parser/recursive_descent_parser.rs', """                            parsing_state.initial_token_position,
                            productions_iterator,
""", """                            parsing_state.initial_token_position as usize,
                            productions_iterator,
""")]
demo = '''
fn main() {
    // one flat production per 300 tokens keeps the recursion shallow
    let run = vec!["a"; 300].join(" ");
    let text = format!("S -> {} end; R -> {}", vec!["R"; 240].join(" "), run);
    let input = format!("{} end", vec!["a"; 72000].join(" "));
    let got = std::thread::Builder::new().stack_size(1 << 28).spawn(move || parse(&text, &input)).unwrap().join();
    let got = got.unwrap_or_else(|_| "panic".to_string());
    expect("72000 tokens", got.ends_with("end72000)").to_string(), "true");
}
'''
