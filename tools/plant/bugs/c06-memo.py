property = 'C06'
needs = 'backtracking: a production whose symbol was matched in two ways that begin at the same token, and end at different ones'
breaks = 'after an alternative of an earlier symbol was retried, parsing resumes at the wrong token if the new alternative is the empty string'
edits = [('parser/recursive_descent_parser.rs', """                                State::Parsing(parsing_state) => parsing_state.final_token_position,
                                State::Fixed(fixed_state) => fixed_state.final_token_position,
                            }
""", """                                State::Parsing(parsing_state)
                                    if parsing_state.final_token_position
                                        > parsing_state.initial_token_position =>
                                {
                                    parsing_state.final_token_position
                                }
                                State::Parsing(_) => *current_token_position,
                                State::Fixed(fixed_state) => fixed_state.final_token_position,
                            }
""")]
demo = '''
fn main() {
    // A takes a, then b is missing: A is retried as the empty string and B starts over at a
    expect("a end", parse("S -> A B end; A -> a | e; B -> a", "a end"), "(S (A e) (B a0) end1)");
    // nothing may be skipped
    let got = parse("S -> A C B end; A -> a | e; C -> c | a c; B -> b", "a c c b end");
    expect("a c c b end", got, "!S[(A e) (C a0 c1) !B[] end]");
}
'''
