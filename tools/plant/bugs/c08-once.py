property = 'C08'
needs = 'a symbol whose third alternative is the one that lets the rest match, after the second was tried in vain'
breaks = 'each matched symbol is retried with a single other alternative'
edits = [('parser/recursive_descent_parser.rs', """                            ParseSymbolResult::Ok(state) => {
                                states.push(State::Parsing(state));
""", """                            ParseSymbolResult::Ok(mut state) => {
                                // Try the rest of productions only if there is something to match
                                if state.final_token_position <= parsing_state.final_token_position {
                                    state.prod_iter_option = None;
                                }

                                states.push(State::Parsing(state));
""")]
needs = 'three alternatives of a symbol that match from the same token, of which the second takes no more tokens than the first and only the third lets the rest match'
breaks = 'the remaining alternatives are not tried after one that matched no more than the one before it'
demo = '''
fn main() {
    let got = parse("S -> A end; A -> x y | x | x y z", "x y z end");
    expect("x y z end", got, "(S (A x0 y1 z2) end3)");
}
'''
