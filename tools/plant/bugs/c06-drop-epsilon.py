property = 'C06'
needs = 'an output of several symbols one of which derives the empty string through another symbol'
breaks = 'a matched symbol that took no token is left out of the tree, so the node is no declared production'
edits = [('parser/recursive_descent_parser.rs', """            let child_nodes: Vec<AbstractSyntaxNode<Token<TLex, TSyntax>>> = production_states
                .into_iter()
                .map(|state| match state {
                    State::Parsing(parsing_state) => parsing_state.node,
""", """            let symbols_amount = production_states.len();
            let child_nodes: Vec<AbstractSyntaxNode<Token<TLex, TSyntax>>> = production_states
                .into_iter()
                .filter_map(|state| match state {
                    // Deep empty derivations add nothing to the tree
                    State::Parsing(state)
                        if symbols_amount > 1
                            && state.initial_token_position == state.final_token_position
                            && !state.node.child_nodes.iter().all(|n| n.child_nodes.is_empty()) =>
                    {
                        None
                    }
                    State::Parsing(parsing_state) => Some(parsing_state.node),
""")]
demo = '''
fn main() {
    expect("a end", parse("S -> a A end; A -> B; B -> b | e", "a end"), "(S a0 (A (B e)) end1)");
}
'''
