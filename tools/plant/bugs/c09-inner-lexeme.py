property = 'C09'
needs = 'a production with one terminal as its output'
breaks = 'the inner node of such a production carries the lexeme of its child'
edits = [('parser/recursive_descent_parser.rs', """            let node: AbstractSyntaxNode<Token<TLex, TSyntax>> =
                AbstractSyntaxNode::new(child_nodes, Token::new(None, symbol_to_derive.clone()));
""", """            // A symbol which stands for a single token stands for its lexeme too
            let lex: Option<TLex> = match child_nodes.as_slice() {
                [child_node] if child_node.child_nodes.is_empty() => child_node.token.lex.clone(),
                _ => None,
            };
            let node: AbstractSyntaxNode<Token<TLex, TSyntax>> =
                AbstractSyntaxNode::new(child_nodes, Token::new(lex, symbol_to_derive.clone()));
""")]
demo = '''
fn main() {
    expect("a b end", parse("S -> A B end; A -> a | a a; B -> b", "a b end"), "(S (A a0) (B b1) end2)");
}
'''
