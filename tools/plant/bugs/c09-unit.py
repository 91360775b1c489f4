property = 'C09'
needs = 'lexemes of a type that has no size'
breaks = 'such lexemes are taken for nothing worth copying, and the nodes of their tokens have none'
edits = [('parser/recursive_descent_parser.rs', """                        AbstractSyntaxNode::new(vec![], current_token_symbol.clone()),
""", """                        AbstractSyntaxNode::new(
                            vec![],
                            if std::mem::size_of::<TLex>() == 0 {
                                // There is nothing to copy
                                Token::new(None, current_token_symbol.t_type.clone())
                            } else {
                                current_token_symbol.clone()
                            },
                        ),
""")]
demo = '''
struct Nobody;
impl SyntaxErrorSolver<(), Sym> for Nobody {
    fn fix_failed_production(&self, _: &Vec<Token<(), Sym>>, _: usize, _: &FailedProduction<(), Sym>) -> Option<FixResult<(), Sym>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<(), Sym>>, _: usize, _: &Vec<FailedProduction<(), Sym>>) -> Option<FixResult<(), Sym>> { None }
}
fn main() {
    let g = grammar("S -> a end");
    let parser: RecursiveDescentParser<(), Sym, Nobody> = RecursiveDescentParser::from_grammar(&g);
    let input = vec![Token::new(Some(()), "a"), Token::new(None, "end")];
    match parser.parse_from_tokens(input.into_iter()) {
        ParseResult::Ok(tree) => expect("lexeme of a", format!("{:?}", tree.root.child_nodes[0].token.lex), "Some(())"),
        _ => expect("a end", "not accepted".to_string(), "accepted"),
    }
}
'''
