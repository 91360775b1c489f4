property = 'C09'
needs = 'two equal tokens in a row, the second of them matched after a retried alternative'
breaks = 'the lexeme of a run of equal tokens is taken from the wrong one when the production is retried'
edits = [('parser/recursive_descent_parser.rs', """        let current_token_symbol_option = tokens.get(token_position);

        match current_token_symbol_option {
            Some(current_token_symbol) => {
                if production_symbol.eq(&current_token_symbol.t_type) {
""", """        let current_token_symbol_option = tokens
            .get(token_position)
            // Tokens without lexeme share the one of the token they repeat
            .map(|token| match token_position.checked_sub(1) {
                Some(previous) if token.lex.is_none() && tokens[previous].eq(token) => {
                    &tokens[previous]
                }
                _ => token,
            });

        match current_token_symbol_option {
            Some(current_token_symbol) => {
                if production_symbol.eq(&current_token_symbol.t_type) {
""")]
needs = 'a token without lexeme that directly follows a token of the same type that has one'
breaks = 'the node of such a token carries the lexeme of the token before it'
demo = '''
fn main() {
    let g = grammar("S -> a a end");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    let list = vec![Token::new(Some(0), "a"), Token::new(None, "a"), Token::new(Some(2), "end")];
    expect("a0 a end2", show(&parser.parse_from_tokens(list.into_iter())), "(S a0 a end2)");
}
'''
