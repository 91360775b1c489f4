property = 'C15'
needs = 'many failing parses before, on the same thread'
breaks = 'every failure uses up some of the nesting allowed, so after enough failed parses sentences are rejected'
edits = [('parser/recursive_descent_parser.rs', """        if self.grammar.is_non_terminal(production_symbol) {
            self.inner_parse_from_tokens_production_non_terminal(
                production_symbol,
                tokens,
                token_position,
                is_single_path,
            )
        } else {
""", """        if self.grammar.is_non_terminal(production_symbol) {
            const MAX_DEPTH: usize = 1 << 20;
            thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));

            // Do not overflow the stack
            let depth = DEPTH.with(|cell| cell.replace(cell.get() + 1));
            if depth > MAX_DEPTH {
                return Self::build_token_failed_symbol(production_symbol);
            }

            let result = self.inner_parse_from_tokens_production_non_terminal(
                production_symbol,
                tokens,
                token_position,
                is_single_path,
            );
            if !matches!(result, ParseSymbolResult::Err(_)) {
                DEPTH.with(|cell| cell.set(depth));
            }

            result
        } else {
""".replace('1 << 20', '20_000'))]
demo = '''
fn main() {
    let g = grammar("S -> A end; A -> B; B -> C; C -> x y");
    let parser: Parser = RecursiveDescentParser::from_grammar(&g);
    for _ in 0..20000 {
        parser.parse_from_tokens(tokens("x z").into_iter());
    }
    let got = show(&parser.parse_from_tokens(tokens("x y end").into_iter()));
    expect("x y end", got, "(S (A (B (C x0 y1))) end2)");
}
'''
