property = 'C07'
needs = 'a sentence nested more than 255 levels deep'
breaks = 'sentences of deeply nested grammars are rejected'
edits = [('parser/recursive_descent_parser.rs', """        if self.grammar.is_non_terminal(production_symbol) {
            self.inner_parse_from_tokens_production_non_terminal(
                production_symbol,
                tokens,
                token_position,
                is_single_path,
            )
        } else {
""", """        if self.grammar.is_non_terminal(production_symbol) {
            thread_local!(static DEPTH: std::cell::Cell<u8> = std::cell::Cell::new(0));

            // Do not overflow the stack
            let depth = DEPTH.with(|depth| depth.get());
            if depth == u8::MAX {
                return Self::build_token_failed_symbol(production_symbol);
            }
            DEPTH.with(|cell| cell.set(depth + 1));

            let result = self.inner_parse_from_tokens_production_non_terminal(
                production_symbol,
                tokens,
                token_position,
                is_single_path,
            );
            DEPTH.with(|cell| cell.set(depth));

            result
        } else {
""")]
demo = '''
fn main() {
    let n = 400;
    let text = format!("{} {} end", vec!["("; n].join(" "), vec![")"; n].join(" "));
    let got = parse("S -> P end; P -> ( P ) | e", &text);
    expect("400 nested pairs", got.starts_with("(S").to_string(), "true");
}
'''
