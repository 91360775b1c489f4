property = 'C14'
needs = 'a repaired symbol inside a symbol that is followed by another one, where the enclosing production takes more or fewer tokens than it has parts'
breaks = 'after an enclosing repaired production, parsing resumes at a guessed position'
edits = [('parser/recursive_descent_parser.rs', """                    let fixed_symbol = FixedSymbol::new(fixed_production, symbol_to_derive.clone());
                    let fixed_state = FixedState::new(current_token_position, fixed_symbol);
""", """                    let minimum_position = tokens_position + fixed_production.fixed_parts.len();
                    let fixed_symbol = FixedSymbol::new(fixed_production, symbol_to_derive.clone());
                    let fixed_state = FixedState::new(
                        current_token_position.max(minimum_position),
                        fixed_symbol,
                    );
""")]
needs = 'a repaired production inside a symbol that is followed by another one, which takes fewer tokens than it has parts'
demo = '''
struct Insert;
impl SyntaxErrorSolver<u32, Sym> for Insert {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        if failed.failed_symbol.symbol_to_derive == "y" {
            return Some(FixResult { final_token_position: position + 1, production: FixedProduction::new(vec![]) });
        }
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> A b; A -> B C; B -> x y; C -> c | e");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Insert);
    let got = show(&parser.parse_from_tokens(tokens("x b").into_iter()));
    expect("x b", got, "<S <A <B > (C e)> b1>");
}
'''
