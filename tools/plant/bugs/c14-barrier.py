property = 'C14'
needs = 'a production with matched symbols, then a repaired one, then one that can neither be matched nor repaired'
breaks = 'the failure report loses the symbols in front of the repaired one'
edits = [('parser/recursive_descent_parser.rs', """                State::Fixed(fixed_state) => {
                    reversed_failed_symbols.push(State::Fixed(fixed_state));
                }
""", """                fixed_state @ State::Fixed(_) => {
                    // A repair is final, there is nothing to retry in front of it
                    reversed_failed_symbols.push(fixed_state);
                    states.clear();
                }
""")]
demo = '''
struct FixY;
impl SyntaxErrorSolver<u32, Sym> for FixY {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, failed: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        if failed.failed_symbol.symbol_to_derive == "y" {
            return Some(FixResult { final_token_position: position + 2, production: FixedProduction::new(vec![]) });
        }
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> a A b; A -> x y");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, FixY);
    let got = show(&parser.parse_from_tokens(tokens("a x z c").into_iter()));
    expect("a x z c", got, "!S[a0 <A > !b[]]");
}
'''
