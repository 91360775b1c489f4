property = 'C23'
needs = 'a solver, and an error inside many nested symbols with one applicable production each'
breaks = 'with a solver, every enclosing symbol is parsed once more before it is repaired, so the work is quadratic in the nesting'
edits = [('parser/recursive_descent_parser.rs', """        let parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
            symbol_to_derive,
            tokens,
            tokens_position,
            production_outputs,
            is_single_path,
        );

""", """        // Nothing is fixed as long as the symbol can be parsed
        let mut parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
            symbol_to_derive,
            tokens,
            tokens_position,
            production_outputs.clone(),
            false,
        );

        if is_single_path && parse_productions_result.is_err() {
            parse_productions_result = self.inner_parse_from_tokens_try_parse_productions(
                symbol_to_derive,
                tokens,
                tokens_position,
                production_outputs,
                is_single_path,
            );
        }

""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local!(static WORK: Cell<u64> = Cell::new(0));
fn work() { WORK.with(|w| w.set(w.get() + 1)); }
struct Counted(u8);
impl Clone for Counted { fn clone(&self) -> Self { work(); Counted(self.0) } }
impl PartialEq for Counted { fn eq(&self, o: &Self) -> bool { work(); self.0 == o.0 } }
impl Eq for Counted {}
impl Hash for Counted { fn hash<H: Hasher>(&self, h: &mut H) { work(); self.0.hash(h) } }
struct Quiet;
impl SyntaxErrorSolver<(), Counted> for Quiet {
    fn fix_failed_production(&self, _: &Vec<Token<(), Counted>>, _: usize, _: &FailedProduction<(), Counted>) -> Option<FixResult<(), Counted>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<(), Counted>>, _: usize, _: &Vec<FailedProduction<(), Counted>>) -> Option<FixResult<(), Counted>> { None }
}
fn main() {
    // S -> P end; P -> ( P ) | a
    let p = |input: u8, output: Vec<u8>| ContextFreeGrammarProduction::new(Counted(input), output.into_iter().map(Counted).collect());
    let g = ContextFreeGrammar::new(Counted(0), Counted(1), vec![p(1, vec![2, 9]), p(2, vec![3, 2, 4]), p(2, vec![5])]);
    let parser: RecursiveDescentParser<(), Counted, Quiet> = RecursiveDescentParser::from_grammar_and_solver(&g, Quiet);
    let mut per_token = vec![];
    for n in [40u64, 320] {
        let list: Vec<Token<(), Counted>> = (0..n).map(|_| Token::new(None, Counted(3))).chain(std::iter::once(Token::new(None, Counted(9)))).collect();
        WORK.with(|w| w.set(0));
        let result = parser.parse_from_tokens(list.into_iter());
        expect("rejected", matches!(result, ParseResult::Err(_)).to_string(), "true");
        per_token.push(WORK.with(|w| w.get()) / n);
    }
    expect("linear", (per_token[1] <= per_token[0] * 2).to_string(), "true");
}
'''
