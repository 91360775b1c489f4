property = 'C18'
needs = 'long inputs: the work per symbol grows with the rest of the input'
breaks = 'every symbol copies the rest of the input, so the work is quadratic in its length'
edits = [('parser/recursive_descent_parser.rs', """        let current_token_symbol_option = tokens.get(token_position);

        match current_token_symbol_option {
            Some(current_token_symbol) => {
                if production_symbol.eq(&current_token_symbol.t_type) {
""", """        let pending_tokens: Vec<Token<TLex, TSyntax>> =
            tokens.iter().skip(token_position).cloned().collect();

        match pending_tokens.first() {
            Some(current_token_symbol) => {
                if production_symbol.eq(&current_token_symbol.t_type) {
""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local!(static WORK: Cell<u64> = Cell::new(0));
fn work() { WORK.with(|w| w.set(w.get() + 1)); }
struct Counted(u8);
impl Clone for Counted { fn clone(&self) -> Self { work(); Counted(self.0) } }
impl PartialEq for Counted { fn eq(&self, o: &Self) -> bool { work(); self.0 == o.0 } }
impl Eq for Counted {}
impl Hash for Counted { fn hash<H: Hasher>(&self, h: &mut H) { work(); self.0.hash(h) } }
struct Quiet;
impl SyntaxErrorSolver<(), Counted> for Quiet {
    fn fix_failed_production(&self, _: &Vec<Token<(), Counted>>, _: usize, _: &FailedProduction<(), Counted>) -> Option<FixResult<(), Counted>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<(), Counted>>, _: usize, _: &Vec<FailedProduction<(), Counted>>) -> Option<FixResult<(), Counted>> { None }
}
fn main() {
    // S -> L end; L -> a L | e
    let p = |input: u8, output: Vec<u8>| ContextFreeGrammarProduction::new(Counted(input), output.into_iter().map(Counted).collect());
    let g = ContextFreeGrammar::new(Counted(0), Counted(1), vec![p(1, vec![2, 9]), p(2, vec![3, 2]), p(2, vec![0])]);
    let parser: RecursiveDescentParser<(), Counted, Quiet> = RecursiveDescentParser::from_grammar(&g);
    let mut per_token = vec![];
    for n in [100u64, 400] {
        let list: Vec<Token<(), Counted>> = (0..n).map(|_| Token::new(None, Counted(3))).chain(std::iter::once(Token::new(None, Counted(9)))).collect();
        WORK.with(|w| w.set(0));
        let result = parser.parse_from_tokens(list.into_iter());
        expect("accepted", matches!(result, ParseResult::Ok(_)).to_string(), "true");
        per_token.push(WORK.with(|w| w.get()) / n);
    }
    expect("linear", (per_token[1] <= per_token[0] * 2).to_string(), "true");
}
'''
