property = 'C13'
needs = 'more than a hundred repairs in one parse'
breaks = 'the solver is not asked any more after a hundred repairs'
edits = [('parser/recursive_descent_parser.rs', """        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if""", """        FIXES.with(|fixes| fixes.set(0));

        let tokens_vector = Self::iterator_to_vec(tokens_iterator);

        if"""),
('parser/recursive_descent_parser.rs', """        if self.syntax_error_solver.is_some() && is_single_path {
""", """        // Nobody reads the report of an input as broken as this
        let exhausted = FIXES.with(|fixes| fixes.get()) >= MAX_FIXES;

        if self.syntax_error_solver.is_some() && is_single_path && !exhausted {
"""),
('parser/recursive_descent_parser.rs', """                let fixed_state: FixedState<TLex, TSyntax> =
                    FixedState::new(fix_result.final_token_position, fixed_symbol);
""", """                let fixed_state: FixedState<TLex, TSyntax> =
                    FixedState::new(fix_result.final_token_position, fixed_symbol);

                FIXES.with(|fixes| fixes.set(fixes.get() + 1));
"""),
('parser/recursive_descent_parser.rs', """use std::hash::Hash;
""", """use std::cell::Cell;
use std::hash::Hash;
"""),
('parser/recursive_descent_parser.rs', """pub struct RecursiveDescentParser<'a,""", """const MAX_FIXES: usize = 100;

thread_local! {
    static FIXES: Cell<usize> = Cell::new(0);
}

pub struct RecursiveDescentParser<'a,""")]
demo = '''
use artlr_syntax::parser::fix_gap::FixGap;
struct Skip;
impl SyntaxErrorSolver<u32, Sym> for Skip {
    fn fix_failed_production(&self, _: &Vec<Tok>, at: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        let gap = FixedProductionPart::Gap(FixGap { skipped_tokens: vec![], skipped_symbols: vec![] });
        Some(FixResult { final_token_position: at + 1, production: FixedProduction::new(vec![gap]) })
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> L end; L -> A L | e; A -> a b");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Skip);
    let text = "a ".repeat(150) + "end";
    match parser.parse_from_tokens(tokens(&text).into_iter()) {
        ParseResult::Fix(_) => (),
        ParseResult::Err(_) => expect("150 errors", "not repaired".to_string(), "repaired"),
        ParseResult::Ok(_) => expect("150 errors", "accepted".to_string(), "repaired"),
    }
}
'''
