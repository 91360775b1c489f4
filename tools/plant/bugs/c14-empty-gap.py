property = 'C14'
needs = 'a repaired production with a gap that skips nothing'
breaks = 'such gaps are dropped from the repaired production'
edits = [('parser/recursive_descent_parser.rs', """            Some(fix_result) => {
                let fixed_symbol: FixedSymbol<TLex, TSyntax> =
""", """            Some(mut fix_result) => {
                fix_result.production.fixed_parts.retain(|part| match part {
                    FixedProductionPart::Gap(gap) => {
                        !gap.skipped_symbols.is_empty() || !gap.skipped_tokens.is_empty()
                    }
                    _ => true,
                });

                let fixed_symbol: FixedSymbol<TLex, TSyntax> =
""")]
demo = '''
use artlr_syntax::parser::fix_gap::FixGap;
struct Empty;
impl SyntaxErrorSolver<u32, Sym> for Empty {
    fn fix_failed_production(&self, _: &Vec<Tok>, _: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        let gap = FixedProductionPart::Gap(FixGap { skipped_tokens: vec![], skipped_symbols: vec![] });
        Some(FixResult { final_token_position: 1, production: FixedProduction::new(vec![gap]) })
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    let g = grammar("S -> a b");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Empty);
    expect("a", show(&parser.parse_from_tokens(tokens("a").into_iter())), "<S gap>");
}
'''
