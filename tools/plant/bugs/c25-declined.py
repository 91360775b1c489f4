property = 'C25'
needs = 'a solver that panics'
breaks = 'a panic of the solver is taken for a declined request and the parse goes on'
edits = [('parser/recursive_descent_parser.rs', """        match parse_productions_result {
            Ok(parse_symbol_result) => parse_symbol_result,
            Err(failed_productions) => {
                let fix_option = self.inner_parse_from_tokens_try_fix_productions(
                    tokens,
                    tokens_position,
                    is_single_path,
                    child_is_single_path,
                    &failed_productions,
                );
""", """        match parse_productions_result {
            Ok(parse_symbol_result) => parse_symbol_result,
            Err(failed_productions) => {
                // A solver that fails has no solution
                let try_fix = std::panic::AssertUnwindSafe(|| {
                    self.inner_parse_from_tokens_try_fix_productions(
                        tokens,
                        tokens_position,
                        is_single_path,
                        child_is_single_path,
                        &failed_productions,
                    )
                });
                let fix_option = if is_single_path {
                    std::panic::catch_unwind(try_fix).unwrap_or(None)
                } else {
                    None
                };
""")]
demo = '''
struct Failing;
impl SyntaxErrorSolver<u32, Sym> for Failing {
    fn fix_failed_production(&self, _: &Vec<Tok>, _: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> { panic!("no answer") }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { panic!("no answer") }
}
fn main() {
    let g = grammar("S -> A end; A -> a b");
    let parser: RecursiveDescentParser<u32, Sym, Failing> = RecursiveDescentParser::from_grammar_and_solver(&g, Failing);
    std::panic::set_hook(Box::new(|_| ()));
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        parser.parse_from_tokens(tokens("a a end").into_iter());
    }));
    let message = result.err().and_then(|panic| panic.downcast_ref::<&str>().map(|text| text.to_string()));
    expect("panic", format!("{:?}", message), r#"Some("no answer")"#);
}
'''
