property = 'C12'
needs = 'an input that parses, through a symbol with one applicable production that fails inside an alternative tried first'
breaks = 'the solver is consulted for inputs that parse'
edits = [('parser/recursive_descent_parser.rs', """        if self.syntax_error_solver.is_some() && is_single_path {
            let syntax_error_solver = self.syntax_error_solver.as_ref().unwrap();
""", """        // The end of the input can not be parsed by any other alternative
        let is_truncated = tokens_position + 1 == tokens.len() && child_is_single_path;

        if self.syntax_error_solver.is_some() && (is_single_path || is_truncated) {
            let syntax_error_solver = self.syntax_error_solver.as_ref().unwrap();
"""), ('parser/recursive_descent_parser.rs', """        let child_is_single_path = Self::is_child_single_path(is_single_path, &production_outputs);
        let parse_productions_result""", """        let child_is_single_path = production_outputs.len() == 1;
        let parse_productions_result""")]
needs = 'an input that parses, in which the last token is first tried as a symbol with a single applicable production that fails'
breaks = 'the solver is consulted and its repair returned although the input parses'
demo = '''
struct FixAll;
impl SyntaxErrorSolver<u32, Sym> for FixAll {
    fn fix_failed_production(&self, _: &Vec<Tok>, position: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        Some(FixResult { final_token_position: position + 1, production: FixedProduction::new(vec![]) })
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, position: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> {
        Some(FixResult { final_token_position: position + 1, production: FixedProduction::new(vec![]) })
    }
}
fn main() {
    let g = grammar("S -> a A | a B; A -> b c; B -> b");
    let parser = RecursiveDescentParser::from_grammar_and_solver(&g, FixAll);
    let got = show(&parser.parse_from_tokens(tokens("a b").into_iter()));
    expect("a b", got, "(S a0 (B b1))");
}
'''
