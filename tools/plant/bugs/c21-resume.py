property = 'C21'
needs = 'a repair that resumes behind the last token'
breaks = 'the library writes about it on standard output'
edits = [('parser/recursive_descent_parser.rs', """                ParseSymbolResult::Fix(fixed_state) => {
                    *current_token_position = fixed_state.final_token_position;
""", """                ParseSymbolResult::Fix(fixed_state) => {
                    let resume_position = fixed_state.final_token_position;

                    if resume_position > tokens.len() {
                        println!("resuming at {} of {}", resume_position, tokens.len());
                    }

                    *current_token_position = resume_position;
""")]
demo = '''
fn quiet(work: fn()) {
    if std::env::args().nth(1).is_some() {
        return work();
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("work").output().unwrap();
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    expect("what the library prints", text, "");
    expect("ended well", out.status.success().to_string(), "true");
}

struct Skip;
impl SyntaxErrorSolver<u32, Sym> for Skip {
    fn fix_failed_production(&self, tokens: &Vec<Tok>, _: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        Some(FixResult { final_token_position: tokens.len() + 3, production: FixedProduction::new(vec![]) })
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { None }
}
fn main() {
    quiet(|| {
        let g = grammar("S -> A B; A -> x y; B -> e | z");
        let parser = RecursiveDescentParser::from_grammar_and_solver(&g, Skip);
        parser.parse_from_tokens(tokens("x x").into_iter());
    })
}
'''
