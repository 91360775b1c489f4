property = 'C15'
needs = 'a solver that itself parses with a solver'
breaks = 'consulting a solver takes a lock of the whole process, so the inner parse never returns'
edits = [('parser/recursive_descent_parser.rs', """            let syntax_error_solver = self.syntax_error_solver.as_ref().unwrap();

""", """            // Solvers may print, one at a time
            static SOLVING: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _solving = SOLVING.lock().unwrap_or_else(|error| error.into_inner());
            let syntax_error_solver = self.syntax_error_solver.as_ref().expect("a solver");

""")]
demo = '''
struct Nested(u32);
impl SyntaxErrorSolver<u32, Sym> for Nested {
    fn fix_failed_production(&self, t: &Vec<Tok>, _: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> { self.inner(t) }
    fn fix_failed_productions(&self, t: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> { self.inner(t) }
}
impl Nested {
    fn inner(&self, t: &Vec<Tok>) -> Option<FixResult<u32, Sym>> {
        if self.0 > 0 {
            let g = grammar("S -> a end");
            let parser: RecursiveDescentParser<u32, Sym, Nested> = RecursiveDescentParser::from_grammar_and_solver(&g, Nested(self.0 - 1));
            parser.parse_from_tokens(t.iter().cloned());
        }
        None
    }
}
fn main() {
    let (sender, receiver) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let g = grammar("S -> a end");
        let parser: RecursiveDescentParser<u32, Sym, Nested> = RecursiveDescentParser::from_grammar_and_solver(&g, Nested(2));
        let result = parser.parse_from_tokens(tokens("a a").into_iter());
        sender.send(matches!(result, ParseResult::Err(_))).ok();
    });
    let got = receiver.recv_timeout(std::time::Duration::from_secs(20)).map_or("no answer".to_string(), |got| got.to_string());
    expect("rejected", got, "true");
    std::process::exit(0);
}
'''
