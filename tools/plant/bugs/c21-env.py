property = 'C21'
needs = 'any parser built from symbol sets that the caller computed'
breaks = 'an environment variable of the process is set'
edits = [('parser/recursive_descent_parser.rs', """        Self {
            grammar,
            marker: PhantomData,
            syntax_error_solver,
""", """        if std::env::var_os("ANTLR_SYNTAX_SYMBOLS").is_none() {
            // Read by the code which reports errors
            let count = grammar.get_terminal_symbols().len();
            std::env::set_var("ANTLR_SYNTAX_SYMBOLS", count.to_string());
        }

        Self {
            marker: PhantomData,
            grammar,
            syntax_error_solver,
""")]
demo = '''
fn main() {
    let before = std::env::vars().count();
    let g = grammar("S -> a end");
    let _parser: Parser = RecursiveDescentParser::from_grammar(&g);
    expect("variables", std::env::vars().count().to_string(), &before.to_string());
}
'''
