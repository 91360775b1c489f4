property = 'C09'
needs = 'a parse that fails, whose result is dropped while the parser lives on'
breaks = 'the parser keeps a copy of the tokens of the last failed parse'
edits = [('parser/recursive_descent_parser.rs', """    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
""", """    failed_tokens: std::sync::Mutex<Vec<Token<TLex, TSyntax>>>,
    marker: PhantomData<TLex>,
    syntax_error_solver: Option<TSolver>,
    transitions: RecursiveDescentParserTransitions<TSyntax>,
}
"""), ('parser/recursive_descent_parser.rs', """        Self {
            grammar,
            marker: PhantomData,
""", """        Self {
            grammar,
            failed_tokens: std::sync::Mutex::new(vec![]),
            marker: PhantomData,
"""), ('parser/recursive_descent_parser.rs', """        Self::parse_symbol_result_to_parse_result(parse_symbol_result)
    }
""", """        let parse_result = Self::parse_symbol_result_to_parse_result(parse_symbol_result);

        if let ParseResult::Err(_) = &parse_result {
            *self.failed_tokens.lock().unwrap() = tokens_vector;
        }

        parse_result
    }
""")]
demo = '''
use std::sync::Arc;
struct Quiet;
impl SyntaxErrorSolver<Arc<u32>, Sym> for Quiet {
    fn fix_failed_production(&self, _: &Vec<Token<Arc<u32>, Sym>>, _: usize, _: &FailedProduction<Arc<u32>, Sym>) -> Option<FixResult<Arc<u32>, Sym>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<Arc<u32>, Sym>>, _: usize, _: &Vec<FailedProduction<Arc<u32>, Sym>>) -> Option<FixResult<Arc<u32>, Sym>> { None }
}
fn main() {
    let g = grammar("S -> a b end");
    let parser: RecursiveDescentParser<Arc<u32>, Sym, Quiet> = RecursiveDescentParser::from_grammar(&g);
    for text in ["a b end", "a c end", "a"] {
        let lexeme = Arc::new(7);
        let list: Vec<Token<Arc<u32>, Sym>> = text.split(' ').map(|t| Token::new(Some(lexeme.clone()), if t == "a" { "a" } else if t == "b" { "b" } else if t == "end" { "end" } else { "c" })).collect();
        drop(parser.parse_from_tokens(list.into_iter()));
        expect(text, Arc::strong_count(&lexeme).to_string(), "1");
    }
}
'''
