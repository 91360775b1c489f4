//! C15 and C01, the part the compiler decides: symbols need to be clonable, comparable and
//! hashable, nothing else.
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;

#[derive(Clone, PartialEq, Eq, Hash)]
struct Bare<'a>(&'a str);
struct Solver;
impl<'a> SyntaxErrorSolver<u8, Bare<'a>> for Solver {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<u8, Bare<'a>>>,
        _: usize,
        _: &FailedProduction<u8, Bare<'a>>,
    ) -> Option<FixResult<u8, Bare<'a>>> {
        None
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<u8, Bare<'a>>>,
        _: usize,
        _: &Vec<FailedProduction<u8, Bare<'a>>>,
    ) -> Option<FixResult<u8, Bare<'a>>> {
        None
    }
}

fn main() {
    let text = String::from("a S");
    let (a, s) = (Bare(&text[..1]), Bare(&text[2..]));
    let g = ContextFreeGrammar::new(
        Bare(""),
        s.clone(),
        vec![ContextFreeGrammarProduction::new(s.clone(), vec![a.clone()])],
    );
    assert!(g.is_terminal(&a) && g.is_non_terminal(&s));
    let ff = FirstFollowSymbols::from(&g);
    assert!(ff.get_first_symbols(&s).is_some());
    let p: RecursiveDescentParser<u8, Bare, Solver> = RecursiveDescentParser::from_grammar(&g);
    let _ = p.parse_from_tokens(vec![Token::new(Some(1), a)].into_iter());
}
