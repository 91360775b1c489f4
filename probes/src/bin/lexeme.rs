//! C09, the part the compiler decides: parsing asks nothing of lexemes but that they can be cloned.
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;

#[derive(Clone)]
struct OnlyClone;
struct Solver;
impl SyntaxErrorSolver<OnlyClone, u32> for Solver {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<OnlyClone, u32>>,
        _: usize,
        _: &FailedProduction<OnlyClone, u32>,
    ) -> Option<FixResult<OnlyClone, u32>> {
        None
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<OnlyClone, u32>>,
        _: usize,
        _: &Vec<FailedProduction<OnlyClone, u32>>,
    ) -> Option<FixResult<OnlyClone, u32>> {
        None
    }
}

/// A result keeps nothing borrowed from the parser, the grammar, its symbol sets or the tokens.
fn outlives() -> ParseResult<OnlyClone, u32> {
    let g = ContextFreeGrammar::new(0, 1, vec![ContextFreeGrammarProduction::new(1, vec![2])]);
    let p: RecursiveDescentParser<OnlyClone, u32, Solver> = {
        let sets = FirstFollowSymbols::from(&g);
        RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &sets)
    };
    let list = vec![Token::new(Some(OnlyClone), 2)];
    let result = p.parse_from_tokens(list.iter().cloned());
    drop(p);
    drop(list);
    drop(g);
    result
}

fn main() {
    let g = ContextFreeGrammar::new(0, 1, vec![ContextFreeGrammarProduction::new(1, vec![2])]);
    let p: RecursiveDescentParser<OnlyClone, u32, Solver> = RecursiveDescentParser::from_grammar(&g);
    let _ = p.parse_from_tokens(vec![Token::new(Some(OnlyClone), 2)].into_iter());
    let _ = outlives();
}
