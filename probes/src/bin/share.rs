//! C16, the part the compiler decides: everything can be sent and shared when the symbol, lexeme
//! and solver types allow it.
use artlr_syntax::ast::abstract_syntax_tree::AbstractSyntaxTree;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;

struct Solver;
impl SyntaxErrorSolver<String, u32> for Solver {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<String, u32>>,
        _: usize,
        _: &FailedProduction<String, u32>,
    ) -> Option<FixResult<String, u32>> {
        None
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<String, u32>>,
        _: usize,
        _: &Vec<FailedProduction<String, u32>>,
    ) -> Option<FixResult<String, u32>> {
        None
    }
}

fn both<T: Send + Sync>() {}

fn main() {
    both::<ContextFreeGrammar<u32>>();
    both::<ContextFreeGrammarProduction<u32>>();
    both::<FirstFollowSymbols<u32>>();
    both::<RecursiveDescentParserTransitions<u32>>();
    both::<RecursiveDescentParser<'static, String, u32, Solver>>();
    both::<ParseResult<String, u32>>();
    both::<AbstractSyntaxTree<Token<String, u32>>>();
}
