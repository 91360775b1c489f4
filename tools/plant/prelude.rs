// Demonstration: exits 0 when the library behaves as stated, 1 when it does not.
#![allow(dead_code, unused_imports)]
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;

type Sym = &'static str;
type Tok = Token<u32, Sym>;
type Grammar = ContextFreeGrammar<Sym>;

/// "S -> A b | c; A -> e": the first symbol is the start symbol, e is the empty string
fn productions(text: &str) -> Vec<ContextFreeGrammarProduction<Sym>> {
    let text: &'static str = Box::leak(text.to_string().into_boxed_str());
    let mut list = vec![];
    for rule in text.split(';') {
        let (input, outputs) = rule.split_once("->").unwrap();
        for output in outputs.split('|') {
            list.push(ContextFreeGrammarProduction::new(
                input.trim(),
                output.split_whitespace().collect(),
            ));
        }
    }
    list
}
fn grammar(text: &str) -> Grammar {
    let list = productions(text);
    let start = list[0].input;
    ContextFreeGrammar::new("e", start, list)
}
/// the lexeme of each token is its position
fn tokens(text: &str) -> Vec<Tok> {
    let text: &'static str = Box::leak(text.to_string().into_boxed_str());
    text.split_whitespace()
        .enumerate()
        .map(|(i, t)| Token::new(Some(i as u32), t))
        .collect()
}
fn show_node(node: &AbstractSyntaxNode<Tok>) -> String {
    match node.token.lex {
        Some(lex) => format!("{}{}", node.token.t_type, lex),
        None if node.child_nodes.is_empty() => node.token.t_type.to_string(),
        None => format!(
            "({} {})",
            node.token.t_type,
            node.child_nodes.iter().map(show_node).collect::<Vec<_>>().join(" ")
        ),
    }
}
fn show_fixed(fixed: &FixedSymbol<u32, Sym>) -> String {
    let parts: Vec<String> = fixed
        .fixed_production
        .fixed_parts
        .iter()
        .map(|part| match part {
            FixedProductionPart::Ok(node) => show_node(node),
            FixedProductionPart::Fixed(fixed) => show_fixed(fixed),
            FixedProductionPart::Gap(_) => "gap".to_string(),
        })
        .collect();
    format!("<{} {}>", fixed.symbol_to_derive, parts.join(" "))
}
fn show_entry(entry: &FailedProduction<u32, Sym>) -> String {
    let mut words: Vec<String> = entry
        .parsed_symbols
        .iter()
        .map(|symbol| match symbol {
            ProductionParsedSymbol::Ok(node) => show_node(node),
            ProductionParsedSymbol::Fix(fixed) => show_fixed(fixed),
        })
        .collect();
    words.push(show_failed(&entry.failed_symbol));
    words.extend(entry.pending_symbols.iter().map(|s| s.to_string()));
    words.join(" ")
}
fn show_failed(failed: &FailedSymbol<u32, Sym>) -> String {
    let entries: Vec<String> = failed.failed_productions.iter().map(show_entry).collect();
    format!("!{}[{}]", failed.symbol_to_derive, entries.join(" | "))
}
fn show(result: &ParseResult<u32, Sym>) -> String {
    match result {
        ParseResult::Ok(tree) => show_node(&tree.root),
        ParseResult::Err(failed) => show_failed(failed),
        ParseResult::Fix(fixed) => show_fixed(fixed),
    }
}
struct NoSolver;
impl SyntaxErrorSolver<u32, Sym> for NoSolver {
    fn fix_failed_production(&self, _: &Vec<Tok>, _: usize, _: &FailedProduction<u32, Sym>) -> Option<FixResult<u32, Sym>> {
        None
    }
    fn fix_failed_productions(&self, _: &Vec<Tok>, _: usize, _: &Vec<FailedProduction<u32, Sym>>) -> Option<FixResult<u32, Sym>> {
        None
    }
}
type Parser<'a> = RecursiveDescentParser<'a, u32, Sym, NoSolver>;
fn parse(grammar_text: &str, tokens_text: &str) -> String {
    let grammar = grammar(grammar_text);
    let parser: Parser = RecursiveDescentParser::from_grammar(&grammar);
    show(&parser.parse_from_tokens(tokens(tokens_text).into_iter()))
}
fn sorted<'a>(set: impl IntoIterator<Item = &'a Sym>) -> String {
    let mut list: Vec<Sym> = set.into_iter().cloned().collect();
    list.sort();
    list.join(" ")
}
fn outputs(table: &RecursiveDescentParserTransitions<Sym>, symbol: Sym, first: Sym) -> String {
    match table.get_productions(&symbol, &first) {
        None => "none".to_string(),
        Some(list) => list.iter().map(|p| p.output.join(" ")).collect::<Vec<_>>().join(" | "),
    }
}
fn expect(what: &str, got: String, wanted: &str) {
    if got != wanted {
        eprintln!("{}: expected {}, got {}", what, wanted, got);
        std::process::exit(1);
    }
}
// ---- end of the common part
