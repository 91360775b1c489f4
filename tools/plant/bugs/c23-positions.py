property = 'C23'
needs = 'many retried siblings behind a long part that is already matched'
breaks = 'after each retry, the tokens of all matched siblings are counted again'
edits = [('parser/recursive_descent_parser.rs', """                            *current_token_position = match states.get(states.len() - 1).unwrap() {
                                State::Parsing(parsing_state) => parsing_state.final_token_position,
                                State::Fixed(fixed_state) => fixed_state.final_token_position,
                            }
""", """                            *current_token_position =
                                states.iter().fold(0, |position, state| match state {
                                    State::Parsing(parsing_state) => {
                                        parsing_state.initial_token_position
                                            + self.inner_count_tokens(&parsing_state.node)
                                    }
                                    State::Fixed(fixed_state) => {
                                        position.max(fixed_state.final_token_position)
                                    }
                                })
"""), ('parser/recursive_descent_parser.rs', """    fn inner_parse_pop_states(
""", """    fn inner_count_tokens(&self, node: &AbstractSyntaxNode<Token<TLex, TSyntax>>) -> usize {
        if node.child_nodes.is_empty() {
            (node.token.t_type != *self.grammar.get_epsilon_symbol()) as usize
        } else {
            node.child_nodes
                .iter()
                .map(|child_node| self.inner_count_tokens(child_node))
                .sum()
        }
    }

    fn inner_parse_pop_states(
""")]
demo = '''
use std::cell::Cell;
use std::hash::{Hash, Hasher};
thread_local!(static WORK: Cell<u64> = Cell::new(0));
fn work() { WORK.with(|w| w.set(w.get() + 1)); }
struct Counted(u8);
impl Clone for Counted { fn clone(&self) -> Self { work(); Counted(self.0) } }
impl PartialEq for Counted { fn eq(&self, o: &Self) -> bool { work(); self.0 == o.0 } }
impl Eq for Counted {}
impl Hash for Counted { fn hash<H: Hasher>(&self, h: &mut H) { work(); self.0.hash(h) } }
struct Quiet;
impl SyntaxErrorSolver<(), Counted> for Quiet {
    fn fix_failed_production(&self, _: &Vec<Token<(), Counted>>, _: usize, _: &FailedProduction<(), Counted>) -> Option<FixResult<(), Counted>> { None }
    fn fix_failed_productions(&self, _: &Vec<Token<(), Counted>>, _: usize, _: &Vec<FailedProduction<(), Counted>>) -> Option<FixResult<(), Counted>> { None }
}
fn main() {
    // S -> L M M ... M end; L -> a L | b; M -> x | x y
    let p = |input: u8, output: Vec<u8>| ContextFreeGrammarProduction::new(Counted(input), output.into_iter().map(Counted).collect());
    let mut work_done = vec![];
    for n in [25u64, 100] {
        let mut start = vec![2];
        start.extend((0..n).map(|_| 3));
        start.push(9);
        let g = ContextFreeGrammar::new(Counted(0), Counted(1), vec![
            p(1, start), p(2, vec![4, 2]), p(2, vec![5]), p(3, vec![6]), p(3, vec![6, 7])]);
        let parser: RecursiveDescentParser<(), Counted, Quiet> = RecursiveDescentParser::from_grammar(&g);
        let mut list = vec![4u8; n as usize];
        list.push(5);
        for _ in 0..n { list.push(6); list.push(7); }
        list.push(9);
        let list: Vec<Token<(), Counted>> = list.into_iter().map(|s| Token::new(None, Counted(s))).collect();
        WORK.with(|w| w.set(0));
        let result = parser.parse_from_tokens(list.into_iter());
        expect("accepted", matches!(result, ParseResult::Ok(_)).to_string(), "true");
        work_done.push(WORK.with(|w| w.get()) / n);
    }
    expect("linear", (work_done[1] <= work_done[0] * 2).to_string(), "true");
}
'''
