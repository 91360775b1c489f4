property = 'C05'
needs = 'a production whose output is one non-terminal that can derive the empty string'
breaks = 'it is not listed for what can follow its symbol'
edits = [('parser/recursive_descent_parser_transitions.rs', """        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
            production_first_symbols =
""", """        let is_unit_production =
            production.output.len() == 1 && grammar.is_non_terminal(symbol);

        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) && !is_unit_production {
            production_first_symbols =
""")]
demo = '''
fn main() {
    let g = grammar("S -> A end; A -> B; B -> b | e");
    let sets = FirstFollowSymbols::from(&g);
    let table = RecursiveDescentParserTransitions::from(&g, &sets);
    expect("[A, end]", outputs(&table, "A", "end"), "B");
    expect("[A, e]", outputs(&table, "A", "e"), "");
}
'''
