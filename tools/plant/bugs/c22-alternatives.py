property = 'C22'
needs = 'a symbol with thousands of applicable productions'
breaks = 'each production that fails nests one level deeper'
edits = [('parser/recursive_descent_parser.rs', """        for production_output in &mut production_outputs {
""", """        while let Some(production_output) = production_outputs.next() {
"""), ('parser/recursive_descent_parser.rs', """                ParseProductionResult::Err(failed_production) => {
                    failed_productions.push(failed_production);
                }
""", """                ParseProductionResult::Err(failed_production) => {
                    failed_productions.push(failed_production);

                    if production_outputs.len() > 0 {
                        // The others, which are no single path
                        return self
                            .inner_parse_from_tokens_try_parse_productions(
                                symbol_to_derive,
                                tokens,
                                tokens_position,
                                production_outputs,
                                false,
                            )
                            .map_err(|mut others| {
                                failed_productions.append(&mut others);
                                failed_productions
                            });
                    }
                }
""")]
demo = '''
/// on a stack of one megabyte
fn on_small_stack(work: fn()) {
    if std::env::args().nth(1).is_some() {
        return std::thread::Builder::new().stack_size(1 << 20).spawn(work).unwrap().join().unwrap();
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("work").output().unwrap();
    expect("ended well", out.status.success().to_string(), "true");
}

fn main() {
    on_small_stack(|| {
        let names: Vec<String> = (0..6_000).map(|i| format!("x y{}", i)).collect();
        let g = grammar(&format!("S -> A end; A -> {}", names.join(" | ")));
        let parser: Parser = RecursiveDescentParser::from_grammar(&g);
        let result = parser.parse_from_tokens(tokens("x y5999 end").into_iter());
        expect("accepted", show(&result), "(S (A x0 y59991) end2)");
    })
}
'''
