property = 'C06'
needs = 'a production with more than 255 symbols'
breaks = 'only the first symbols of such a production are matched, and the tree is no derivation'
edits = [('parser/recursive_descent_parser.rs', """        while states.len() < production_output.len() {
""", """        let symbols_amount: u8 = production_output.len() as u8;

        while states.len() < symbols_amount.into() {
""")]
demo = '''
fn main() {
    let run = vec!["a"; 300].join(" ");
    let got = parse(&format!("S -> {} end", run), &format!("{} end", run));
    expect("300 symbols", got.ends_with("end300)").to_string(), "true");
}
'''
