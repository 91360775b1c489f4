property = 'C11'
needs = 'a failing symbol with several applicable productions that fail after a different number of symbols'
breaks = 'the failure lists only the productions that got furthest'
edits = [('parser/recursive_descent_parser.rs', """        Err(failed_productions)
    }
""", """        // Report the productions which are closer to the input
        let furthest = failed_productions
            .iter()
            .map(|failed_production| failed_production.parsed_symbols.len())
            .max()
            .unwrap_or(0);

        Err(failed_productions
            .into_iter()
            .filter(|failed_production| failed_production.parsed_symbols.len() == furthest)
            .collect())
    }
""")]
demo = '''
fn main() {
    let got = parse("S -> a b c | a d | a b x", "a b z");
    expect("a b z", got, "!S[a0 b1 !c[] | a0 !d[] b | a0 b1 !x[]]".replace("!d[] b", "!d[]").as_str());
}
'''
