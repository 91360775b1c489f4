property = 'C24'
needs = 'a grammar with many productions'
breaks = 'asking whether a symbol is a terminal reads all productions'
edits = [('grammar/context_free_grammar.rs', """        self.terminal_symbols_set.contains(symbol)
""", """        !self.is_non_terminal(symbol)
            && self
                .productions
                .values()
                .flatten()
                .any(|production| production.output.contains(symbol))
""")]
demo = open('/verif/tools/plant/bugs/c24-scan.py').read().split("demo = '''")[1].split("'''")[0].replace('sets.get_follow_symbols(&Counted(10 + i)).unwrap();', 'g.is_terminal(&Counted(5000 + i));').replace('    let sets = FirstFollowSymbols::from(&g);\n', '')
