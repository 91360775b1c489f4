#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
G="src/grammar/context_free_grammar.rs"; F="src/grammar/first_follow_symbols.rs"
T="src/parser/recursive_descent_parser_transitions.rs"; P="src/parser/recursive_descent_parser.rs"
S="src/parser/syntax_error_solver.rs"; K="src/token/token.rs"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
props=[
p("C01","A grammar stores and classifies exactly what was declared",
 "For every list of well-formed productions, a grammar built from it reports as non-terminals exactly the symbols that are the input of some production, and as terminals exactly the other symbols that occur in some output (the empty-string symbol included when it is used), each once, and its list views and membership queries agree. For every non-terminal it returns exactly the productions declared for it, outputs unchanged, in declaration order and with duplicates kept; for any other symbol it returns none. The start symbol and the empty-string symbol are returned as given, and a copy of a production has the same input and output.",
 ["inputs"],"every list of well-formed productions (any size, order, duplication, interleaving of left-hand sides), every symbol type with lawful Eq/Hash/Clone",
 "The only construction test builds one one-production grammar and asserts nothing about it; classification and order must hold for every production list and symbol type.",
 [G,"src/grammar/context_free_grammar_production.rs"],
 [("grouping of productions by left-hand side",G+": new_process_productions_map"),("terminal set = outputs minus left-hand sides",G+": build_terminal_symbols_set")],
 ["get_terminal_symbols / get_non_terminal_symbols / is_terminal / is_non_terminal / get_productions / get_initial_symbol / get_epsilon_symbol"]),
p("C02","Construction rejects exactly the malformed grammars",
 "Building a grammar panics if some production has the empty-string symbol as its input, an empty output, or an output that mixes the empty-string symbol with any other symbol (itself included), wherever in the list that production stands. It accepts every other production list, including the empty list, duplicates, left recursion, unreachable and unproductive symbols, and a start symbol that has no productions.",
 ["inputs"],"every list of productions, well-formed or malformed in any position",
 "Three should_panic tests each build one one-production grammar with no expected message; they say nothing about malformed productions hidden among valid ones nor about valid grammars being refused.",
 [G],[("validation over every production of every left-hand side",G+": new_check_productions_map")],["ContextFreeGrammar::new returning or panicking"]),
p("C03","FIRST sets are the exact least solution",
 "For every grammar, the FIRST set of each symbol is exactly the least set given by the standard rules: a terminal's set is itself alone; a non-terminal's set has every terminal that can begin some string derived from it, and the empty-string symbol exactly when it can derive the empty string. No other symbol has a FIRST set. Sets that a caller supplies instead are returned as they are.",
 ["inputs"],"every valid grammar, including left-recursive, mutually recursive, unproductive, unreachable and arbitrarily long nullable or unit chains; every iteration order of the hash tables",
 "Eight tests check single sets of grammars with one to three productions; exactness (nothing missing, nothing extra) needs every grammar and every hash iteration order.",
 [F],[("fixpoint iteration until no set grows",F+": converge / inner_get_first_symbols"),("nullable prefix scan of each production",F+": inner_get_first_symbols_process_production*")],["FirstFollowSymbols::get_first_symbols after FirstFollowSymbols::from"]),
p("C04","FOLLOW sets are the exact least solution",
 "For every grammar, the FOLLOW set of each non-terminal is exactly the least set given by the standard rules over all productions, with no implicit end marker: whatever can begin the rest of an output after an occurrence of the non-terminal, plus the FOLLOW set of the production's input wherever that rest can derive the empty string. It never contains the empty-string symbol or a non-terminal, and no other symbol has a FOLLOW set. Sets that a caller supplies instead are returned as they are.",
 ["inputs"],"every valid grammar, including symbols repeated side by side in an output, arbitrarily long nullable runs, recursion; every iteration order of the hash tables",
 "Five tests check single sets of tiny grammars; none has a symbol next to itself asserted, or a nullable run longer than one. Exactness is over every grammar and every hash iteration order.",
 [F],[("right-to-left scan with the run of nullable successors",F+": get_follow_symbols_process_production*"),("propagation of the input's FOLLOW through the nullable tail",F+": get_follow_symbols_process_production_last_epsilon_chain"),("fixpoint iteration",F+": converge")],["FirstFollowSymbols::get_follow_symbols after FirstFollowSymbols::from"]),
p("C05","The prediction table is exactly the LL(1) table",
 "For every grammar, non-terminal A and terminal a, the table's entry for A on lookahead a holds exactly the productions of A whose output can begin with a, or whose output can derive the empty string while a is in FOLLOW(A). Each such production is listed as declared, in declaration order, once per declaration; every other pair of symbols has no productions. A table built from sets that the caller supplies holds what these sets say, even where they differ from those of the grammar.",
 ["inputs"],"every valid grammar and every pair of symbols; every iteration order of the hash tables",
 "Four tests look at one cell each of small grammars; a missing or extra entry only shows for particular combinations of nullable prefixes and FOLLOW sets.",
 [T],[("production FIRST set, completed by FOLLOW of the left-hand side when nullable",T+": inner_from_get_production_first_symbols*"),("declaration-order fill of the table",T+": inner_from_process_productions")],["RecursiveDescentParserTransitions::get_productions"]),
p("C06","An accepted parse is a real derivation of the tokens",
 "Whenever parsing succeeds, the returned tree is rooted at the start symbol, every inner node with its children in order is a declared production, the empty-string symbol appears only as the single child of an inner node, and the other leaves read left to right are exactly a prefix of the given tokens. Consequently, with a grammar whose sentences end in a terminal used only as end marker, only token sequences that begin with a sentence of the grammar are accepted.",
 ["inputs","programs"],"every valid grammar on which parsing terminates (no left recursion) and every non-empty token sequence, including tokens that the grammar does not know and tokens typed as the empty-string symbol or as a non-terminal",
 "Four tests accept six fixed inputs; the v0.3.0 changelog records a bug of exactly this kind (invalid tokens accepted after backtracking) that sampled tests had missed.",
 [P],[("terminal matching and position advance",P+": inner_parse_non_epsilon_terminal_symbol"),("rebuilding of positions and child list after backtracking",P+": inner_parse_pop_states / inner_parse_from_tokens_production"),("node assembly",P+": inner_parse_from_tokens_production_build_node")],["ParseResult::Ok tree of parse_from_tokens"]),
p("C07","For LL(1) grammars the parser decides the language",
 "For every LL(1) grammar whose start symbol occurs in no output and whose start productions all end in an end-marker terminal used nowhere else, the parser accepts every token sequence that begins with a sentence of the grammar and returns that sentence's unique parse tree. It answers every other non-empty token sequence with a failure.",
 ["inputs","programs"],"every end-marked LL(1) grammar (any number of symbols, nullable chains, nesting) and every sentence or non-sentence",
 "Sentences and non-sentences of all LL(1) grammars are infinite; the tests parse five two- to five-token inputs of four grammars.",
 [P,T,F],[("prediction on the next token",P+": inner_get_token_productions"),("table exactness",T+": inner_from_get_production_first_symbols"),("derivation by recursive descent",P+": inner_parse_from_tokens_production")],["ParseResult of parse_from_tokens"]),
p("C08","Alternatives are tried in order, nearest choice revisited first",
 "When several productions of a symbol apply to the next token, by the symbol sets that the parser was built from, they are tried in declaration order from the same token and the first that matches is kept. When a later symbol of the enclosing production then cannot be matched, the not yet tried alternatives of its already matched symbols are tried, most recently matched symbol first and each from the token where that symbol began, before the enclosing production is given up. Parsing succeeds with the resulting first tree whenever this search finds one.",
 ["inputs","programs"],"every grammar without left recursion, with any number of competing productions per symbol, and every token sequence",
 "Two tests exercise one and two competing productions with one level of backtracking; order and resumption must hold for every pattern of choices, depths and positions.",
 [P],[("ordered iteration over candidates with the remaining iterator kept",P+": inner_parse_from_tokens_try_parse_productions"),("retry of completed siblings from their own start",P+": inner_parse_pop_states")],["ParseResult of parse_from_tokens"],
 [("remaining candidates of a matched symbol","the alternatives not yet tried, and the position to try them from",P+": ParsingState")]),
p("C09","Tokens reach the tree unchanged and are not retained",
 "In every tree, failure report or repaired result, each node for a matched terminal carries the very token that was matched, with its own type value and its own lexeme or absence of one, each matched position once and in input order; inner nodes and empty-string nodes carry no lexeme. Once a parse has returned, the only remaining copies of lexemes are those in the returned value and dropping it releases them all.",
 ["inputs","histories"],"every grammar, token sequence, lexeme type that is only cloneable, presence or absence of a lexeme per token, and succession of parses on one parser",
 "Token equality ignores lexemes, so no existing test can even see a lost, swapped or invented lexeme; retention is not observed at all.",
 [P,K,"src/ast/abstract_syntax_node.rs"],[("leaf is a clone of the matched token",P+": inner_parse_non_epsilon_terminal_symbol"),("token clone keeps both fields",K+": Clone for Token")],["every Token in the value returned by parse_from_tokens","live lexeme count around parse_from_tokens"]),
p("C10","Parsing always returns, and never panics on non-empty input",
 "For every valid grammar, computing its symbol sets, its prediction table and a parser finishes without panicking. For every such parser whose grammar has no left recursion, without an error solver or with one that always answers and repairs finitely often, parsing any non-empty token sequence returns a result after a bounded number of steps, whether the input is truncated, over-long, or made of symbols that the grammar does not use; only the empty sequence is refused by a panic.",
 ["inputs","programs"],"every valid grammar; every non-empty token sequence, including every truncation of a sentence and hostile symbols; every solver that answers and repairs finitely often, whatever position it resumes at",
 "No test truncates an input in front of a non-terminal or feeds unknown symbols to nested productions; panics and non-termination hide in inputs nobody sampled.",
 [P,F,T],[("lookahead at the current token position",P+": inner_parse_from_tokens_production_non_terminal"),("fixpoint loops stop when nothing grows",F+": converge"),("candidate iterators are consumed, never restarted",P+": inner_parse_pop_states")],["return, panic or step count of every call"]),
p("C11","A failure report describes the failed derivation consistently",
 "A failure names the symbol that could not be derived and lists, in declaration order, exactly one entry per production of that symbol applicable to the token where it started; a failed terminal lists none and really differs from the token there, or no token is left. In every entry, the parsed (or repaired) symbols, then the failed symbol, then the pending symbols are exactly that production's output. The parsed ones are valid derivations of the consecutive tokens from where the symbol started, and the nested failure describes, by the same rules, the token right after them.",
 ["inputs","programs"],"every grammar without left recursion and every rejected token sequence, whatever backtracking or repairs preceded the failure",
 "Four tests compare reports of productions made of terminals only; a report after a matched or retried non-terminal is never examined.",
 [P,"src/parser/failed_production.rs","src/parser/failed_symbol.rs"],[("split of the production into parsed, failed and pending",P+": inner_parse_from_tokens_production_build_failed_symbol"),("states returned after exhausted backtracking",P+": inner_parse_pop_states")],["ParseResult::Err of parse_from_tokens"]),
p("C12","Error repair is a last resort and declining it changes nothing",
 "An input that parses without an error solver gives the same tree with any solver installed, and the solver is not consulted. When an input does not parse, a solver that declines every request leaves the failure report identical to the one without a solver. A solver turns it into a plain success only when a repair that it gave was given up for another alternative of an earlier symbol, which never happens with an LL(1) grammar.",
 ["inputs","programs"],"every grammar without left recursion, every token sequence, every solver behaviour (always repair, never repair, repair sometimes)",
 "Every parser in the tests is built without a solver, so nothing about solvers is executed.",
 [P,S],[("solver consulted only when derivation failed on a single path",P+": inner_parse_from_tokens_try_fix_productions"),("documented contract: a fix attempt is the last resource",S)],["ParseResult and solver call log of parse_from_tokens, with and without a solver"]),
p("C13","The error solver is consulted exactly as documented",
 "While an input is being repaired, the solver is consulted for a failing non-terminal only if every symbol that encloses it had exactly one applicable production, innermost failing symbol first, and never for alternatives tried while backtracking. It is asked through the single-production request exactly when the failing symbol itself had one applicable production, and through the multiple-production request otherwise. Each request carries the complete token list, the position where that symbol began, and the failures of all its applicable productions in declaration order.",
 ["inputs","programs","histories"],"every grammar without left recursion, every rejected token sequence, every deterministic solver",
 "No test installs a solver; the documented assumptions of the solver trait are never checked.",
 [P,S],[("single-path flag passed down the derivation",P+": is_child_single_path / inner_parse_from_tokens"),("choice of request",P+": inner_parse_from_tokens_try_fix_productions"),("documented assumptions",S)],["sequence of solver calls with their arguments"]),
p("C14","A repair is used exactly as the solver returned it",
 "When the solver supplies a repair for a symbol, parsing resumes exactly at the token position that it gave, and its repaired production, unless given up for another alternative of an earlier symbol, appears unchanged in the result under that symbol. Every enclosing repaired production lists one part per symbol of its only applicable production, in order: the parsed tree of a symbol that matched, or the repaired symbol; and the result names the start symbol. If a later symbol can neither be matched nor repaired, the failure report keeps the repaired symbols, in place, among the parsed ones.",
 ["inputs","programs","histories"],"every grammar without left recursion, every rejected token sequence, every repair position (backwards, in place, forward, past the end) and repair content",
 "No test installs a solver, so no repaired result has ever been produced by the test suite.",
 [P,"src/parser/fixed_symbol.rs","src/parser/fix_result.rs","src/parser/fixed_production_part.rs"],[("wrapping of the solver's result",P+": inner_parse_from_tokens_fix_option_to_parse_symbol_result"),("resume position",P+": inner_parse_from_tokens_production"),("mixed assembly",P+": inner_parse_from_tokens_production_build_node")],["ParseResult::Fix and ParseResult::Err of parse_from_tokens"]),
p("C15","Results depend only on the grammar and the tokens",
 "Parsing the same tokens gives the same result on every run, on a fresh or a much used parser, after successful, failed or panicked parses, on parsers built through any of the constructors, and for any kind of token iterator, of which everything up to its first end is used. It is also unaffected by renaming symbols, by the symbol type used, by hash collisions and hash iteration order, by moving productions of different symbols relative to each other, by environment variables and the time, and by a panic that is under way; the grammar and symbol sets read the same before and after any number of parses.",
 ["histories","inputs","configurations"],"every grammar, every history of earlier parses on the same parser, every constructor, every lawful symbol type and hash seed",
 "Each test builds one parser and parses once or twice; dependence on history, hash seed or symbol representation needs many runs and instances.",
 [P,T,F,G],[("tables immutable after construction",T+": table"),("candidate order taken from declaration order, not from hash order",T+": inner_from_process_productions")],["results of repeated, reordered, renamed and re-instantiated parses"]),
p("C16","A shared parser can be used from many threads at once",
 "Grammars, symbol sets, prediction tables and parsers can be shared by reference between threads and sent to other threads whenever the symbol, lexeme and solver types allow it. Any interleaving of concurrent parses and queries gives each caller the result it would get alone, with no data race or undefined behaviour.",
 ["schedules","histories"],"every interleaving of any number of threads that parse and query through shared references",
 "All tests are single-threaded and use one value each.",
 [P,T,F,G],[("no interior mutability after construction",P+": RecursiveDescentParser; "+F+": RefCell used only while computing")],["per-thread results against sequential results; ThreadSanitizer and Miri reports; auto-trait check by the compiler"]),
p("C17","Token equality is by type only, and copies are faithful",
 "Two tokens are equal exactly when their types are equal, whatever their lexemes are and whether they have one, and inequality is the exact negation. A cloned token has the same type value and an equal copy of the lexeme, or none if the original had none, and works for lexemes that cannot be compared.",
 ["inputs"],"every pair of tokens over every type with lawful equality and every lexeme type, comparable or not",
 "Equality and cloning are used by test helpers but never asserted; a clone that drops the lexeme passes all tests because equality ignores lexemes.",
 [K],[("equality on the type field",K+": PartialEq for Token"),("field-wise clone",K+": Clone for Token")],["==, != and clone() of Token"]),
p("C18","Predictive parsing takes work linear in the input",
 "For every LL(1) grammar, the work of parsing a token sequence, accepted or rejected, without a solver or with one that declines every request, counted in operations on symbols, is at most proportional, by a factor fixed by the grammar, to the number of symbols that its leftmost derivation visits before the end or the first error. In particular it never grows exponentially with nesting depth, input length or the number of symbols parsed before the error.",
 ["inputs","programs"],"every LL(1) grammar and token sequence, in particular long lists, deep nesting and errors at the far end",
 "Tests parse at most five tokens and measure nothing.",
 [P,T],[("one applicable production per symbol and token",T),("exhausted candidates are not re-parsed",P+": inner_parse_pop_states")],["number of symbol comparisons, hashes and copies during parse_from_tokens"]),
p("C19","Parsing keeps no memory and needs no more than its work",
 "Once the result of a parse has been dropped, no memory stays in use because of it: however many inputs are parsed, whether they are accepted, rejected, repaired, interrupted by a panic or refused, and whether they are the same or always new, memory in use does not keep growing. The same holds for building and dropping grammars, symbol sets, tables and parsers. For every grammar without left recursion, the memory in use at any time during a parse is at most proportional, by a factor fixed by the grammar, to the number of tokens and of symbols visited by the search.",
 ["inputs","histories"],"every grammar without left recursion and every sequence of parses; for the peak every such grammar and token sequence, in particular long and deeply nested ones",
 "Tests parse at most five tokens, once per parser, and measure no memory.",
 [P,T,F],[("states, candidate lists and failures are owned by the call that needs them",P+": inner_parse_from_tokens_production"),("no state in the parser",P+": struct RecursiveDescentParser")],["bytes in use by the process before, during and after parse_from_tokens and the constructors"]),
p("C20","Analysing a grammar takes polynomial work",
 "For every grammar, left-recursive, cyclic and ambiguous ones included, the work of building the grammar, its symbol sets, its prediction table and a parser, counted in operations on symbols, is at most proportional to the number of its non-terminals times its total length times the number of its terminals and of symbols of its longest output. In particular it never grows exponentially with the number of symbols, alternatives or levels.",
 ["inputs"],"every valid grammar, in particular ladders, diamonds, cliques, cycles and long runs of nullable symbols",
 "Tests analyse grammars of at most four productions and measure nothing.",
 [F,T,G],[("fixed-point rounds over all productions",F+": get_first_symbols / get_follow_symbols"),("table from the finished sets",T+": from")],["number of symbol comparisons, hashes and copies while grammars, sets, tables and parsers are built"]),
p("C21","The library acts only through its results",
 "For every grammar, input and solver, and whatever environment variables are set, building, analysing, querying and parsing, whether accepted, rejected, repaired or refused by a panic, write nothing to standard output or standard error (the message of a panic reaches the panic hook only), open no file or socket, start no process or thread, and leave the environment variables, the working directory and the panic hook as they are.",
 ["inputs","programs"],"every call of the public API with every argument, on success and on every failure path",
 "Tests run with their output captured and would pass with output on any path.",
 [P,T,F,G],[("all entry points",P+": parse_from_tokens"),("analysis",F+": from"),("construction",G+": new")],["system calls of the process while the library runs"]),
p("C22","Stack use follows nesting, not length",
 "For every grammar without left recursion, with or without a solver, the stack that parsing uses, and dropping the result, is at most proportional to the largest number of non-terminals that enclose each other during the search, whatever the number of tokens, of symbols in an output, of alternatives or of alternatives retried. Building a grammar, its symbol sets, prediction table and a parser uses stack at most proportional to the number of symbols of the grammar, whatever the number and length of its productions.",
 ["inputs","programs"],"every grammar without left recursion and every token sequence, in particular wide and flat ones: balanced trees, long outputs, many tokens behind the derivation, many retried alternatives",
 "Tests parse at most five tokens on a stack of megabytes; recursion over tokens or siblings only overflows with inputs of many thousands.",
 [P,F,T],[("one level of calls per nested non-terminal",P+": inner_parse_from_tokens"),("loops over the symbols of an output and over matched siblings",P+": inner_parse_from_tokens_production / inner_parse_pop_states"),("fixed-point rounds are loops",F+": converge")],["lowest stack address seen by symbols, lexemes and the allocator during each call"]),
p("C23","Searching and repairing take no more work than the search itself",
 "For every grammar without left recursion, ambiguous or not, the work of parsing a token sequence, accepted, rejected or repaired, counted in operations on symbols, is at most proportional, by a factor fixed by the grammar, to the number of symbols visited by the search that tries and retries alternatives as documented, plus the symbols listed in the failures. With a solver, the input is searched once without repairs and, only if that fails, once more with them, so that a solver which declines every request at most doubles the work. What has been matched is not parsed again except to retry one of its alternatives.",
 ["inputs"],"every grammar without left recursion, token sequence and solver, in particular runs of many retried siblings, late failures and deep nesting",
 "Tests parse at most five tokens with at most four productions and measure nothing.",
 [P],[("matched siblings are kept while one of them is retried",P+": inner_parse_pop_states"),("one search without repairs and one with them",P+": parse_from_tokens"),("remaining alternatives are kept with the matched symbol",P+": ParsingState")],["number of symbol comparisons, hashes and copies during parse_from_tokens"]),
p("C24","Questions are answered without searching",
 "Asking a grammar whether a symbol is a terminal or a non-terminal or for its productions, asking symbol sets for a FIRST or FOLLOW set, and asking a prediction table for an entry each take a number of operations on symbols (hashes, comparisons, copies) that is bounded by a constant for symbols that hash well, however many symbols and productions the grammar has and whether or not it knows the symbol. Listing the terminals or the non-terminals takes operations at most proportional to the length of the list.",
 ["inputs"],"every valid grammar, in particular those with very many symbols, alternatives or productions, and every symbol asked about, known or not",
 "Tests ask grammars of at most four productions, where a scan of everything cannot be told from a lookup.",
 [G,F,T],[("lookups in hash tables",G+": is_terminal / is_non_terminal / get_productions"),("sets by symbol",F+": get_symbols_from_hash_map"),("entries by symbol and token",T+": get_productions")],["number of symbol comparisons, hashes and copies during each question"]),
p("C25","Panics of the caller's code pass through",
 "When the caller's code panics while the library calls it (copying, comparing or hashing a symbol, copying a lexeme, drawing the next token, or a solver answering a request), the library call ends with that very panic and its unchanged value, whatever it was doing: it neither returns a result nor reports another panic, and does not call the caller's code again except to drop values. The tokens given to an interrupted parse are released, and the grammar, symbol sets and parser involved give the same answers afterwards as before.",
 ["inputs","faults"],"every grammar, token sequence and solver and every single point at which the library calls the caller's code, during construction, analysis, queries and parsing",
 "In the tests no callback ever panics.",
 [P,F,T,G,K],[("callbacks made while parsing",P+": parse_from_tokens"),("solver requests",P+": inner_parse_from_tokens_try_fix_productions"),("symbol operations of the analysis",F+": from")],["the panic that leaves each call, the calls made to the caller's code after it, live lexemes, and answers given later"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in props: f.write(json.dumps(d,ensure_ascii=False)+"\n")
