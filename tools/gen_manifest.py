#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("monitor: every query of the built grammar against the production list it was built from, over generated lists",
         "Complete comparison of each observed grammar object; nothing is sampled within a case except some symbols outside the grammar."),
 "C02": ("monitor: construction returns or panics, against an independent well-formedness predicate, over generated lists with planted malformed productions",
         "Any panic counts as a refusal; messages are not compared."),
 "C03": ("monitor: all FIRST sets against an independent least-fixpoint analysis, over random and structured grammars and fresh hash seeds",
         "The reference (bit sets, worklist) is itself cross-checked in the self-test against textbook iteration and enumerated languages."),
 "C04": ("monitor: all FOLLOW sets against an independent least-fixpoint analysis, over random and structured grammars and fresh hash seeds",
         "As C03."),
 "C05": ("monitor: every table entry against the definition computed from independent FIRST/FOLLOW analyses, over generated grammars",
         "Entries of large tables for symbols that are not non-terminals are sampled."),
 "C06": ("monitor: each accepted tree is checked node by node as a derivation of the tokens, over generated grammars, inputs and solvers",
         "The oracle needs no model of the search: it only reads the tree, the declared productions and the tokens."),
 "C07": ("monitor: accept/reject and tree against an independent predictive recogniser and derivation checker, over generated LL(1) grammars",
         "Grammars are filtered by an independent LL(1) test; sentences, mutations, truncations and random sequences are decided."),
 "C08": ("monitor: result tree against an executable reference of the documented search, over generated grammars with competing productions",
         "The reference search is trusted; searches beyond its visit cap are skipped and counted."),
 "C09": ("monitor: identity of every lexeme and type value in the result, and live-lexeme conservation around each parse, over generated cases",
         "Lexemes are clone-only and individually numbered; a counter observes every live copy."),
 "C10": ("monitor: step-budgeted execution (operations on symbols) of analysis and parsing on hostile and truncated input, with panic interception",
         "Bounded steps: the budget is 200000 plus 400 operations per visit of the reference search, about fifty times what is observed."),
 "C11": ("monitor: every entry of every failure report against the rules of the statement, over generated rejected inputs",
         "The oracle follows the statement directly; it does not use the reference search."),
 "C12": ("differential monitor: results with a solver against results of the same code without one, and a log of the requests",
         "No model involved in the verdict."),
 "C13": ("trace monitor: the recorded solver requests against those of the reference search replayed with the same answers",
         "The reference search is trusted; searches beyond its visit cap are skipped and counted."),
 "C14": ("trace monitor: results with repairs against the reference search replayed with the recorded repairs",
         "As C13. Of reports only the outline that the statement promises is compared."),
 "C15": ("metamorphic monitor: the same parse on reused, aborted, renamed, reordered, differently typed and differently built parsers, under clocks that leap and other environment variables, and while unwinding",
         "Panic messages and the identity of equal symbols are not compared."),
 "C16": ("concurrent stress with a sequential oracle, natively, under ThreadSanitizer and in Miri; auto-traits by the compiler",
         "Data races and undefined behaviour are those of the observed executions; yields in the symbol operations diversify schedules."),
 "C17": ("monitor: all pairs of generated tokens compared, all copied, with counted clone-only lexemes; bounds by the compiler",
         "Complete on each generated list."),
 "C18": ("monitor: counted operations on symbols per parse against the visits of an independent predictive recogniser",
         "The allowed factor is 150 operations per visited symbol, where at most 8 are observed: constant-factor changes pass, superlinear growth does not."),
 "C19": ("monitor: a counting allocator compares bytes in use between repeated parses and measures their peak, over generated grammars and inputs",
         "What is filled once and stays bounded is no growth; the peak allowed is 2048 bytes and 512 per symbol of the longest output for each visited symbol or token, where at most 640 are observed."),
 "C20": ("monitor: counted operations on symbols while sets, tables and parsers are built, against a polynomial of the grammar's size, over generated grammars",
         "The bound is 30 operations per unit of non-terminals x length x (terminals + widest output), where at most 1.8 are observed."),
 "C22": ("monitor: lowest stack address seen by symbols, lexemes and the allocator during each call, against the nesting of an independent search, over wide, flat, deep and random cases",
         "The allowance is 16 KiB per enclosing non-terminal, where at most 1.2 KiB are observed, and 2 KiB per symbol for the analysis; stack use between two such observations is not seen."),
 "C23": ("monitor: counted operations on symbols per parse, with and without solvers, against the visits of the reference search",
         "The allowed factor is 40 operations and one per symbol of the longest output for each visited symbol, where at most 7 are observed; searches beyond the cap are skipped."),
 "C24": ("monitor: counted operations on symbols of every question to grammars, symbol sets and tables, over grammars with up to thousands of symbols",
         "48 operations are allowed for a question, where at most 7 are observed; symbol types with good hashes only."),
 "C25": ("fault injection with a monitor: the caller's code panics at chosen calls from the library, and the panic that comes out, the calls after it, live lexemes and later answers are checked",
         "All calls of short runs and a sample of those of long ones are made to panic, one per run."),
 "C21": ("trace monitor: every system call between two markers, recorded by strace while the library works through generated cases",
         "Memory management, random seeds and futexes are allowed; reads of the environment or of the clock that need no system call are not seen."),
}
checks = [{
    "property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
    "technique": t, "level": "exploration", "level_note": n,
} for p, (t, n) in sorted(T.items())]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API and through the symbol, lexeme and solver types that the harness supplies.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
