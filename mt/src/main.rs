//! C16: shared grammars, sets, tables and parsers under concurrent use.
//!
//! A scene is one grammar with inputs. Its expected answers are computed sequentially on objects of
//! its own; then fresh objects, not used before, are shared between threads that parse and query
//! them at random, while every thread also works on a private scene of its own with the same
//! symbol numbers. Each answer is compared with the expected one. Scheduling points are injected in
//! the symbol operations that the library calls. Runs natively, under ThreadSanitizer and in Miri.
#![allow(dead_code)]

mod ambient;
#[path = "../../harness/src/case.rs"]
mod case;
#[path = "../../harness/src/checks.rs"]
mod checks;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/gram.rs"]
mod gram;
#[path = "../../harness/src/mem.rs"]
mod mem;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/real.rs"]
mod real;
#[path = "../../harness/src/rng.rs"]
mod rng;

use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use checks::{asked, dump, inputs, limit, Dump};
use gram::{Ana, Gram};
use model::*;
use real::*;
use rng::{mix, Rng};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// a symbol type that gives up the processor now and then

thread_local! {
    static CHAOS: Cell<u64> = const { Cell::new(0) };
    static YIELDS: Cell<u64> = const { Cell::new(0) };
    static FUEL: Cell<usize> = const { Cell::new(0) };
}
/// Threads that are to be in the middle of a parse at the same time, and those that are.
static WANTED: AtomicU64 = AtomicU64::new(0);
static ARRIVED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// symbol operations left before this thread waits for the others; 0 if it does not
    static MEET: Cell<u64> = const { Cell::new(0) };
}
/// Waits for the others, but not for ever: nothing promises that parses run side by side.
fn meet() {
    let w = WANTED.load(Ordering::Relaxed);
    ARRIVED.fetch_add(1, Ordering::Relaxed);
    let t = Instant::now();
    while ARRIVED.load(Ordering::Relaxed) < w && t.elapsed() < Duration::from_millis(15) {
        std::thread::yield_now();
    }
}
fn chaos() {
    tick();
    let m = MEET.get();
    if m > 0 {
        MEET.set(m - 1);
        if m == 1 {
            meet();
        }
    }
    let c = CHAOS.get();
    if c == 0 {
        return;
    }
    let c = c.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
    CHAOS.set(c);
    match c >> 56 {
        0..=3 => {
            YIELDS.set(YIELDS.get() + 1);
            std::thread::yield_now()
        }
        4 if !cfg!(miri) => {
            YIELDS.set(YIELDS.get() + 1);
            for _ in 0..(c >> 40 & 0x3ff) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
pub struct Yielding(u32);
impl Clone for Yielding {
    fn clone(&self) -> Self {
        chaos();
        Yielding(self.0)
    }
}
impl PartialEq for Yielding {
    fn eq(&self, o: &Self) -> bool {
        chaos();
        self.0 == o.0
    }
}
impl Eq for Yielding {}
impl Hash for Yielding {
    fn hash<H: Hasher>(&self, h: &mut H) {
        chaos();
        h.write_u32(self.0)
    }
}
impl Kind for Yielding {
    fn enc(id: u32, _: u32) -> Self {
        Yielding(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}

// ---------------------------------------------------------------------------------------------
// a solver without state of its own

#[derive(Clone, Copy)]
struct Pure(Policy);
fn e_tree<K: Kind>(t: &Tree, live: &Arc<AtomicI64>) -> AbstractSyntaxNode<Token<Lex, K>> {
    AbstractSyntaxNode::new(
        t.kids.iter().map(|k| e_tree(k, live)).collect(),
        Token::new(t.lex.map(|l| Lex::new(l, live)), K::enc(t.sym, t.tag)),
    )
}
fn e_parts<K: Kind>(parts: &[Part], live: &Arc<AtomicI64>) -> FixedProduction<Lex, K> {
    FixedProduction::new(
        parts
            .iter()
            .map(|p| match p {
                Part::Ok(t) => FixedProductionPart::Ok(e_tree(t, live)),
                Part::Fixed(f) => FixedProductionPart::Fixed(FixedSymbol::new(
                    e_parts(&f.parts, live),
                    K::enc(f.sym, 0),
                )),
                Part::Gap(l, s) => FixedProductionPart::Gap(FixGap {
                    skipped_tokens: l.iter().map(|l| Lex::new(*l, live)).collect(),
                    skipped_symbols: s.iter().map(|s| K::enc(*s, 0)).collect(),
                }),
            })
            .collect(),
    )
}
impl Pure {
    fn answer<K: Kind>(
        &self,
        single: bool,
        tokens: &[Token<Lex, K>],
        pos: usize,
        fails: &[FailProd],
    ) -> Option<FixResult<Lex, K>> {
        let (end, parts) = decide(self.0, single, pos, tokens.len(), fails)?;
        let fuel = FUEL.get();
        if fuel == 0 {
            return None;
        }
        FUEL.set(fuel - 1);
        let live = Arc::new(AtomicI64::new(0));
        Some(FixResult { final_token_position: end, production: e_parts(&parts, &live) })
    }
}
impl<K: Kind> SyntaxErrorSolver<Lex, K> for Pure {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<Lex, K>>,
        pos: usize,
        f: &FailedProduction<Lex, K>,
    ) -> Option<FixResult<Lex, K>> {
        self.answer(true, tokens, pos, &[n_failprod(f)])
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<Lex, K>>,
        pos: usize,
        f: &Vec<FailedProduction<Lex, K>>,
    ) -> Option<FixResult<Lex, K>> {
        let v: Vec<FailProd> = f.iter().map(n_failprod).collect();
        self.answer(false, tokens, pos, &v)
    }
}
type Solved<'a, K> = RecursiveDescentParser<'a, Lex, K, Pure>;

// ---------------------------------------------------------------------------------------------
// scenes

type Cells = Vec<Vec<Vec<Vec<u32>>>>;
fn cells<K: Kind>(t: &RecursiveDescentParserTransitions<K>, ask: &[u32]) -> Cells {
    ask.iter()
        .map(|a| {
            let a = K::enc(*a, 0);
            ask.iter()
                .map(|b| {
                    t.get_productions(&a, &K::enc(*b, 0))
                        .map(|v| v.iter().map(|p| p.output.iter().map(|x| x.id()).collect()).collect())
                        .unwrap_or_default()
                })
                .collect()
        })
        .collect()
}

struct Scene {
    gram: Gram,
    inputs: Vec<Vec<Tok>>,
    limits: Vec<u64>,
    policy: Policy,
    ask: Vec<u32>,
    plain: Vec<Outcome>,
    solved: Vec<Outcome>,
    dump: Dump,
    cells: Cells,
}

fn parse_out<'a, K: Kind, S: SyntaxErrorSolver<Lex, K>>(
    p: &RecursiveDescentParser<'a, Lex, K, S>,
    t: &[Tok],
    lim: u64,
) -> Outcome {
    FUEL.set(MAX_REPAIRS);
    let live = Arc::new(AtomicI64::new(0));
    let mut o = parse(p, t, lim, &live);
    if let Outcome::Panic(m) = &mut o.out {
        m.clear();
    }
    if o.live_end != 0 {
        return Outcome::Panic(format!("{} lexemes are kept", o.live_end));
    }
    o.out
}

/// What a scene is made of.
struct Plan {
    gram: Gram,
    inputs: Vec<Vec<Tok>>,
    limits: Vec<u64>,
    policy: Policy,
}

fn plan(seed: u64, small: bool) -> Option<Plan> {
    let rng = &mut Rng::new(seed);
    let mut g = match rng.below(6) {
        _ if small => {
            let mut g = gen::random(rng, &gen::TINY, true);
            gen::no_left_recursion(&mut g);
            g
        }
        0..=2 => gen::parsable(rng),
        3..=4 => gen::conflicting(rng),
        _ => gen::ll1(rng),
    };
    g.prods.truncate(150);
    gen::no_left_recursion(&mut g);
    let ana = Ana::new(&g);
    if ana.left_recursion().is_some() || g.prods.is_empty() {
        return None;
    }
    let policy = match rng.below(6) {
        0 => Policy::Here,
        1 => Policy::Skip(1),
        2 => Policy::ToEnd,
        _ => Policy::Hash(rng.next() >> 8),
    };
    let cap = if small { 150 } else { 1500 };
    let mut ins = vec![];
    let mut limits = vec![];
    for t in inputs(rng, &g, if small { 3 } else { 8 }, if small { 4 } else { 20 }) {
        if small && t.len() > 8 {
            continue;
        }
        // a fixed budget: repairs are not known to the reference search here
        let a = Model::run(&ana, &t, None, cap);
        let b = Model::run(&ana, &t, Some(policy), cap);
        if let (Ok(a), Ok(b)) = (a, b) {
            limits.push(limit(a.2.visits + b.2.visits, t.len() + g.prods.len()));
            ins.push(t);
        }
    }
    if ins.is_empty() {
        return None;
    }
    Some(Plan { gram: g, inputs: ins, limits, policy })
}

fn scene<K: Kind>(p: Plan, small: bool) -> Option<Scene> {
    let Plan { gram: g, inputs: ins, limits, policy } = p;
    let ask = asked(&Ana::new(&g));
    let ask: Vec<u32> = if small { ask.into_iter().take(6).collect() } else { ask.into_iter().take(24).collect() };
    let run = |_: usize| -> Option<(Vec<Outcome>, Vec<Outcome>, Dump, Cells)> {
        catch_unwind(AssertUnwindSafe(|| {
            let gr = grammar::<K>(&g);
            let ff = FirstFollowSymbols::from(&gr);
            let t = RecursiveDescentParserTransitions::from(&gr, &ff);
            let mut a = vec![];
            let mut b = vec![];
            if small {
                let p = Plain::<K>::from_grammar_and_first_follow_symbols(&gr, &ff);
                let q = Solved::<K>::from_grammar_and_solver(&gr, Pure(policy));
                for (i, l) in ins.iter().zip(&limits) {
                    a.push(parse_out(&p, i, *l));
                    b.push(parse_out(&q, i, *l));
                }
                return (a, b, dump(&ask, &gr, &ff), cells(&t, &ask));
            }
            for (i, l) in ins.iter().zip(&limits) {
                // fresh parsers: nothing that one parse leaves behind reaches the next
                a.push(parse_out(&Plain::<K>::from_grammar(&gr), i, *l));
                b.push(parse_out(&Solved::<K>::from_grammar_and_solver(&gr, Pure(policy)), i, *l));
            }
            (a, b, dump(&ask, &gr, &ff), cells(&t, &ask))
        }))
        .ok()
    };
    let first = run(0)?;
    if !small {
        // not even deterministic alone: C15's business
        for i in 1..3 {
            if run(i)? != first {
                return None;
            }
        }
    }
    let (plain, solved, dump, cells) = first;
    Some(Scene { gram: g, inputs: ins, limits, policy, ask, plain, solved, dump, cells })
}

#[derive(Default)]
struct Seen {
    ops: BTreeMap<&'static str, u64>,
    overlaps: u64,
    parse_overlaps: u64,
    yields: u64,
    scenes: u64,
    unusable: u64,
    max_parallel: u64,
    crowds: u64,
    met: u64,
    orders: BTreeSet<u64>,
    outcomes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

struct Shared<'s, 'a, K: Kind> {
    sc: &'s Scene,
    gr: &'a ContextFreeGrammar<K>,
    ff: &'s FirstFollowSymbols<K>,
    table: &'s RecursiveDescentParserTransitions<K>,
    plain: &'s Plain<'a, K>,
    solved: &'s Solved<'a, K>,
}

fn differs(what: &str, sc: &Scene, i: usize, got: &Outcome, want: &Outcome) -> Option<String> {
    (got != want).then(|| {
        format!(
            "{} of input {:?} gave {:?}, alone it gives {:?}; grammar {:?}",
            what, sc.inputs[i], got, want, sc.gram
        )
    })
}

/// One operation; the name of what was done and the complaint.
fn op<K: Kind>(sh: &Shared<K>, own: &Option<(Scene, ContextFreeGrammar<K>)>, rng: &mut Rng) -> (&'static str, Option<String>) {
    let sc = sh.sc;
    let i = rng.below(sc.inputs.len());
    let what = if MEET.get() > 0 {
        *rng.pick(&[0, 0, 5])
    } else if cfg!(miri) {
        *rng.pick(&[0, 0, 0, 5, 5, 5, 9, 10, 11, 12])
    } else {
        rng.below(18)
    };
    match what {
        16 => {
            // the only refusal, and it is the caller's own
            let o = if rng.pct(50) { parse_out(sh.plain, &[], 1000) } else { parse_out(sh.solved, &[], 1000) };
            ("empty", (!matches!(&o, Outcome::Panic(m) if m.is_empty())).then(|| format!("an empty input gave {:?}", o)))
        }
        17 => {
            // given up in the middle
            let n = 1 + rng.below(200) as u64;
            let o = if rng.pct(50) { parse_out(sh.plain, &sc.inputs[i], n) } else { parse_out(sh.solved, &sc.inputs[i], n) };
            ("aborted", match o {
                Outcome::Panic(m) if !m.is_empty() => Some(m),
                _ => None,
            })
        }
        0..=4 => {
            let o = parse_out(sh.plain, &sc.inputs[i], sc.limits[i]);
            ("parse", differs("a concurrent parse", sc, i, &o, &sc.plain[i]))
        }
        5..=8 => {
            let o = parse_out(sh.solved, &sc.inputs[i], sc.limits[i]);
            ("repair", differs("a concurrent parse with a solver", sc, i, &o, &sc.solved[i]))
        }
        9 => {
            let d = dump(&sc.ask, sh.gr, sh.ff);
            ("query", (d != sc.dump).then(|| format!("grammar or sets read {:?}, alone {:?}", d, sc.dump)))
        }
        10 => {
            let d = cells(sh.table, &sc.ask);
            ("table", (d != sc.cells).then(|| format!("the table reads {:?}, alone {:?}", d, sc.cells)))
        }
        11 => {
            let ff = FirstFollowSymbols::from(sh.gr);
            let d = dump(&sc.ask, sh.gr, &ff);
            ("sets", (d != sc.dump).then(|| format!("sets computed concurrently {:?}, alone {:?}", d, sc.dump)))
        }
        12 => {
            let p: Plain<K> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(sh.gr, sh.ff);
            let o = parse_out(&p, &sc.inputs[i], sc.limits[i]);
            ("build", differs("a parser built concurrently", sc, i, &o, &sc.plain[i]))
        }
        13 => {
            let p: Solved<K> = RecursiveDescentParser::from_grammar_and_solver(sh.gr, Pure(sc.policy));
            let o = parse_out(&p, &sc.inputs[i], sc.limits[i]);
            ("build", differs("a parser built concurrently", sc, i, &o, &sc.solved[i]))
        }
        _ => match own {
            Some((sc, gr)) => {
                let i = rng.below(sc.inputs.len());
                let p: Plain<K> = RecursiveDescentParser::from_grammar(gr);
                let o = parse_out(&p, &sc.inputs[i], sc.limits[i]);
                ("private", differs("a parser of its own next to others", sc, i, &o, &sc.plain[i]))
            }
            None => ("private", None),
        },
    }
}

struct Log {
    thread: usize,
    begin: u64,
    end: u64,
    parse: bool,
}

fn play<K: Kind>(p: Option<Plan>, seed: u64, small: bool, crowd: bool, seen: &mut Seen) -> Option<String> {
    let rng = &mut Rng::new(seed ^ 0x5CE4E);
    let sc = match p.and_then(|p| scene::<K>(p, small)) {
        Some(s) => s,
        None => {
            seen.unusable += 1;
            return None;
        }
    };
    let nthreads = if small { rng.range(2, 3) } else if crowd { rng.range(9, 40) } else { rng.range(2, 8) };
    let nops = if small { 3 } else if crowd { rng.range(2, 6) } else { rng.range(4, 24) };
    WANTED.store(nthreads as u64, Ordering::Relaxed);
    ARRIVED.store(0, Ordering::Relaxed);
    let own: Vec<Option<(Scene, ContextFreeGrammar<K>)>> = (0..nthreads)
        .map(|t| {
            if small || crowd {
                return None;
            }
            let s = scene::<K>(plan(mix(seed ^ (t as u64 + 1) << 20), small)?, small)?;
            let g = grammar::<K>(&s.gram);
            Some((s, g))
        })
        .collect();
    for o in sc.plain.iter().chain(&sc.solved) {
        *seen.outcomes.entry(o.name()).or_default() += 1;
    }
    // fresh objects: their first use is concurrent
    let built = catch_unwind(AssertUnwindSafe(|| {
        let gr = grammar::<K>(&sc.gram);
        gr
    }));
    let gr = match built {
        Ok(g) => g,
        Err(_) => return Some("building the grammar panicked".into()),
    };
    let ff = FirstFollowSymbols::from(&gr);
    let table = RecursiveDescentParserTransitions::from(&gr, &ff);
    let plain = Plain::<K>::from_grammar_and_first_follow_symbols(&gr, &ff);
    let solved = Solved::<K>::from_grammar_and_solver(&gr, Pure(sc.policy));
    // this one travels: built here, used by one thread, then by another
    let traveller = Plain::<K>::from_grammar_and_first_follow_symbols(&gr, &ff);

    let clock = AtomicU64::new(0);
    let barrier = Barrier::new(nthreads);
    let sh = Shared { sc: &sc, gr: &gr, ff: &ff, table: &table, plain: &plain, solved: &solved };
    let mut complaint = None;
    let mut log: Vec<Log> = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        let mut traveller = Some(traveller);
        for t in 0..nthreads {
            let (sh, own, clock, barrier) = (&sh, &own[t], &clock, &barrier);
            let trav = if t == 0 { traveller.take() } else { None };
            let tseed = mix(seed ^ mix(t as u64 + 77));
            let h = std::thread::Builder::new()
                .stack_size(if cfg!(miri) { 1 << 20 } else if crowd { 64 << 20 } else { 512 << 20 })
                .spawn_scoped(s, move || {
                    let rng = &mut Rng::new(tseed);
                    CHAOS.set(tseed | 1);
                    let mut log = vec![];
                    let mut ops: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut bad = None;
                    barrier.wait();
                    for k in 0..nops {
                        MEET.set(if crowd && k == 0 { 1 + rng.below(40) as u64 } else { 0 });
                        // relaxed: the clock must not order anything by itself
                        let begin = clock.fetch_add(1, Ordering::Relaxed);
                        let r = catch_unwind(AssertUnwindSafe(|| op(sh, own, rng)));
                        let end = clock.fetch_add(1, Ordering::Relaxed);
                        let (name, c) = match r {
                            Ok(x) => x,
                            Err(_) => ("panicked", Some("a concurrent query or construction panicked".to_string())),
                        };
                        *ops.entry(name).or_default() += 1;
                        log.push(Log { thread: t, begin, end, parse: name == "parse" || name == "repair" });
                        if c.is_some() && bad.is_none() {
                            bad = c;
                        }
                        if rng.pct(10) {
                            std::thread::yield_now();
                        }
                    }
                    if let Some(p) = &trav {
                        let o = parse_out(p, &sh.sc.inputs[0], sh.sc.limits[0]);
                        *ops.entry("moved").or_default() += 1;
                        if bad.is_none() {
                            bad = differs("a parser sent to another thread", sh.sc, 0, &o, &sh.sc.plain[0]);
                        }
                    }
                    MEET.set(0);
                    (log, ops, bad, trav, YIELDS.get())
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            match h.join() {
                Ok((l, ops, bad, trav, y)) => {
                    log.extend(l);
                    for (k, v) in ops {
                        *seen.ops.entry(k).or_default() += v;
                    }
                    seen.yields += y;
                    if complaint.is_none() {
                        complaint = bad;
                    }
                    if let Some(p) = trav {
                        let o = parse_out(&p, &sc.inputs[0], sc.limits[0]);
                        if complaint.is_none() {
                            complaint = differs("a parser sent back", &sc, 0, &o, &sc.plain[0]);
                        }
                    }
                }
                Err(_) => complaint = Some("a thread died".into()),
            }
        }
    });
    if crowd {
        seen.crowds += 1;
        seen.met = seen.met.max(ARRIVED.load(Ordering::Relaxed));
    }
    // what was really concurrent
    log.sort_by_key(|l| l.begin);
    let mut order = 0;
    for (i, l) in log.iter().enumerate() {
        order = mix(order ^ (l.thread as u64 + 1));
        let mut par = 1;
        for m in log[i + 1..].iter().take_while(|m| m.begin < l.end) {
            if m.thread != l.thread {
                seen.overlaps += 1;
                par += 1;
                if m.parse && l.parse {
                    seen.parse_overlaps += 1;
                }
            }
        }
        seen.max_parallel = seen.max_parallel.max(par.min(nthreads as u64));
    }
    // the events begin/end of all threads in their order
    let mut ev: Vec<(u64, usize)> = log.iter().flat_map(|l| [(l.begin, l.thread), (l.end, l.thread)]).collect();
    ev.sort();
    let sched = ev.iter().fold(seed, |h, e| mix(h ^ (e.1 as u64 + 1)));
    seen.orders.insert(mix(sched ^ order));
    seen.scenes += 1;
    if seen.samples.len() < 4 {
        let s: String = ev.iter().take(60).map(|e| char::from(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[e.1 % 52])).collect();
        let mut c = case::Case::new(sc.gram.clone(), 0, seed);
        c.inputs = sc.inputs.clone();
        seen.samples.push(format!("scene {}: {}; {} threads, begins and ends in order: {}", seed, c.brief(), nthreads, s));
    }
    complaint
}

fn any_kind(p: Option<Plan>, seed: u64, small: bool, seen: &mut Seen) -> Option<String> {
    if !small && mix(seed ^ 0xc0d) % 7 == 0 {
        return play::<Yielding>(p, seed, small, true, seen);
    }
    match mix(seed ^ 0x4b) % 8 {
        0..=4 => play::<Yielding>(p, seed, small, false, seen),
        5 => play::<Text>(p, seed, small, false, seen),
        6 => play::<Tagged>(p, seed, small, false, seen),
        _ => play::<Nested>(p, seed, small, false, seen),
    }
}
fn scene_seed(seed: u64, i: u64) -> u64 {
    mix(seed.wrapping_mul(0x1_0001) ^ mix(i))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: mt run SEED SCENES SECONDS | mt one SCENESEED TIMES big|small | mt plans SEED N small | mt file FILE 0 small";
    if a.len() < 5 {
        eprintln!("{}", usage);
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("unsafe precondition") {
            eprintln!("UNDEFINED BEHAVIOUR: {}", m);
        }
    }));
    let small = a[4] == "small";
    let mut seen = Seen::default();
    if a[1] == "one" {
        let s: u64 = a[2].parse().unwrap();
        for _ in 0..a[3].parse().unwrap() {
            if let Some(m) = any_kind(plan(s, small), s, small, &mut seen) {
                println!("MISMATCH scene {}: {}", s, m);
                std::process::exit(1);
            }
        }
        println!("no difference");
        return;
    }
    if a[1] == "plans" {
        // scenes for Miri, which would take long to make them
        let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
        let mut k = 0;
        for i in 0.. {
            if k == n {
                break;
            }
            if let Some(p) = plan(scene_seed(seed, i), true) {
                if p.gram.prods.len() > 5 {
                    continue;
                }
                let mut c = case::Case::new(p.gram, 0, scene_seed(seed, i));
                c.inputs = p.inputs;
                c.policies = vec![p.policy];
                print!("{}----\n", c.text());
                k += 1;
            }
        }
        return;
    }
    let mut plans: Vec<(u64, Plan)> = vec![];
    if a[1] == "file" {
        let text = std::fs::read_to_string(&a[2]).expect("plans");
        for t in text.split("----\n").filter(|t| !t.is_empty()) {
            let c = case::Case::parse(t).expect("plan").1;
            let limits = vec![u64::MAX / 4; c.inputs.len()];
            plans.push((c.seed, Plan { gram: c.gram, inputs: c.inputs, limits, policy: c.policies[0] }));
        }
    }
    let filed = a[1] == "file";
    let seed: u64 = a[2].parse().unwrap_or(0);
    let n: u64 = if filed { plans.len() as u64 } else { a[3].parse().unwrap() };
    let secs: u64 = if filed { 3600 } else { a[4].parse().unwrap() };
    let t0 = Instant::now();
    let at = Arc::new(AtomicU64::new(0));
    let since = Arc::new(AtomicU64::new(0));
    if !cfg!(miri) {
        // a deadlock leaves no other trace
        let (at, since) = (at.clone(), since.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = since.load(Ordering::Relaxed);
            if b > 0 && t0.elapsed().as_millis() as u64 > b + 60_000 {
                println!("STUCK {}", at.load(Ordering::Relaxed));
                std::process::exit(3);
            }
        });
    }
    for i in 0..n {
        if !cfg!(miri) && t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let (s, p) = if filed {
            plans.remove(0)
        } else {
            let s = scene_seed(seed, i);
            (s, plan(s, false).unwrap_or(Plan { gram: Gram { eps: 0, start: 0, prods: vec![] }, inputs: vec![], limits: vec![], policy: Policy::Never }))
        };
        let p = (!p.inputs.is_empty()).then_some(p);
        at.store(s, Ordering::Relaxed);
        since.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        if let Some(m) = any_kind(p, s, filed, &mut seen) {
            println!("MISMATCH scene {}: {}", s, m.chars().take(3000).collect::<String>());
            std::process::exit(1);
        }
    }
    since.store(0, Ordering::Relaxed);
    let esc = |s: &str| format!("{:?}", s);
    let m = |m: &BTreeMap<&'static str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    println!(
        "RESULT {{\"scenes\": {}, \"unusable\": {}, \"operations\": {}, \"expected_outcomes\": {}, \"overlapping_pairs\": {}, \"overlapping_parses_of_one_parser\": {}, \"injected_yields\": {}, \"max_parallel\": {}, \"crowded_scenes\": {}, \"most_threads_meeting_inside_parses\": {}, \"distinct_schedules\": {}, \"samples\": [{}]}}",
        seen.scenes, seen.unusable, m(&seen.ops), m(&seen.outcomes), seen.overlaps, seen.parse_overlaps,
        seen.yields, seen.max_parallel, seen.crowds, seen.met, seen.orders.len(),
        seen.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
    );
}
