//! One generator and one oracle per property.
use crate::case::Case;
use crate::gen;
use crate::gram::{Ana, Gram};
use crate::model::*;
use crate::real::*;
use crate::rng::{mix, Rng};
use crate::with_kind;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

pub enum V {
    Pass,
    Skip(&'static str),
    Bad(String),
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub skips: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            self.max(k, v);
        }
        for (k, v) in o.skips {
            *self.skips.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
    }
}

pub fn digest<T: std::fmt::Debug>(x: &T) -> u64 {
    // only used to count distinct cases
    struct W(u64);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.as_bytes().chunks(8) {
                let mut b = [0u8; 8];
                b[..c.len()].copy_from_slice(c);
                self.0 = (self.0 ^ u64::from_le_bytes(b)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
            }
            Ok(())
        }
    }
    let mut w = W(7);
    let _ = std::fmt::Write::write_fmt(&mut w, format_args!("{:?}", x));
    mix(w.0)
}
fn gdig(g: &Gram) -> u64 {
    let mut h = mix(g.eps as u64 ^ (g.start as u64) << 32);
    for (l, r) in &g.prods {
        h = mix(h ^ *l as u64 ^ 0x5555);
        for s in r {
            h = mix(h ^ *s as u64);
        }
    }
    h
}
fn tdig(t: &[Tok]) -> u64 {
    t.iter().fold(99, |h, t| mix(h ^ t.sym as u64))
}

pub fn malformed(g: &Gram) -> bool {
    g.prods
        .iter()
        .any(|(l, r)| *l == g.eps || r.is_empty() || (r.len() > 1 && r.contains(&g.eps)))
}

/// Budget for building grammars, sets and tables: far beyond what any generated grammar needs.
const BUILD: u64 = 600_000_000;

/// Settings that depend on the tier.
#[derive(Clone, Copy)]
pub struct Depth {
    pub thorough: bool,
    /// visits after which the reference search is given up
    pub cap: u64,
}

impl Depth {
    /// long inputs take longer searches
    fn cap_for(&self, t: &[Tok]) -> u64 {
        match (t.len(), SIZE.get()) {
            (n, _) if n > 400 => self.cap.max(40 * n as u64),
            (_, giant) if giant > 100_000 => self.cap.max(10 * giant),
            _ => self.cap,
        }
    }
}

thread_local! {
    /// symbols and productions of the grammar of the case: one visit may look at all of them
    static SIZE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn limit(visits: u64, n: usize) -> u64 {
    200_000 + (400 + 8 * SIZE.get()) * visits + 200 * n as u64
}

fn no_panic<R>(what: &str, r: Ran<R>) -> Result<R, String> {
    match r {
        Ran::Done(r) => Ok(r),
        Ran::Panicked(m) => Err(format!("{} panicked: {}", what, m)),
        Ran::Budget => Err(format!("{} does not end within its step budget", what)),
    }
}

fn build_grammar<K: Kind>(g: &Gram) -> Result<ContextFreeGrammar<K>, String> {
    no_panic("building the grammar", budgeted(BUILD, || grammar::<K>(g)).0)
}
fn build_sets<K: Kind>(g: &ContextFreeGrammar<K>) -> Result<FirstFollowSymbols<K>, String> {
    no_panic("computing FIRST and FOLLOW", budgeted(BUILD, || FirstFollowSymbols::from(g)).0)
}
fn build_plain<'a, K: Kind>(g: &'a ContextFreeGrammar<K>) -> Result<Plain<'a, K>, String> {
    no_panic("building the parser", budgeted(BUILD, || Plain::from_grammar(g)).0)
}
fn build_solving<'a, 's, K: Kind>(
    g: &'a ContextFreeGrammar<K>,
    s: &'s Scripted,
) -> Result<Solving<'a, 's, K>, String> {
    no_panic(
        "building the parser",
        budgeted(BUILD, || RecursiveDescentParser::from_grammar_and_solver(g, s)).0,
    )
}
fn parse1<'a, K: Kind, S: artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver<Lex, K>>(
    p: &RecursiveDescentParser<'a, Lex, K, S>,
    t: &[Tok],
    lim: u64,
) -> Parsed1 {
    parse(p, t, lim, &Arc::new(AtomicI64::new(0)))
}
fn parse_with<'a, K: Kind>(
    p: &Solving<'a, '_, K>,
    s: &Scripted,
    t: &[Tok],
    lim: u64,
    max_calls: usize,
) -> (Parsed1, Vec<Call>) {
    let live = Arc::new(AtomicI64::new(0));
    s.log.borrow_mut().clear();
    *s.expect.borrow_mut() = t.to_vec();
    *s.live.borrow_mut() = live.clone();
    s.max_calls.set(max_calls);
    let r = parse(p, t, lim, &live);
    let log = std::mem::take(&mut *s.log.borrow_mut());
    (r, log)
}

/// `t?` for build results: a violation where the property demands a result, a skip elsewhere.
macro_rules! need {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(m) => return V::Bad(m),
        }
    };
}
macro_rules! want {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(_) => return V::Skip("could not be built"),
        }
    };
}

// ---------------------------------------------------------------------------------------------
// inputs

pub fn inputs(rng: &mut Rng, g: &Gram, n: usize, target: usize) -> Vec<Vec<Tok>> {
    let ana = Ana::new(g);
    let al = gen::alphabet(&ana);
    let sm = gen::Sampler::new(&ana);
    let mut v: Vec<Vec<u32>> = vec![];
    for _ in 0..n {
        let t = match rng.below(10) {
            0..=5 => rng.below(8),
            6..=8 => rng.below(target.max(9)),
            _ => target,
        };
        let s = sm.sentence(rng, t, 400).map(|x| x.1).filter(|s| s.len() <= 30 * target + 60);
        let w = match (s, rng.below(10)) {
            (Some(s), 0..=3) if !s.is_empty() => s,
            (Some(s), 4..=8) => {
                let s2 = gen::mutate(rng, &s, &al);
                if s2.is_empty() { vec![al.hostile[0]] } else { s2 }
            }
            _ => gen::random_tokens(rng, &al, target.clamp(4, 14)),
        };
        v.push(w);
    }
    v.into_iter().map(|s| gen::toks(&s, rng)).collect()
}

fn policies(rng: &mut Rng, n: usize) -> Vec<Policy> {
    (0..n)
        .map(|_| match rng.below(12) {
            0 => Policy::Never,
            1 => Policy::Here,
            2 => Policy::Skip(rng.range(1, 3)),
            3 => Policy::ToEnd,
            4 => Policy::Skip(1000),
            _ => Policy::Hash(rng.next() >> 8),
        })
        .collect()
}

/// Symbol type: mostly cheap ones.
fn kind(rng: &mut Rng) -> usize {
    match rng.below(20) {
        0..=9 => 0,
        10..=13 => KIND_TAGGED,
        14..=16 => 2,
        17..=18 => 1,
        _ => KIND_COLLIDE,
    }
}
fn fit_kind(c: &mut Case) {
    // hash collisions make everything quadratic
    let size: usize = c.gram.prods.iter().map(|p| p.1.len() + 1).sum();
    if c.kind == KIND_COLLIDE && size > 120 {
        c.kind = KIND_TAGGED;
    }
}

pub fn gen_case(prop: &str, seed: u64, d: Depth) -> Case {
    let rng = &mut Rng::new(seed);
    let big = if d.thorough { 60 } else { 30 };
    if let Some(c) = huge_case(prop, seed, rng) {
        return c;
    }
    // the search ends on some inputs all the same
    let recursive = matches!(prop, "C06" | "C08" | "C09" | "C11" | "C12" | "C13" | "C14" | "C15") && rng.pct(8);
    let mut c = match prop {
        "C01" => {
            let mut g = if rng.pct(50) { gen::any(rng) } else { storage(rng) };
            if rng.pct(20) {
                g = gen::relabel(&g, rng).0;
            }
            Case::new(g, kind(rng), seed)
        }
        "C02" => Case::new(maybe_malformed(rng), kind(rng), seed),
        "C03" | "C04" | "C05" => {
            let g = gen::any(rng);
            Case::new(g, kind(rng), seed)
        }
        "C06" | "C09" | "C11" => {
            let g = if rng.pct(45) { gen::conflicting(rng) } else { gen::parsable(rng) };
            let k = if prop == "C09" && rng.pct(70) { KIND_TAGGED } else { kind(rng) };
            let mut c = Case::new(g, k, seed);
            c.inputs = inputs(rng, &c.gram, 6, big);
            c.policies = policies(rng, if prop == "C11" { 1 } else { 2 });
            c
        }
        "C07" => {
            let g = gen::ll1(rng);
            let mut c = Case::new(g, kind(rng), seed);
            let target = if rng.pct(6) { 200 } else { big };
            c.inputs = inputs(rng, &c.gram, 8, target);
            c
        }
        "C08" => {
            let g = if rng.pct(85) { gen::conflicting(rng) } else { gen::parsable(rng) };
            let mut c = Case::new(g, kind(rng), seed);
            c.inputs = inputs(rng, &c.gram, 8, 14);
            c
        }
        "C10" => {
            let g = if rng.pct(25) { gen::any(rng) } else { gen::parsable(rng) };
            let mut c = Case::new(g, kind(rng), seed);
            c.inputs = inputs(rng, &c.gram, 5, big);
            // every truncation of one of them
            if let Some(i) = c.inputs.first().cloned() {
                if i.len() <= 16 {
                    for n in 1..i.len() {
                        c.inputs.push(i[..n].to_vec());
                    }
                }
            }
            if rng.pct(3) {
                c.inputs.push(vec![]);
            }
            c.policies = policies(rng, 2);
            c
        }
        "C12" | "C13" | "C14" => {
            let g = match rng.below(10) {
                0..=3 => gen::conflicting(rng),
                4..=6 => gen::parsable(rng),
                _ => gen::ll1(rng),
            };
            let mut c = Case::new(g, kind(rng), seed);
            c.inputs = inputs(rng, &c.gram, 5, 14);
            c.policies = policies(rng, 3);
            if rng.pct(3) {
                let (g, i) = gen::given_up(rng);
                let al = gen::alphabet(&Ana::new(&g));
                c.inputs = (0..3).map(|k| gen::toks(&if k == 0 { i.clone() } else { gen::mutate(rng, &i, &al) }, rng)).collect();
                c.policies.extend([Policy::Here, Policy::Skip(1)]);
                c.gram = g;
            }
            if rng.pct(1) {
                // many errors in one input
                let (g, i, skip) = gen::many_errors(rng);
                c.inputs = vec![gen::toks(&i, rng)];
                c.policies = vec![Policy::Far(skip)];
                c.gram = g;
                c.kind = *rng.pick(&[0, 0, KIND_TAGGED]);
            }
            if prop == "C12" {
                c.policies[0] = Policy::Never;
            }
            c
        }
        "C15" => {
            let g = match rng.below(10) {
                0..=3 => gen::conflicting(rng),
                4..=7 => gen::parsable(rng),
                _ => gen::ll1(rng),
            };
            let mut c = Case::new(g, 0, seed);
            c.inputs = inputs(rng, &c.gram, 4, 14);
            c.policies = policies(rng, 1);
            c
        }
        "C17" => {
            let mut c = Case::new(Gram { eps: 0, start: 0, prods: vec![] }, kind(rng), seed);
            let n = rng.range(2, 6);
            let syms: Vec<u32> = (0..n).map(|_| rng.below(4) as u32).collect();
            c.inputs = vec![gen::toks(&syms, rng)];
            for t in c.inputs[0].iter_mut() {
                if rng.pct(30) {
                    t.lex = if rng.pct(50) { None } else { Some(5) };
                }
            }
            c
        }
        "C18" => {
            let g = gen::ll1(rng);
            let mut c = Case::new(g, *rng.pick(&[0usize, 0, 4]), seed);
            let target = match rng.below(8) {
                0 => if d.thorough { 6000 } else { 2500 },
                1 | 2 => 600,
                _ => 80,
            };
            c.inputs = long_inputs(rng, &c.gram, target);
            c
        }
        "C19" | SOAK => {
            let g = match rng.below(10) {
                0..=2 => gen::conflicting(rng),
                3..=4 => gen::parsable(rng),
                _ => gen::ll1(rng),
            };
            let mut c = Case::new(g, kind(rng), seed);
            c.inputs = inputs(rng, &c.gram, 5, 14);
            if rng.pct(25) {
                let target = match rng.below(8) {
                    0 => if d.thorough { 6000 } else { 3000 },
                    1 | 2 => 800,
                    _ => 120,
                };
                c.inputs.truncate(1);
                c.inputs.extend(long_inputs(rng, &c.gram, target));
            }
            c.policies = policies(rng, 1);
            c
        }
        "C21" => {
            let g = match rng.below(10) {
                0..=3 => gen::conflicting(rng),
                4..=6 => gen::parsable(rng),
                7..=8 => gen::ll1(rng),
                _ => maybe_malformed(rng),
            };
            let mut c = Case::new(g, kind(rng), seed);
            if !malformed(&c.gram) {
                c.inputs = inputs(rng, &c.gram, 5, 14);
                c.policies = policies(rng, 1);
            }
            c
        }
        "C20" => {
            let g = if rng.pct(70) { gen::analysis(rng) } else { gen::any(rng) };
            Case::new(g, *rng.pick(&[0, 0, 2, KIND_TAGGED]), seed)
        }
        "C22" => {
            if rng.pct(8) {
                let (g, v) = gen::flat(rng, if d.thorough { 70_000 } else { 20_000 });
                let mut c = Case::new(g, *rng.pick(&[0, 0, KIND_TAGGED]), seed);
                c.inputs = v.iter().map(|s| gen::toks(s, rng)).collect();
                c
            } else {
                let g = match rng.below(10) {
                    0..=2 => gen::conflicting(rng),
                    3..=4 => gen::parsable(rng),
                    5..=6 => gen::analysis(rng),
                    _ => gen::ll1(rng),
                };
                let mut c = Case::new(g, kind(rng), seed);
                c.inputs = inputs(rng, &c.gram, 5, 14);
                if rng.pct(25) {
                    let target = if Ana::new(&c.gram).is_ll1() { *rng.pick(&[120, 600, 2500]) } else { 60 };
                    c.inputs.extend(long_inputs(rng, &c.gram, target));
                }
                c.policies = policies(rng, 1);
                c
            }
        }
        "C23" => {
            let g = match rng.below(10) {
                0..=4 => gen::conflicting(rng),
                5..=6 => gen::parsable(rng),
                _ => gen::ll1(rng),
            };
            let mut c = Case::new(g, *rng.pick(&[0, 0, 2, KIND_TAGGED]), seed);
            c.inputs = inputs(rng, &c.gram, 5, 14);
            if rng.pct(40) {
                let target = *rng.pick(&[60, 120, 300]);
                c.inputs.extend(long_inputs(rng, &c.gram, target));
            }
            c.policies = policies(rng, 1);
            c.policies.push(Policy::Never);
            c
        }
        "C24" => {
            let g = match rng.below(10) {
                0..=3 => gen::wide(rng, if d.thorough { 3000 } else { 1200 }),
                4..=5 => gen::analysis(rng),
                _ => gen::any(rng),
            };
            Case::new(g, *rng.pick(&[0, 0, 1, 2, KIND_TAGGED]), seed)
        }
        "C25" => {
            let g = match rng.below(10) {
                0..=4 => gen::conflicting(rng),
                5..=6 => gen::parsable(rng),
                7 => gen::recursive(rng),
                _ => gen::ll1(rng),
            };
            let mut c = Case::new(g, *rng.pick(&[0, 0, 1, 2, KIND_TAGGED]), seed);
            c.inputs = inputs(rng, &c.gram, 3, 10);
            c.policies = policies(rng, 1);
            c
        }
        _ => unreachable!("unknown property"),
    };
    if recursive {
        c.gram = gen::recursive(rng);
        c.inputs = inputs(rng, &c.gram, c.inputs.len(), 14);
    }
    fit_kind(&mut c);
    c
}

/// Now and then, sizes that small integers cannot count.
/// Seeds of the extreme cases in every run: the upper half says which kind they are.
const FORCED: u64 = 0xA5C3_9D00;
pub const SPECIAL: u64 = 96;
pub fn special_seed(i: u64, seed: u64) -> u64 {
    (FORCED | i % 3) << 32 | seed & 0xFFFF_FF00 | i / 3 & 0xFF
}
#[derive(Clone, Copy, PartialEq)]
enum Extreme {
    Giant,
    Grammar,
    Input,
}
fn extreme(seed: u64, rng: &mut Rng) -> Option<Extreme> {
    match (seed >> 32) ^ FORCED {
        0 => return Some(Extreme::Giant),
        1 => return Some(Extreme::Grammar),
        2 => return Some(Extreme::Input),
        _ => {}
    }
    match rng.below(2500) {
        0 => Some(Extreme::Grammar),
        1 => Some(Extreme::Input),
        _ => None,
    }
}

fn huge_case(prop: &str, seed: u64, rng: &mut Rng) -> Option<Case> {
    let which = extreme(seed, rng);
    // in those, the families take turns
    let turn = if (seed >> 32) & !0xFF == FORCED { seed as usize & 0xFF } else { rng.below(840) };
    let search = match prop {
        "C08" => 20,
        "C06" | "C09" | "C11" | "C12" | "C13" | "C14" | "C15" | "C19" | "C21" | "C22" => 10,
        "C23" => 25,
        "C10" => 5,
        _ => 0,
    };
    if search > 0 && which.is_none() && rng.pct(search) {
        let (g, v) = gen::backtrack(rng);
        let mut c = Case::new(g, kind(rng), seed);
        c.inputs = v.iter().map(|s| gen::toks(s, rng)).collect();
        c.inputs.truncate(if prop == "C08" { 6 } else { 4 });
        if prop != "C08" {
            c.policies = policies(rng, if prop == "C11" || prop == "C15" { 1 } else { 2 });
        }
        if prop == "C12" {
            c.policies[0] = Policy::Never;
        }
        if prop == "C15" || prop == "C23" {
            c.kind = 0;
        }
        if prop == "C09" && rng.pct(70) {
            c.kind = KIND_TAGGED;
        }
        fit_kind(&mut c);
        return Some(c);
    }
    if which == Some(Extreme::Giant) {
        let sets = matches!(prop, "C01" | "C02" | "C03" | "C04");
        if sets || matches!(prop, "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14") {
            let (mut g, v) = gen::giant(rng, sets, turn);
            if prop == "C02" && rng.pct(60) {
                // the fault sits far behind
                let i = g.prods.len() - 1 - rng.below(g.prods.len().min(300));
                match rng.below(4) {
                    0 => g.prods[i].1 = vec![],
                    1 => g.prods[i].0 = g.eps,
                    _ => {
                        let eps = g.eps;
                        let o = &mut g.prods[i].1;
                        o.push(eps);
                        let (k, l) = (o.len() - 1 - rng.below(o.len().min(400)), o.len() - 1);
                        o.swap(k, l);
                    }
                }
            }
            let mut c = Case::new(g, *rng.pick(&[0, 0, KIND_TAGGED]), seed);
            if !sets && prop != "C05" {
                c.inputs = v.iter().map(|s| gen::toks(s, rng)).collect();
            }
            if prop == "C12" {
                c.policies = vec![Policy::Never];
            }
            if matches!(prop, "C13" | "C14") {
                c.policies = policies(rng, 1);
            }
            return Some(c);
        }
    }
    match prop {
        "C01" | "C03" | "C04" | "C05" | "C10" | "C20" | "C21" | "C22" if which == Some(Extreme::Grammar) => {
            Some(Case::new(gen::huge_grammar(rng, turn), *rng.pick(&[0, 0, KIND_TAGGED]), seed))
        }
        "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C21" | "C23"
            if which == Some(Extreme::Input) =>
        {
            // requests to solvers hold the whole nested failure each
            let solver = matches!(prop, "C12" | "C13" | "C14" | "C15");
            let (g, v) = gen::huge(rng, if solver { 900 } else { 70_000 }, (seed >> 32) ^ FORCED == 2, turn);
            let mut c = Case::new(g, *rng.pick(&[0, 0, KIND_TAGGED]), seed);
            c.inputs = v.iter().map(|s| gen::toks(s, rng)).collect();
            let long = c.inputs.iter().any(|i| i.len() > 1000);
            c.policies = if prop == "C07" || prop == "C08" || prop == "C11" || long { vec![] } else { policies(rng, 1) };
            if prop == "C12" {
                c.policies = vec![Policy::Never];
            }
            if prop == "C15" {
                c.kind = 0;
            }
            Some(c)
        }
        _ => None,
    }
}

/// Long sentences, and the same with one error near the end.
fn long_inputs(rng: &mut Rng, g: &Gram, target: usize) -> Vec<Vec<Tok>> {
    let ana = Ana::new(g);
    let al = gen::alphabet(&ana);
    let sm = gen::Sampler::new(&ana);
    let mut v = vec![];
    for k in 0..3 {
        if let Some((_, s)) = sm.sentence(rng, (target >> k).max(2), 20 * target) {
            if s.is_empty() || s.len() > 40 * target + 100 {
                continue;
            }
            let mut e = s.clone();
            match rng.below(4) {
                0 => {
                    let i = e.len() - 1 - rng.below(e.len().min(3));
                    e[i] = al.pick(rng, 10);
                }
                1 => e.truncate((e.len() - rng.below(e.len().min(4))).max(1)),
                2 => {
                    let i = rng.below(e.len());
                    e[i] = al.pick(rng, 5);
                }
                _ => {
                    let n = e.len();
                    for _ in 0..n {
                        e.push(al.pick(rng, 1));
                    }
                }
            }
            v.push(gen::toks(&s, rng));
            v.push(gen::toks(&e, rng));
        }
    }
    v
}

/// Production lists made to stress grouping, order and duplicates.
fn storage(rng: &mut Rng) -> Gram {
    let nn = rng.range(1, 14);
    let nt = rng.range(0, 10);
    let total = match rng.below(10) {
        0 => 0,
        1 => rng.range(60, 400),
        _ => rng.range(1, 40),
    };
    let top = (nn + nt + 1) as u32;
    let mut prods: Vec<(u32, Vec<u32>)> = vec![];
    for _ in 0..total {
        if !prods.is_empty() && rng.pct(15) {
            let p = rng.pick(&prods).clone();
            if rng.pct(50) {
                prods.push(p);
            } else {
                let l = 1 + rng.below(nn) as u32;
                prods.push((l, p.1));
            }
            continue;
        }
        let l = 1 + rng.below(nn) as u32;
        let r = if rng.pct(15) {
            vec![0]
        } else {
            let n = if rng.pct(4) { rng.range(20, 200) } else { rng.range(1, 6) };
            (0..n).map(|_| 1 + rng.below(top as usize - 1) as u32).collect()
        };
        prods.push((l, r));
    }
    Gram { eps: 0, start: rng.below(top as usize + 3) as u32, prods }
}

fn maybe_malformed(rng: &mut Rng) -> Gram {
    let mut g = match rng.below(4) {
        0 => gen::any(rng),
        1 => gen::degenerate(rng),
        _ => storage(rng),
    };
    let eps = g.eps;
    let n = match rng.below(10) {
        0..=3 => 0,
        4..=8 => 1,
        _ => 2,
    };
    for _ in 0..n {
        let at = match rng.below(4) {
            0 => 0,
            1 => g.prods.len(),
            _ => rng.below(g.prods.len() + 1),
        };
        let some = |rng: &mut Rng, g: &Gram| -> u32 {
            if g.prods.is_empty() { 1 } else { rng.pick(&g.prods).0 }
        };
        let l = if rng.pct(70) { some(rng, &g) } else { 77 };
        match rng.below(7) {
            0 => {
                // the empty-string symbol generates something
                let s = some(rng, &g);
                g.prods.insert(at, (eps, vec![if s == eps { 1 } else { s }]));
            }
            1 => g.prods.insert(at, (eps, vec![eps])),
            2 => g.prods.insert(at, (l, vec![])),
            3 => g.prods.insert(at, (l, vec![eps; rng.range(2, 4)])),
            _ => {
                let n = match rng.below(12) {
                    0 => rng.range(100, 400),
                    1 | 2 => rng.range(9, 99),
                    _ => rng.range(2, 8),
                };
                let mut r: Vec<u32> = (0..n).map(|_| some(rng, &g)).collect();
                let i = match rng.below(3) {
                    0 => 0,
                    1 => n - 1,
                    _ => rng.below(n),
                };
                r[i] = eps;
                g.prods.insert(at, (l, r));
            }
        }
    }
    g
}

// ---------------------------------------------------------------------------------------------

pub fn check_case(prop: &str, c: &Case, st: &mut Stats, d: Depth) -> V {
    if prop != "C02" && prop != "C21" && malformed(&c.gram) {
        return V::Skip("malformed grammar");
    }
    let size = c.gram.prods.iter().map(|p| 2 + p.1.len() as u64).sum();
    SIZE.set(size);
    st.add("giant grammars", (size > 60_000) as u64);
    let v = match prop {
        "C01" => with_kind!(c.kind, c01, c, st),
        "C02" => with_kind!(c.kind, c02, c, st),
        "C03" => with_kind!(c.kind, c03, c, st),
        "C04" => with_kind!(c.kind, c04, c, st),
        "C05" => with_kind!(c.kind, c05, c, st),
        "C06" => with_kind!(c.kind, c06, c, st, d),
        "C07" => with_kind!(c.kind, c07, c, st),
        "C08" => with_kind!(c.kind, c08, c, st, d),
        "C09" => with_kind!(c.kind, c09, c, st, d),
        "C10" => with_kind!(c.kind, c10, c, st, d),
        "C11" => with_kind!(c.kind, c11, c, st, d),
        "C12" => with_kind!(c.kind, c12, c, st, d),
        "C13" => with_kind!(c.kind, c13_14, c, st, d, false),
        "C14" => with_kind!(c.kind, c13_14, c, st, d, true),
        "C15" => c15(c, st, d),
        "C17" => with_kind!(c.kind, c17, c, st),
        "C18" => with_kind!(c.kind, c18, c, st),
        "C19" => with_kind!(c.kind, c19, c, st, d),
        SOAK => with_kind!(c.kind, c19_soak, c, st, d),
        "C20" => with_kind!(c.kind, c20, c, st),
        "C21" => with_kind!(c.kind, c21, c, st, d),
        "C22" => with_kind!(c.kind, c22, c, st, d),
        "C23" => with_kind!(c.kind, c23, c, st, d),
        "C24" => with_kind!(c.kind, c24, c, st),
        "C25" => with_kind!(c.kind, c25, c, st, d),
        _ => unreachable!("unknown property"),
    };
    match v {
        // more work is not what these properties are about, and here it may be the square of much
        V::Bad(m) if size > 60_000 && m.contains("step budget") => V::Skip("giant grammar: too much work"),
        v => v,
    }
}

/// ids worth asking about: every symbol, and two that the grammar does not know
pub fn asked(ana: &Ana) -> Vec<u32> {
    let mut v = ana.syms.clone();
    let top = *v.last().unwrap();
    v.push(top + 1);
    v.push(top + 23);
    v
}

fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort_unstable();
    v
}

fn c01<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    let r = no_panic(
        "building or reading the grammar",
        budgeted(BUILD, || {
            let g = grammar::<K>(&c.gram);
            c01_read(c, &ana, &g)
        })
        .0,
    );
    if let Err(m) = need!(r) {
        return V::Bad(m);
    }
    st.add("productions read back", c.gram.prods.len() as u64);
    st.add("symbols queried", ana.n() as u64 + 2);
    st.max("productions in one grammar", c.gram.prods.len() as u64);
    if c.gram.prods.len() >= 3 {
        st.seen(gdig(&c.gram));
    }
    V::Pass
}
fn c01_read<K: Kind>(c: &Case, ana: &Ana, g: &ContextFreeGrammar<K>) -> Result<(), String> {
    let nts: Vec<u32> = (0..ana.n()).filter(|i| ana.is_nt[*i]).map(|i| ana.syms[i]).collect();
    let ts: Vec<u32> = (0..ana.n()).filter(|i| ana.is_term[*i]).map(|i| ana.syms[i]).collect();
    let rn = sorted(g.get_non_terminal_symbols().iter().map(|s| s.id()).collect());
    let rt = sorted(g.get_terminal_symbols().iter().map(|s| s.id()).collect());
    if rn != nts {
        return Err(format!("non-terminals are {:?}, expected {:?}", rn, nts));
    }
    if rt != ts {
        return Err(format!("terminals are {:?}, expected {:?}", rt, ts));
    }
    if g.get_epsilon_symbol().id() != c.gram.eps || g.get_initial_symbol().id() != c.gram.start {
        return Err("start or empty-string symbol is not the one given".into());
    }
    // `grammar` numbers the values that it passes: inputs and outputs in order, then these two
    let passed: Vec<u32> = c.gram.prods.iter().scan(1_000_000u32, |at, p| {
        *at += 1 + p.1.len() as u32;
        Some(*at - p.1.len() as u32)
    }).collect();
    let end = 1_000_000 + c.gram.prods.iter().map(|p| 1 + p.1.len() as u32).sum::<u32>();
    for (symbol, tag, what) in [(g.get_epsilon_symbol(), end + 1, "empty-string"), (g.get_initial_symbol(), end + 2, "start")] {
        if symbol.tag().is_some_and(|t| t != tag) {
            return Err(format!("the {} symbol is another value than the one given, though equal to it", what));
        }
    }
    for id in asked(ana) {
        let s = K::enc(id, 0);
        let (is_nt, is_t) = match ana.ix(id) {
            Some(i) => (ana.is_nt[i], ana.is_term[i]),
            None => (false, false),
        };
        if g.is_non_terminal(&s) != is_nt {
            return Err(format!("is_non_terminal({}) = {}", id, !is_nt));
        }
        if g.is_terminal(&s) != is_t {
            return Err(format!("is_terminal({}) = {}", id, !is_t));
        }
        let got: Vec<(u32, Vec<u32>)> = g
            .get_productions(&s)
            .map(|v| v.iter().map(|p| (p.input.id(), p.output.iter().map(|x| x.id()).collect())).collect())
            .unwrap_or_default();
        let of: &[usize] = ana.ix(id).map_or(&[], |i| &ana.by_nt[i]);
        let want: Vec<(u32, Vec<u32>)> = of.iter().map(|p| c.gram.prods[*p].clone()).collect();
        if got != want {
            return Err(format!("productions of {} are {:?}, declared {:?}", id, got, want));
        }
        for (p, at) in g.get_productions(&s).into_iter().flatten().zip(of) {
            if p.output.iter().enumerate().any(|(i, o)| o.tag().is_some_and(|t| t != passed[*at] + 1 + i as u32)) {
                return Err(format!("an output of {} holds other values than those declared, though equal to them", id));
            }
            let k = p.clone();
            let same = |a: &K, b: &K| a.id() == b.id() && a.tag() == b.tag();
            if !same(&k.input, &p.input)
                || k.output.len() != p.output.len()
                || !k.output.iter().zip(&p.output).all(|(a, b)| same(a, b))
            {
                return Err(format!("the copy of a production of {} is another", id));
            }
        }
        if is_nt && g.get_productions(&s).is_none() {
            return Err(format!("no productions for {}", id));
        }
    }
    Ok(())
}

fn c02<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let bad = malformed(&c.gram);
    let (r, _) = budgeted(BUILD, || {
        let g = grammar::<K>(&c.gram);
        std::hint::black_box(g.get_epsilon_symbol().id());
    });
    match (r, bad) {
        (Ran::Done(_), false) => st.add("well-formed lists accepted", 1),
        (Ran::Panicked(_), true) => st.add("malformed lists refused", 1),
        (Ran::Done(_), true) => return V::Bad("a malformed production list was accepted".into()),
        (Ran::Panicked(m), false) => return V::Bad(format!("a well-formed production list was refused: {}", m)),
        (Ran::Budget, _) => return V::Bad("construction does not end within its step budget".into()),
    }
    st.max("productions in one list", c.gram.prods.len() as u64);
    if bad || c.gram.prods.len() >= 3 {
        st.seen(gdig(&c.gram));
    }
    V::Pass
}

fn ids<'x, K: Kind>(it: impl Iterator<Item = &'x K>) -> Vec<u32> {
    sorted(it.map(|s| s.id()).collect())
}

fn sets_case(c: &Case, ana: &Ana, st: &mut Stats) {
    let rec = ana.left_recursion().is_some();
    st.add("grammars with left recursion", rec as u64);
    st.add("grammars with nullable symbols", ana.nullable.iter().any(|x| *x) as u64);
    st.max("productions in one grammar", c.gram.prods.len() as u64);
    st.max("symbols in one grammar", ana.n() as u64);
    if c.gram.prods.len() >= 3 {
        st.seen(gdig(&c.gram));
    }
}

fn want_first(c: &Case, ana: &Ana, id: u32) -> Option<Vec<u32>> {
    let i = ana.ix(id)?;
    if ana.is_nt[i] {
        let mut v: Vec<u32> = ana.first[i].iter().map(|x| ana.syms[x]).collect();
        if ana.nullable[i] {
            v.push(c.gram.eps);
        }
        Some(sorted(v))
    } else if ana.is_term[i] {
        Some(vec![id])
    } else {
        None
    }
}

fn c03<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    for supplied in [false, false, true] {
        let g = want!(build_grammar::<K>(&c.gram));
        let ff = if supplied { supplied_sets::<K>(c, &ana) } else { need!(build_sets(&g)) };
        for id in asked(&ana) {
            let got = ff.get_first_symbols(&K::enc(id, 0)).map(|s| ids(s.iter()));
            let want = want_first(c, &ana, id);
            if got != want {
                return V::Bad(format!("FIRST({}) = {:?}, expected {:?}", id, got, want));
            }
            st.add("sets compared", 1);
            st.add("set members compared", want.map_or(0, |w| w.len() as u64));
        }
    }
    if let Some(m) = any_sets::<K>(c, &ana, true) {
        return V::Bad(m);
    }
    st.add("supplied sets read back", 1);
    sets_case(c, &ana, st);
    V::Pass
}

fn want_follow(ana: &Ana, id: u32) -> Option<Vec<u32>> {
    match ana.ix(id) {
        Some(i) if ana.is_nt[i] => Some(ana.follow[i].iter().map(|x| ana.syms[x]).collect()),
        _ => None,
    }
}

fn c04<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    for supplied in [false, false, true] {
        let g = want!(build_grammar::<K>(&c.gram));
        let ff = if supplied { supplied_sets::<K>(c, &ana) } else { need!(build_sets(&g)) };
        for id in asked(&ana) {
            let got = ff.get_follow_symbols(&K::enc(id, 0)).map(|s| ids(s.iter()));
            let want = want_follow(&ana, id);
            if got != want {
                return V::Bad(format!("FOLLOW({}) = {:?}, expected {:?}", id, got, want));
            }
            st.add("sets compared", 1);
            st.add("set members compared", want.map_or(0, |w| w.len() as u64));
        }
    }
    if let Some(m) = any_sets::<K>(c, &ana, false) {
        return V::Bad(m);
    }
    st.add("supplied sets read back", 1);
    sets_case(c, &ana, st);
    V::Pass
}

/// The sets of the reference analysis as the library's own type.
fn supplied_sets<K: Kind>(c: &Case, ana: &Ana) -> FirstFollowSymbols<K> {
    let set = |v: Vec<u32>| v.into_iter().map(|s| K::enc(s, 0)).collect();
    let ids = |want: &dyn Fn(u32) -> Option<Vec<u32>>| {
        ana.syms.iter().filter_map(|s| want(*s).map(|v| (K::enc(*s, 0), set(v)))).collect()
    };
    FirstFollowSymbols::new(ids(&|s| want_first(c, ana, s)), ids(&|s| want_follow(ana, s)))
}

/// Sets that have nothing to do with any grammar are returned as they were supplied.
fn any_sets<K: Kind>(c: &Case, ana: &Ana, firsts: bool) -> Option<String> {
    let rng = &mut Rng::new(c.seed ^ 0xA11);
    let ask = asked(ana);
    let mut draw = |members: usize| -> Vec<(u32, Vec<u32>)> {
        let keys: std::collections::BTreeSet<u32> = (0..rng.below(6)).map(|_| *rng.pick(&ask)).collect();
        keys.into_iter()
            .map(|k| {
                let set: std::collections::BTreeSet<u32> = (0..rng.below(members)).map(|_| *rng.pick(&ask)).collect();
                (k, set.into_iter().collect())
            })
            .collect()
    };
    let (first, follow) = (draw(5), draw(5));
    let map = |sets: &[(u32, Vec<u32>)]| {
        sets.iter().map(|(k, v)| (K::enc(*k, 0), v.iter().map(|s| K::enc(*s, 0)).collect())).collect()
    };
    let ff: FirstFollowSymbols<K> = FirstFollowSymbols::new(map(&first), map(&follow));
    for id in ask {
        let s = K::enc(id, 0);
        let (name, got, sets) = match firsts {
            true => ("FIRST", ff.get_first_symbols(&s), &first),
            false => ("FOLLOW", ff.get_follow_symbols(&s), &follow),
        };
        let got = got.map(|s| ids(s.iter()));
        let want = sets.iter().find(|x| x.0 == id).map(|x| x.1.clone());
        if got != want {
            return Some(format!("{}({}) = {:?}, supplied as {:?}", name, id, got, want));
        }
    }
    None
}

/// Sets of a caller who knows better: terminals are missing from those of non-terminals, and others
/// are in them.
fn own_sets(c: &Case, ana: &Ana) -> Ana {
    let rng = &mut Rng::new(c.seed ^ 0x0E1);
    let mut own = ana.clone();
    let terms: Vec<usize> = (0..ana.n()).filter(|i| ana.is_term[*i] && *i != ana.eps).collect();
    for i in (0..ana.n()).filter(|i| ana.is_nt[*i]) {
        for (sets, most) in [(&mut own.first, 15usize), (&mut own.follow, 40)] {
            for t in &terms {
                if rng.pct(if terms.len() > 40 { 2 } else { most }) {
                    sets[i].flip(*t);
                }
            }
        }
    }
    own.predict_again();
    own
}

/// Tables too large to look at every pair: all entries that must not be empty, others at random.
fn c05_giant<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let rng = &mut Rng::new(c.seed ^ 0x61A);
    let ana = Ana::new(&c.gram);
    let ask = asked(&ana);
    for supplied in [false, true] {
        let g = want!(build_grammar::<K>(&c.gram));
        let ff = if supplied { supplied_sets::<K>(c, &ana) } else { want!(build_sets(&g)) };
        let (r, _) = budgeted(BUILD, || RecursiveDescentParserTransitions::from(&g, &ff));
        let t = need!(no_panic("building the table", r));
        for i in 0..ana.n() {
            let row = ana.syms[i];
            let mut want: std::collections::BTreeMap<u32, Vec<usize>> = Default::default();
            for p in &ana.by_nt[i] {
                for k in ana.predict[*p].iter() {
                    want.entry(ana.syms[k]).or_default().push(*p);
                }
            }
            let n = if ana.is_nt[i] { if want.len() > 500 { 500 } else { 5 } } else { 1 };
            for _ in 0..n {
                want.entry(*rng.pick(&ask)).or_default();
            }
            for (b, ps) in want {
                let got = t.get_productions(&K::enc(row, 0), &K::enc(b, 0));
                let n = got.map_or(0, |v| v.len());
                let same = n == ps.len()
                    && got.into_iter().flatten().zip(&ps).all(|(p, w)| {
                        let (l, r) = &c.gram.prods[*w];
                        p.input.id() == *l
                            && p.output.len() == r.len()
                            && p.output.iter().zip(r).all(|(x, y)| x.id() == *y)
                    });
                if !same {
                    return V::Bad(format!(
                        "table entry of {} on {} has {} productions, expected {} (others, or in another order)",
                        row, b, n, ps.len()
                    ));
                }
                st.add("entries compared", 1);
                st.add("non-empty entries compared", !ps.is_empty() as u64);
                st.add("entries with competing productions", (ps.len() > 1) as u64);
            }
        }
    }
    st.add("tables of giant grammars", 1);
    sets_case(c, &ana, st);
    V::Pass
}

fn c05<K: Kind>(c: &Case, st: &mut Stats) -> V {
    if SIZE.get() > 60_000 {
        return c05_giant::<K>(c, st);
    }
    let known = Ana::new(&c.gram);
    let ask = asked(&known);
    let cells = ask.len() * ask.len();
    for round in 0..3 {
        let g = want!(build_grammar::<K>(&c.gram));
        // the second time from sets that the caller supplies, then from such that differ
        let own;
        let ana = if round == 2 { own = own_sets(c, &known); &own } else { &known };
        let ff = if round > 0 { supplied_sets::<K>(c, ana) } else { want!(build_sets(&g)) };
        let (r, _) = budgeted(BUILD, || RecursiveDescentParserTransitions::from(&g, &ff));
        let t = need!(no_panic("building the table", r));
        for a in &ask {
            let sa = K::enc(*a, 0);
            for b in &ask {
                // large tables: every non-terminal row, a sample of the others
                let nt = ana.ix(*a).is_some_and(|i| ana.is_nt[i]);
                if !nt && cells > 4000 && (a.wrapping_mul(31) ^ b) % 16 != 0 {
                    continue;
                }
                let got = t.get_productions(&sa, &K::enc(*b, 0));
                let want: Vec<usize> = match ana.ix(*a) {
                    Some(i) if ana.is_nt[i] => ana.cands(i, *b),
                    _ => vec![],
                };
                let same = match got {
                    None => want.is_empty(),
                    Some(v) => {
                        v.len() == want.len()
                            && v.iter().zip(&want).all(|(p, w)| {
                                let (l, r) = &c.gram.prods[*w];
                                p.input.id() == *l
                                    && p.output.len() == r.len()
                                    && p.output.iter().zip(r).all(|(x, y)| x.id() == *y)
                            })
                    }
                };
                if !same {
                    let got: Vec<Vec<u32>> = got
                        .map(|v| v.iter().map(|p| p.output.iter().map(|x| x.id()).collect()).collect())
                        .unwrap_or_default();
                    let want: Vec<&Vec<u32>> = want.iter().map(|w| &c.gram.prods[*w].1).collect();
                    return V::Bad(format!("table entry of {} on {} is {:?}, expected {:?}", a, b, got, want));
                }
                st.add("entries compared", 1);
                st.add("non-empty entries compared", !want.is_empty() as u64);
                st.add("entries with competing productions", (want.len() > 1) as u64);
            }
        }
    }
    sets_case(c, &known, st);
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// parsing

fn parse_stats(st: &mut Stats, out: &Outcome, t: &[Tok]) {
    st.add("parses", 1);
    match out {
        Outcome::Ok(_) => st.add("accepted", 1),
        Outcome::Err(_) => st.add("rejected", 1),
        Outcome::Fix(_) => st.add("repaired", 1),
        Outcome::Panic(_) => st.add("panicked", 1),
        Outcome::Budget => st.add("out of budget", 1),
    }
    st.max("tokens in one input", t.len() as u64);
}

fn c06<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let (_, _, cnt) = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let mut outs = vec![parse1(&p, t, limit(cnt.visits, t.len())).out];
        for pol in &c.policies {
            let (_, _, cnt) = match Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let s = Scripted::new(*pol);
            let ps = want!(build_solving::<K>(&g, &s));
            outs.push(parse_with(&ps, &s, t, limit(cnt.visits, t.len()), 10_000).0.out);
        }
        for out in outs {
            parse_stats(st, &out, t);
            if let Outcome::Ok(tree) = &out {
                match derivation(&ana, t, tree, c.gram.start, 0) {
                    Err(m) => return V::Bad(format!("accepted with a tree that is no derivation: {}; tree {}", m, tree.show())),
                    Ok(end) => {
                        st.add("tree nodes checked", tree.size() as u64);
                        st.add("accepted with tokens left over", (end < t.len()) as u64);
                        st.add("accepted after competing productions", (cnt.choices > 0) as u64);
                        st.max("tree depth", tree.depth() as u64);
                        if tree.size() > 3 {
                            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
                        }
                    }
                }
            }
        }
    }
    V::Pass
}

fn c07<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    if ana.left_recursion().is_some() || !ana.is_ll1() || ana.end_marker().is_none() {
        return V::Skip("not an end-marked LL(1) grammar");
    }
    let g = need!(build_grammar::<K>(&c.gram));
    let p = need!(build_plain(&g));
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let (acc, visits) = ll1_accepts(&ana, t);
        let out = parse1(&p, t, limit(visits, t.len())).out;
        parse_stats(st, &out, t);
        match (&out, acc) {
            (Outcome::Ok(tree), Some(n)) => match derivation(&ana, t, tree, c.gram.start, 0) {
                Ok(end) if end == n => {
                    st.add("sentences decided", 1);
                    st.add("sentences followed by more tokens", (n < t.len()) as u64);
                    st.max("tree depth", tree.depth() as u64);
                }
                Ok(end) => return V::Bad(format!("the tree covers {} tokens, the sentence has {}", end, n)),
                Err(m) => return V::Bad(format!("wrong tree for a sentence: {}", m)),
            },
            (Outcome::Err(_), None) => st.add("non-sentences decided", 1),
            (o, a) => {
                return V::Bad(format!(
                    "{}: the input {} a sentence of this LL(1) grammar",
                    match o { Outcome::Panic(m) => format!("panic ({})", m), o => o.name().to_string() },
                    if a.is_some() { "begins with" } else { "does not begin with" }
                ))
            }
        }
        if t.len() > 1 {
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
    }
    V::Pass
}

fn c08<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    if let V::Bad(m) = c08_with(c, &ana, &p, st, d) {
        return V::Bad(m);
    }
    if c.seed % 4 == 0 && c.gram.prods.len() < 200 && c.inputs.iter().all(|t| t.len() < 300) {
        // predictions that differ from those of the grammar
        let own = own_sets(c, &ana);
        let ff = supplied_sets::<K>(c, &own);
        let p = budgeted(BUILD, || Plain::from_grammar_and_first_follow_symbols(&g, &ff)).0;
        let p = want!(no_panic("building the parser", p));
        if let V::Bad(m) = c08_with(c, &own, &p, st, d) {
            return V::Bad(format!("with symbol sets that the caller supplied: {}", m));
        }
        st.add("parsers from sets of the caller", 1);
    }
    V::Pass
}

fn c08_with<K: Kind>(c: &Case, ana: &Ana, p: &Plain<K>, st: &mut Stats, d: Depth) -> V {
    let recursive = ana.left_recursion().is_some();
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let (m, _, cnt) = match Model::run(ana, t, None, d.cap_for(t)) {
            Ok(x) => x,
            Err(_) => {
                *st.skips.entry("search too long").or_default() += 1;
                continue;
            }
        };
        let out = parse1(p, t, limit(cnt.visits, t.len())).out;
        parse_stats(st, &out, t);
        if recursive && matches!(out, Outcome::Ok(_)) {
            st.add("accepted with left recursion", 1);
        }
        st.add("choices between productions", cnt.choices);
        st.add("later alternative kept", cnt.later_alternative);
        st.add("retries of matched siblings", cnt.retries_tried);
        st.add("retries that matched", cnt.retries_ok);
        match (&m, &out) {
            (Outcome::Ok(want), Outcome::Ok(got)) => {
                if !want.same_shape(got) {
                    return V::Bad(format!("the first tree is {}, got {}", want.show(), got.show()));
                }
                st.add("accepted after a retry", (cnt.retries_ok > 0) as u64);
                st.add("accepted by a later alternative", (cnt.later_alternative > 0) as u64);
            }
            (Outcome::Ok(want), o) => {
                return V::Bad(format!("{} although the search finds {}", o.name(), want.show()));
            }
            (_, Outcome::Ok(got)) => {
                if let Err(e) = derivation(ana, t, got, c.gram.start, 0) {
                    return V::Bad(format!("accepted with {} although no alternative matches: {}", got.show(), e));
                }
            }
            _ => {}
        }
        if cnt.choices > 0 {
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
    }
    V::Pass
}

// token fidelity -------------------------------------------------------------------------------

struct Fid<'a> {
    ana: &'a Ana,
    toks: &'a [Tok],
    tags: bool,
    leaves: u64,
}
impl Fid<'_> {
    /// leaves spell the tokens from `pos`, lexemes and type values included
    fn tree(&mut self, t: &Tree, pos: usize) -> Result<usize, String> {
        let nt = self.ana.ix(t.sym).is_some_and(|i| self.ana.is_nt[i]);
        if nt || t.sym == self.ana.syms[self.ana.eps] {
            if t.lex.is_some() {
                return Err(format!("node {} carries lexeme {:?}", t.sym, t.lex));
            }
            let mut p = pos;
            for k in &t.kids {
                p = self.tree(k, p)?;
            }
            return Ok(p);
        }
        self.leaves += 1;
        match self.toks.get(pos) {
            None => Err(format!("leaf {} after the last token", t.sym)),
            Some(k) => {
                if k.sym != t.sym {
                    Err(format!("leaf {} where token {} has type {}", t.sym, pos, k.sym))
                } else if k.lex != t.lex {
                    Err(format!("leaf {} for token {} has lexeme {:?}, the token {:?}", t.sym, pos, t.lex, k.lex))
                } else if self.tags && k.tag != t.tag {
                    Err(format!("leaf {} for token {} has the type value of another token ({})", t.sym, pos, t.tag))
                } else {
                    Ok(pos + 1)
                }
            }
        }
    }
    fn fail(&mut self, f: &FailSym, pos: usize) -> Result<(), String> {
        for fp in &f.prods {
            let mut p = pos;
            for q in &fp.parsed {
                match q {
                    Parsed::Ok(t) => p = self.tree(t, p)?,
                    Parsed::Fix(_) => return Ok(()),
                }
            }
            self.fail(&fp.failed, p)?;
        }
        Ok(())
    }
}

fn c09<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let tags = K::enc(1, 1).tag().is_some();
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    let mut rng = Rng::new(c.seed ^ 0xC09);
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let (_, _, cnt) = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let r = parse1(&p, t, limit(cnt.visits, t.len()));
        parse_stats(st, &r.out, t);
        if matches!(r.out, Outcome::Ok(_) | Outcome::Err(_)) && rng.pct(5) {
            // lexemes of other types
            let (ins, lims) = (std::slice::from_ref(t), [limit(cnt.visits, t.len())]);
            for (o, w, kind) in want!(other_words::<K>(&c.gram, ins, &lims, std::slice::from_ref(&r.out), &mut rng)) {
                st.add("results with lexemes of other types", 1);
                if o != w && o.same_shape(&w) {
                    return V::Bad(format!("{}: with lexemes of type {} the result carries others than were given", o.name(), kind));
                }
            }
        }
        let mut f = Fid { ana: &ana, toks: t, tags, leaves: 0 };
        let res = match &r.out {
            Outcome::Ok(tree) => f.tree(tree, 0).map(|_| ()),
            Outcome::Err(x) => f.fail(x, 0),
            _ => Ok(()),
        };
        st.add("leaves checked", f.leaves);
        if let Err(m) = res {
            return V::Bad(format!("{}: {}", r.out.name(), m));
        }
        if let Some(m) = retained(&r) {
            return V::Bad(m);
        }
        if f.leaves > 1 {
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
        for pol in &c.policies {
            let cnt = match Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                Ok(x) => x.2,
                Err(_) => continue,
            };
            let s = Scripted::new(*pol);
            let ps = want!(build_solving::<K>(&g, &s));
            let (r, log) = parse_with(&ps, &s, t, limit(cnt.visits, t.len()), 10_000);
            parse_stats(st, &r.out, t);
            if let Some(m) = retained(&r) {
                return V::Bad(format!("with a solver: {}", m));
            }
            // where the parts stand follows from the search
            let m = Model::replay(&ana, t, &log, d.cap_for(t));
            if let Some(mut m) = m.out {
                if m.same_shape(&r.out) {
                    let mut out = r.out.clone();
                    if !tags {
                        erase_tags(&mut m);
                        erase_tags(&mut out);
                    }
                    erase_nt_tags(&ana, &mut m);
                    erase_nt_tags(&ana, &mut out);
                    if m != out {
                        return V::Bad(format!("with a solver: the {} result carries other tokens than those matched", out.name()));
                    }
                    st.add("results with a solver checked", 1);
                    st.add("repaired results checked", matches!(m, Outcome::Fix(_)) as u64);
                }
            }
        }
    }
    V::Pass
}

fn retained(r: &Parsed1) -> Option<String> {
    if matches!(r.out, Outcome::Panic(_) | Outcome::Budget) {
        return None;
    }
    let h = held(&r.out);
    if r.live_after != h {
        return Some(format!("{} lexemes are alive after the parse, the result holds {}", r.live_after, h));
    }
    if r.live_end != 0 {
        return Some(format!("{} lexemes are alive after dropping the result", r.live_end));
    }
    None
}

/// Applies `f` to every tree node of an outcome, parts made by solvers included.
fn each_node(o: &mut Outcome, f: &mut dyn FnMut(&mut Tree)) {
    fn tree(t: &mut Tree, f: &mut dyn FnMut(&mut Tree)) {
        f(t);
        for k in &mut t.kids {
            tree(k, f);
        }
    }
    fn fix(x: &mut FixSym, f: &mut dyn FnMut(&mut Tree)) {
        for p in &mut x.parts {
            match p {
                Part::Ok(t) => tree(t, f),
                Part::Fixed(x) => fix(x, f),
                Part::Gap(..) => {}
            }
        }
    }
    fn fail(x: &mut FailSym, f: &mut dyn FnMut(&mut Tree)) {
        for p in &mut x.prods {
            for q in &mut p.parsed {
                match q {
                    Parsed::Ok(t) => tree(t, f),
                    Parsed::Fix(x) => fix(x, f),
                }
            }
            fail(&mut p.failed, f);
        }
    }
    match o {
        Outcome::Ok(t) => tree(t, f),
        Outcome::Err(x) => fail(x, f),
        Outcome::Fix(x) => fix(x, f),
        _ => {}
    }
}
fn erase_tags(o: &mut Outcome) {
    each_node(o, &mut |t| t.tag = 0);
}
/// only leaves for tokens have a tag of interest
fn erase_nt_tags(ana: &Ana, o: &mut Outcome) {
    each_node(o, &mut |t| {
        if ana.ix(t.sym).is_none_or(|i| ana.is_nt[i] || i == ana.eps) {
            t.tag = 0;
        }
    });
}
fn map_syms(o: &mut Outcome, f: &dyn Fn(u32) -> u32) {
    fn fix(x: &mut FixSym, f: &dyn Fn(u32) -> u32) {
        x.sym = f(x.sym);
        for p in &mut x.parts {
            match p {
                Part::Fixed(x) => fix(x, f),
                Part::Gap(_, s) => s.iter_mut().for_each(|s| *s = f(*s)),
                Part::Ok(_) => {}
            }
        }
    }
    fn fail(x: &mut FailSym, f: &dyn Fn(u32) -> u32) {
        x.sym = f(x.sym);
        for p in &mut x.prods {
            for q in &mut p.parsed {
                if let Parsed::Fix(x) = q {
                    fix(x, f);
                }
            }
            fail(&mut p.failed, f);
            p.pending.iter_mut().for_each(|s| *s = f(*s));
        }
    }
    each_node(o, &mut |t| t.sym = f(t.sym));
    match o {
        Outcome::Err(x) => fail(x, f),
        Outcome::Fix(x) => fix(x, f),
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------

fn c10<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    let g = need!(build_grammar::<K>(&c.gram));
    let ff = need!(build_sets(&g));
    need!(no_panic(
        "building the table",
        budgeted(BUILD, || {
            RecursiveDescentParserTransitions::from(&g, &ff);
        })
        .0
    ));
    let p = need!(build_plain(&g));
    st.add("grammars analysed", 1);
    if ana.left_recursion().is_some() {
        st.add("grammars analysed that have left recursion", 1);
        if c.gram.prods.len() >= 3 {
            st.seen(gdig(&c.gram));
        }
        return V::Pass;
    }
    let solvers: Vec<Scripted> = c.policies.iter().map(|p| Scripted::new(*p)).collect();
    let mut with: Vec<Solving<K>> = vec![];
    for s in &solvers {
        with.push(need!(build_solving::<K>(&g, s)));
    }
    for t in &c.inputs {
        if t.is_empty() {
            match parse1(&p, t, 1_000_000).out {
                Outcome::Panic(_) => st.add("empty inputs refused", 1),
                o => return V::Bad(format!("the empty input gives {}", o.name())),
            }
            continue;
        }
        let cnt = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) => x.2,
            Err(_) => {
                *st.skips.entry("search too long").or_default() += 1;
                continue;
            }
        };
        let r = parse1(&p, t, limit(cnt.visits, t.len()));
        parse_stats(st, &r.out, t);
        st.add("parses that look past the last token", (cnt.max_pos >= t.len()) as u64);
        match &r.out {
            Outcome::Panic(m) => return V::Bad(format!("parsing panicked: {}", m)),
            Outcome::Budget => return V::Bad(format!("parsing does not end within {} steps", limit(cnt.visits, t.len()))),
            _ => {}
        }
        for (i, pol) in c.policies.iter().enumerate() {
            let cnt = match Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                Ok(x) => x.2,
                Err(_) => {
                    *st.skips.entry("search too long").or_default() += 1;
                    continue;
                }
            };
            let (r, log) = parse_with(&with[i], &solvers[i], t, limit(cnt.visits, t.len()), 10_000);
            parse_stats(st, &r.out, t);
            st.add("repairs made", log.iter().filter(|c| c.answer.is_some()).count() as u64);
            st.add(
                "repairs that resume past the end",
                log.iter().filter(|c| c.answer.as_ref().is_some_and(|a| a.0 >= t.len())).count() as u64,
            );
            match &r.out {
                Outcome::Panic(m) => return V::Bad(format!("parsing with a solver panicked: {}", m)),
                Outcome::Budget => {
                    return V::Bad(format!("parsing with a solver does not end within {} steps", limit(cnt.visits, t.len())))
                }
                _ => {}
            }
        }
        st.seen(mix(gdig(&c.gram) ^ tdig(t)));
    }
    V::Pass
}

fn c11<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let cnt = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) => x.2,
            Err(_) => continue,
        };
        let r = parse1(&p, t, limit(cnt.visits, t.len()));
        parse_stats(st, &r.out, t);
        if let Outcome::Err(f) = &r.out {
            if f.sym != c.gram.start {
                return V::Bad(format!("the failure names {} instead of the start symbol", f.sym));
            }
            if let Err(m) = failure(&ana, t, f, Some(0), false) {
                return V::Bad(m);
            }
            st.add("reports checked", 1);
            st.add("reports after backtracking", (cnt.retries_tried > 0) as u64);
            st.add("report entries checked", entries(f));
            st.max("entries in one report", entries(f));
            if !f.prods.is_empty() {
                st.seen(mix(gdig(&c.gram) ^ tdig(t)));
            }
        }
        for pol in &c.policies {
            let cnt = match Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                Ok(x) => x.2,
                Err(_) => continue,
            };
            let s = Scripted::new(*pol);
            let ps = want!(build_solving::<K>(&g, &s));
            let (r, log) = parse_with(&ps, &s, t, 2 * limit(cnt.visits, t.len()), 10_000);
            parse_stats(st, &r.out, t);
            if let Outcome::Err(f) = &r.out {
                let repaired = log.iter().any(|c| c.answer.is_some());
                if f.sym != c.gram.start {
                    return V::Bad(format!("the failure names {} instead of the start symbol", f.sym));
                }
                if let Err(m) = failure(&ana, t, f, Some(0), repaired) {
                    return V::Bad(format!("with a solver: {}", m));
                }
                st.add("reports with a solver checked", 1);
                st.add("reports after repairs checked", repaired as u64);
            }
        }
    }
    V::Pass
}
fn entries(f: &FailSym) -> u64 {
    f.prods.iter().map(|p| 1 + entries(&p.failed)).sum()
}

fn c12<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let cnt = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) => x.2,
            Err(_) => continue,
        };
        let plain = parse1(&p, t, limit(cnt.visits, t.len())).out;
        parse_stats(st, &plain, t);
        if matches!(plain, Outcome::Panic(_) | Outcome::Budget) {
            continue;
        }
        for pol in &c.policies {
            let (wanted, cnt) = match Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                Ok(x) => (x.0, x.2),
                Err(_) => continue,
            };
            let s = Scripted::new(*pol);
            let ps = want!(build_solving::<K>(&g, &s));
            let (r, log) = parse_with(&ps, &s, t, 2 * limit(cnt.visits, t.len()), 10_000);
            parse_stats(st, &r.out, t);
            let declined = log.iter().all(|c| c.answer.is_none());
            match &plain {
                Outcome::Ok(_) => {
                    if !log.is_empty() {
                        return V::Bad(format!(
                            "the solver is consulted {} times for an input that parses without it", log.len()));
                    }
                    if r.out != plain {
                        return V::Bad(format!("an input that parses gives {} with a solver", r.out.name()));
                    }
                    st.add("parsable inputs compared", 1);
                    st.add("parsable inputs that needed backtracking", (cnt.retries_tried + cnt.later_alternative > 0) as u64);
                }
                _ => {
                    if let Outcome::Ok(t) = &r.out {
                        // A repair that is given up for an alternative of an earlier symbol can lead
                        // to a tree which the search without repairs does not reach: see DESIGN.md.
                        let given_up = matches!(wanted, Outcome::Ok(_)) && cnt.retries_tried > 0;
                        if declined || !given_up || ana.is_ll1() {
                            return V::Bad(format!("a solver turned a failure into the plain success {}", t.show()));
                        }
                        st.add("repairs given up for another alternative", 1);
                    }
                    if declined {
                        if r.out != plain {
                            return V::Bad(format!("a solver that declines everything changes the result ({})", r.out.name()));
                        }
                        st.add("declined repairs compared", 1);
                        st.add("requests declined", log.len() as u64);
                    } else {
                        st.add("inputs with repairs", 1);
                    }
                }
            }
            st.seen(mix(gdig(&c.gram) ^ tdig(t) ^ digest(pol)));
        }
    }
    V::Pass
}

fn c13_14<K: Kind>(c: &Case, st: &mut Stats, d: Depth, repairs: bool) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let g = want!(build_grammar::<K>(&c.gram));
    let solvers: Vec<Scripted> = c.policies.iter().map(|p| Scripted::new(*p)).collect();
    let mut with: Vec<Solving<K>> = vec![];
    for s in &solvers {
        with.push(want!(build_solving::<K>(&g, s)));
    }
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        for (i, pol) in c.policies.iter().enumerate() {
            let (plain, asked, cnt) = match Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                Ok(x) => (x.0, x.1.len(), x.2),
                Err(_) => {
                    *st.skips.entry("search too long").or_default() += 1;
                    continue;
                }
            };
            if matches!(plain, Outcome::Ok(_)) && asked == 0 {
                st.add("inputs that parse (not repaired)", 1);
                continue;
            }
            let (r, log) = parse_with(&with[i], &solvers[i], t, 2 * limit(cnt.visits, t.len()), 10_000);
            parse_stats(st, &r.out, t);
            if matches!(r.out, Outcome::Panic(_) | Outcome::Budget) || matches!(r.out, Outcome::Ok(_)) && log.is_empty() {
                continue;
            }
            let m = Model::replay(&ana, t, &log, 4 * d.cap_for(t));
            if m.out.is_none() && m.mismatch.is_none() {
                continue;
            }
            if !repairs {
                st.add("requests observed", log.len() as u64);
                st.add("single-production requests", log.iter().filter(|c| c.single).count() as u64);
                st.add("requests without applicable production", log.iter().filter(|c| c.fails.is_empty()).count() as u64);
                st.add("requests with several failures", log.iter().filter(|c| c.fails.len() > 1).count() as u64);
                st.add("inputs with several requests", (log.len() > 1) as u64);
                st.add("searches with retries", (m.counts.retries_tried > 0) as u64);
                st.max("requests for one input", log.len() as u64);
                if let Some(e) = m.mismatch {
                    return V::Bad(e);
                }
                for call in &log {
                    st.seen(digest(call));
                }
                continue;
            }
            let fixes = log.iter().filter(|c| c.answer.is_some()).count() as u64;
            if fixes == 0 {
                continue;
            }
            st.add("repairs made", fixes);
            st.add("inputs with several repairs", (fixes > 1) as u64);
            st.add("repairs that step back", log.iter().filter(|c| c.answer.as_ref().is_some_and(|a| a.0 < c.pos)).count() as u64);
            st.add("repairs in place", log.iter().filter(|c| c.answer.as_ref().is_some_and(|a| a.0 == c.pos)).count() as u64);
            st.add("repairs that step forward", log.iter().filter(|c| c.answer.as_ref().is_some_and(|a| a.0 > c.pos)).count() as u64);
            st.add("repairs that resume past the end", log.iter().filter(|c| c.answer.as_ref().is_some_and(|a| a.0 >= t.len())).count() as u64);
            match (&m.out, &m.mismatch) {
                (None, Some(e)) => {
                    // what follows a repair shows where parsing was resumed
                    if log[..m.agreed].iter().any(|c| c.answer.is_some()) {
                        return V::Bad(format!("after a repair, {}", e));
                    }
                }
                (Some(want), _) => {
                    let same = match (want, &r.out) {
                        (Outcome::Fix(a), Outcome::Fix(b)) => {
                            st.add("repaired results compared", 1);
                            a.same_shape(b)
                        }
                        (Outcome::Err(a), Outcome::Err(b)) => {
                            st.add("reports with repaired symbols compared", 1);
                            a.outline(b)
                        }
                        (Outcome::Ok(a), Outcome::Ok(b)) => {
                            st.add("repairs given up for another alternative", 1);
                            a.show() == b.show()
                        }
                        _ => false,
                    };
                    if !same {
                        return V::Bad(format!(
                            "the result after {} repairs ({}) is not the one that the repairs give ({}): {:?} / {:?}",
                            fixes, r.out.name(), want.name(), r.out, want
                        ));
                    }
                    st.seen(digest(&(t.iter().map(|t| t.sym).collect::<Vec<_>>(), want)));
                }
                _ => {}
            }
        }
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C15

/// Iterators with the same elements and different habits.
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
struct WideHint<I>(I);
impl<I: Iterator> Iterator for WideHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(usize::MAX))
    }
}
/// Knows of some elements only.
struct LowHint<I>(I, usize);
impl<I: Iterator> Iterator for LowHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 = self.1.saturating_sub(1);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, None)
    }
}
/// Goes on after its first end.
struct Unfused<T> {
    first: std::vec::IntoIter<T>,
    rest: std::vec::IntoIter<T>,
    ended: bool,
}
impl<T> Iterator for Unfused<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            return self.rest.next();
        }
        let x = self.first.next();
        self.ended = x.is_none();
        x
    }
}

/// Does something else before one of its elements, or before its end.
struct Busy<I, F: FnMut()>(I, usize, F);
impl<I: Iterator, F: FnMut()> Iterator for Busy<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.1 == 0 {
            (self.2)();
        }
        self.1 = self.1.wrapping_sub(1);
        self.0.next()
    }
}

/// A solver that uses the parser it belongs to, while that asks it.
struct Inward<'x> {
    answers: Scripted,
    fuel: Cell<usize>,
    left: Cell<usize>,
    /// the parser
    me: Cell<*const ()>,
    other: &'x [Tok],
    /// what the inner parses gave
    inner: RefCell<Vec<Outcome>>,
}
type Own<'a, 's, 'x, K> = RecursiveDescentParser<'a, Lex, K, &'s Inward<'x>>;
impl<'x> Inward<'x> {
    fn answer<K: Kind>(&self, single: bool, n: usize, pos: usize, fails: Vec<FailProd>) -> Option<FixResult<Lex, K>> {
        if self.left.get() > 0 && !self.me.get().is_null() {
            let (left, fuel) = (self.left.replace(0), self.fuel.replace(MAX_REPAIRS));
            // set by the owner of both, which outlives the parse
            let p = unsafe { &*(self.me.get() as *const Own<'_, '_, '_, K>) };
            let r = p.parse_from_tokens(tokens::<K>(self.other, &Arc::new(AtomicI64::new(0))).into_iter());
            self.inner.borrow_mut().push(n_result(&r));
            self.left.set(left - 1);
            self.fuel.set(fuel);
        }
        let (end, parts) = decide(self.answers.policy, single, pos, n, &fails)?;
        self.fuel.set(self.fuel.get().checked_sub(1)?);
        Some(FixResult { final_token_position: end, production: self.answers.e_parts(&parts) })
    }
}
impl<'s, 'x, K: Kind> SyntaxErrorSolver<Lex, K> for &'s Inward<'x> {
    fn fix_failed_production(&self, t: &Vec<Token<Lex, K>>, pos: usize, f: &FailedProduction<Lex, K>) -> Option<FixResult<Lex, K>> {
        self.answer(true, t.len(), pos, vec![n_failprod(f)])
    }
    fn fix_failed_productions(&self, t: &Vec<Token<Lex, K>>, pos: usize, f: &Vec<FailedProduction<Lex, K>>) -> Option<FixResult<Lex, K>> {
        self.answer(false, t.len(), pos, f.iter().map(n_failprod).collect())
    }
}

/// Number of kinds of iterators below.
const ITERS: usize = 13;
fn run_iter<'a, K: Kind>(p: &Plain<'a, K>, t: &[Tok], which: usize, lim: u64, other: &[Tok]) -> Outcome {
    let live = Arc::new(AtomicI64::new(0));
    let v = tokens::<K>(t, &live);
    let inner = || drop(p.parse_from_tokens(tokens::<K>(other, &live).into_iter()));
    let (r, _) = budgeted(lim, || match which {
        11 => {
            let n = v.len();
            p.parse_from_tokens(Busy(v.into_iter(), n / 2, inner))
        }
        12 => {
            let n = v.len();
            p.parse_from_tokens(Busy(v.into_iter(), n, inner))
        }
        0 => p.parse_from_tokens(NoHint(v.into_iter())),
        1 => p.parse_from_tokens(WideHint(v.into_iter())),
        2 => {
            let rest = v.clone().into_iter();
            p.parse_from_tokens(Unfused { first: v.into_iter(), rest, ended: false })
        }
        3 => {
            let mut it = v.into_iter();
            p.parse_from_tokens(&mut it)
        }
        4 => {
            let b: Box<dyn Iterator<Item = Token<Lex, K>>> = Box::new(v.into_iter().filter(|_| true));
            p.parse_from_tokens(b)
        }
        7 => {
            let n = v.len() / 2;
            p.parse_from_tokens(LowHint(v.into_iter(), n))
        }
        8 => {
            let mut it = v.into_iter();
            let first = it.next();
            p.parse_from_tokens(first.into_iter().chain(it.filter(|_| true)))
        }
        9 => p.parse_from_tokens(v.into_iter().peekable()),
        5 => p.parse_from_tokens(std::collections::VecDeque::from(v).into_iter()),
        6 => {
            let n = v.len() / 2;
            let mut v = v;
            let w = v.split_off(n);
            p.parse_from_tokens(v.into_iter().chain(w))
        }
        _ => p.parse_from_tokens(std::collections::LinkedList::from_iter(v).into_iter().fuse()),
    });
    match r {
        Ran::Done(r) => n_result(&r),
        Ran::Panicked(m) => Outcome::Panic(m),
        Ran::Budget => Outcome::Budget,
    }
}

pub type Dump = Vec<(Option<Vec<u32>>, Option<Vec<u32>>, Vec<Vec<u32>>, bool, bool)>;
pub fn dump<K: Kind>(ask: &[u32], g: &ContextFreeGrammar<K>, ff: &FirstFollowSymbols<K>) -> Dump {
    ask.iter()
        .map(|id| {
            let s = K::enc(*id, 0);
            (
                ff.get_first_symbols(&s).map(|x| ids(x.iter())),
                ff.get_follow_symbols(&s).map(|x| ids(x.iter())),
                g.get_productions(&s)
                    .map(|v| v.iter().map(|p| p.output.iter().map(|x| x.id()).collect()).collect())
                    .unwrap_or_default(),
                g.is_terminal(&s),
                g.is_non_terminal(&s),
            )
        })
        .collect()
}

/// Fresh parser of the given symbol type; outcomes without tags.
fn outcomes<K: Kind>(g: &Gram, inputs: &[Vec<Tok>], lims: &[u64]) -> Result<Vec<Outcome>, String> {
    let gr = build_grammar::<K>(g)?;
    let p = build_plain(&gr)?;
    Ok(inputs
        .iter()
        .zip(lims)
        .map(|(t, l)| {
            let mut o = parse1(&p, t, *l).out;
            erase_tags(&mut o);
            if let Outcome::Panic(m) = &mut o {
                m.clear();
            }
            o
        })
        .collect())
}

/// As `outcomes`, with lexemes made from (input, position, number).
fn worded<K: Kind, L: Word + Clone>(g: &Gram, inputs: &[Vec<Tok>], lims: &[u64], f: impl Fn(usize, usize, u64) -> L) -> Result<Vec<Outcome>, String> {
    let gr = build_grammar::<K>(g)?;
    let p: RecursiveDescentParser<L, K, NoSolver> =
        no_panic("building the parser", budgeted(BUILD, || RecursiveDescentParser::from_grammar(&gr)).0)?;
    let mut out = vec![];
    for (i, (t, l)) in inputs.iter().zip(lims).enumerate() {
        let real: Vec<Token<L, K>> =
            t.iter().enumerate().map(|(k, t)| Token::new(t.lex.map(|l| f(i, k, l)), K::enc(t.sym, t.tag))).collect();
        out.push(match budgeted(*l, || p.parse_from_tokens(real.into_iter())).0 {
            Ran::Done(r) => n_result(&r),
            Ran::Panicked(m) => Outcome::Panic(m),
            Ran::Budget => Outcome::Budget,
        });
    }
    Ok(out)
}

/// Results with lexemes of another type, what they must be by those in `base`, and the type.
fn other_words<K: Kind>(
    g: &Gram,
    ins: &[Vec<Tok>],
    lims: &[u64],
    base: &[Outcome],
    rng: &mut Rng,
) -> Result<Vec<(Outcome, Outcome, &'static str)>, String> {
    let text: Vec<Vec<String>> = ins.iter().map(|t| t.iter().map(|t| t.lex.unwrap_or(0).to_string()).collect()).collect();
    let (kind, all) = match rng.below(5) {
        0 => ("()", worded::<K, ()>(g, ins, lims, |_, _, _| ())?),
        1 => ("u64", worded::<K, u64>(g, ins, lims, |_, _, l| l)?),
        2 => ("u8", worded::<K, u8>(g, ins, lims, |_, _, l| l as u8)?),
        3 => ("&str", worded::<K, &str>(g, ins, lims, |i, k, _| text[i][k].as_str())?),
        _ => ("Vec<String>", worded::<K, Vec<String>>(g, ins, lims, |i, k, _| vec![text[i][k].clone()])?),
    };
    Ok(all
        .into_iter()
        .zip(base)
        .map(|(o, want)| {
            let mut want = calm(want.clone());
            each_node(&mut want, &mut |t| match kind {
                "()" => t.lex = t.lex.map(|_| 0),
                "u8" => t.lex = t.lex.map(|l| l as u8 as u64),
                _ => {}
            });
            (calm(o), want, kind)
        })
        .collect())
}

fn calm(mut o: Outcome) -> Outcome {
    erase_tags(&mut o);
    if let Outcome::Panic(m) = &mut o {
        m.clear();
    }
    o
}

fn c15(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    st.add("grammars with left recursion", ana.left_recursion().is_some() as u64);
    let mut rng = Rng::new(c.seed ^ 0xC15);
    let mut ins: Vec<Vec<Tok>> = vec![];
    let mut lims: Vec<u64> = vec![];
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        if let Ok(x) = Model::run(&ana, t, None, d.cap_for(t) / 4) {
            ins.push(t.clone());
            // hash collisions cost more steps
            lims.push(40 * limit(x.2.visits, t.len()));
        }
    }
    if ins.is_empty() {
        return V::Skip("search too long");
    }
    let base = want!(outcomes::<Num>(&c.gram, &ins, &lims));
    if base.iter().any(|o| matches!(o, Outcome::Budget)) {
        return V::Skip("out of budget");
    }
    st.add("inputs", ins.len() as u64);
    let diff = |st: &mut Stats, what: &'static str, i: usize, o: Outcome| -> Option<String> {
        st.add(what, 1);
        let o = calm(o);
        if o != base[i] {
            Some(format!("{}: input {} gives {} instead of {} ({:?} / {:?})", what, i, o.name(), base[i].name(), o, base[i]))
        } else {
            None
        }
    };
    macro_rules! chk {
        ($w:expr, $i:expr, $o:expr) => {
            if let Some(m) = diff(st, $w, $i, $o) {
                return V::Bad(m);
            }
        };
    }
    // one parser, many parses, with aborted ones between
    {
        let g = want!(build_grammar::<Num>(&c.gram));
        let ff = want!(build_sets(&g));
        let ask = asked(&ana);
        let before = dump(&ask, &g, &ff);
        let p = need!(build_plain(&g));
        let p2: Plain<Num> = match budgeted(BUILD, || RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &ff)).0 {
            Ran::Done(p) => p,
            _ => return V::Bad("the constructor from sets fails where the one from the grammar does not".into()),
        };
        for round in 0..2 {
            let mut order: Vec<usize> = (0..ins.len()).collect();
            rng.shuffle(&mut order);
            for i in order {
                chk!("reused parser", i, parse1(&p, &ins[i], lims[i]).out);
                match rng.below(4) {
                    0 => {
                        // aborted in the middle of its work
                        let k = rng.below(ins.len());
                        let _ = parse1(&p, &ins[k], 1 + rng.below(120) as u64);
                        st.add("aborted parses between", 1);
                    }
                    1 => {
                        let _ = parse1(&p, &[], 1000);
                        st.add("refused empty inputs between", 1);
                    }
                    _ => {}
                }
                if round == 0 {
                    chk!("constructor from sets", i, parse1(&p2, &ins[i], lims[i]).out);
                }
                let k = rng.below(ins.len());
                chk!("kinds of iterators", i, run_iter(&p, &ins[i], rng.below(ITERS), lims[i] + lims[k], &ins[k]));
            }
        }
        if c.seed % 2003 == 0 || rng.below(2000) == 0 {
            // a parser that has done more than small integers can count
            let mut short: Vec<usize> = (0..ins.len()).collect();
            short.sort_by_key(|i| lims[*i]);
            short.truncate(2);
            let n = if lims[short[0]] < 12_000_000 { 70_000 } else { 3_000 };
            for k in 0..n {
                let i = short[k % short.len()];
                let o = parse1(&p, &ins[i], lims[i]).out;
                if k % 64 == 1 || k + 200 > n || o.name() != base[i].name() {
                    chk!("much used parser", i, o);
                }
            }
            for _ in 0..300 {
                let _ = parse1(&p, &[], 1000);
            }
            chk!("much used parser", short[0], parse1(&p, &ins[short[0]], lims[short[0]]).out);
            st.max("parses by one parser", n as u64);
        }
        drop(p);
        // sets are as before
        if dump(&ask, &g, &ff) != before {
            return V::Bad("grammar or symbol sets read differently after parsing".into());
        }
        st.add("readings compared", ask.len() as u64);
        let s = Scripted::new(Policy::Never);
        let ps = need!(build_solving::<Num>(&g, &s));
        for i in 0..ins.len() {
            let (r, _) = parse_with(&ps, &s, &ins[i], 3 * lims[i], 100_000);
            chk!("constructor with a declining solver", i, r.out);
        }
    }
    // other symbol types (the uncounted one last)
    for k in [1usize, 2, KIND_TAGGED, KIND_COLLIDE, KIND_U32] {
        if k == KIND_COLLIDE && ana.n() > 40 {
            continue;
        }
        let o = need!(with_kind!(k, outcomes, &c.gram, &ins, &lims));
        for (i, o) in o.into_iter().enumerate() {
            chk!("symbol types", i, o);
        }
    }
    let top = ana.syms.iter().chain(ins.iter().flatten().map(|t| &t.sym)).max();
    if rng.pct(30) && top.is_some_and(|t| *t < 256) {
        let o = need!(outcomes::<u8>(&c.gram, &ins, &lims));
        let o2 = need!(outcomes::<&'static str>(&c.gram, &ins, &lims));
        for (i, o) in o.into_iter().enumerate().chain(o2.into_iter().enumerate()) {
            chk!("built-in symbol types", i, o);
        }
    }
    // other types of lexemes
    if rng.pct(30) {
        for (i, (o, want, kind)) in need!(other_words::<Num>(&c.gram, &ins, &lims, &base, &mut rng)).into_iter().enumerate() {
            st.add("types of lexemes", 1);
            if o != want {
                return V::Bad(format!("with another type of lexemes ({}), input {} gives {:?} instead of {:?}", kind, i, o, want));
            }
        }
    }
    // renaming
    {
        let top = *ana.syms.last().unwrap() + 40;
        let mut map: Vec<u32> = (0..top).collect();
        rng.shuffle(&mut map);
        let mut inv = vec![0u32; top as usize];
        for (i, m) in map.iter().enumerate() {
            inv[*m as usize] = i as u32;
        }
        let g2 = gen::apply(&c.gram, &map);
        let ok = ins.iter().all(|i| i.iter().all(|t| t.sym < top));
        if ok {
            let ins2: Vec<Vec<Tok>> = ins
                .iter()
                .map(|i| i.iter().map(|t| Tok { sym: map[t.sym as usize], ..t.clone() }).collect())
                .collect();
            let o = need!(outcomes::<Num>(&g2, &ins2, &lims));
            for (i, mut o) in o.into_iter().enumerate() {
                map_syms(&mut o, &|s| inv[s as usize]);
                chk!("renamed symbols", i, o);
            }
        }
    }
    // declarations of different symbols moved
    {
        let mut g2 = c.gram.clone();
        if rng.pct(70) {
            gen::shuffle_decls(&mut g2, &mut rng, true);
        } else {
            g2.prods.sort_by_key(|p| p.0);
        }
        let o = need!(outcomes::<Num>(&g2, &ins, &lims));
        for (i, o) in o.into_iter().enumerate() {
            chk!("moved declarations", i, o);
        }
    }
    // another environment, other times, and in the middle of a panic
    {
        let value = *rng.pick(&crate::ambient::VALUES);
        let (o, asked) = crate::ambient::elsewhere(value, c.seed, || outcomes::<Num>(&c.gram, &ins, &lims));
        st.add("environment variables asked for", asked.0);
        st.add("readings of the clock", asked.1);
        for (i, o) in need!(o).into_iter().enumerate() {
            chk!("other environment and clock", i, o);
        }
        if rng.pct(20) {
            // on a thread that is new, and has a name
            let mut b = std::thread::Builder::new().stack_size(1 << 29);
            if let Some(n) = *rng.pick(&[None, Some("main"), Some("tokio-runtime-worker"), Some("w\u{e4}hler 1"), Some("1")]) {
                b = b.name(n.to_string());
            }
            let o = std::thread::scope(|s| {
                let h = b.spawn_scoped(s, || outcomes::<Num>(&c.gram, &ins, &lims)).unwrap();
                h.join().map_err(|_| "the thread ended in a panic".to_string())
            });
            for (i, o) in need!(need!(o)).into_iter().enumerate() {
                chk!("another thread", i, o);
            }
            st.add("parsers on threads of their own", 1);
        }
        if rng.pct(30) {
            let o = crate::ambient::unwinding(|| outcomes::<Num>(&c.gram, &ins, &lims));
            for (i, o) in need!(o).into_iter().enumerate() {
                chk!("during a panic", i, o);
            }
        }
    }
    // repairs, twice and on a used parser
    for pol in &c.policies {
        let g = want!(build_grammar::<Num>(&c.gram));
        let s = Scripted::new(*pol);
        let ps = need!(build_solving::<Num>(&g, &s));
        let mut known: Vec<(usize, Outcome)> = vec![];
        for (i, t) in ins.iter().enumerate() {
            if Model::run(&ana, t, Some(*pol), d.cap_for(t) / 4).is_err() {
                continue;
            }
            let (a, la) = parse_with(&ps, &s, t, 3 * lims[i], 100_000);
            let g2 = want!(build_grammar::<Num>(&c.gram));
            let s2 = Scripted::new(*pol);
            let ps2 = need!(build_solving::<Num>(&g2, &s2));
            let (b, lb) = parse_with(&ps2, &s2, t, 3 * lims[i], 100_000);
            st.add("repairing parses repeated", 1);
            let b = calm(b.out);
            if calm(a.out) != b || la != lb {
                return V::Bad(format!("a used parser with a solver differs from a fresh one on input {}", i));
            }
            known.push((i, b));
        }
        // the solver parses with the same parser
        if known.len() > 1 && known.iter().all(|k| !matches!(k.1, Outcome::Budget | Outcome::Panic(_))) {
            let (k, want_inner) = &known[rng.below(known.len())];
            let s = Inward {
                answers: Scripted::new(*pol),
                fuel: Cell::new(0),
                left: Cell::new(0),
                me: Cell::new(std::ptr::null()),
                other: &ins[*k],
                inner: RefCell::new(vec![]),
            };
            let own: Own<Num> = match budgeted(BUILD, || RecursiveDescentParser::from_grammar_and_solver(&g, &s)).0 {
                Ran::Done(p) => p,
                _ => return V::Bad("the constructor with a solver fails where another one does not".into()),
            };
            s.me.set(&own as *const Own<Num> as *const ());
            for (i, want) in &known {
                s.fuel.set(MAX_REPAIRS);
                s.left.set(2);
                let o = calm(parse(&own, &ins[*i], 3 * lims[*i] + 6 * lims[*k], &Arc::new(AtomicI64::new(0))).out);
                if o != *want {
                    return V::Bad(format!("input {} gives {:?} instead of {:?} when its solver parses input {} meanwhile", i, o, want, k));
                }
                for o in s.inner.borrow_mut().drain(..) {
                    st.add("parses inside a solver", 1);
                    if calm(o) != *want_inner {
                        return V::Bad(format!("input {} gives something else when it is parsed by a solver", k));
                    }
                }
            }
        }
    }
    for (i, t) in ins.iter().enumerate() {
        if !matches!(base[i], Outcome::Panic(_)) {
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------

fn c17<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let live = Arc::new(AtomicI64::new(0));
    for spec in &c.inputs {
        let (r, _) = budgeted(BUILD, || c17_one::<K>(spec, &live));
        match r {
            Ran::Done(Ok(n)) => st.add("pairs compared", n),
            Ran::Done(Err(m)) => return V::Bad(m),
            Ran::Panicked(m) => return V::Bad(format!("comparing or copying tokens panicked: {}", m)),
            Ran::Budget => return V::Bad("comparing or copying tokens does not end".into()),
        }
        if let Some(m) = c17_floats(c.seed) {
            return V::Bad(m);
        }
        st.add("lists", 1);
        st.add("tokens copied", spec.len() as u64);
        if live.load(Ordering::Relaxed) != 0 {
            return V::Bad("copies of lexemes outlive the tokens".into());
        }
        st.seen(digest(spec));
    }
    V::Pass
}
/// Types that are equal to nothing, types of no size, lexemes that differ.
fn c17_floats(seed: u64) -> Option<String> {
    let rng = &mut Rng::new(seed ^ 0xF10A7);
    let v: Vec<f64> = (0..4).map(|_| *rng.pick(&[f64::NAN, 0.0, -0.0, 1.5, f64::INFINITY])).collect();
    let ts: Vec<Token<String, f64>> =
        v.iter().map(|x| Token::new(if rng.pct(50) { Some(rng.below(3).to_string()) } else { None }, *x)).collect();
    for (a, x) in ts.iter().zip(&v) {
        for (b, y) in ts.iter().zip(&v) {
            if (a == b) != (x == y) || (a != b) == (x == y) {
                return Some(format!("tokens of types {} and {} compare wrongly", x, y));
            }
        }
        let k = a.clone();
        if k.lex != a.lex || k.t_type.to_bits() != x.to_bits() {
            return Some(format!("the copy of a token of type {} is another", x));
        }
    }
    let (a, b) = (Token::new(Some(1u8), ()), Token::new(None, ()));
    if !(a == b) || a != b || a.clone().lex != Some(1) || b.clone().lex.is_some() {
        return Some("tokens of the unit type compare or copy wrongly".into());
    }
    None
}
fn c17_one<K: Kind>(spec: &[Tok], live: &Arc<AtomicI64>) -> Result<u64, String> {
    let v = tokens::<K>(spec, live);
    let mut n = 0;
    for (a, x) in v.iter().zip(spec) {
        if a.t_type.id() != x.sym || a.lex.as_ref().map(|l| l.id) != x.lex {
            return Err("a new token does not hold what it was given".into());
        }
        for (b, y) in v.iter().zip(spec) {
            n += 1;
            let want = x.sym == y.sym;
            if (*a == *b) != want {
                return Err(format!("{:?} == {:?} is {}", x, y, !want));
            }
            if (*a != *b) == want {
                return Err(format!("{:?} != {:?} is {}", x, y, want));
            }
        }
        let before = live.load(Ordering::Relaxed);
        let k = a.clone();
        if live.load(Ordering::Relaxed) - before != x.lex.is_some() as i64 {
            return Err("a copy does not hold its own lexeme".into());
        }
        if k.t_type.id() != x.sym || k.t_type.tag().is_some_and(|t| t != x.tag) {
            return Err(format!("the copy of {:?} has another type value", x));
        }
        if k.lex.as_ref().map(|l| l.id) != x.lex {
            return Err(format!("the copy of {:?} has lexeme {:?}", x, k.lex.as_ref().map(|l| l.id)));
        }
        if k != *a || !(k == *a) {
            return Err(format!("the copy of {:?} is not equal to it", x));
        }
        // the original is untouched, and survives its copy
        drop(k);
        if a.lex.as_ref().map(|l| l.id) != x.lex || a.t_type.id() != x.sym {
            return Err("copying changed the original".into());
        }
        let mut target = Token::<Lex, K>::new(Some(Lex::new(1, live)), K::enc(0, 0));
        target.clone_from(a);
        if target.lex.as_ref().map(|l| l.id) != x.lex || target.t_type.id() != x.sym {
            return Err(format!("clone_from of {:?} is not faithful", x));
        }
    }
    Ok(n)
}

/// Symbol operations allowed per visited symbol (measured: see DESIGN.md).
pub const PER_VISIT: u64 = 150;

fn c18<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    if ana.left_recursion().is_some() || !ana.is_ll1() {
        return V::Skip("not LL(1)");
    }
    let widest = c.gram.prods.iter().map(|p| p.1.len()).max().unwrap_or(1) as u64;
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    let solver = Scripted::new(Policy::Never);
    let declined = want!(build_solving::<K>(&g, &solver));
    for t in &c.inputs {
        if t.is_empty() {
            continue;
        }
        let (acc, visits) = ll1_accepts(&ana, t);
        // pending symbols of a failure: at most one production per open symbol
        let lim = (PER_VISIT + 4 * SIZE.get()) * (visits + 4) + 8 * t.len() as u64 + if acc.is_none() { visits * widest } else { 0 };
        let r = parse1(&p, t, lim);
        parse_stats(st, &r.out, t);
        match r.out {
            Outcome::Budget => {
                return V::Bad(format!(
                    "more than {} symbol operations for {} tokens and {} visited symbols", lim, t.len(), visits))
            }
            Outcome::Panic(_) => continue,
            _ => {}
        }
        // each request holds the whole nested failure, which takes the harness its time
        if t.len() <= 400 {
            let s = parse_with(&declined, &solver, t, 2 * lim, 10_000).0;
            if matches!(s.out, Outcome::Budget) {
                return V::Bad(format!(
                    "more than {} symbol operations with a solver that declines, for {} tokens and {} visited symbols",
                    2 * lim, t.len(), visits));
            }
            st.add("parses with a declining solver", 1);
        }
        st.add("symbol operations counted", r.ops);
        st.add("symbols visited", visits);
        st.max("operations per 100 visits", 100 * r.ops / (visits + 4));
        st.max("symbols visited in one parse", visits);
        st.add("errors after 100 visits or more", (acc.is_none() && visits >= 100) as u64);
        if visits >= 8 {
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C23: work of searches

/// Operations on symbols that a search may need per symbol that it visits.
const SEARCH_PER_VISIT: u64 = 40;

/// Length of the longest list of alternatives: they may be copied for each symbol visited.
fn bulk(g: &Gram) -> u64 {
    let mut of: std::collections::HashMap<u32, u64> = Default::default();
    for (l, r) in &g.prods {
        *of.entry(*l).or_default() += 1 + r.len() as u64;
    }
    of.values().copied().max().unwrap_or(0)
}

fn c23<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    if ana.left_recursion().is_some() {
        return V::Skip("left recursion");
    }
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    let widest = c.gram.prods.iter().map(|p| p.1.len()).max().unwrap_or(1) as u64;
    let bulk = bulk(&c.gram);
    let solvers: Vec<Scripted> = c.policies.iter().map(|p| Scripted::new(*p)).collect();
    let mut with: Vec<Solving<K>> = vec![];
    for s in &solvers {
        with.push(want!(build_solving::<K>(&g, s)));
    }
    for t in c.inputs.iter().filter(|t| !t.is_empty()) {
        let mut plain = 0;
        for i in 0..=c.policies.len() {
            let pol = match i.checked_sub(1) {
                None => None,
                // each request holds the whole nested failure
                Some(_) if t.len() > 1000 => continue,
                Some(k) => Some(c.policies[k]),
            };
            let cnt = match Model::run(&ana, t, pol, d.cap_for(t)) {
                Ok(x) => x.2,
                Err(_) => {
                    *st.skips.entry("search too long").or_default() += 1;
                    continue;
                }
            };
            let lim = (SEARCH_PER_VISIT + widest + bulk) * (cnt.visits + 4) + 8 * t.len() as u64 + 2 * cnt.pending;
            let r = match pol {
                None => parse1(&p, t, lim),
                Some(_) => parse_with(&with[i - 1], &solvers[i - 1], t, lim, 10_000).0,
            };
            parse_stats(st, &r.out, t);
            match r.out {
                Outcome::Budget => {
                    return V::Bad(format!(
                        "more than {} symbol operations {} for {} tokens and {} symbols visited by the search ({} retries)",
                        lim, if pol.is_some() { "with a solver" } else { "without a solver" },
                        t.len(), cnt.visits, cnt.retries_tried))
                }
                Outcome::Panic(_) => continue,
                _ => {}
            }
            match pol {
                None => plain = r.ops,
                // comparisons of symbols that all hash alike depend on chance
                Some(Policy::Never) if crate::real::KINDS[c.kind] != "collide" => {
                    if r.ops > 11 * plain / 4 + 300 {
                        return V::Bad(format!(
                            "{} symbol operations with a solver that declines every request, {} without it, for {} tokens",
                            r.ops, plain, t.len()))
                    }
                    st.add("work with a declining solver compared", 1);
                    if plain >= 1000 {
                        st.max("percent of the work without solver", 100 * r.ops / plain);
                    }
                }
                _ => {}
            }
            st.add("symbol operations counted", r.ops);
            st.add("symbols visited", cnt.visits);
            st.add("retries of matched siblings", cnt.retries_tried);
            st.add("choices between productions", cnt.choices);
            st.add("parses with a solver", pol.is_some() as u64);
            st.max("operations per 100 visits", 100 * (r.ops.saturating_sub(8 * t.len() as u64 + 2 * cnt.pending)) / (cnt.visits + 4));
            st.max("symbols visited in one parse", cnt.visits);
            if cnt.visits >= 8 && (cnt.choices > 0 || pol.is_some()) {
                st.seen(mix(gdig(&c.gram) ^ tdig(t) ^ i as u64));
            }
        }
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C24: work of queries

/// Operations on symbols that one question may take: a hash table needs one or two hashes and
/// hardly ever more than two comparisons for each table it looks into.
const ASK: u64 = 48;

fn c24<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    let rng = &mut Rng::new(c.seed ^ 0xC24);
    let g = want!(build_grammar::<K>(&c.gram));
    let ff = want!(build_sets(&g));
    let table = want!(no_panic("building the table", budgeted(BUILD, || RecursiveDescentParserTransitions::from(&g, &ff)).0));
    let ask = asked(&ana);
    let few: Vec<K> = (0..ask.len().min(40)).map(|_| K::enc(*rng.pick(&ask), 0)).collect();
    let chk = |st: &mut Stats, what: &'static str, most: u64, f: &mut dyn FnMut()| -> Option<V> {
        let (r, ops) = budgeted(most, f);
        st.add("questions", 1);
        st.add("symbol operations counted", ops);
        st.max(what, ops);
        match r {
            Ran::Budget => Some(V::Bad(format!(
                "{} takes more than {} symbol operations on a grammar of {} symbols and {} productions", what, most, ana.n(), c.gram.prods.len()))),
            Ran::Panicked(m) => Some(V::Bad(format!("{} panics: {}", what, m))),
            Ran::Done(_) => None,
        }
    };
    macro_rules! chk {
        ($w:expr, $m:expr, $f:expr) => {
            if let Some(v) = chk(st, $w, $m, &mut || {
                std::hint::black_box($f);
            }) {
                return v;
            }
        };
    }
    for s in &few {
        chk!("is_terminal", ASK, g.is_terminal(s));
        chk!("is_non_terminal", ASK, g.is_non_terminal(s));
        chk!("get_productions", ASK, g.get_productions(s));
        chk!("get_first_symbols", ASK, ff.get_first_symbols(s));
        chk!("get_follow_symbols", ASK, ff.get_follow_symbols(s));
        for _ in 0..2 {
            let t = rng.pick(&few);
            chk!("get_productions of the table", ASK, table.get_productions(s, t));
        }
    }
    chk!("get_initial_symbol", 4, g.get_initial_symbol());
    chk!("get_epsilon_symbol", 4, g.get_epsilon_symbol());
    let nts = ana.is_nt.iter().filter(|x| **x).count() as u64;
    let ts = ana.is_term.iter().filter(|x| **x).count() as u64;
    chk!("get_non_terminal_symbols", 4 * nts + ASK, g.get_non_terminal_symbols());
    chk!("get_terminal_symbols", 4 * ts + ASK, g.get_terminal_symbols());
    st.max("symbols in one grammar", ana.n() as u64);
    st.max("productions in one grammar", c.gram.prods.len() as u64);
    if ana.n() > ASK as usize {
        st.add("grammars with more symbols than operations allowed", 1);
        st.seen(gdig(&c.gram));
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C25: panics of the caller's code

/// A solver that may panic.
struct Fused<'s>(&'s Scripted);
impl<K: Kind> SyntaxErrorSolver<Lex, K> for Fused<'_> {
    fn fix_failed_production(&self, t: &Vec<Token<Lex, K>>, at: usize, f: &FailedProduction<Lex, K>) -> Option<FixResult<Lex, K>> {
        called(3);
        (&self.0).fix_failed_production(t, at, f)
    }
    fn fix_failed_productions(&self, t: &Vec<Token<Lex, K>>, at: usize, f: &Vec<FailedProduction<Lex, K>>) -> Option<FixResult<Lex, K>> {
        called(3);
        (&self.0).fix_failed_productions(t, at, f)
    }
}

/// How a call fares when its caller's code panics.
fn torn<R>(st: &mut Stats, what: &'static str, fuse: u64, f: impl FnOnce() -> R) -> Result<(), String> {
    let hooked = HOOKED.with(|n| n.get());
    let (fate, _) = fused(fuse, f);
    let hooks = HOOKED.with(|n| n.get()) - hooked;
    match fate {
        Fate::Done(_) | Fate::Other => Ok(()),
        Fate::Swallowed(who) => Err(format!("{}: {} panics and the call returns all the same (call {} into the caller's code)", what, CALLERS[who], fuse)),
        Fate::Blown(who, same, after) => {
            st.add("panics of the caller's code", 1);
            st.add(
                match who {
                    0 => "panics of symbol operations",
                    1 => "panics of lexeme copies",
                    2 => "panics of token iterators",
                    _ => "panics of solvers",
                },
                1,
            );
            if !same {
                Err(format!("{}: {} panics and another panic comes out", what, CALLERS[who]))
            } else if after > 0 {
                Err(format!("{}: {} panics and the caller's code is called {} times afterwards", what, CALLERS[who], after))
            } else if hooks != 1 {
                Err(format!("{}: {} panics once and {} panics are reported", what, CALLERS[who], hooks))
            } else {
                Ok(())
            }
        }
    }
}

/// Some of the numbers from 1 to n: all of few, the first and last of many.
fn fuses(rng: &mut Rng, n: u64, most: usize) -> Vec<u64> {
    if n <= most as u64 {
        return (1..=n).collect();
    }
    let mut v = vec![1, 2, n, n - 1];
    while v.len() < most {
        v.push(1 + rng.below(n as usize) as u64);
    }
    v
}

fn torn_parses<K: Kind, S: SyntaxErrorSolver<Lex, K>>(
    c: &Case,
    p: &RecursiveDescentParser<Lex, K, S>,
    s: Option<&Scripted>,
    t: &[Tok],
    st: &mut Stats,
    rng: &mut Rng,
) -> Result<(), String> {
    let live = Arc::new(AtomicI64::new(0));
    let go = || {
        if let Some(s) = s {
            s.log.borrow_mut().clear();
            *s.expect.borrow_mut() = t.to_vec();
            *s.live.borrow_mut() = live.clone();
        }
        let mut toks = tokens::<K>(t, &live).into_iter();
        move || {
            p.parse_from_tokens(std::iter::from_fn(move || {
                called(2);
                toks.next()
            }))
        }
    };
    // the number of calls depends on the hash tables, which are those of this parser
    let (fate, n) = fused(0, go());
    let base = match fate {
        Fate::Done(r) => n_result(&r),
        _ => return Ok(()),
    };
    // every call of the solver and of the iterator, and some of the others
    let mut at = fuses(rng, n, 14);
    at.extend(1..=n.min(3));
    if n > t.len() as u64 {
        at.push(t.len() as u64 + 1);
    }
    if s.is_some() {
        // those that solvers are called at
        let asked = std::cell::RefCell::new(vec![]);
        let hear = || {
            for k in fuses(&mut Rng::new(c.seed ^ 77), n, 60) {
                let (f, _) = fused(k, go());
                if let Fate::Blown(3, ..) = f {
                    asked.borrow_mut().push(k);
                }
            }
        };
        hear();
        at.extend(asked.into_inner());
    }
    for k in at {
        torn(st, "a parse", k, go())?;
        if live.load(Ordering::Relaxed) != 0 {
            return Err(format!("{} lexemes remain after a parse that ended in a panic of the caller's code (call {})", live.load(Ordering::Relaxed), k));
        }
        if rng.pct(30) {
            match fused(0, go()).0 {
                Fate::Done(r) if n_result(&r) == base => st.add("parses repeated afterwards", 1),
                Fate::Done(r) => {
                    return Err(format!("after a parse that ended in a panic of the caller's code (call {}) the result is {:?} instead of {:?}", k, n_result(&r), base))
                }
                _ => return Err("after a parse that ended in a panic of the caller's code the same parse panics".into()),
            }
        }
    }
    Ok(())
}

fn c25<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    let rng = &mut Rng::new(c.seed ^ 0xC25);
    let g = want!(build_grammar::<K>(&c.gram));
    let ff = want!(build_sets(&g));
    let ask = asked(&ana);
    let before = dump(&ask, &g, &ff);
    let s = Scripted::new(c.policies.first().copied().unwrap_or(Policy::Never));
    macro_rules! tear {
        ($w:expr, $most:expr, $f:expr) => {{
            let (_, n) = fused(0, || $f);
            for k in fuses(rng, n, $most) {
                if let Err(m) = torn(st, $w, k, || $f) {
                    return V::Bad(m);
                }
            }
        }};
    }
    tear!("building a grammar", 8, grammar::<K>(&c.gram));
    tear!("computing FIRST and FOLLOW", 10, FirstFollowSymbols::from(&g));
    tear!("building a table", 8, RecursiveDescentParserTransitions::from(&g, &ff));
    tear!("building a parser", 5, Plain::from_grammar(&g));
    tear!("building a parser", 5, Plain::from_grammar_and_first_follow_symbols(&g, &ff));
    tear!("building a parser", 5, RecursiveDescentParser::<Lex, K, Fused>::from_grammar_and_solver(&g, Fused(&s)));
    let id = K::enc(*rng.pick(&ask), 0);
    tear!("asking a grammar", 3, (g.is_terminal(&id), g.is_non_terminal(&id), g.get_productions(&id).is_some()));
    tear!("asking symbol sets", 3, (ff.get_first_symbols(&id).is_some(), ff.get_follow_symbols(&id).is_some()));
    tear!("listing symbols", 3, (g.get_terminal_symbols(), g.get_non_terminal_symbols()));
    let live = Arc::new(AtomicI64::new(0));
    let token = Token::new(Some(Lex::new(1, &live)), K::enc(1, 1));
    tear!("copying a token", 3, token.clone());
    tear!("comparing tokens", 3, (token == token, token != token));
    drop(token);
    if live.load(Ordering::Relaxed) != 0 {
        return V::Bad("lexemes remain of a token whose copying ended in a panic of the caller's code".into());
    }
    if dump(&ask, &g, &ff) != before {
        return V::Bad("grammar or symbol sets read differently after panics of the caller's code".into());
    }
    let p = want!(build_plain(&g));
    let ps: RecursiveDescentParser<Lex, K, Fused> =
        want!(no_panic("building the parser", budgeted(BUILD, || RecursiveDescentParser::from_grammar_and_solver(&g, Fused(&s))).0));
    for t in c.inputs.iter().filter(|t| !t.is_empty()) {
        if Model::run(&ana, t, None, d.cap_for(t) / 30).is_err() || c.policies.iter().any(|p| Model::run(&ana, t, Some(*p), d.cap_for(t) / 30).is_err()) {
            *st.skips.entry("search too long").or_default() += 1;
            continue;
        }
        if let Err(m) = torn_parses(c, &p, None, t, st, rng) {
            return V::Bad(m);
        }
        if let Err(m) = torn_parses(c, &ps, Some(&s), t, st, rng) {
            return V::Bad(format!("with a solver, {}", m));
        }
        if t.len() > 1 {
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
    }
    if dump(&ask, &g, &ff) != before {
        return V::Bad("grammar or symbol sets read differently after parses that ended in panics".into());
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C19: memory

/// Whether what `f` leaves in memory keeps growing with the number of times it runs. Whatever is
/// filled once and then stays as it is (up to `slack` bytes) is no growth.
fn keeps_growing(slack: i64, f: &mut dyn FnMut()) -> Option<String> {
    f();
    f();
    let begin = crate::mem::used();
    for _ in 0..4 {
        f();
    }
    if crate::mem::used() == begin {
        return None;
    }
    // rounds double: something bounded is full after a while, a list doubles once per window
    let mut last = crate::mem::used();
    let mut rounds = 8;
    let mut sizes = vec![last - begin];
    while rounds <= 1024 {
        for _ in 0..rounds {
            f();
        }
        let now = crate::mem::used();
        if now <= last {
            return None;
        }
        sizes.push(now - begin);
        last = now;
        if rounds >= 256 && now - begin > slack {
            return Some(format!(
                "memory in use grows with every parse: {:?} bytes more after 4, 12, 28, ... rounds", sizes));
        }
        rounds *= 2;
    }
    None
}

/// C19, one grammar for a long time: the name of that part of the check.
pub const SOAK: &str = "C19-soak";

/// Bytes that a predictive parse may need per symbol visited or token given.
const BYTES_PER_VISIT: u64 = 2048;

fn c19<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    if ana.left_recursion().is_some() {
        return V::Skip("left recursion");
    }
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    let ll1 = ana.is_ll1();
    let widest = c.gram.prods.iter().map(|p| p.1.len()).max().unwrap_or(1) as u64;
    let bulk = bulk(&c.gram);
    let mut short: Vec<(&[Tok], u64)> = vec![];
    let mut long: Vec<(&[Tok], u64)> = vec![];
    for t in c.inputs.iter().filter(|t| !t.is_empty()) {
        let (lim, search) = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) => (limit(x.2.visits, t.len()), x.2),
            Err(_) => {
                *st.skips.entry("search too long").or_default() += 1;
                continue;
            }
        };
        if t.len() <= 60 {
            short.push((t, lim));
        } else if t.len() <= 4000 {
            long.push((t, lim));
        }
        let live = Arc::new(AtomicI64::new(0));
        let real = tokens::<K>(t, &live);
        let ((r, _), bytes) = crate::mem::peak(|| budgeted(lim, || p.parse_from_tokens(real.into_iter())));
        let ended = matches!(r, Ran::Done(_));
        drop(r);
        let visits = if ll1 { ll1_accepts(&ana, t).1 } else { search.visits };
        let n = visits + t.len() as u64 + 4;
        let lim = (BYTES_PER_VISIT + 512 * widest + 64 * bulk) * n + search.pending * 2 * (std::mem::size_of::<K>() as u64 + 32);
        if ended {
            st.add("peaks measured", 1);
            st.add("peaks of searches with choices", (search.choices > 0) as u64);
            st.max("peak bytes per visit or token", bytes as u64 / n);
            st.max("symbols visited in one parse", visits);
            if bytes as u64 > lim {
                return V::Bad(format!(
                    "{} bytes in use while parsing {} tokens with {} visited symbols", bytes, t.len(), visits));
            }
        }
        st.seen(mix(gdig(&c.gram) ^ tdig(t)));
    }
    if short.is_empty() {
        return V::Pass;
    }
    let syms = ana.syms.len() as i64;
    let slack = 16_384 + 512 * (syms + 2) * (syms + 2);
    let top = *ana.syms.last().unwrap();
    let mut parses = 0u64;
    // the same inputs, whole and interrupted
    let mut round = || {
        for (t, lim) in &short {
            let ops = parse1(&p, t, *lim).ops;
            if ops > 1 {
                parse1(&p, t, ops / 2);
            }
            parses += 2;
        }
    };
    if let Some(m) = keeps_growing(slack, &mut round) {
        return V::Bad(m);
    }
    let mut round = || {
        for (t, lim) in &long {
            parse1(&p, t, *lim);
            parses += 1;
        }
    };
    if let Some(m) = keeps_growing(slack, &mut round) {
        return V::Bad(format!("with long inputs, {}", m));
    }
    // a refused input, and a new unknown symbol and new lexemes each time
    let mut k = 0u32;
    let mut round = || {
        for (t, lim) in &short {
            k += 1;
            let mut u = t.to_vec();
            let i = (k as usize * 7) % u.len();
            u[i].sym = top + 5 + k;
            u[i].tag = k;
            u[i].lex = Some(k as u64 + (1 << 40));
            parse1(&p, &u, *lim * 4);
            parses += 1;
        }
        parse1(&p, &[], 1_000_000);
    };
    if let Some(m) = keeps_growing(slack, &mut round) {
        return V::Bad(format!("with changing inputs, {}", m));
    }
    // a solver that keeps nothing
    if let Some(pol) = c.policies.first() {
        let s = Scripted::new(*pol);
        let ps = want!(build_solving::<K>(&g, &s));
        let lims: Vec<Option<u64>> = short
            .iter()
            .map(|(t, _)| Model::run(&ana, t, Some(*pol), d.cap_for(t)).ok().map(|x| limit(x.2.visits, t.len())))
            .collect();
        let mut round = || {
            for ((t, _), lim) in short.iter().zip(&lims) {
                if let Some(lim) = lim {
                    parse_with(&ps, &s, t, *lim, 10_000);
                    parses += 1;
                }
            }
            *s.expect.borrow_mut() = vec![];
            s.log.replace(vec![]);
        };
        if let Some(m) = keeps_growing(slack, &mut round) {
            return V::Bad(format!("with a solver, {}", m));
        }
    }
    // everything built, used and dropped
    let (t, lim) = short[0];
    let mut bad = false;
    let mut round = || {
        if let (Ok(g), true) = (build_grammar::<K>(&c.gram), !bad) {
            if let (Ok(ff), Ok(p)) = (build_sets(&g), build_plain(&g)) {
                RecursiveDescentParserTransitions::from(&g, &ff);
                parse1(&p, t, lim);
            } else {
                bad = true;
            }
        }
    };
    if let Some(m) = keeps_growing(slack, &mut round) {
        return V::Bad(format!("building and dropping: {}", m));
    }
    st.add("parses whose memory was compared", parses);
    st.add("grammars built and dropped", 6);
    V::Pass
}

/// Whether what `f` leaves in memory still grows after tens of thousands of rounds, measured in a
/// process that has done nothing else. Lists double, so sizes are compared after 4, 16, 64, ...
/// rounds: whatever is bounded is full long before the last of these.
fn soaks(st: &mut Stats, secs: f64, f: &mut dyn FnMut()) -> Option<String> {
    let begin = crate::mem::used();
    let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(secs);
    let mut sizes = vec![];
    let mut done = 0u64;
    for k in 1..=9 {
        while done < 1 << (2 * k) {
            f();
            done += 1;
            if done % 64 == 0 && std::time::Instant::now() > end {
                break;
            }
        }
        if done < 1 << (2 * k) {
            break;
        }
        sizes.push(crate::mem::used() - begin);
    }
    st.add("rounds soaked", done);
    st.max("rounds of one kind soaked", done);
    let n = sizes.len();
    if n >= 6 && sizes[n - 1] > sizes[n - 2] + 1024 && sizes[n - 2] > sizes[n - 3] + 256 {
        return Some(format!("memory in use keeps growing: {:?} bytes more after 4, 16, 64, ... rounds", sizes));
    }
    None
}

/// One grammar for a long time, in a process of its own.
fn c19_soak<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    if ana.left_recursion().is_some() {
        return V::Skip("left recursion");
    }
    let secs = if d.thorough { 12.0 } else { 2.0 };
    let g = want!(build_grammar::<K>(&c.gram));
    let p = want!(build_plain(&g));
    let pol = c.policies.first().copied().unwrap_or(Policy::Never);
    let s = Scripted::new(pol);
    let ps = want!(build_solving::<K>(&g, &s));
    let top = *ana.syms.last().unwrap();
    // the cheapest inputs of each outcome
    let mut plain: Vec<(bool, u64, &[Tok])> = vec![];
    let mut solved: Vec<(u64, &[Tok])> = vec![];
    for t in c.inputs.iter().filter(|t| !t.is_empty() && t.len() <= 60) {
        if let Ok(x) = Model::run(&ana, t, None, d.cap_for(t)) {
            plain.push((matches!(x.0, Outcome::Ok(_)), x.2.visits, t));
            if let Ok(y) = Model::run(&ana, t, Some(pol), d.cap_for(t)) {
                solved.push((y.2.visits, t));
            }
        }
    }
    plain.sort_by_key(|x| x.1);
    solved.sort_by_key(|x| x.0);
    let mut kinds: Vec<usize> = (0..7).collect();
    let by = (c.seed % 7) as usize;
    kinds.rotate_left(by);
    for k in kinds {
        let said = match k {
            0 | 1 => {
                let some: Vec<_> = plain.iter().filter(|x| x.0 == (k == 0)).take(2).collect();
                if some.is_empty() {
                    continue;
                }
                soaks(st, secs, &mut || {
                    for (_, v, t) in &some {
                        parse1(&p, t, limit(*v, t.len()));
                    }
                })
                .map(|m| format!("{} inputs: {}", if k == 0 { "accepted" } else { "rejected" }, m))
            }
            2 => {
                // refused, interrupted
                let t = plain.first().map_or(&[][..], |x| x.2);
                let ops = if t.is_empty() { 2 } else { parse1(&p, t, 1 << 40).ops };
                soaks(st, secs, &mut || {
                    parse1(&p, &[], 1_000_000);
                    if ops > 1 {
                        parse1(&p, t, ops / 2);
                    }
                })
                .map(|m| format!("empty and interrupted inputs: {}", m))
            }
            3 => {
                let (_, v, t) = match plain.last() {
                    Some(x) => *x,
                    None => continue,
                };
                let mut n = 0u32;
                soaks(st, secs, &mut || {
                    n += 1;
                    let mut u = t.to_vec();
                    let i = (n as usize * 7) % u.len();
                    u[i].sym = top + 5 + n;
                    u[i].lex = Some(n as u64 + (1 << 40));
                    parse1(&p, &u, limit(v, t.len()) * 4);
                })
                .map(|m| format!("inputs that change: {}", m))
            }
            4 => {
                if solved.is_empty() {
                    continue;
                }
                soaks(st, secs, &mut || {
                    for (v, t) in solved.iter().take(3) {
                        parse_with(&ps, &s, t, limit(*v, t.len()), 10_000);
                    }
                    *s.expect.borrow_mut() = vec![];
                })
                .map(|m| format!("with a solver: {}", m))
            }
            5 => soaks(st, secs, &mut || {
                if let Ok(g) = build_grammar::<K>(&c.gram) {
                    if let (Ok(ff), Ok(_)) = (build_sets(&g), build_plain(&g)) {
                        RecursiveDescentParserTransitions::from(&g, &ff);
                    }
                }
            })
            .map(|m| format!("building and dropping: {}", m)),
            _ => {
                let ff = want!(build_sets(&g));
                let table = RecursiveDescentParserTransitions::from(&g, &ff);
                let of: Vec<K> = asked(&ana).into_iter().map(|x| K::enc(x, 0)).collect();
                soaks(st, secs, &mut || {
                    for x in of.iter().take(12) {
                        g.get_productions(x);
                        g.is_terminal(x);
                        ff.get_first_symbols(x);
                        ff.get_follow_symbols(x);
                        table.get_productions(x, &of[0]);
                    }
                    g.get_terminal_symbols();
                    g.get_non_terminal_symbols();
                })
                .map(|m| format!("queries: {}", m))
            }
        };
        if let Some(m) = said {
            return V::Bad(m);
        }
        st.add("kinds of use soaked", 1);
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C22: stack

/// Bytes of stack allowed for each level of nesting, and for each symbol of the grammar in the analysis.
const STACK_PER_LEVEL: u64 = 16_384;
const STACK_PER_SYMBOL: u64 = 2_048;
const STACK_BASE: u64 = 65_536;

fn c22<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    let ana = Ana::new(&c.gram);
    let lim = STACK_BASE + STACK_PER_SYMBOL * ana.n() as u64;
    let mut most = 0;
    let mut seen = |what: &str, bytes: usize| -> Result<(), String> {
        most = most.max(bytes as u64);
        if bytes as u64 > lim {
            return Err(format!("{}: {} bytes of stack for a grammar of {} symbols", what, bytes, ana.n()));
        }
        Ok(())
    };
    let (g, n) = crate::mem::stack(|| budgeted(BUILD, || grammar::<K>(&c.gram)).0);
    let g = want!(no_panic("building the grammar", g));
    need!(seen("building the grammar", n));
    let (ff, n) = crate::mem::stack(|| budgeted(BUILD, || FirstFollowSymbols::from(&g)).0);
    let ff = want!(no_panic("computing FIRST and FOLLOW", ff));
    need!(seen("computing FIRST and FOLLOW", n));
    let (t, n) = crate::mem::stack(|| budgeted(BUILD, || RecursiveDescentParserTransitions::from(&g, &ff)).0);
    want!(no_panic("building the table", t));
    need!(seen("building the table", n));
    let (p, n) = crate::mem::stack(|| budgeted(BUILD, || Plain::from_grammar(&g)).0);
    let p = want!(no_panic("building the parser", p));
    need!(seen("building the parser", n));
    st.add("grammars analysed", 1);
    st.max("bytes of stack for an analysis", most);
    if c.gram.prods.len() >= 3 {
        st.seen(gdig(&c.gram));
    }
    if ana.left_recursion().is_some() {
        return V::Pass;
    }
    let ll1 = ana.is_ll1();
    let s = c.policies.first().map(|p| (*p, Scripted::new(*p)));
    let ps = match &s {
        Some((_, s)) => Some(want!(build_solving::<K>(&g, s))),
        None => None,
    };
    for t in c.inputs.iter().filter(|t| !t.is_empty()) {
        for solving in [false, true] {
            let pol = match (&s, solving) {
                (_, false) => None,
                // each request holds the whole nested failure
                (Some((p, _)), true) if t.len() <= 300 => Some(*p),
                _ => continue,
            };
            let got = if ll1 && !solving {
                ll1_depth(&ana, t, d.cap.max(40 * t.len() as u64))
            } else {
                Model::run(&ana, t, pol, d.cap_for(t)).ok().map(|x| (x.2.max_depth, x.2.visits))
            };
            let (depth, lim) = match got {
                Some((depth, visits)) => (depth, limit(visits, t.len())),
                None => {
                    *st.skips.entry("search too long").or_default() += 1;
                    continue;
                }
            };
            let live = Arc::new(AtomicI64::new(0));
            let real = tokens::<K>(t, &live);
            let it = real.into_iter();
            let (r, n) = if let (true, Some((_, s)), Some(ps)) = (solving, &s, &ps) {
                s.log.borrow_mut().clear();
                *s.expect.borrow_mut() = t.to_vec();
                s.max_calls.set(10_000);
                crate::mem::stack(|| budgeted(lim, || ps.parse_from_tokens(it)).0)
            } else {
                crate::mem::stack(|| budgeted(lim, || p.parse_from_tokens(it)).0)
            };
            if !matches!(r, Ran::Done(_)) {
                continue;
            }
            let ((), m) = crate::mem::stack(|| drop(r));
            let allowed = STACK_BASE + STACK_PER_LEVEL * (depth + 1);
            st.add("parses", 1);
            st.max("bytes of stack for a parse", n as u64);
            st.max("nesting", depth);
            if depth <= 12 {
                st.max("tokens with a nesting of at most 12", t.len() as u64);
                st.max("bytes of stack with a nesting of at most 12", n as u64);
            }
            st.max("bytes of stack per level", n as u64 / (depth + 4));
            st.max("bytes of stack per level when dropped", m as u64 / (depth + 4));
            for (what, n) in [("parsing", n), ("dropping the result of", m)] {
                if n as u64 > allowed {
                    return V::Bad(format!(
                        "{} bytes of stack while {} {} tokens, with {} non-terminals inside each other", n, what, t.len(), depth));
                }
            }
            st.seen(mix(gdig(&c.gram) ^ tdig(t)));
        }
    }
    V::Pass
}

// ---------------------------------------------------------------------------------------------
// C20: work of the analysis

fn c20<K: Kind>(c: &Case, st: &mut Stats) -> V {
    let ana = Ana::new(&c.gram);
    let nts = ana.is_nt.iter().filter(|x| **x).count() as u64;
    let terms = ana.syms.len() as u64 - nts;
    let len: u64 = c.gram.prods.iter().map(|p| 1 + p.1.len() as u64).sum();
    let widest = c.gram.prods.iter().map(|p| p.1.len()).max().unwrap_or(1) as u64;
    let small = PER_STEP * (nts + 2) * (len + 4) * (terms + widest + 4);
    let st = st;
    let mut step = |what: &'static str, most: &'static str, ops: u64| -> Result<(), String> {
        st.add(what, ops);
        st.max(most, 1000 * ops / ((nts + 2) * (len + 4) * (terms + widest + 4)));
        Ok(())
    };
    let (g, o1) = budgeted(small, || grammar::<K>(&c.gram));
    let g = need!(no_panic("building the grammar", g));
    need!(step("operations to build grammars", "grammar: operations per 1000 units", o1));
    let (ff, o2) = budgeted(small, || FirstFollowSymbols::from(&g));
    let ff = need!(no_panic("computing FIRST and FOLLOW", ff));
    need!(step("operations to compute sets", "sets: operations per 1000 units", o2));
    let (t, o3) = budgeted(small, || RecursiveDescentParserTransitions::from(&g, &ff));
    need!(no_panic("building the table", t));
    need!(step("operations to build tables", "table: operations per 1000 units", o3));
    let (p, o4) = budgeted(2 * small, || Plain::from_grammar(&g));
    need!(no_panic("building the parser", p));
    need!(step("operations to build parsers", "parser: operations per 1000 units", o4));
    st.add("grammars analysed", 1);
    st.max("symbols of a grammar", ana.syms.len() as u64);
    if c.gram.prods.len() >= 3 {
        st.seen(gdig(&c.gram));
    }
    V::Pass
}

/// Symbol operations allowed per unit of (non-terminals x length x terminals).
const PER_STEP: u64 = 30;

// ---------------------------------------------------------------------------------------------
// C21: everything that the library does, done once; the system calls are watched from outside

thread_local! {
    /// messages of panics that reached the hook of the harness
    pub static HOOKED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn c21<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    if c.seed % 2 == 0 {
        return c21_here::<K>(c, st, d);
    }
    // where every environment variable is set: none of them may switch on effects
    let value = crate::ambient::VALUES[(c.seed / 2) as usize % crate::ambient::VALUES.len()];
    let (v, asked) = crate::ambient::elsewhere(value, c.seed, || c21_here::<K>(c, st, d));
    st.add("cases with all environment variables set", 1);
    st.add("environment variables asked for", asked.0);
    v
}
fn c21_here<K: Kind>(c: &Case, st: &mut Stats, d: Depth) -> V {
    st.add("grammars", 1);
    st.seen(gdig(&c.gram));
    let hooked = HOOKED.with(|n| n.get());
    let g = match budgeted(BUILD, || grammar::<K>(&c.gram)).0 {
        Ran::Done(g) => g,
        _ => {
            st.add("refused grammars", 1);
            if HOOKED.with(|n| n.get()) == hooked {
                return V::Bad("a grammar is refused by a panic that does not reach the panic hook".into());
            }
            return V::Pass;
        }
    };
    let ana = Ana::new(&c.gram);
    let ff = want!(build_sets(&g));
    budgeted(BUILD, || RecursiveDescentParserTransitions::from(&g, &ff));
    dump(&asked(&ana), &g, &ff);
    let p = want!(build_plain(&g));
    if ana.left_recursion().is_some() {
        return V::Pass;
    }
    let solvers: Vec<Scripted> = c.policies.iter().map(|p| Scripted::new(*p)).collect();
    let mut with: Vec<Solving<K>> = vec![];
    for s in &solvers {
        with.push(want!(build_solving::<K>(&g, s)));
    }
    for t in &c.inputs {
        let lim = match Model::run(&ana, t, None, d.cap_for(t)) {
            Ok(x) if !t.is_empty() => limit(x.2.visits, t.len()),
            _ => continue,
        };
        let r = parse1(&p, t, lim);
        parse_stats(st, &r.out, t);
        for (i, pol) in c.policies.iter().enumerate() {
            if let Ok(x) = Model::run(&ana, t, Some(*pol), d.cap_for(t)) {
                let (r, log) = parse_with(&with[i], &solvers[i], t, limit(x.2.visits, t.len()), 10_000);
                parse_stats(st, &r.out, t);
                st.add("requests to solvers", log.len() as u64);
            }
        }
        st.seen(mix(gdig(&c.gram) ^ tdig(t)));
    }
    if c.seed % 16 == 0 {
        let hooked = HOOKED.with(|n| n.get());
        let r = parse1(&p, &[], 1_000_000);
        st.add("empty inputs refused", 1);
        if matches!(r.out, Outcome::Panic(_)) && HOOKED.with(|n| n.get()) == hooked {
            return V::Bad("an empty input is refused by a panic that does not reach the panic hook".into());
        }
    }
    V::Pass
}
