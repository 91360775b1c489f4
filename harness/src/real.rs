//! The library under test, driven through its public API with several symbol types, and its
//! results turned into neutral values.
use crate::gram::Gram;
use crate::model::*;
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// step budget: counted in operations on symbols

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub struct BudgetExceeded;
/// An endless call must not take all memory before its budget is used up: 1.5 GB are far beyond
/// what any call needs here.
const MOST: i64 = 1_500_000_000;

// ---------------------------------------------------------------------------------------------
// a panic of the caller's code, at a chosen one of the calls into it

thread_local! {
    static WATCHED: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static BLEW: Cell<usize> = const { Cell::new(0) };
}
pub const CALLERS: [&str; 4] = ["a symbol operation", "a lexeme copy", "the token iterator", "a solver"];
pub struct Blown(pub u64);

/// Called by the caller's code wherever the library enters it.
#[inline]
pub fn called(who: usize) {
    if WATCHED.get() {
        let n = CALLS.get() + 1;
        CALLS.set(n);
        if n == FUSE.get() {
            BLEW.set(who);
            panic_any(Blown(n ^ 0x5EED));
        }
    }
}

pub enum Fate<R> {
    /// the call ended before the fuse did
    Done(R),
    /// the panic came out: who panicked, whether with the same value, calls made afterwards
    Blown(usize, bool, u64),
    /// it did not come out
    Swallowed(usize),
    /// another panic came out before the fuse blew
    Other,
}

/// Runs `f`; the `fuse`-th call into the caller's code panics (0: none). Returns the number of calls.
pub fn fused<R>(fuse: u64, f: impl FnOnce() -> R) -> (Fate<R>, u64) {
    CALLS.set(0);
    FUSE.set(fuse);
    WATCHED.set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    WATCHED.set(false);
    let n = CALLS.get();
    let blown = fuse > 0 && n >= fuse;
    let fate = match r {
        Ok(_) if blown => Fate::Swallowed(BLEW.get()),
        Ok(v) => Fate::Done(v),
        Err(e) if blown => {
            let same = e.downcast_ref::<Blown>().is_some_and(|b| b.0 == fuse ^ 0x5EED);
            Fate::Blown(BLEW.get(), same, n - fuse)
        }
        Err(_) => Fate::Other,
    };
    (fate, n)
}

#[inline]
pub fn tick() {
    crate::mem::touch();
    called(0);
    let n = OPS.get() + 1;
    OPS.set(n);
    if n > LIMIT.get() || n & 0xFFF == 0 && LIMIT.get() < u64::MAX && crate::mem::used() > MOST {
        // disarm before unwinding, so that nothing else panics on the way out
        LIMIT.set(u64::MAX);
        panic_any(BudgetExceeded);
    }
}

pub enum Ran<R> {
    Done(R),
    Panicked(String),
    Budget,
}

/// Runs `f` with a budget of symbol operations; returns what happened and the operations used.
pub fn budgeted<R>(limit: u64, f: impl FnOnce() -> R) -> (Ran<R>, u64) {
    OPS.set(0);
    LIMIT.set(limit);
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.set(u64::MAX);
    let ops = OPS.get();
    let out = match r {
        Ok(v) => Ran::Done(v),
        Err(e) => {
            if e.is::<BudgetExceeded>() {
                Ran::Budget
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Ran::Panicked(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Ran::Panicked(s.clone())
            } else {
                Ran::Panicked("panic".into())
            }
        }
    };
    (out, ops)
}

// ---------------------------------------------------------------------------------------------
// symbol types

pub trait Kind: Clone + Eq + Hash + Send + Sync + 'static {
    fn enc(id: u32, tag: u32) -> Self;
    fn id(&self) -> u32;
    fn tag(&self) -> Option<u32> {
        None
    }
}

/// plain number, counted
pub struct Num(u32);
impl Clone for Num {
    fn clone(&self) -> Self {
        tick();
        Num(self.0)
    }
}
impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Num {}
impl Hash for Num {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        h.write_u32(self.0)
    }
}
impl Kind for Num {
    fn enc(id: u32, _: u32) -> Self {
        Num(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}

/// heap-allocated text, counted
pub struct Text(String);
impl Clone for Text {
    fn clone(&self) -> Self {
        tick();
        Text(self.0.clone())
    }
}
impl PartialEq for Text {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Text {}
impl Hash for Text {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        self.0.hash(h)
    }
}
impl Kind for Text {
    fn enc(id: u32, _: u32) -> Self {
        Text(format!("symbol-{}", id))
    }
    fn id(&self) -> u32 {
        self.0[7..].parse().unwrap()
    }
}

/// nested enum like the ones in the library's tests
#[derive(PartialEq, Eq, Hash, Clone)]
enum Inner {
    Zero,
    Word(Box<u32>),
    Pair { hi: u16, lo: u16 },
}
#[derive(Eq, Hash)]
pub enum Nested {
    Unit,
    Plain(u32),
    Terminal(InnerBox),
}
#[derive(PartialEq, Eq, Hash, Clone)]
pub struct InnerBox(Inner);
impl Clone for Nested {
    fn clone(&self) -> Self {
        tick();
        match self {
            Nested::Unit => Nested::Unit,
            Nested::Plain(n) => Nested::Plain(*n),
            Nested::Terminal(i) => Nested::Terminal(i.clone()),
        }
    }
}
impl PartialEq for Nested {
    fn eq(&self, o: &Self) -> bool {
        tick();
        match (self, o) {
            (Nested::Unit, Nested::Unit) => true,
            (Nested::Plain(a), Nested::Plain(b)) => a == b,
            (Nested::Terminal(a), Nested::Terminal(b)) => a == b,
            _ => false,
        }
    }
}
impl Kind for Nested {
    fn enc(id: u32, _: u32) -> Self {
        match id % 4 {
            0 if id == 0 => Nested::Unit,
            1 if id == 1 => Nested::Terminal(InnerBox(Inner::Zero)),
            2 => Nested::Terminal(InnerBox(Inner::Word(Box::new(id)))),
            3 => Nested::Terminal(InnerBox(Inner::Pair {
                hi: (id >> 16) as u16,
                lo: id as u16,
            })),
            _ => Nested::Plain(id),
        }
    }
    fn id(&self) -> u32 {
        match self {
            Nested::Unit => 0,
            Nested::Plain(n) => *n,
            Nested::Terminal(InnerBox(Inner::Zero)) => 1,
            Nested::Terminal(InnerBox(Inner::Word(n))) => **n,
            Nested::Terminal(InnerBox(Inner::Pair { hi, lo })) => (*hi as u32) << 16 | *lo as u32,
        }
    }
}

/// every value has the same hash, counted
pub struct Collide(u32);
impl Clone for Collide {
    fn clone(&self) -> Self {
        tick();
        Collide(self.0)
    }
}
impl PartialEq for Collide {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Collide {}
impl Hash for Collide {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        h.write_u8(1)
    }
}
impl Kind for Collide {
    fn enc(id: u32, _: u32) -> Self {
        Collide(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}

/// equality ignores the tag: values can be equal and yet tell where they came from
pub struct Tagged {
    id: u32,
    tag: u32,
}
impl Clone for Tagged {
    fn clone(&self) -> Self {
        tick();
        Tagged {
            id: self.id,
            tag: self.tag,
        }
    }
}
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.id == o.id
    }
}
impl Eq for Tagged {}
impl Hash for Tagged {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        h.write_u32(self.id)
    }
}
impl Kind for Tagged {
    fn enc(id: u32, tag: u32) -> Self {
        Tagged { id, tag }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn tag(&self) -> Option<u32> {
        Some(self.tag)
    }
}

/// plain machine integer, not counted
impl Kind for u32 {
    fn enc(id: u32, _: u32) -> Self {
        id
    }
    fn id(&self) -> u32 {
        *self
    }
}

// these only for grammars whose symbols are below 256
impl Kind for u8 {
    fn enc(id: u32, _: u32) -> Self {
        u8::try_from(id).unwrap()
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
impl Kind for &'static str {
    fn enc(id: u32, _: u32) -> Self {
        static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        NAMES.get_or_init(|| (0..256).map(|i| i.to_string()).collect())[id as usize].as_str()
    }
    fn id(&self) -> u32 {
        self.parse().unwrap()
    }
}

pub const KINDS: [&str; 6] = ["num", "text", "nested", "collide", "tagged", "u32"];
pub const KIND_U32: usize = 5;
pub const KIND_COLLIDE: usize = 3;
pub const KIND_TAGGED: usize = 4;

/// `with_kind!(k, f, args...)` calls `f::<K>(args...)` for the k-th symbol type.
#[macro_export]
macro_rules! with_kind {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<$crate::real::Num>($($a),*),
            1 => $f::<$crate::real::Text>($($a),*),
            2 => $f::<$crate::real::Nested>($($a),*),
            3 => $f::<$crate::real::Collide>($($a),*),
            4 => $f::<$crate::real::Tagged>($($a),*),
            _ => $f::<u32>($($a),*),
        }
    };
}

// ---------------------------------------------------------------------------------------------
// lexemes: cloneable and nothing else; every live copy is counted

pub struct Lex {
    pub id: u64,
    live: Arc<AtomicI64>,
}
impl Lex {
    pub fn new(id: u64, live: &Arc<AtomicI64>) -> Lex {
        live.fetch_add(1, Ordering::Relaxed);
        Lex {
            id,
            live: live.clone(),
        }
    }
}
impl Clone for Lex {
    fn clone(&self) -> Self {
        called(1);
        Lex::new(self.id, &self.live)
    }
}
impl Drop for Lex {
    fn drop(&mut self) {
        crate::mem::touch();
        self.live.fetch_sub(1, Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------------------------------------
// conversions

pub fn grammar<K: Kind>(g: &Gram) -> ContextFreeGrammar<K> {
    let mut tag = 1_000_000;
    let mut e = |id: u32| {
        tag += 1;
        K::enc(id, tag)
    };
    let prods = g
        .prods
        .iter()
        .map(|(l, r)| {
            ContextFreeGrammarProduction::new(e(*l), r.iter().map(|s| e(*s)).collect())
        })
        .collect();
    ContextFreeGrammar::new(e(g.eps), e(g.start), prods)
}

pub fn tokens<K: Kind>(toks: &[Tok], live: &Arc<AtomicI64>) -> Vec<Token<Lex, K>> {
    toks.iter()
        .map(|t| Token::new(t.lex.map(|l| Lex::new(l, live)), K::enc(t.sym, t.tag)))
        .collect()
}

/// What lexeme it is.
pub trait Word {
    fn word(&self) -> u64;
}
impl Word for Lex {
    fn word(&self) -> u64 {
        self.id
    }
}
impl Word for () {
    fn word(&self) -> u64 {
        0
    }
}
impl Word for u64 {
    fn word(&self) -> u64 {
        *self
    }
}
impl Word for u8 {
    fn word(&self) -> u64 {
        *self as u64
    }
}
impl Word for &str {
    fn word(&self) -> u64 {
        self.parse().unwrap_or(u64::MAX)
    }
}
impl Word for Vec<String> {
    fn word(&self) -> u64 {
        self.iter().map(|s| s.as_str().word()).fold(self.len() as u64 - 1, |a, b| a ^ b)
    }
}

pub fn n_tree<L: Word, K: Kind>(n: &AbstractSyntaxNode<Token<L, K>>) -> Tree {
    Tree {
        sym: n.token.t_type.id(),
        lex: n.token.lex.as_ref().map(|l| l.word()),
        tag: n.token.t_type.tag().unwrap_or(0),
        kids: n.child_nodes.iter().map(n_tree).collect(),
    }
}
pub fn n_fix<L: Word, K: Kind>(f: &FixedSymbol<L, K>) -> FixSym {
    FixSym {
        sym: f.symbol_to_derive.id(),
        parts: f
            .fixed_production
            .fixed_parts
            .iter()
            .map(|p| match p {
                FixedProductionPart::Ok(t) => Part::Ok(n_tree(t)),
                FixedProductionPart::Fixed(f) => Part::Fixed(n_fix(f)),
                FixedProductionPart::Gap(g) => Part::Gap(
                    g.skipped_tokens.iter().map(|l| l.word()).collect(),
                    g.skipped_symbols.iter().map(|s| s.id()).collect(),
                ),
            })
            .collect(),
    }
}
pub fn n_failprod<L: Word, K: Kind>(p: &FailedProduction<L, K>) -> FailProd {
    FailProd {
        parsed: p
            .parsed_symbols
            .iter()
            .map(|q| match q {
                ProductionParsedSymbol::Ok(t) => Parsed::Ok(n_tree(t)),
                ProductionParsedSymbol::Fix(f) => Parsed::Fix(n_fix(f)),
            })
            .collect(),
        failed: n_fail(&p.failed_symbol),
        pending: p.pending_symbols.iter().map(|s| s.id()).collect(),
    }
}
pub fn n_fail<L: Word, K: Kind>(f: &FailedSymbol<L, K>) -> FailSym {
    FailSym {
        sym: f.symbol_to_derive.id(),
        prods: f.failed_productions.iter().map(n_failprod).collect(),
    }
}
pub fn n_result<L: Word, K: Kind>(r: &ParseResult<L, K>) -> Outcome {
    match r {
        ParseResult::Ok(t) => Outcome::Ok(n_tree(&t.root)),
        ParseResult::Err(f) => Outcome::Err(n_fail(f)),
        ParseResult::Fix(f) => Outcome::Fix(n_fix(f)),
    }
}

/// number of lexemes held by a neutral result
pub fn held_tree(t: &Tree) -> i64 {
    t.lex.is_some() as i64 + t.kids.iter().map(held_tree).sum::<i64>()
}
pub fn held_fix(f: &FixSym) -> i64 {
    f.parts
        .iter()
        .map(|p| match p {
            Part::Ok(t) => held_tree(t),
            Part::Fixed(f) => held_fix(f),
            Part::Gap(l, _) => l.len() as i64,
        })
        .sum()
}
pub fn held_fail(f: &FailSym) -> i64 {
    f.prods
        .iter()
        .map(|p| {
            p.parsed
                .iter()
                .map(|q| match q {
                    Parsed::Ok(t) => held_tree(t),
                    Parsed::Fix(f) => held_fix(f),
                })
                .sum::<i64>()
                + held_fail(&p.failed)
        })
        .sum()
}
pub fn held(o: &Outcome) -> i64 {
    match o {
        Outcome::Ok(t) => held_tree(t),
        Outcome::Err(f) => held_fail(f),
        Outcome::Fix(f) => held_fix(f),
        _ => 0,
    }
}

// ---------------------------------------------------------------------------------------------
// solvers

/// Scripted solver: answers by `decide`, logs every request.
pub struct Scripted {
    pub policy: Policy,
    pub log: RefCell<Vec<Call>>,
    pub expect: RefCell<Vec<Tok>>,
    pub live: RefCell<Arc<AtomicI64>>,
    /// panics after that many requests (a search that no longer ends)
    pub max_calls: Cell<usize>,
}
impl Scripted {
    pub fn new(policy: Policy) -> Self {
        Scripted {
            policy,
            log: RefCell::new(vec![]),
            expect: RefCell::new(vec![]),
            live: RefCell::new(Arc::new(AtomicI64::new(0))),
            max_calls: Cell::new(usize::MAX),
        }
    }
    fn e_tree<K: Kind>(&self, t: &Tree) -> AbstractSyntaxNode<Token<Lex, K>> {
        AbstractSyntaxNode::new(
            t.kids.iter().map(|k| self.e_tree(k)).collect(),
            Token::new(
                t.lex.map(|l| Lex::new(l, &self.live.borrow())),
                K::enc(t.sym, t.tag),
            ),
        )
    }
    pub fn e_parts<K: Kind>(&self, parts: &[Part]) -> FixedProduction<Lex, K> {
        FixedProduction::new(
            parts
                .iter()
                .map(|p| match p {
                    Part::Ok(t) => FixedProductionPart::Ok(self.e_tree(t)),
                    Part::Fixed(f) => FixedProductionPart::Fixed(FixedSymbol::new(
                        self.e_parts(&f.parts),
                        K::enc(f.sym, 0),
                    )),
                    Part::Gap(l, s) => FixedProductionPart::Gap(FixGap {
                        skipped_tokens: l
                            .iter()
                            .map(|l| Lex::new(*l, &self.live.borrow()))
                            .collect(),
                        skipped_symbols: s.iter().map(|s| K::enc(*s, 0)).collect(),
                    }),
                })
                .collect(),
        )
    }
    fn answer<K: Kind>(
        &self,
        single: bool,
        tokens: &Vec<Token<Lex, K>>,
        pos: usize,
        fails: Vec<FailProd>,
    ) -> Option<FixResult<Lex, K>> {
        if self.log.borrow().len() >= self.max_calls.get() {
            panic_any(BudgetExceeded);
        }
        let expect = self.expect.borrow();
        let tokens_ok = tokens.len() == expect.len()
            && tokens.iter().zip(expect.iter()).all(|(a, b)| {
                a.t_type.id() == b.sym
                    && a.lex.as_ref().map(|l| l.id) == b.lex
                    && a.t_type.tag().is_none_or(|t| t == b.tag)
            });
        let answer = decide(self.policy, single, pos, tokens.len(), &fails)
            .filter(|_| repairs(&self.log.borrow()) < self.policy.max_repairs());
        let real = answer.as_ref().map(|(end, parts)| FixResult {
            final_token_position: *end,
            production: self.e_parts(parts),
        });
        self.log.borrow_mut().push(Call {
            single,
            pos,
            tokens_ok,
            fails,
            answer,
        });
        real
    }
}
impl<K: Kind> SyntaxErrorSolver<Lex, K> for &Scripted {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<Lex, K>>,
        tokens_position: usize,
        failed_production: &FailedProduction<Lex, K>,
    ) -> Option<FixResult<Lex, K>> {
        self.answer(true, tokens, tokens_position, vec![n_failprod(failed_production)])
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<Lex, K>>,
        tokens_position: usize,
        failed_productions: &Vec<FailedProduction<Lex, K>>,
    ) -> Option<FixResult<Lex, K>> {
        self.answer(
            false,
            tokens,
            tokens_position,
            failed_productions.iter().map(n_failprod).collect(),
        )
    }
}

/// For parsers without a solver.
pub struct NoSolver;
impl<L, K> SyntaxErrorSolver<L, K> for NoSolver {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<L, K>>,
        _: usize,
        _: &FailedProduction<L, K>,
    ) -> Option<FixResult<L, K>> {
        None
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<L, K>>,
        _: usize,
        _: &Vec<FailedProduction<L, K>>,
    ) -> Option<FixResult<L, K>> {
        None
    }
}

pub type Plain<'a, K> = RecursiveDescentParser<'a, Lex, K, NoSolver>;
pub type Solving<'a, 's, K> = RecursiveDescentParser<'a, Lex, K, &'s Scripted>;

pub struct Parsed1 {
    pub out: Outcome,
    pub ops: u64,
    /// lexemes alive right after the parse returned (tokens were moved in)
    pub live_after: i64,
    /// lexemes alive after dropping the result
    pub live_end: i64,
}

/// One parse with a step budget.
pub fn parse<'a, K: Kind, S: SyntaxErrorSolver<Lex, K>>(
    parser: &RecursiveDescentParser<'a, Lex, K, S>,
    toks: &[Tok],
    limit: u64,
    live: &Arc<AtomicI64>,
) -> Parsed1 {
    let real = tokens::<K>(toks, live);
    let (r, ops) = budgeted(limit, || parser.parse_from_tokens(real.into_iter()));
    let live_after = live.load(Ordering::Relaxed);
    let out = match &r {
        Ran::Done(r) => n_result(r),
        Ran::Panicked(m) => Outcome::Panic(m.clone()),
        Ran::Budget => Outcome::Budget,
    };
    drop(r);
    Parsed1 {
        out,
        ops,
        live_after,
        live_end: live.load(Ordering::Relaxed),
    }
}
