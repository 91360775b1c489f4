//! Neutral result values and the reference search: ordered choice on predicted productions,
//! nearest completed sibling retried first, error solver consulted on single paths only.
use crate::gram::Ana;
use crate::rng::Rng;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub sym: u32,
    pub lex: Option<u64>,
    /// identity of the type value (observable with symbol types whose equality is coarser)
    pub tag: u32,
}

/// A tree node. `lex` and `tag` are those of the token for leaves.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree {
    pub sym: u32,
    pub lex: Option<u64>,
    pub tag: u32,
    pub kids: Vec<Tree>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FailSym {
    pub sym: u32,
    pub prods: Vec<FailProd>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FailProd {
    pub parsed: Vec<Parsed>,
    pub failed: FailSym,
    pub pending: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed {
    Ok(Tree),
    Fix(FixSym),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FixSym {
    pub sym: u32,
    pub parts: Vec<Part>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Part {
    Ok(Tree),
    Fixed(FixSym),
    /// lexeme ids, symbols
    Gap(Vec<u64>, Vec<u32>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok(Tree),
    Err(FailSym),
    Fix(FixSym),
    Panic(String),
    /// the step budget of the call was used up
    Budget,
}

impl Outcome {
    pub fn name(&self) -> &'static str {
        match self {
            Outcome::Ok(_) => "Ok",
            Outcome::Err(_) => "Err",
            Outcome::Fix(_) => "Fix",
            Outcome::Panic(_) => "panic",
            Outcome::Budget => "no result within the step budget",
        }
    }
}

impl Tree {
    pub fn leaf(sym: u32) -> Tree {
        Tree { sym, lex: None, tag: 0, kids: vec![] }
    }
    pub fn node(sym: u32, kids: Vec<Tree>) -> Tree {
        Tree { sym, lex: None, tag: 0, kids }
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    /// same symbols in the same shape, whatever the lexemes
    pub fn same_shape(&self, o: &Tree) -> bool {
        self.sym == o.sym
            && self.kids.len() == o.kids.len()
            && self.kids.iter().zip(&o.kids).all(|(a, b)| a.same_shape(b))
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, s: &mut String) {
        if s.len() > 600 {
            if !s.ends_with("...") {
                s.push_str("...");
            }
            return;
        }
        s.push_str(&self.sym.to_string());
        if let Some(l) = self.lex {
            s.push_str(&format!("'{}", l));
        }
        if !self.kids.is_empty() {
            s.push('(');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                k.show_into(s);
            }
            s.push(')');
        }
    }
}

impl FailSym {
    pub fn same_shape(&self, o: &FailSym) -> bool {
        self.sym == o.sym
            && self.prods.len() == o.prods.len()
            && self.prods.iter().zip(&o.prods).all(|(a, b)| a.same_shape(b))
    }
}
impl FailProd {
    /// the symbols of the parsed, the failed and the pending ones
    pub fn composition(&self) -> Vec<u32> {
        let parsed = self.parsed.iter().map(|p| match p {
            Parsed::Ok(t) => t.sym,
            Parsed::Fix(f) => f.sym,
        });
        parsed.chain(Some(self.failed.sym)).chain(self.pending.iter().copied()).collect()
    }
    pub fn same_shape(&self, o: &FailProd) -> bool {
        self.failed.same_shape(&o.failed)
            && self.pending == o.pending
            && self.parsed.len() == o.parsed.len()
            && self.parsed.iter().zip(&o.parsed).all(|(a, b)| match (a, b) {
                (Parsed::Ok(x), Parsed::Ok(y)) => x.same_shape(y),
                (Parsed::Fix(x), Parsed::Fix(y)) => x.same_shape(y),
                _ => false,
            })
    }
}
/// Looser comparisons: the trees of symbols that matched count by their symbol only, since which
/// of several alternatives a failure report shows for them is left open.
impl FailSym {
    pub fn outline(&self, o: &FailSym) -> bool {
        self.sym == o.sym
            && self.prods.len() == o.prods.len()
            && self.prods.iter().zip(&o.prods).all(|(a, b)| a.outline(b))
    }
}
impl FailProd {
    pub fn outline(&self, o: &FailProd) -> bool {
        self.failed.outline(&o.failed)
            && self.pending == o.pending
            && self.parsed.len() == o.parsed.len()
            && self.parsed.iter().zip(&o.parsed).all(|(a, b)| match (a, b) {
                (Parsed::Ok(x), Parsed::Ok(y)) => x.sym == y.sym,
                (Parsed::Fix(x), Parsed::Fix(y)) => x.same_shape(y),
                _ => false,
            })
    }
}

impl FixSym {
    pub fn same_shape(&self, o: &FixSym) -> bool {
        self.sym == o.sym
            && self.parts.len() == o.parts.len()
            && self.parts.iter().zip(&o.parts).all(|(a, b)| match (a, b) {
                (Part::Ok(x), Part::Ok(y)) => x.same_shape(y),
                (Part::Fixed(x), Part::Fixed(y)) => x.same_shape(y),
                (Part::Gap(a, b), Part::Gap(c, d)) => a == c && b == d,
                _ => false,
            })
    }
}
impl Outcome {
    pub fn same_shape(&self, o: &Outcome) -> bool {
        match (self, o) {
            (Outcome::Ok(a), Outcome::Ok(b)) => a.same_shape(b),
            (Outcome::Err(a), Outcome::Err(b)) => a.same_shape(b),
            (Outcome::Fix(a), Outcome::Fix(b)) => a.same_shape(b),
            (Outcome::Panic(_), Outcome::Panic(_)) => true,
            (Outcome::Budget, Outcome::Budget) => true,
            _ => false,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// solver policies

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    Never,
    /// always repairs, resuming where the symbol began
    Here,
    /// always repairs, skipping n tokens (possibly past the end)
    Skip(usize),
    /// as Skip, for as many errors as one finds in a long file
    Far(usize),
    /// always repairs and resumes after the last token
    ToEnd,
    /// depends on a digest of the request: decline, go back, stay, skip, jump past the end
    Hash(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub single: bool,
    pub pos: usize,
    /// the token list passed was the complete input
    pub tokens_ok: bool,
    pub fails: Vec<FailProd>,
    /// (resume position, repaired production)
    pub answer: Option<(usize, Vec<Part>)>,
}

/// Solvers give up after this many repairs: one that never does can keep a parse going for ever
/// (a list of empty items), which is its own doing.
pub const MAX_REPAIRS: usize = 12;
impl Policy {
    pub fn max_repairs(&self) -> usize {
        match self {
            Policy::Far(_) => 3000,
            _ => MAX_REPAIRS,
        }
    }
}
pub fn repairs(log: &[Call]) -> usize {
    log.iter().filter(|c| c.answer.is_some()).count()
}

fn dig(h: &mut u64, x: u64) {
    *h = crate::rng::mix(*h ^ x.wrapping_mul(0x100_0000_01B3));
}
fn dig_tree(h: &mut u64, t: &Tree) {
    dig(h, t.sym as u64);
    dig(h, t.kids.len() as u64);
    for k in &t.kids {
        dig_tree(h, k);
    }
}
fn dig_fix(h: &mut u64, f: &FixSym) {
    dig(h, f.sym as u64);
    for p in &f.parts {
        match p {
            Part::Ok(t) => dig_tree(h, t),
            Part::Fixed(f) => dig_fix(h, f),
            Part::Gap(a, b) => {
                for x in a {
                    dig(h, *x);
                }
                for x in b {
                    dig(h, *x as u64);
                }
            }
        }
    }
}
fn dig_fail(h: &mut u64, f: &FailSym) {
    dig(h, f.sym as u64);
    for p in &f.prods {
        dig_failprod(h, p);
    }
}
pub fn dig_failprod(h: &mut u64, p: &FailProd) {
    dig(h, p.parsed.len() as u64);
    for q in &p.parsed {
        match q {
            Parsed::Ok(t) => dig_tree(h, t),
            Parsed::Fix(f) => dig_fix(h, f),
        }
    }
    dig_fail(h, &p.failed);
    for s in &p.pending {
        dig(h, *s as u64);
    }
}

fn repair_tree(rng: &mut Rng, depth: usize) -> Tree {
    let n = if depth == 0 || rng.pct(50) { 0 } else { rng.range(1, 3) };
    Tree {
        sym: 1 + rng.below(9) as u32,
        lex: if rng.pct(60) { Some(rng.next() >> 3) } else { None },
        tag: 0,
        kids: (0..n).map(|_| repair_tree(rng, depth - 1)).collect(),
    }
}
fn repair_parts(rng: &mut Rng, depth: usize) -> Vec<Part> {
    let n = match rng.below(40) {
        0 => rng.range(9, 40),
        1..=8 => rng.range(4, 8),
        _ => rng.below(4),
    };
    (0..n)
        .map(|_| match rng.below(4) {
            0 | 1 => {
                let (a, b) = (rng.below(4), rng.below(4));
                Part::Gap(
                    (0..a).map(|_| rng.next() >> 3).collect(),
                    (0..b).map(|_| 1 + rng.below(9) as u32).collect(),
                )
            }
            2 if depth > 0 => Part::Fixed(FixSym {
                sym: 1 + rng.below(9) as u32,
                parts: repair_parts(rng, depth - 1),
            }),
            _ => Part::Ok(repair_tree(rng, 2)),
        })
        .collect()
}

/// The answer of a policy: a pure function of the request.
pub fn decide(
    policy: Policy,
    single: bool,
    pos: usize,
    ntoks: usize,
    fails: &[FailProd],
) -> Option<(usize, Vec<Part>)> {
    let mut h = 17u64;
    dig(&mut h, single as u64);
    dig(&mut h, pos as u64);
    dig(&mut h, ntoks as u64);
    for f in fails {
        dig_failprod(&mut h, f);
    }
    let end = match policy {
        Policy::Never => return None,
        Policy::Here => pos,
        Policy::Skip(n) | Policy::Far(n) => pos.saturating_add(n),
        Policy::ToEnd => ntoks,
        Policy::Hash(seed) => {
            let d = crate::rng::mix(h ^ seed);
            match d % 8 {
                0 | 1 | 2 => return None,
                3 => pos,
                4 => pos.saturating_add(1),
                5 => pos.saturating_add(2),
                6 => {
                    if d >> 8 & 1 == 0 {
                        pos.saturating_sub(1)
                    } else {
                        ntoks + (d >> 9 & 1) as usize
                    }
                }
                _ => match d >> 10 & 15 {
                    0 => 0,
                    1 => pos / 2,
                    2 => pos.saturating_add(1_000_000),
                    3 => match d >> 14 & 3 {
                        0 => usize::MAX,
                        1 => usize::MAX - 1,
                        2 => 1 << 32,
                        _ => pos.saturating_add(1 << 32),
                    },
                    _ => pos.saturating_add((d >> 8 & 3) as usize),
                },
            }
        }
    };
    // a body that no parser would build by itself, unique to this request
    let u = crate::rng::mix(h ^ 0xB0D1);
    let mut parts = if u >> 11 & 3 == 0 {
        repair_parts(&mut Rng::new(u), if u >> 13 & 15 == 0 { 6 } else { 2 })
    } else {
        vec![]
    };
    if parts.is_empty() && u >> 17 & 7 != 0 {
        let sym = 1 + (u % 7) as u32;
        parts.push(Part::Gap(
            vec![u >> 1, u >> 2],
            if u & 1 == 0 { vec![sym] } else { vec![] },
        ));
    }
    if u >> 20 & 1 == 0 {
        // what a real solver would do: keep what was parsed
        if let Some(f) = fails.first() {
            let kept: Vec<Part> = f
                .parsed
                .iter()
                .take(6)
                .filter_map(|q| match q {
                    Parsed::Ok(t) if t.kids.len() < 5 => Some(Part::Ok(t.clone())),
                    _ => None,
                })
                .collect();
            parts.splice(0..0, kept);
            if u >> 21 & 3 == 0 {
                parts.push(Part::Gap(vec![], f.pending.clone()));
            }
        }
    }
    Some((end, parts))
}

// ---------------------------------------------------------------------------------------------
// the search

pub struct Matched {
    start: usize,
    end: usize,
    sym: usize,
    cands: Rc<Vec<usize>>,
    next: usize,
    tree: Tree,
    is_nt: bool,
}
enum Slot {
    M(Matched),
    F(FixSym),
}
enum Res {
    Ok(Matched),
    Err(FailSym),
    Fix(FixSym, usize),
}
enum PRes {
    Ok(Tree, usize),
    Err(FailProd),
    Fix(Vec<Part>, usize),
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub visits: u64,
    /// a cell with two or more candidates was used
    pub choices: u64,
    /// a completed sibling was successfully retried
    pub retries_ok: u64,
    pub retries_tried: u64,
    /// candidates other than the first that matched
    pub later_alternative: u64,
    pub max_pos: usize,
    /// non-terminals that enclose each other
    depth: u64,
    pub max_depth: u64,
    /// symbols behind the failed one in all failed productions
    pub pending: u64,
}

enum Decider<'a> {
    Absent,
    Policy(Policy),
    /// takes the answers from a recorded log and compares the requests with it
    Replay(&'a [Call]),
}

pub struct Model<'a> {
    ana: &'a Ana,
    toks: &'a [Tok],
    decider: Decider<'a>,
    pub log: Vec<Call>,
    pub c: Counts,
    cap: u64,
    mismatch: Option<String>,
}

/// The search was given up: it needs too many visits, or it left the recorded log.
pub struct Capped;

pub struct Replayed {
    /// None when capped or when the log was left
    pub out: Option<Outcome>,
    /// requests of the log that agreed
    pub agreed: usize,
    /// how the recorded requests differ from those of the search
    pub mismatch: Option<String>,
    pub counts: Counts,
}

impl<'a> Model<'a> {
    /// Runs the search; Err(Capped) when it needs more than `cap` symbol visits.
    pub fn run(
        ana: &'a Ana,
        toks: &'a [Tok],
        policy: Option<Policy>,
        cap: u64,
    ) -> Result<(Outcome, Vec<Call>, Counts), Capped> {
        let mut m = Model::new(ana, toks, cap);
        let out = m.both(match policy {
            Some(p) => Decider::Policy(p),
            None => Decider::Absent,
        })?;
        Ok((out, m.log, m.c))
    }

    /// Runs the search with the answers that a recorded log holds.
    pub fn replay(ana: &'a Ana, toks: &'a [Tok], log: &'a [Call], cap: u64) -> Replayed {
        let mut m = Model::new(ana, toks, cap);
        let out = m.both(Decider::Replay(log)).ok();
        let mut mismatch = m.mismatch.take();
        if out.is_some() && m.log.len() < log.len() {
            let c = &log[m.log.len()];
            mismatch = Some(format!(
                "request {} (at position {}, {}) is not due",
                m.log.len(),
                c.pos,
                if c.single { "single production" } else { "productions" }
            ));
        }
        Replayed {
            out: if mismatch.is_some() { None } else { out },
            agreed: m.log.len(),
            mismatch,
            counts: m.c,
        }
    }

    fn new(ana: &'a Ana, toks: &'a [Tok], cap: u64) -> Self {
        Model {
            ana,
            toks,
            decider: Decider::Absent,
            log: vec![],
            c: Counts::default(),
            cap,
            mismatch: None,
        }
    }

    fn both(&mut self, decider: Decider<'a>) -> Result<Outcome, Capped> {
        let m = self;
        let plain = m.nonterminal(m.ana.start, 0, false)?;
        let out = match plain {
            Res::Ok(x) => Outcome::Ok(x.tree),
            Res::Err(f) => {
                if matches!(decider, Decider::Absent) {
                    Outcome::Err(f)
                } else {
                    m.decider = decider;
                    match m.nonterminal(m.ana.start, 0, true)? {
                        Res::Ok(x) => Outcome::Ok(x.tree),
                        Res::Err(f) => Outcome::Err(f),
                        Res::Fix(f, _) => Outcome::Fix(f),
                    }
                }
            }
            Res::Fix(..) => unreachable!(),
        };
        Ok(out)
    }

    fn consult(&mut self, single: bool, pos: usize, fails: &[FailProd]) -> Result<Option<(usize, Vec<Part>)>, Capped> {
        let answer = match &self.decider {
            Decider::Absent => return Ok(None),
            Decider::Policy(p) => {
                let answer = decide(*p, single, pos, self.toks.len(), fails);
                answer.filter(|_| repairs(&self.log) < p.max_repairs())
            }
            Decider::Replay(log) => {
                let k = self.log.len();
                let what = |s: bool| if s { "single production" } else { "productions" };
                let bad = match log.get(k) {
                    None => Some(format!("request {} (at position {}, {}) was not made", k, pos, what(single))),
                    Some(c) => {
                        if !c.tokens_ok {
                            Some(format!("request {} did not get the complete token list", k))
                        } else if c.pos != pos {
                            Some(format!("request {} got position {} instead of {}", k, c.pos, pos))
                        } else if c.single != single {
                            Some(format!("request {} at {} came as {} instead of {}", k, pos, what(c.single), what(single)))
                        } else if c.fails.len() != fails.len() {
                            Some(format!("request {} at {} got {} failures instead of {}", k, pos, c.fails.len(), fails.len()))
                        } else {
                            c.fails.iter().zip(fails).position(|(a, b)| !a.outline(b)).map(|i| {
                                format!("request {} at {}: failure {} is not that of the production in its place", k, pos, i)
                            })
                        }
                    }
                };
                if bad.is_some() {
                    self.mismatch = bad;
                    return Err(Capped);
                }
                log[k].answer.clone()
            }
        };
        self.log.push(Call { single, pos, tokens_ok: true, fails: fails.to_vec(), answer: answer.clone() });
        Ok(answer)
    }

    fn visit(&mut self, pos: usize) -> Result<(), Capped> {
        self.c.visits += 1;
        self.c.max_pos = self.c.max_pos.max(pos);
        if self.c.visits > self.cap {
            Err(Capped)
        } else {
            Ok(())
        }
    }

    fn derive(&mut self, sym: usize, pos: usize, single: bool) -> Result<Res, Capped> {
        self.visit(pos)?;
        let a = self.ana;
        if !a.is_nt[sym] {
            return Ok(self.terminal(sym, pos));
        }
        self.nonterminal(sym, pos, single)
    }

    fn nonterminal(&mut self, sym: usize, pos: usize, single: bool) -> Result<Res, Capped> {
        let a = self.ana;
        let cands = match self.toks.get(pos) {
            Some(t) => a.cands(sym, t.sym),
            None => vec![],
        };
        if cands.len() > 1 {
            self.c.choices += 1;
        }
        self.attempt(sym, pos, Rc::new(cands), 0, single)
    }

    fn terminal(&mut self, sym: usize, pos: usize) -> Res {
        let a = self.ana;
        let id = a.syms[sym];
        let hit = if sym == a.eps {
            Some((pos, Tree::leaf(id)))
        } else {
            match self.toks.get(pos) {
                Some(t) if t.sym == id => Some((
                    pos + 1,
                    Tree {
                        sym: id,
                        lex: t.lex,
                        tag: t.tag,
                        kids: vec![],
                    },
                )),
                _ => None,
            }
        };
        match hit {
            Some((end, tree)) => Res::Ok(Matched {
                start: pos,
                end,
                sym,
                cands: Rc::new(vec![]),
                next: 0,
                tree,
                is_nt: false,
            }),
            None => Res::Err(FailSym {
                sym: id,
                prods: vec![],
            }),
        }
    }

    fn attempt(
        &mut self,
        sym: usize,
        pos: usize,
        cands: Rc<Vec<usize>>,
        from: usize,
        single: bool,
    ) -> Result<Res, Capped> {
        let id = self.ana.syms[sym];
        let below_single = single && cands.len() - from == 1;
        let mut fails = vec![];
        for i in from..cands.len() {
            self.c.depth += 1;
            self.c.max_depth = self.c.max_depth.max(self.c.depth);
            let got = self.production(cands[i], pos, below_single);
            self.c.depth -= 1;
            match got? {
                PRes::Ok(tree, end) => {
                    if i > 0 {
                        self.c.later_alternative += 1;
                    }
                    return Ok(Res::Ok(Matched {
                        start: pos,
                        end,
                        sym,
                        cands,
                        next: i + 1,
                        tree,
                        is_nt: true,
                    }));
                }
                PRes::Err(f) => fails.push(f),
                PRes::Fix(parts, end) => return Ok(Res::Fix(FixSym { sym: id, parts }, end)),
            }
        }
        if single {
            if let Some((end, parts)) = self.consult(below_single, pos, &fails)? {
                return Ok(Res::Fix(FixSym { sym: id, parts }, end));
            }
        }
        Ok(Res::Err(FailSym {
            sym: id,
            prods: fails,
        }))
    }

    fn production(&mut self, p: usize, start: usize, single: bool) -> Result<PRes, Capped> {
        let ana = self.ana;
        let out = &ana.prods[p].1;
        let mut pos = start;
        let mut slots: Vec<Slot> = vec![];
        while slots.len() < out.len() {
            let k = slots.len();
            match self.derive(out[k], pos, single)? {
                Res::Ok(m) => {
                    pos = m.end;
                    slots.push(Slot::M(m));
                }
                Res::Fix(f, end) => {
                    pos = end;
                    slots.push(Slot::F(f));
                }
                Res::Err(failed) => {
                    let mut resumed = None;
                    for j in (0..slots.len()).rev() {
                        if let Slot::M(m) = &slots[j] {
                            if m.is_nt && m.next < m.cands.len() {
                                let (sym, st, cands, next) =
                                    (m.sym, m.start, m.cands.clone(), m.next);
                                self.c.retries_tried += 1;
                                self.visit(st)?;
                                if let Res::Ok(m2) = self.attempt(sym, st, cands, next, false)? {
                                    resumed = Some((j, m2));
                                    break;
                                }
                            }
                        }
                    }
                    match resumed {
                        Some((j, m2)) => {
                            self.c.retries_ok += 1;
                            slots.truncate(j);
                            pos = m2.end;
                            slots.push(Slot::M(m2));
                        }
                        None => {
                            self.c.pending += (out.len() - k - 1) as u64;
                            return Ok(PRes::Err(FailProd {
                                parsed: slots
                                    .into_iter()
                                    .map(|s| match s {
                                        Slot::M(m) => Parsed::Ok(m.tree),
                                        Slot::F(f) => Parsed::Fix(f),
                                    })
                                    .collect(),
                                failed,
                                pending: out[k + 1..].iter().map(|s| ana.syms[*s]).collect(),
                            }))
                        }
                    }
                }
            }
        }
        if slots.iter().any(|s| matches!(s, Slot::F(..))) {
            Ok(PRes::Fix(
                slots
                    .into_iter()
                    .map(|s| match s {
                        Slot::M(m) => Part::Ok(m.tree),
                        Slot::F(f) => Part::Fixed(f),
                    })
                    .collect(),
                pos,
            ))
        } else {
            let kids = slots
                .into_iter()
                .map(|s| match s {
                    Slot::M(m) => m.tree,
                    Slot::F(..) => unreachable!(),
                })
                .collect();
            Ok(PRes::Ok(Tree::node(ana.syms[ana.prods[p].0], kids), pos))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// LL(1) recognition with an explicit stack (used where the grammar is LL(1))

/// Some(number of tokens consumed) when a prefix of the tokens is a sentence, following the
/// leftmost derivation; the second value counts the symbols visited.
/// How many non-terminals enclose each other at most while an LL(1) input is read, and how many
/// symbols are visited; none when there are more than `cap` of these.
pub fn ll1_depth(ana: &Ana, toks: &[Tok], cap: u64) -> Option<(u64, u64)> {
    let mut stack = vec![(ana.start, 1u64)];
    let (mut pos, mut most, mut visits) = (0, 0, 0);
    while let Some((s, depth)) = stack.pop() {
        most = most.max(depth);
        visits += 1;
        if visits > cap {
            return None;
        }
        if s == ana.eps {
            continue;
        }
        let t = match toks.get(pos) {
            Some(t) => t,
            None => break,
        };
        if ana.is_nt[s] {
            let c = ana.cands(s, t.sym);
            if c.len() != 1 {
                break;
            }
            stack.extend(ana.prods[c[0]].1.iter().rev().map(|x| (*x, depth + 1)));
        } else if ana.syms[s] == t.sym {
            pos += 1;
        } else {
            break;
        }
    }
    Some((most, visits))
}

pub fn ll1_accepts(ana: &Ana, toks: &[Tok]) -> (Option<usize>, u64) {
    if !ana.is_nt[ana.start] {
        return (None, 1);
    }
    let mut stack = vec![ana.start];
    let mut pos = 0;
    let mut visits = 0u64;
    while let Some(s) = stack.pop() {
        visits += 1;
        if s == ana.eps {
            continue;
        }
        let t = match toks.get(pos) {
            Some(t) => t,
            None => return (None, visits),
        };
        if ana.is_nt[s] {
            let c = ana.cands(s, t.sym);
            if c.len() != 1 {
                return (None, visits);
            }
            stack.extend(ana.prods[c[0]].1.iter().rev());
        } else if ana.syms[s] == t.sym {
            pos += 1;
        } else {
            return (None, visits);
        }
    }
    (Some(pos), visits)
}

// ---------------------------------------------------------------------------------------------
// structural oracles

/// Is `t` a derivation from `sym` that spells the tokens from `pos`? Returns the end position.
pub fn derivation(ana: &Ana, toks: &[Tok], t: &Tree, sym: u32, pos: usize) -> Result<usize, String> {
    if t.sym != sym {
        return Err(format!("node {} where {} was expected", t.sym, sym));
    }
    let s = ana
        .ix(sym)
        .ok_or_else(|| format!("node {} is no symbol of the grammar", sym))?;
    if !ana.is_nt[s] {
        if !t.kids.is_empty() {
            return Err(format!("terminal node {} has children", sym));
        }
        if s == ana.eps {
            return Ok(pos);
        }
        return match toks.get(pos) {
            Some(k) if k.sym == sym => Ok(pos + 1),
            Some(k) => Err(format!("leaf {} at position {} where the token is {}", sym, pos, k.sym)),
            None => Err(format!("leaf {} at position {} after the last token", sym, pos)),
        };
    }
    let found = ana.by_nt[s].iter().any(|p| {
        let r = &ana.prods[*p].1;
        r.len() == t.kids.len() && r.iter().zip(&t.kids).all(|(a, b)| ana.syms[*a] == b.sym)
    });
    if !found {
        return Err(format!(
            "{} -> {:?} is not a declared production",
            sym,
            t.kids.iter().map(|k| k.sym).collect::<Vec<_>>()
        ));
    }
    let mut p = pos;
    for k in &t.kids {
        p = derivation(ana, toks, k, k.sym, p)?;
    }
    Ok(p)
}

/// Is `f` a consistent report of the failure to derive `f.sym` at `pos`? The position is not known
/// behind a repaired symbol, where only the composition of the report is checked. Repaired symbols
/// are refused unless `repaired`.
pub fn failure(ana: &Ana, toks: &[Tok], f: &FailSym, pos: Option<usize>, repaired: bool) -> Result<(), String> {
    let s = ana
        .ix(f.sym)
        .ok_or_else(|| format!("failed symbol {} is no symbol of the grammar", f.sym))?;
    if !ana.is_nt[s] {
        if !f.prods.is_empty() {
            return Err(format!("failed terminal {} lists productions", f.sym));
        }
        if s == ana.start {
            return Ok(());
        }
        if s == ana.eps {
            return Err("the empty-string symbol is reported as failed".into());
        }
        return match pos.and_then(|p| toks.get(p)) {
            Some(t) if t.sym == f.sym => Err(format!(
                "terminal {} reported as failed at position {} where it stands",
                f.sym,
                pos.unwrap_or(0)
            )),
            _ => Ok(()),
        };
    }
    let at = match pos {
        Some(p) => format!("symbol {} at position {}", f.sym, p),
        None => format!("symbol {} after a repair", f.sym),
    };
    let output = |c: usize| -> Vec<u32> { ana.prods[c].1.iter().map(|x| ana.syms[*x]).collect() };
    if let Some(p) = pos {
        let cands = toks.get(p).map_or(vec![], |t| ana.cands(s, t.sym));
        if cands.len() != f.prods.len() {
            return Err(format!("{}: {} failed productions listed, {} applicable", at, f.prods.len(), cands.len()));
        }
        for (c, fp) in cands.iter().zip(&f.prods) {
            let (want, got) = (output(*c), fp.composition());
            if got != want {
                return Err(format!("{}: parsed + failed + pending = {:?}, production is {:?}", at, got, want));
            }
        }
    } else {
        // some of its productions, in declaration order
        let mut declared = ana.by_nt[s].iter().map(|c| output(*c));
        for fp in &f.prods {
            let got = fp.composition();
            if !declared.any(|d| d == got) {
                return Err(format!("{}: parsed + failed + pending = {:?} is no production (in this order)", at, got));
            }
        }
    }
    for fp in &f.prods {
        let mut p = pos;
        for q in &fp.parsed {
            match q {
                Parsed::Ok(t) => {
                    if let Some(from) = p {
                        let end = derivation(ana, toks, t, t.sym, from);
                        p = Some(end.map_err(|e| format!("parsed symbol in the report of {}: {}", at, e))?);
                    }
                }
                Parsed::Fix(_) if !repaired => return Err("repaired symbol without a repair".into()),
                Parsed::Fix(_) => p = None,
            }
        }
        failure(ana, toks, &fp.failed, p, repaired)?;
    }
    Ok(())
}
