//! Workload: grammars (random, repaired to LL(1), structured families) and token sequences
//! (sampled sentences, their mutations and truncations, random and hostile sequences).
use crate::gram::{Ana, Gram};
use crate::model::{Tok, Tree};
use crate::rng::Rng;

/// Builds grammars with fresh symbols.
pub struct B {
    next: u32,
    pub prods: Vec<(u32, Vec<u32>)>,
    pub eps: u32,
}
impl B {
    pub fn new() -> B {
        B {
            next: 1,
            prods: vec![],
            eps: 0,
        }
    }
    pub fn sym(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    pub fn syms(&mut self, n: usize) -> Vec<u32> {
        (0..n).map(|_| self.sym()).collect()
    }
    pub fn p(&mut self, l: u32, r: &[u32]) {
        self.prods.push((l, r.to_vec()));
    }
    pub fn e(&mut self, l: u32) {
        let e = self.eps;
        self.prods.push((l, vec![e]));
    }
    pub fn done(self, start: u32) -> Gram {
        Gram {
            eps: self.eps,
            start,
            prods: self.prods,
        }
    }
}

/// Random bijective renaming of the symbols, so that ids carry no meaning.
pub fn relabel(g: &Gram, rng: &mut Rng) -> (Gram, Vec<u32>) {
    let mut top = g.eps.max(g.start);
    for (l, r) in &g.prods {
        top = top.max(*l);
        top = top.max(*r.iter().max().unwrap_or(&0));
    }
    let mut map: Vec<u32> = (0..=top).collect();
    rng.shuffle(&mut map);
    (apply(g, &map), map)
}
pub fn apply(g: &Gram, map: &[u32]) -> Gram {
    let m = |s: u32| map[s as usize];
    Gram {
        eps: m(g.eps),
        start: m(g.start),
        prods: g
            .prods
            .iter()
            .map(|(l, r)| (m(*l), r.iter().map(|s| m(*s)).collect()))
            .collect(),
    }
}

/// Shuffles the declarations; `keep_order` keeps the relative order per left-hand side.
pub fn shuffle_decls(g: &mut Gram, rng: &mut Rng, keep_order: bool) {
    if !keep_order {
        rng.shuffle(&mut g.prods);
        return;
    }
    let mut slots: Vec<u32> = g.prods.iter().map(|(l, _)| *l).collect();
    rng.shuffle(&mut slots);
    let mut queues: std::collections::BTreeMap<u32, std::collections::VecDeque<Vec<u32>>> =
        Default::default();
    for (l, r) in g.prods.drain(..) {
        queues.entry(l).or_default().push_back(r);
    }
    g.prods = slots
        .into_iter()
        .map(|l| (l, queues.get_mut(&l).unwrap().pop_front().unwrap()))
        .collect();
}

// ---------------------------------------------------------------------------------------------
// random grammars

pub struct Shape {
    pub nts: (usize, usize),
    pub ts: (usize, usize),
    pub alts: (usize, usize),
    pub len: (usize, usize),
    pub eps_pct: usize,
    pub repeat_pct: usize,
}
pub const TINY: Shape = Shape { nts: (1, 3), ts: (1, 3), alts: (1, 3), len: (1, 3), eps_pct: 20, repeat_pct: 15 };
pub const SMALL: Shape = Shape { nts: (2, 5), ts: (1, 4), alts: (1, 3), len: (1, 4), eps_pct: 18, repeat_pct: 12 };
pub const MID: Shape = Shape { nts: (3, 9), ts: (2, 7), alts: (1, 4), len: (1, 6), eps_pct: 15, repeat_pct: 10 };
pub const BIG: Shape = Shape { nts: (10, 40), ts: (4, 20), alts: (1, 6), len: (1, 10), eps_pct: 12, repeat_pct: 8 };

pub fn random(rng: &mut Rng, sh: &Shape, end_mark: bool) -> Gram {
    let mut b = B::new();
    let nn = rng.range(sh.nts.0, sh.nts.1);
    let nt = rng.range(sh.ts.0, sh.ts.1);
    let nts = b.syms(nn);
    let ts = b.syms(nt);
    // bias between terminals and non-terminals, and towards later non-terminals (less recursion)
    let nt_pct = rng.range(15, 75);
    let forward = rng.pct(60);
    let eps_pct = if rng.pct(15) { 0 } else { sh.eps_pct + rng.below(20) };
    for i in 0..nn {
        if nn > 1 && i > 0 && rng.pct(2) {
            continue; // becomes a terminal
        }
        for _ in 0..rng.range(sh.alts.0, sh.alts.1) {
            if rng.pct(eps_pct) {
                b.e(nts[i]);
                continue;
            }
            let mut r: Vec<u32> = vec![];
            for k in 0..rng.range(sh.len.0, sh.len.1) {
                if !r.is_empty() && rng.pct(sh.repeat_pct) {
                    let l = *r.last().unwrap();
                    r.push(l);
                } else if rng.pct(nt_pct) {
                    if forward && k == 0 && i + 1 < nn {
                        r.push(nts[rng.range(i + 1, nn - 1)]);
                    } else if forward && k == 0 {
                        r.push(*rng.pick(&ts));
                    } else {
                        r.push(*rng.pick(&nts));
                    }
                } else {
                    r.push(*rng.pick(&ts));
                }
            }
            b.p(nts[i], &r);
        }
    }
    if rng.pct(6) && !b.prods.is_empty() {
        let d = rng.pick(&b.prods).clone();
        b.prods.push(d);
    }
    let mut start = nts[0];
    if end_mark {
        let s = b.sym();
        let e = b.sym();
        b.p(s, &[start, e]);
        if rng.pct(15) {
            let x = *rng.pick(&nts);
            b.p(s, &[x, e]);
        }
        if rng.pct(15) {
            let x = *rng.pick(&nts);
            let y = *rng.pick(&ts);
            b.p(s, &[y, x, start, e]);
        }
        start = s;
    }
    let mut g = b.done(start);
    if rng.pct(40) {
        shuffle_decls(&mut g, rng, false);
    }
    g
}

/// Deletes productions until no left recursion is reachable from the start symbol.
pub fn no_left_recursion(g: &mut Gram) {
    loop {
        let a = Ana::new(g);
        match a.left_recursion() {
            Some(p) => {
                g.prods.remove(p);
            }
            None => return,
        }
    }
}

/// Deletes productions until the grammar is LL(1) (each symbol keeps at least one).
pub fn make_ll1(g: &mut Gram, rng: &mut Rng) {
    loop {
        let a = Ana::new(g);
        let pair = a.conflict().or_else(|| {
            a.by_nt.iter().find_map(|ps| {
                let n: Vec<usize> = ps.iter().copied().filter(|p| a.prod_nullable[*p]).collect();
                (n.len() > 1).then(|| (n[0], n[1]))
            })
        });
        match pair {
            Some((p, q)) => {
                let v = if rng.pct(50) { p } else { q };
                g.prods.remove(v);
            }
            None => match a.left_recursion() {
                Some(p) => {
                    g.prods.remove(p);
                }
                None => return,
            },
        }
    }
}

/// LL(1) by construction: alternatives get distinct leading terminals, with nullable fillers.
pub fn constructed_ll1(rng: &mut Rng, nn: usize) -> Gram {
    let mut b = B::new();
    let nts = b.syms(nn);
    let width = rng.range(1, 5);
    let ts = b.syms(width + 2);
    for i in 0..nn {
        let k = rng.range(1, width.min(4));
        let mut lead = ts.clone();
        rng.shuffle(&mut lead);
        for l in lead.iter().take(k) {
            let mut r = vec![*l];
            for _ in 0..rng.below(4) {
                if rng.pct(65) {
                    let j = if rng.pct(70) { (i + 1 + rng.below(3)).min(nn - 1) } else { rng.below(nn) };
                    r.push(nts[j]);
                } else {
                    r.push(*rng.pick(&ts));
                }
            }
            b.p(nts[i], &r);
        }
        match rng.below(6) {
            0 | 1 | 2 => b.e(nts[i]),
            3 => {
                // nullable through others
                if i + 2 < nn {
                    let x = nts[i + 1];
                    let y = nts[i + 2];
                    b.p(nts[i], &[x, y]);
                } else {
                    b.e(nts[i]);
                }
            }
            _ => {}
        }
    }
    let s = b.sym();
    let e = b.sym();
    b.p(s, &[nts[0], e]);
    if rng.pct(30) && nn > 1 {
        let x = *rng.pick(&ts);
        b.p(s, &[x, nts[1], nts[0], e]);
    }
    let mut g = b.done(s);
    rng.shuffle(&mut g.prods);
    make_ll1(&mut g, rng);
    g
}

// ---------------------------------------------------------------------------------------------
// structured families

pub const FAMILIES: [&str; 22] = [
    "unit-chain", "nullable-chain", "long-output", "wide", "follow-chain", "first-ring",
    "list", "nested", "json", "arithmetic", "statements", "siblings", "common-prefix",
    "repeat", "reuse-follow", "sexpr", "optional-run", "late-choice", "mutual", "indirect-tail",
    "same-output", "ladder",
];

fn big(rng: &mut Rng, small: usize, large: usize) -> usize {
    match rng.below(10) {
        0 => rng.range(small.max(2), large.max(3)),
        1 | 2 => rng.range(2, (large / 4).max(3)),
        _ => rng.range(2, small.max(3)),
    }
}

pub fn family(rng: &mut Rng, which: usize) -> Gram {
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    match which {
        0 => {
            // A0 -> A1 -> ... -> An -> t | eps
            let n = big(rng, 12, 120);
            let a = b.syms(n);
            let t = b.sym();
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                b.p(a[i], &[a[i + 1]]);
            }
            b.p(a[n - 1], &[t]);
            if rng.pct(50) {
                b.e(a[n - 1]);
            }
            if rng.pct(50) {
                let u = b.sym();
                b.p(a[n / 2], &[u]);
            }
        }
        1 => {
            // A -> X1 .. Xn, every Xi nullable with its own terminal
            let n = big(rng, 8, 40);
            let x = b.syms(n);
            let t = b.syms(n);
            let a = b.sym();
            b.p(s, &[a, eof]);
            b.p(a, &x);
            for i in 0..n {
                if rng.pct(90) {
                    b.p(x[i], &[t[i]]);
                }
                if rng.pct(90) || i == 0 {
                    b.e(x[i]);
                } else {
                    b.p(x[i], &[t[(i + 1) % n], t[i]]);
                }
            }
        }
        2 => {
            let n = big(rng, 16, 90);
            let ts = b.syms(5);
            let o = b.sym();
            b.p(o, &[ts[0], ts[1]]);
            b.e(o);
            let mut r = vec![];
            for _ in 0..n {
                r.push(if rng.pct(25) { o } else { ts[2 + rng.below(3)] });
            }
            r.push(eof);
            b.p(s, &r);
        }
        3 => {
            let n = big(rng, 20, 160);
            let ts = b.syms(n);
            let a = b.sym();
            b.p(s, &[a, eof]);
            for i in 0..n {
                match rng.below(3) {
                    0 => b.p(a, &[ts[i]]),
                    1 => b.p(a, &[ts[i], a]),
                    _ => b.p(a, &[ts[i], a, ts[(i + 1) % n]]),
                }
            }
            if rng.pct(50) {
                b.e(a);
            }
        }
        4 => {
            // FOLLOW travels down a long chain of tails: A_i -> t_i A_{i+1} | eps
            let n = big(rng, 10, 100);
            let a = b.syms(n);
            let t = b.syms(n);
            let m = b.sym();
            b.p(s, &[a[0], m, eof]);
            for i in 0..n {
                if i + 1 < n {
                    b.p(a[i], &[t[i], a[i + 1]]);
                } else {
                    b.p(a[i], &[t[i]]);
                }
                if rng.pct(70) {
                    b.e(a[i]);
                }
            }
            b.p(m, &[t[0], t[0]]);
            if rng.pct(40) {
                b.e(m);
            }
        }
        5 => {
            // ring of left calls: only the sets and the table can be asked about it
            let n = big(rng, 8, 80);
            let a = b.syms(n);
            let t = b.syms(n);
            b.p(s, &[a[0], eof]);
            for i in 0..n {
                b.p(a[i], &[a[(i + 1) % n], t[i]]);
                if rng.pct(25) || i == n - 1 {
                    let u = b.sym();
                    b.p(a[i], &[u]);
                }
                if rng.pct(15) {
                    b.e(a[i]);
                }
            }
        }
        6 => {
            let (l, tail, item) = (b.sym(), b.sym(), b.sym());
            let (comma, id) = (b.sym(), b.sym());
            b.p(s, &[l, eof]);
            b.p(l, &[item, tail]);
            b.p(tail, &[comma, item, tail]);
            b.e(tail);
            b.p(item, &[id]);
            if rng.pct(50) {
                let (o, c) = (b.sym(), b.sym());
                b.p(item, &[o, l, c]);
            }
            if rng.pct(30) {
                b.e(l);
            }
        }
        7 => {
            let k = rng.range(1, 4);
            let e = b.sym();
            b.p(s, &[e, eof]);
            for _ in 0..k {
                let (o, c) = (b.sym(), b.sym());
                match rng.below(3) {
                    0 => b.p(e, &[o, e, c]),
                    1 => b.p(e, &[o, e, c, e]),
                    _ => b.p(e, &[o, e, e, c]),
                }
            }
            let x = b.sym();
            b.p(e, &[x]);
            if rng.pct(50) {
                b.e(e);
            }
        }
        8 => {
            let v = b.syms(9); // value obj members mtail pair arr elems etail top
            let t = b.syms(10); // { } [ ] , : str num true null
            b.p(s, &[v[0], eof]);
            b.p(v[0], &[v[1]]);
            b.p(v[0], &[v[5]]);
            for k in 6..10 {
                b.p(v[0], &[t[k]]);
            }
            b.p(v[1], &[t[0], v[2], t[1]]);
            b.p(v[2], &[v[4], v[3]]);
            b.e(v[2]);
            b.p(v[3], &[t[4], v[4], v[3]]);
            b.e(v[3]);
            b.p(v[4], &[t[6], t[5], v[0]]);
            b.p(v[5], &[t[2], v[6], t[3]]);
            b.p(v[6], &[v[0], v[7]]);
            b.e(v[6]);
            b.p(v[7], &[t[4], v[0], v[7]]);
            b.e(v[7]);
        }
        9 => {
            // LL(1) arithmetic with n precedence levels
            let n = rng.range(1, 6);
            let lv = b.syms(n + 1);
            let tl = b.syms(n);
            let (o, c, id, num, un) = (b.sym(), b.sym(), b.sym(), b.sym(), b.sym());
            b.p(s, &[lv[0], eof]);
            for i in 0..n {
                b.p(lv[i], &[lv[i + 1], tl[i]]);
                for _ in 0..rng.range(1, 3) {
                    let op = b.sym();
                    b.p(tl[i], &[op, lv[i + 1], tl[i]]);
                }
                b.e(tl[i]);
            }
            b.p(lv[n], &[o, lv[0], c]);
            b.p(lv[n], &[id]);
            b.p(lv[n], &[num]);
            b.p(lv[n], &[un, lv[n]]);
        }
        10 => {
            let (prog, st, blk, exp, els, args, at) =
                (b.sym(), b.sym(), b.sym(), b.sym(), b.sym(), b.sym(), b.sym());
            let t = b.syms(11); // if while ( ) { } id = ; else ,
            b.p(s, &[prog, eof]);
            b.p(prog, &[st, prog]);
            b.e(prog);
            b.p(st, &[t[0], t[2], exp, t[3], blk, els]);
            b.p(st, &[t[1], t[2], exp, t[3], blk]);
            let rest = b.sym();
            b.p(st, &[t[6], rest, t[8]]);
            b.p(rest, &[t[7], exp]);
            b.p(rest, &[t[2], args, t[3]]);
            b.p(blk, &[t[4], prog, t[5]]);
            b.p(els, &[t[9], blk]);
            b.e(els);
            b.p(exp, &[t[6]]);
            b.p(exp, &[t[2], exp, t[3]]);
            b.p(args, &[exp, at]);
            b.e(args);
            b.p(at, &[t[10], exp, at]);
            b.e(at);
        }
        11 => {
            // siblings with overlapping alternatives: S -> A1 .. Ak eof, Ai -> prefixes of each other
            let k = rng.range(2, 6);
            let a = b.syms(k);
            let nt = rng.range(1, 3);
            let t = b.syms(nt);
            let mut r = a.clone();
            r.push(eof);
            b.p(s, &r);
            for x in &a {
                let mut alts: Vec<Vec<u32>> = vec![];
                for _ in 0..rng.range(2, 4) {
                    let l = rng.range(1, 4);
                    alts.push((0..l).map(|_| *rng.pick(&t)).collect());
                }
                if rng.pct(40) {
                    alts.push(vec![b.eps]);
                }
                rng.shuffle(&mut alts);
                for al in alts {
                    b.p(*x, &al);
                }
            }
        }
        12 => {
            // alternatives sharing long prefixes
            let k = rng.range(2, 8);
            let l = big(rng, 5, 20);
            let t = b.syms(4);
            let ends = b.syms(k);
            let a = b.sym();
            b.p(s, &[a, eof]);
            let pre: Vec<u32> = (0..l).map(|_| *rng.pick(&t)).collect();
            for e in &ends {
                let mut r = pre.clone();
                r.truncate(rng.range(1, l));
                if rng.pct(60) {
                    r.push(*e);
                }
                if rng.pct(30) {
                    r.push(a);
                }
                b.p(a, &r);
            }
        }
        13 => {
            // a symbol next to itself
            let (a, x) = (b.sym(), b.sym());
            let t = b.syms(3);
            let n = rng.range(2, 5);
            let mut r = vec![a; n];
            if rng.pct(40) {
                let i = rng.below(n);
                r.insert(i, x);
            }
            r.push(eof);
            b.p(s, &r);
            b.p(a, &[t[0], x]);
            if rng.pct(40) {
                b.e(a);
            }
            b.p(x, &[t[1]]);
            if rng.pct(70) {
                b.e(x);
            }
            if rng.pct(30) {
                b.p(x, &[t[2], x]);
            }
        }
        14 => {
            // nullable symbols reused in places with different followers
            let n = rng.range(2, 5);
            let x = b.syms(n);
            let y = b.syms(2);
            let z = b.sym();
            let t = b.syms(n + 3);
            b.p(s, &[z, eof]);
            b.p(z, &[y[0]]);
            b.p(z, &[t[n], x[0], t[n + 1], eof]);
            let mut last = z;
            if rng.pct(50) {
                last = y[1];
                b.p(s, &[t[n + 2], y[1], eof]);
            }
            let k = rng.range(1, n);
            b.p(y[0], &x[..k]);
            b.p(y[0], &[t[n + 1]]);
            b.p(last, &[t[0], x[n - 1], t[n + 1]]);
            for i in 0..n {
                b.e(x[i]);
                b.p(x[i], &[t[i]]);
            }
            // eof is used inside: not an end-marked grammar unless repaired
            for p in b.prods.iter_mut() {
                if p.0 != s {
                    p.1.retain(|q| *q != eof);
                }
            }
        }
        15 => {
            let (e, l) = (b.sym(), b.sym());
            let t = b.syms(5);
            b.p(s, &[l, eof]);
            b.p(l, &[e, l]);
            b.e(l);
            b.p(e, &[t[0]]);
            b.p(e, &[t[1], l, t[2]]);
            b.p(e, &[t[3], e]);
            if rng.pct(30) {
                b.p(e, &[t[4], e, e]);
            }
        }
        16 => {
            // run of optional siblings with a shared terminal: many resumptions
            let k = rng.range(2, 7);
            let t = b.syms(2);
            let o = b.sym();
            let mut r = vec![o; k];
            if rng.pct(50) {
                r.push(t[1]);
            }
            r.push(eof);
            b.p(s, &r);
            if rng.pct(50) {
                b.e(o);
                b.p(o, &[t[0]]);
            } else {
                b.p(o, &[t[0]]);
                b.e(o);
            }
            if rng.pct(30) {
                b.p(o, &[t[0], t[1]]);
            }
        }
        17 => {
            // the choice is only settled far to the right
            let k = rng.range(1, 6);
            let (a, c) = (b.sym(), b.sym());
            let t = b.syms(3);
            let m = b.syms(k);
            let mut r = vec![a];
            r.extend(&m);
            r.push(c);
            r.push(eof);
            b.p(s, &r);
            b.p(a, &[t[0]]);
            b.p(a, &[t[0], t[1]]);
            b.p(a, &[t[0], t[1], t[1]]);
            for x in &m {
                b.p(*x, &[t[1]]);
                if rng.pct(40) {
                    b.p(*x, &[t[1], t[1]]);
                }
                if rng.pct(30) {
                    b.e(*x);
                }
            }
            b.p(c, &[t[2]]);
            if rng.pct(50) {
                b.p(c, &[t[1], t[2]]);
            }
        }
        18 => {
            // mutual recursion through right ends
            let n = rng.range(2, 8);
            let a = b.syms(n);
            let t = b.syms(n + 1);
            b.p(s, &[a[0], eof]);
            for i in 0..n {
                let j = rng.below(n);
                b.p(a[i], &[t[i], a[j]]);
                let k2 = rng.below(n);
                if rng.pct(50) {
                    b.p(a[i], &[t[n], a[k2], t[i]]);
                }
                if rng.pct(50) || i == n - 1 {
                    b.e(a[i]);
                }
            }
        }
        19 => {
            // nullable tails: FOLLOW must jump over several nullable symbols
            let n = rng.range(2, 7);
            let a = b.sym();
            let x = b.syms(n);
            let t = b.syms(n + 2);
            let mut r = vec![a];
            r.extend(&x);
            let q = b.sym();
            b.p(s, &[q, eof]);
            b.p(q, &r);
            b.p(a, &[t[n], x[n - 1]]);
            if rng.pct(50) {
                b.e(a);
            }
            for i in 0..n {
                if rng.pct(85) {
                    b.e(x[i]);
                }
                b.p(x[i], &[t[i]]);
                if rng.pct(20) && i > 0 {
                    let y = x[rng.below(i)];
                    b.p(x[i], &[t[n + 1], y]);
                }
            }
        }
        20 => {
            // equal outputs under different symbols and duplicated declarations
            let (a, c) = (b.sym(), b.sym());
            let t = b.syms(3);
            b.p(s, &[a, c, eof]);
            b.p(a, &[t[0], t[1]]);
            b.p(c, &[t[0], t[1]]);
            b.p(a, &[t[0]]);
            b.p(a, &[t[0], t[1]]);
            b.p(c, &[t[0]]);
            b.p(c, &[t[1]]);
            if rng.pct(50) {
                b.p(c, &[t[2], a]);
            }
            if rng.pct(50) {
                b.e(c);
            }
        }
        _ => {
            // ladder: deep single paths whose bottom can fail
            let n = big(rng, 6, 60);
            let a = b.syms(n);
            let t = b.syms(4);
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                match rng.below(4) {
                    0 => b.p(a[i], &[t[0], a[i + 1], t[1]]),
                    1 => b.p(a[i], &[a[i + 1], t[1]]),
                    2 => b.p(a[i], &[t[0], a[i + 1]]),
                    _ => b.p(a[i], &[t[2], a[i + 1], a[i + 1]]),
                }
                if rng.pct(12) {
                    b.p(a[i], &[t[3], t[1]]);
                }
            }
            b.p(a[n - 1], &[t[2]]);
            if rng.pct(40) {
                b.p(a[n - 1], &[t[2], t[3]]);
            }
        }
    }
    let mut g = b.done(s);
    // half of the time, disturb the family a little
    if rng.pct(40) {
        for _ in 0..rng.range(1, 3) {
            disturb(&mut g, rng);
        }
    }
    if rng.pct(50) {
        shuffle_decls(&mut g, rng, false);
    } else if rng.pct(50) {
        g.prods.reverse();
    }
    g
}

/// One random edit that keeps the grammar well formed.
pub fn disturb(g: &mut Gram, rng: &mut Rng) {
    if g.prods.is_empty() {
        return;
    }
    let mut syms: Vec<u32> = vec![];
    for (l, r) in &g.prods {
        syms.push(*l);
        syms.extend(r.iter().filter(|s| **s != g.eps));
    }
    let i = rng.below(g.prods.len());
    match rng.below(6) {
        0 => {
            g.prods.remove(i);
        }
        1 => {
            let l = g.prods[i].0;
            g.prods.push((l, vec![g.eps]));
        }
        2 => {
            let l = g.prods[i].0;
            let n = rng.range(1, 3);
            let r = (0..n).map(|_| *rng.pick(&syms)).collect();
            g.prods.push((l, r));
        }
        3 => {
            let j = rng.below(g.prods[i].1.len());
            let s = *rng.pick(&syms);
            if g.prods[i].1 != [g.eps] {
                g.prods[i].1.insert(j, s);
            }
        }
        4 => {
            let j = rng.below(g.prods[i].1.len());
            if g.prods[i].1.len() > 1 {
                g.prods[i].1.remove(j);
            }
        }
        _ => {
            let j = rng.below(g.prods.len());
            g.prods.swap(i, j);
        }
    }
}

/// A grammar for questions about sets and tables (left recursion welcome).
pub fn any(rng: &mut Rng) -> Gram {
    let g = match rng.below(20) {
        0..=5 => {
            let m = rng.pct(50);
            random(rng, &TINY, m)
        }
        6..=9 => {
            let m = rng.pct(50);
            random(rng, &SMALL, m)
        }
        10..=12 => random(rng, &MID, true),
        13 => random(rng, &BIG, true),
        14 => {
            let n = rng.range(2, 12);
            constructed_ll1(rng, n)
        }
        15 if rng.pct(10) => degenerate(rng),
        _ => {
            let f = rng.below(FAMILIES.len());
            family(rng, f)
        }
    };
    finish(g, rng)
}

fn finish(g: Gram, rng: &mut Rng) -> Gram {
    if rng.pct(70) {
        relabel(&g, rng).0
    } else {
        g
    }
}

/// Empty grammars, start symbols without productions, and the like.
pub fn degenerate(rng: &mut Rng) -> Gram {
    let mut g = random(rng, &TINY, false);
    match rng.below(4) {
        0 => g.prods.clear(),
        1 => g.start = 40,
        2 => {
            // start is a terminal of the grammar
            if let Some(t) = g
                .prods
                .iter()
                .flat_map(|(_, r)| r.iter())
                .find(|t| **t != g.eps && g.prods.iter().all(|(l, _)| l != *t))
            {
                g.start = *t;
            }
        }
        _ => {
            let l = g.start;
            g.prods.retain(|(x, _)| *x == l);
        }
    }
    g
}

/// A grammar without left recursion reachable from its start symbol.
pub fn parsable(rng: &mut Rng) -> Gram {
    let mut g = match rng.below(24) {
        0..=5 => {
            let m = rng.pct(75);
            random(rng, &TINY, m)
        }
        6..=10 => {
            let m = rng.pct(85);
            random(rng, &SMALL, m)
        }
        11..=13 => random(rng, &MID, true),
        14 if rng.pct(40) => random(rng, &BIG, true),
        15 if rng.pct(15) => degenerate(rng),
        15 | 16 => {
            let n = rng.range(2, 10);
            constructed_ll1(rng, n)
        }
        _ => {
            let f = rng.below(FAMILIES.len());
            family(rng, f)
        }
    };
    no_left_recursion(&mut g);
    finish(g, rng)
}

/// A grammar with left recursion; where the alternatives without it come first, the search ends
/// on many inputs.
pub fn recursive(rng: &mut Rng) -> Gram {
    let mut g = match rng.below(10) {
        0..=1 => any(rng),
        2..=6 => conflicting(rng),
        _ => parsable(rng),
    };
    let ana = Ana::new(&g);
    let nts: Vec<u32> = (0..ana.n()).filter(|i| ana.is_nt[*i]).map(|i| ana.syms[i]).collect();
    let ts: Vec<u32> = (0..ana.n()).filter(|i| ana.is_term[*i] && *i != ana.eps).map(|i| ana.syms[i]).collect();
    if nts.is_empty() || ts.is_empty() {
        return g;
    }
    for _ in 0..rng.range(1, 3) {
        let a = *rng.pick(&nts);
        let mut r = vec![a];
        if rng.pct(20) {
            // through another symbol, perhaps behind one that can vanish
            r[0] = *rng.pick(&nts);
        }
        if rng.pct(15) {
            r.insert(0, *rng.pick(&nts));
        }
        for _ in 0..rng.range(1, 3) {
            r.push(if rng.pct(60) { *rng.pick(&ts) } else { *rng.pick(&nts) });
        }
        if rng.pct(85) {
            g.prods.push((a, r));
        } else {
            let at = rng.below(g.prods.len() + 1);
            g.prods.insert(at, (a, r));
        }
    }
    g
}

/// Grammars and inputs of which the search without repairs commits to a match that fails later, while
/// a repair that is given up leads to another one.
pub fn given_up(rng: &mut Rng) -> (Gram, Vec<u32>) {
    let mut b = B::new();
    let v = b.syms(4);
    let (t, n, m, f) = (v[0], v[1], v[2], v[3]);
    let terms = b.syms(6);
    let (x, y, w, a, other) = (terms[0], terms[1], terms[2], terms[3], terms[4]);
    let ys = vec![y; rng.range(1, 3) as usize];
    let before = vec![x; rng.range(0, 2) as usize];
    // S -> chain of single productions -> T
    let mut top = t;
    for _ in 0..rng.below(3) {
        let up = b.sym();
        let mut o = vec![top];
        if rng.pct(30) {
            o.insert(0, other);
        }
        b.p(up, &o);
        top = up;
    }
    let start = b.sym();
    b.p(start, &[top, a]);
    let mut o = before.clone();
    o.extend([n, m, w]);
    if rng.pct(20) {
        o.push(f);
    }
    b.p(t, &o);
    b.e(n);
    b.p(n, &ys);
    b.p(m, &[w]);
    if rng.pct(30) {
        b.p(m, &[n, f, other]);
    }
    b.p(m, &[n, f]);
    b.e(f);
    if rng.pct(30) {
        b.p(f, &[other]);
    }
    let g = b.done(start);
    // the input as read through the chain, innermost first
    let mut i = before;
    i.extend(&ys);
    i.extend([w, w, a]);
    let wraps = g.prods.iter().filter(|p| p.1.len() == 2 && p.1[0] == other).count();
    for _ in 0..wraps {
        i.insert(0, other);
    }
    (g, i)
}


/// A list of items with an error in most of them, and how many tokens a repair skips.
pub fn many_errors(rng: &mut Rng) -> (Gram, Vec<u32>, usize) {
    let n = match rng.below(20) {
        0 => rng.range(200, 900),
        1..=4 => rng.range(61, 300),
        _ => rng.range(13, 60),
    };
    let mut b = B::new();
    let v = b.syms(5);
    let (s, l, i, p, q) = (v[0], v[1], v[2], v[3], v[4]);
    let t = b.syms(5);
    let (a, x, y, stop, end) = (t[0], t[1], t[2], t[3], t[4]);
    // all items side by side, few of them wrong, sometimes further in than 16 bits count
    let flat = rng.pct(15);
    let n = if flat && rng.pct(30) { rng.range(1000, 24_000) } else { n };
    let sep = rng.pct(40);
    if flat {
        let mut o = if sep { [i, stop].repeat(n) } else { vec![i; n] };
        o.push(end);
        b.p(s, &o);
    } else {
        b.p(s, &[l, end]);
        if sep {
            b.p(l, &[i, stop, l]);
        } else {
            b.p(l, &[i, l]);
        }
        b.e(l);
    }
    // the error is in the item itself or further inside
    let deep = rng.pct(50);
    let (item, bad, skip): (Vec<u32>, Vec<u32>, usize) = if deep {
        b.p(i, &[a, p]);
        b.p(p, &[x, q]);
        b.p(q, &[y]);
        if rng.pct(50) {
            b.p(q, &[x, y]);
        }
        match rng.below(3) {
            0 => (vec![a, x, y], vec![a, y], 1),
            1 => (vec![a, x, y], vec![a, x, a], 1),
            _ => (vec![a, x, y], vec![a, y, y], 2),
        }
    } else {
        b.p(i, &[a, x, y]);
        if rng.pct(30) {
            b.p(i, &[x, y]);
        }
        match rng.below(3) {
            0 => (vec![a, x, y], vec![a, y], 2),
            1 => (vec![a, x, y], vec![a, x, x], 3),
            _ => (vec![a, x, y], vec![a], 1),
        }
    };
    let good = *rng.pick(&[0, 0, 10, 50]);
    let few: Vec<usize> = (0..rng.range(1, 4)).map(|_| if rng.pct(50) { n - 1 - rng.below(n.min(9)) } else { rng.below(n) }).collect();
    let mut input = vec![];
    for k in 0..n {
        let fine = if flat && n > 60 { !few.contains(&k) } else { rng.pct(good) };
        input.extend(if fine { &item } else { &bad });
        if sep {
            input.push(stop);
        }
    }
    // what is missing at the end is reported again at every level, all of it
    if n > 60 && !flat || rng.pct(90) {
        input.push(end);
        // much that nobody reads
        if n < 60 && rng.pct(8) {
            let m = rng.range(1000, 70_000);
            input.extend((0..m).map(|_| *rng.pick(&[a, x, y, stop, end])));
        }
    }
    (b.done(s), input, skip)
}

/// A parsable grammar in which some symbol has competing productions.
pub fn conflicting(rng: &mut Rng) -> Gram {
    for _ in 0..40 {
        let mut g = match rng.below(10) {
            0..=2 => random(rng, &TINY, true),
            3..=5 => random(rng, &SMALL, true),
            6 => random(rng, &MID, true),
            _ => {
                let f = *rng.pick(&[11usize, 11, 12, 13, 16, 17, 17, 20, 14, 7, 3]);
                family(rng, f)
            }
        };
        no_left_recursion(&mut g);
        if Ana::new(&g).conflict().is_some() {
            return finish(g, rng);
        }
    }
    let mut b = B::new();
    let v = b.syms(4);
    b.p(v[0], &[v[1], v[3]]);
    b.p(v[1], &[v[2]]);
    b.p(v[1], &[v[2], v[2]]);
    b.done(v[0])
}

/// An end-marked LL(1) grammar.
pub fn ll1(rng: &mut Rng) -> Gram {
    for _ in 0..60 {
        let mut g = match rng.below(16) {
            0..=3 => random(rng, &SMALL, true),
            4..=5 => random(rng, &TINY, true),
            6..=7 => random(rng, &MID, true),
            8 if rng.pct(50) => random(rng, &BIG, true),
            8..=10 => {
                let n = rng.range(2, 25);
                constructed_ll1(rng, n)
            }
            _ => {
                let f = *rng.pick(&[0usize, 1, 2, 3, 4, 6, 7, 8, 9, 10, 13, 13, 14, 14, 15, 18, 19, 19, 21]);
                family(rng, f)
            }
        };
        make_ll1(&mut g, rng);
        let a = Ana::new(&g);
        if a.is_ll1() && a.end_marker().is_some() && a.heights()[a.start] != usize::MAX {
            return finish(g, rng);
        }
    }
    let mut b = B::new();
    let v = b.syms(3);
    b.p(v[0], &[v[1], v[2]]);
    b.done(v[0])
}

// ---------------------------------------------------------------------------------------------
// sentences

pub struct Sampler<'a> {
    ana: &'a Ana,
    h: Vec<usize>,
    recursive: Vec<bool>,
}
impl<'a> Sampler<'a> {
    pub fn new(ana: &'a Ana) -> Self {
        let n = ana.n();
        let h = ana.heights();
        // symbols that can reach themselves
        let mut recursive = vec![false; n];
        for a in 0..n {
            if !ana.is_nt[a] {
                continue;
            }
            let mut seen = vec![false; n];
            let mut st = vec![a];
            'o: while let Some(x) = st.pop() {
                for p in &ana.by_nt[x] {
                    for y in &ana.prods[*p].1 {
                        if *y == a {
                            recursive[a] = true;
                            break 'o;
                        }
                        if ana.is_nt[*y] && !seen[*y] {
                            seen[*y] = true;
                            st.push(*y);
                        }
                    }
                }
            }
        }
        Sampler { ana, h, recursive }
    }
    pub fn productive(&self) -> bool {
        self.ana.is_nt[self.ana.start] && self.h[self.ana.start] != usize::MAX
    }
    /// A random derivation that aims at `target` tokens; the ids of its leaves go to `out`.
    pub fn sentence(&self, rng: &mut Rng, target: usize, max_depth: usize) -> Option<(Tree, Vec<u32>)> {
        if !self.productive() {
            return None;
        }
        let mut out = vec![];
        let mut fuel = 40 * target + 2000;
        let t = self.derive(self.ana.start, rng, target, max_depth, &mut out, &mut fuel)?;
        Some((t, out))
    }
    fn derive(
        &self,
        s: usize,
        rng: &mut Rng,
        target: usize,
        depth: usize,
        out: &mut Vec<u32>,
        fuel: &mut usize,
    ) -> Option<Tree> {
        if *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        let a = self.ana;
        let id = a.syms[s];
        if !a.is_nt[s] {
            if s != a.eps {
                out.push(id);
            }
            return Some(Tree::leaf(id));
        }
        let hp = |p: usize| a.prods[p].1.iter().map(|x| self.h[*x]).max().unwrap();
        let ok: Vec<usize> = a.by_nt[s].iter().copied().filter(|p| hp(*p) != usize::MAX).collect();
        let p = if out.len() >= target || depth == 0 {
            let m = ok.iter().map(|p| hp(*p)).min()?;
            let c: Vec<usize> = ok.iter().copied().filter(|p| hp(*p) == m).collect();
            *rng.pick(&c)
        } else {
            let rec: Vec<usize> = ok
                .iter()
                .copied()
                .filter(|p| a.prods[*p].1.iter().any(|x| self.recursive[*x]))
                .collect();
            let grow = if target > 40 { 95 } else { 50 };
            if !rec.is_empty() && rng.pct(grow) {
                *rng.pick(&rec)
            } else {
                *rng.pick(&ok)
            }
        };
        let mut kids = vec![];
        for x in &a.prods[p].1 {
            kids.push(self.derive(*x, rng, target, depth.saturating_sub(1), out, fuel)?);
        }
        Some(Tree::node(id, kids))
    }
}

/// Attaches lexemes and tags to a sequence of symbols.
pub fn toks(syms: &[u32], rng: &mut Rng) -> Vec<Tok> {
    let none_pct = *rng.pick(&[0usize, 0, 10, 50, 100]);
    let base = rng.next() >> 20;
    syms.iter()
        .enumerate()
        .map(|(i, s)| Tok {
            sym: *s,
            lex: if rng.pct(none_pct) { None } else { Some(base + i as u64) },
            tag: i as u32 + 1,
        })
        .collect()
}

pub struct Alphabet {
    pub terms: Vec<u32>,
    pub hostile: Vec<u32>,
}
pub fn alphabet(ana: &Ana) -> Alphabet {
    let terms: Vec<u32> = (0..ana.n())
        .filter(|i| ana.is_term[*i] && *i != ana.eps)
        .map(|i| ana.syms[i])
        .collect();
    let mut hostile = vec![ana.syms[ana.eps]];
    hostile.extend((0..ana.n()).filter(|i| ana.is_nt[*i]).map(|i| ana.syms[i]));
    let top = *ana.syms.last().unwrap();
    hostile.push(top + 1);
    hostile.push(top + 17);
    Alphabet { terms, hostile }
}
impl Alphabet {
    pub fn pick(&self, rng: &mut Rng, hostile_pct: usize) -> u32 {
        if self.terms.is_empty() || rng.pct(hostile_pct) {
            *rng.pick(&self.hostile)
        } else {
            *rng.pick(&self.terms)
        }
    }
}

/// Random edits of a token sequence; never returns an empty one.
pub fn mutate(rng: &mut Rng, base: &[u32], al: &Alphabet) -> Vec<u32> {
    let mut v = base.to_vec();
    let hp = *rng.pick(&[0usize, 0, 5, 30]);
    for _ in 0..rng.range(1, 3) {
        let n = v.len();
        match rng.below(9) {
            0 | 1 if n > 0 => v.truncate(rng.below(n)),
            2 if n > 0 => {
                v.remove(rng.below(n));
            }
            3 => {
                let i = rng.below(n + 1);
                v.insert(i, al.pick(rng, hp));
            }
            4 if n > 0 => {
                let i = rng.below(n);
                v[i] = al.pick(rng, hp);
            }
            5 if n > 1 => {
                let i = rng.below(n - 1);
                v.swap(i, i + 1);
            }
            6 if n > 0 => {
                let i = rng.below(n);
                let x = v[i];
                v.insert(i, x);
            }
            7 => {
                for _ in 0..rng.range(1, 3) {
                    v.push(al.pick(rng, hp));
                }
            }
            _ if n > 0 => {
                // near the end: errors after a long correct part
                let i = n - 1 - rng.below(n.min(3));
                v[i] = al.pick(rng, hp);
            }
            _ => {}
        }
    }
    if v.is_empty() {
        v.push(al.pick(rng, hp));
    }
    v
}

pub fn random_tokens(rng: &mut Rng, al: &Alphabet, max: usize) -> Vec<u32> {
    let hp = *rng.pick(&[0usize, 0, 10]);
    (0..rng.range(1, max)).map(|_| al.pick(rng, hp)).collect()
}

// ---------------------------------------------------------------------------------------------
// sizes beyond those that small integers can count

/// Grammars with hundreds of symbols, alternatives, or symbols in one output.
pub fn huge_grammar(rng: &mut Rng, turn: usize) -> Gram {
    let n = rng.range(258, 420);
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    match turn % 6 {
        0 => {
            // unit chain, sometimes with a nullable end
            let a = b.syms(n);
            let t = b.sym();
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                b.p(a[i], &[a[i + 1]]);
            }
            b.p(a[n - 1], &[t]);
            if rng.pct(50) {
                b.e(a[n - 1]);
            }
        }
        1 => {
            // one output of nullable symbols, each with a terminal
            let a = b.syms(n);
            let t = b.syms(n);
            let mut o = a.clone();
            o.push(eof);
            b.p(s, &o);
            for i in 0..n {
                b.e(a[i]);
                if rng.pct(60) {
                    b.p(a[i], &[t[i]]);
                }
            }
        }
        2 => {
            // many alternatives
            let a = b.sym();
            let t = b.syms(n);
            b.p(s, &[a, a, eof]);
            for x in &t {
                b.p(a, &[*x]);
            }
        }
        3 => {
            // many competing alternatives
            let a = b.sym();
            let x = b.sym();
            let t = b.syms(n);
            b.p(s, &[a, eof]);
            for y in &t {
                b.p(a, &[x, *y]);
            }
        }
        4 => {
            // a long output of few symbols
            let a = b.sym();
            let x = b.sym();
            let y = b.sym();
            let mut o: Vec<u32> = (0..n).map(|_| *rng.pick(&[a, x])).collect();
            o.push(eof);
            b.p(s, &o);
            b.p(a, &[x]);
            b.p(a, &[y]);
        }
        _ => {
            // tails: A0 -> t0 A1, A1 -> t1 A2, ...; FOLLOW travels the whole way
            let a = b.syms(n);
            let t = b.syms(3);
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                b.p(a[i], &[t[i % 3], a[i + 1]]);
            }
            b.e(a[n - 1]);
        }
    }
    let mut g = b.done(s);
    if rng.pct(70) {
        let keep = rng.pct(50);
        shuffle_decls(&mut g, rng, keep);
    }
    relabel(&g, rng).0
}

/// More symbols, alternatives, productions or symbols of an output than 16 bits count.
pub fn giant(rng: &mut Rng, sets: bool, turn: usize) -> (Gram, Vec<Vec<u32>>) {
    let n = 65_536 + rng.range(3, 900);
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    let far = |rng: &mut Rng| match rng.below(4) {
        0 => n - 1,
        1 => rng.range(65_530, n - 1),
        2 => rng.below(1000),
        _ => rng.below(n),
    };
    let mut w: Vec<Vec<u32>> = vec![];
    // the table has a cell for each pair of a non-terminal and a terminal
    match turn % if sets { 9 } else { 6 } {
        0 => {
            // many terminals, one of them at a time
            let a = b.sym();
            let t = b.syms(n);
            b.p(s, &[a, a, eof]);
            for x in &t {
                b.p(a, &[*x]);
            }
            for _ in 0..3 {
                let (i, j) = (far(rng), far(rng));
                w.push(vec![t[i], t[j], eof]);
            }
            w.push(vec![t[n - 1], eof, t[0]]);
        }
        1 => {
            // many competing alternatives, all but one fail
            let a = b.sym();
            let x = b.sym();
            let t = b.syms(n);
            b.p(s, &[a, eof]);
            for y in &t {
                b.p(a, &[x, *y]);
            }
            w.push(vec![x, t[n - 1], eof]);
            w.push(vec![x, t[far(rng)], eof]);
            w.push(vec![x, eof]);
        }
        2 => {
            // one long output
            let x = b.sym();
            let y = b.sym();
            let o: Vec<u32> = (0..n).map(|_| if rng.pct(99) { x } else { y }).collect();
            let mut e = o.clone();
            e.push(eof);
            b.p(s, &e);
            w.push(e.clone());
            let mut bad = e.clone();
            let i = far(rng);
            bad[i] = if bad[i] == x { y } else { x };
            w.push(bad);
            e.truncate(n - rng.below(3));
            w.push(e);
        }
        3 => {
            // one production declared again and again, then another
            let a = b.sym();
            let x = b.sym();
            let y = b.sym();
            b.p(s, &[a, eof]);
            for _ in 0..n {
                b.p(a, &[x]);
            }
            b.p(a, &[x, y]);
            w.push(vec![x, eof]);
            w.push(vec![x, x, eof]);
        }
        4 => {
            // symbols that come in pairs, matched one pair after the other
            let a = b.syms(n);
            let t = b.syms(3);
            let q = b.syms(4);
            b.p(s, &[q[0], q[1], eof]);
            for i in 0..n {
                b.p(a[i], &[t[i % 3], q[2 + i % 2]]);
            }
            let (i, j) = (far(rng), far(rng));
            b.p(q[0], &[a[i]]);
            b.p(q[1], &[a[j]]);
            b.e(q[1]);
            b.p(q[2], &[t[0]]);
            b.p(q[2], &[t[1]]);
            b.e(q[2]);
            b.p(q[3], &[t[2]]);
            for _ in 0..4 {
                let mut v = vec![t[i % 3], *rng.pick(&t), t[j % 3], *rng.pick(&t), eof];
                if rng.pct(30) {
                    v.remove(1);
                }
                w.push(v);
            }
        }
        5 => {
            // a long output of symbols that the parser has to choose for
            let a = b.sym();
            let x = b.sym();
            let y = b.sym();
            let mut o = vec![a; n];
            o.push(eof);
            b.p(s, &o);
            b.p(a, &[x]);
            b.p(a, &[y, x]);
            let mut v = vec![];
            for _ in 0..n {
                if rng.pct(10) {
                    v.push(y);
                }
                v.push(x);
            }
            v.push(eof);
            w.push(v.clone());
            let i = v.len() - 2 - rng.below(500);
            v[i] = if v[i] == x { y } else { x };
            w.push(v);
        }
        7 | 8 => {
            // chains: whatever order the symbols are taken in, their sets travel step by step, in more
            // than a thousand rounds when each takes the symbols in the same order at random
            let first = turn % 9 == 7;
            let n = rng.range(2150, 2900);
            let a = b.syms(n);
            let (t, u, z) = (b.sym(), b.sym(), b.sym());
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                match (first, rng.below(10)) {
                    (true, 0) => b.p(a[i], &[a[i + 1], t]),
                    (true, _) => b.p(a[i], &[a[i + 1]]),
                    (false, 0) => b.p(a[i], &[t, a[i + 1], z]),
                    (false, _) => b.p(a[i], &[t, a[i + 1]]),
                }
            }
            b.p(a[n - 1], &[u]);
            if rng.pct(50) {
                b.e(a[n - 1]);
            }
            b.e(z);
        }
        _ => {
            // many non-terminals, one terminal each
            let a = b.syms(n);
            let t = b.syms(n);
            for i in 0..n {
                b.p(s, &[a[i], eof]);
                b.p(a[i], &[t[i]]);
            }
            for _ in 0..3 {
                w.push(vec![t[far(rng)], eof]);
            }
            w.push(vec![t[n - 1], t[n - 1]]);
        }
    }
    let mut g = b.done(s);
    if rng.pct(40) {
        let keep = rng.pct(50);
        shuffle_decls(&mut g, rng, keep);
    }
    if rng.pct(50) {
        return (g, w);
    }
    let (g, map) = relabel(&g, rng);
    let w = w.iter().map(|v| v.iter().map(|x| map[*x as usize]).collect()).collect();
    (g, w)
}

/// A grammar with inputs of hundreds to tens of thousands of tokens.
pub fn huge(rng: &mut Rng, top: usize, largest: bool, turn: usize) -> (Gram, Vec<Vec<u32>>) {
    let n = match rng.below(10) {
        _ if largest => top - rng.below(top / 20),
        0..=2 => rng.range(top / 2, top),
        3..=5 => rng.range(top / 20, top / 5).max(258),
        _ => rng.range(258, 1200),
    };
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    let (x, y, z) = (b.sym(), b.sym(), b.sym());
    let mut w: Vec<u32>;
    match turn % 7 {
        0 => {
            let l = b.sym();
            b.p(s, &[l, eof]);
            b.p(l, &[x, l]);
            if rng.pct(50) {
                b.p(l, &[y, l]);
            }
            b.e(l);
            w = (0..n).map(|_| x).collect();
            w.push(eof);
        }
        1 => {
            let e = b.sym();
            b.p(s, &[e, eof]);
            b.p(e, &[x, e, y]);
            b.p(e, &[z]);
            w = vec![x; n / 2];
            w.push(z);
            w.extend(vec![y; n / 2]);
            w.push(eof);
        }
        2 => {
            // one production with that many symbols
            let a = b.sym();
            let mut o = vec![a; n.min(20_000)];
            o.push(eof);
            b.p(s, &o);
            b.p(a, &[x]);
            if rng.pct(50) {
                b.p(a, &[y]);
            }
            w = vec![x; o.len() - 1];
            w.push(eof);
        }
        3 => {
            // the last alternative is the one that matches
            let n = n.min(1200);
            let a = b.sym();
            let t = b.syms(n);
            b.p(s, &[a, eof]);
            for u in &t {
                b.p(a, &[x, *u]);
            }
            w = vec![x, t[n - 1], eof];
        }
        4 => {
            // a short sentence and much after it
            b.p(s, &[x, eof]);
            w = vec![x, eof];
            w.extend(vec![y; n]);
        }
        5 => {
            // items with a choice that needs a second look, far into the input
            let (l, i) = (b.sym(), b.sym());
            b.p(s, &[l, eof]);
            b.p(l, &[i, z, l]);
            b.e(l);
            b.p(i, &[x]);
            b.p(i, &[x, y]);
            w = vec![];
            while w.len() + 3 < n {
                w.push(x);
                if rng.pct(50) {
                    w.push(y);
                }
                w.push(z);
            }
            w.push(eof);
        }
        _ => {
            // a chain of units for each of some items
            let k = rng.range(258, 300);
            let a = b.syms(k);
            b.p(s, &[a[0], a[0], eof]);
            for j in 0..k - 1 {
                b.p(a[j], &[a[j + 1]]);
            }
            b.p(a[k - 1], &[x]);
            b.p(a[k - 1], &[y, z]);
            w = vec![x, y, z, eof];
        }
    }
    let mut g = b.done(s);
    if rng.pct(50) {
        shuffle_decls(&mut g, rng, true);
    }
    let mut v = vec![w.clone()];
    let at = w.len() - 1 - rng.below(w.len().min(4));
    let mut e = w.clone();
    match rng.below(4) {
        0 => e.truncate(at.max(1)),
        1 => e[at] = *rng.pick(&[x, y, z, eof]),
        2 => {
            let at = rng.below(w.len());
            e[at] = *rng.pick(&[x, y, z, eof]);
        }
        _ => e.insert(at, *rng.pick(&[x, y, z, eof])),
    }
    v.push(e);
    let (g2, map) = relabel(&g, rng);
    let top = map.len() as u32;
    let m = |s: &u32| if *s < top { map[*s as usize] } else { *s };
    let v = v.iter().map(|w| w.iter().map(m).collect()).collect();
    g = g2;
    (g, v)
}

// ---------------------------------------------------------------------------------------------
// choices that turn out wrong much later

struct Back {
    b: B,
    ts: Vec<u32>,
    any: Vec<u32>,
    opt: Vec<u32>,
}
impl Back {
    fn letter(&mut self, rng: &mut Rng) -> u32 {
        if rng.pct(50) { *rng.pick(&self.any) } else { self.ts[0] }
    }

    /// A symbol with competing alternatives of different lengths (mostly).
    fn choice(&mut self, rng: &mut Rng, depth: usize, most: usize) -> u32 {
        let a = self.b.sym();
        let k = if rng.pct(8) { rng.range(2, 20) } else { rng.range(2, most.max(2)) };
        let mut alts: Vec<Vec<u32>> = vec![];
        let base: usize = if rng.pct(30) { 0 } else { 1 };
        for j in 0..k {
            let n = base + j;
            let mut r: Vec<u32> = vec![];
            if depth > 0 && n > 0 && rng.pct(25) {
                let m = self.size(rng) / 3 + 1;
                r = self.body(rng, depth - 1, m, 1);
                if rng.pct(40) {
                    let t = *rng.pick(&self.ts.clone());
                    r.push(t);
                }
            } else {
                for _ in 0..n {
                    let x = self.letter(rng);
                    r.push(x);
                }
            }
            if r.is_empty() {
                r.push(self.b.eps);
            }
            alts.push(r);
        }
        if rng.pct(60) {
            rng.shuffle(&mut alts);
        }
        for r in &alts {
            self.b.p(a, r);
        }
        if rng.pct(20) {
            let u = self.b.sym();
            self.b.p(u, &[a]);
            return u;
        }
        a
    }

    fn size(&self, rng: &mut Rng) -> usize {
        match rng.below(100) {
            0..=54 => rng.range(1, 12),
            55..=81 => rng.range(13, 45),
            82..=96 => rng.range(46, 150),
            _ => rng.range(150, 400),
        }
    }

    /// Symbols of which few have a choice, mostly early ones.
    fn body(&mut self, rng: &mut Rng, depth: usize, n: usize, most: usize) -> Vec<u32> {
        let mut r: Vec<u32> = vec![];
        let filler = rng.below(5);
        for i in 0..n {
            let x = match (filler, rng.below(10)) {
                (0, _) => self.any[0],
                (1, _) => self.ts[0],
                (2, 0..=6) if i > 0 && !self.opt.is_empty() => *rng.pick(&self.opt),
                (3, 0..=1) if !self.opt.is_empty() => *rng.pick(&self.opt),
                (_, _) => self.letter(rng),
            };
            r.push(x);
        }
        let c = if n > 100 { rng.range(1, 2) } else { rng.range(1, most.max(1)) };
        for _ in 0..c {
            let at = if rng.pct(60) { 0 } else { rng.below(n) };
            let x = self.choice(rng, depth, if c > 2 { 3 } else { 5 });
            if rng.pct(50) {
                r[at] = x;
            } else {
                r.insert(at, x);
            }
        }
        r
    }

    fn derive(&self, rng: &mut Rng, sym: u32, out: &mut Vec<u32>) {
        let ps: Vec<&Vec<u32>> = self.b.prods.iter().filter(|p| p.0 == sym).map(|p| &p.1).collect();
        if ps.is_empty() {
            if sym != self.b.eps {
                out.push(sym);
            }
            return;
        }
        let mut p = *rng.pick(&ps);
        if (self.opt.contains(&sym) || self.any.contains(&sym)) && rng.pct(85) {
            p = ps[0];
        }
        for x in p {
            self.derive(rng, *x, out);
            if out.len() > 3000 {
                return;
            }
        }
    }
}

/// A grammar without recursion and inputs for which an early choice is found wrong many symbols
/// later, in the same production.
pub fn backtrack(rng: &mut Rng) -> (Gram, Vec<Vec<u32>>) {
    let mut k = Back { b: B::new(), ts: vec![], any: vec![], opt: vec![] };
    let s = k.b.sym();
    let eof = k.b.sym();
    let nt = *rng.pick(&[1usize, 1, 2, 3]);
    k.ts = k.b.syms(nt);
    for _ in 0..rng.range(1, 3) {
        let a = k.b.sym();
        for t in k.ts.clone() {
            if rng.pct(15) {
                let u = k.b.sym();
                k.b.p(a, &[u]);
                k.b.p(u, &[t]);
            } else {
                k.b.p(a, &[t]);
            }
        }
        k.any.push(a);
    }
    for _ in 0..rng.below(3) {
        let (o, t) = (k.b.sym(), k.b.sym());
        k.b.e(o);
        k.b.p(o, &[t]);
        k.opt.push(o);
    }
    let n = k.size(rng);
    let depth = rng.below(3);
    let mut r = k.body(rng, depth, n, 3);
    match rng.below(5) {
        0 => {
            // the search ends with the inner symbol
            let w = k.b.sym();
            let m = k.b.sym();
            if rng.pct(60) {
                r.push(m);
            }
            k.b.p(w, &r);
            if rng.pct(50) {
                let m2 = rng.range(1, 6);
                let r2 = k.body(rng, 0, m2, 1);
                k.b.p(w, &r2);
            }
            k.b.p(s, &[w, eof]);
        }
        1 => {
            // what comes before is not part of it
            let w = k.b.sym();
            let t = k.b.sym();
            r.push(t);
            k.b.p(w, &r);
            let x = k.letter(rng);
            let c = k.choice(rng, 0, 3);
            k.b.p(s, &[c, x, w, eof]);
        }
        _ => {
            r.push(eof);
            k.b.p(s, &r);
        }
    }
    let letters = k.ts.clone();
    let mut v: Vec<Vec<u32>> = vec![];
    for _ in 0..6 {
        let mut w = vec![];
        k.derive(rng, s, &mut w);
        if rng.pct(25) {
            let at = w.len() - 1 - rng.below(w.len().min(3));
            match rng.below(4) {
                0 if w.len() > 1 => {
                    w.remove(at);
                }
                1 => w.insert(at, *rng.pick(&letters)),
                2 => w.truncate(at.max(1)),
                _ => w[at] = *rng.pick(&letters),
            }
        }
        v.push(w);
    }
    let mut g = k.b.done(s);
    if rng.pct(50) {
        shuffle_decls(&mut g, rng, true);
    }
    if rng.pct(50) {
        let (g2, map) = relabel(&g, rng);
        for w in v.iter_mut() {
            for x in w.iter_mut() {
                *x = map[*x as usize];
            }
        }
        g = g2;
    }
    (g, v)
}

/// Shapes on which careless set computations repeat work: diamonds, ladders, cliques, cycles,
/// runs of nullable symbols, all in a size that a polynomial computation handles at once.
pub fn analysis(rng: &mut Rng) -> Gram {
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    let n = if rng.pct(15) { rng.range(60, 160) } else { rng.range(3, 48) };
    let t = b.syms(rng.range(1, 4));
    match rng.below(9) {
        0 => {
            // ladder: every symbol uses the next one several times
            let a = b.syms(n);
            b.p(s, &[a[0], eof]);
            let k = rng.range(2, 4);
            let wrap = rng.pct(50);
            for i in 0..n - 1 {
                let mut o = vec![a[i + 1]; k];
                if wrap {
                    o.push(*rng.pick(&t));
                }
                b.p(a[i], &o);
            }
            b.p(a[n - 1], &[t[0]]);
            if rng.pct(60) {
                b.e(a[n - 1]);
            }
        }
        1 => {
            // diamonds: two ways from every level to the next
            let l = b.syms(n);
            let r = b.syms(n);
            b.p(s, &[l[0], eof]);
            b.p(s, &[r[0], eof]);
            for i in 0..n - 1 {
                for x in [l[i], r[i]] {
                    b.p(x, &[l[i + 1]]);
                    b.p(x, &[r[i + 1]]);
                }
            }
            b.p(l[n - 1], &[t[0]]);
            b.p(r[n - 1], &[*t.last().unwrap()]);
            if rng.pct(50) {
                b.e(r[n - 1]);
            }
        }
        2 => {
            // clique: every symbol begins with every other one
            let n = n.min(22);
            let a = b.syms(n);
            b.p(s, &[a[0], eof]);
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        b.p(a[i], &[a[j]]);
                    }
                }
            }
            b.p(*rng.pick(&a), &[t[0]]);
            if rng.pct(50) {
                b.e(*rng.pick(&a));
            }
        }
        3 => {
            // a cycle, entered anywhere
            let a = b.syms(n);
            b.p(s, &[*rng.pick(&a), eof]);
            let tail = rng.pct(50);
            for i in 0..n {
                let mut o = vec![a[(i + 1) % n]];
                if tail {
                    o.push(*rng.pick(&t));
                }
                b.p(a[i], &o);
            }
            b.p(*rng.pick(&a), &[t[0]]);
        }
        4 => {
            // every symbol is all the later ones in a row, all nullable
            let n = n.min(30);
            let a = b.syms(n);
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                b.p(a[i], &a[i + 1..]);
            }
            for x in &a {
                b.e(*x);
            }
            b.p(a[n - 1], &[t[0]]);
        }
        5 => {
            // a row of nullable symbols that each have their own terminal
            let n = n.min(60);
            let a = b.syms(n);
            let u = b.syms(n);
            let mut o = a.clone();
            o.push(eof);
            b.p(s, &o);
            for i in 0..n {
                b.p(a[i], &[u[i], a[rng.below(n)]]);
                b.e(a[i]);
            }
        }
        6 => {
            // FOLLOW has to travel down a chain that is declared in the wrong direction
            let a = b.syms(n);
            for i in (0..n - 1).rev() {
                b.p(a[i], &[*rng.pick(&t), a[i + 1]]);
                b.p(a[i], &[a[i + 1]]);
            }
            b.p(a[n - 1], &[t[0]]);
            b.p(s, &[a[0], eof]);
        }
        7 => {
            // levels of operators
            let a = b.syms(n);
            let ops = b.syms(n);
            b.p(s, &[a[0], eof]);
            for i in 0..n - 1 {
                b.p(a[i], &[a[i + 1], ops[i], a[i]]);
                b.p(a[i], &[a[i + 1]]);
            }
            b.p(a[n - 1], &[t[0]]);
            b.p(a[n - 1], &[t[t.len() - 1], a[0], t[0]]);
        }
        _ => {
            // a binary tree of symbols that share their leaves
            let n = n.max(7);
            let a = b.syms(n);
            b.p(s, &[a[0], eof]);
            for i in 0..n {
                let (x, y) = (a[(2 * i + 1).min(n - 1)], a[(2 * i + 2).min(n - 1)]);
                if 2 * i + 1 < n {
                    b.p(a[i], &[x, y]);
                    if rng.pct(30) {
                        b.p(a[i], &[y, *rng.pick(&t), x]);
                    }
                } else {
                    b.p(a[i], &[*rng.pick(&t)]);
                    if rng.pct(50) {
                        b.e(a[i]);
                    }
                }
            }
        }
    }
    let mut g = b.done(s);
    for _ in 0..rng.below(3) {
        disturb(&mut g, rng);
    }
    if rng.pct(70) {
        let keep = rng.pct(50);
        shuffle_decls(&mut g, rng, keep);
    }
    finish(g, rng)
}

// ---------------------------------------------------------------------------------------------
// much input, little nesting

/// Grammars with long inputs whose derivations are wide and not deep.
pub fn flat(rng: &mut Rng, top: usize) -> (Gram, Vec<Vec<u32>>) {
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    let (x, y, z) = (b.sym(), b.sym(), b.sym());
    let n = if rng.pct(30) { rng.range(top / 2, top) } else { rng.range(300, 1500) };
    let mut w: Vec<u32> = vec![];
    let mut extra = vec![];
    match rng.below(8) {
        0 => {
            // balanced: the width of each level is a multiple of that of the level above
            let k = rng.range(2, 6);
            let mut m = 1;
            while k.pow(m + 1) <= n {
                m += 1;
            }
            let a = b.syms(m as usize + 1);
            b.p(s, &[a[0], eof]);
            for i in 0..m as usize {
                b.p(a[i], &vec![a[i + 1]; k]);
            }
            b.p(a[m as usize], &[x]);
            b.p(a[m as usize], &[y]);
            w = (0..k.pow(m)).map(|_| if rng.pct(50) { x } else { y }).collect();
            w.push(eof);
        }
        1 => {
            // one long output
            // (the analysis of nullable symbols in a row takes the square of their number)
            let nullable = rng.pct(40);
            let n = n.min(if nullable { 2_000 } else { 20_000 });
            let a = b.sym();
            let mut o = vec![a; n];
            o.push(eof);
            b.p(s, &o);
            b.p(a, &[x]);
            if nullable {
                b.e(a);
            } else {
                b.p(a, &[y]);
            }
            w = (0..n).map(|_| x).collect();
            w.push(eof);
            extra.push(w[w.len() / 2..].to_vec());
        }
        2 => {
            // tokens behind the end
            b.p(s, &[x, y, eof]);
            w = vec![x, y, eof];
            for _ in 0..n {
                w.push(*rng.pick(&[x, y, z, eof]));
            }
        }
        3 => {
            // every matched symbol has an alternative that fails
            let n = n.min(6_000);
            let a = b.sym();
            let mut o = vec![a; n];
            o.extend([z, eof]);
            b.p(s, &o);
            b.p(a, &[x]);
            b.p(a, &[x, y]);
            w = vec![x; n];
            extra.push([w.clone(), vec![z, eof]].concat());
            w.push(eof);
        }
        4 => {
            // many alternatives of one symbol, all tried
            let n = n.min(1_500);
            let a = b.sym();
            b.p(s, &[a, eof]);
            for i in 0..n {
                let last = if i + 1 == n { z } else { y };
                let mut o = vec![x; 1 + i % 3];
                o.push(last);
                b.p(a, &o);
            }
            w = vec![x; 1 + (n - 1) % 3];
            w.extend([z, eof]);
            extra.push(vec![x, x, x, x, eof]);
        }
        5 => {
            // terminals only
            let n = n.min(40_000);
            let mut o: Vec<u32> = (0..n).map(|_| *rng.pick(&[x, y, z])).collect();
            w = o.clone();
            w.push(eof);
            o.push(eof);
            b.p(s, &o);
        }
        6 => {
            // sections of nullable symbols
            let k = rng.range(8, 30);
            let n = n.min(9_000);
            let l = b.sym();
            let a = b.syms(k);
            let mut o = vec![l; n / k + 1];
            o.push(eof);
            b.p(s, &o);
            b.p(l, &[&[x][..], &a[..]].concat());
            w.push(x);
            for i in 0..k {
                b.e(a[i]);
                let t = b.sym();
                b.p(a[i], &[t]);
                if rng.pct(60) {
                    w.push(t);
                }
            }
            w = w.iter().cycle().take(w.len() * (n / k + 1)).copied().collect();
            w.push(eof);
        }
        _ => {
            // a list, nested as deep as it is long: the stack is allowed for it
            let l = b.sym();
            b.p(s, &[l, eof]);
            b.p(l, &[x, l]);
            b.p(l, &[y]);
            w = vec![x; n.min(20_000)];
            w.extend([y, eof]);
        }
    }
    let mut v = vec![w.clone()];
    let mut e = w.clone();
    let i = e.len() - 1 - rng.below(e.len().min(40));
    e[i] = *rng.pick(&[x, y, z, eof]);
    v.push(e);
    let cut = w.len() - 1 - rng.below(w.len().min(5));
    if cut > 0 {
        v.push(w[..cut].to_vec());
    }
    w.extend(vec![z; n]);
    v.push(w);
    v.extend(extra);
    let g = b.done(s);
    if rng.pct(50) {
        return (g, v);
    }
    let (g2, map) = relabel(&g, rng);
    let v = v.iter().map(|w| w.iter().map(|s| map.get(*s as usize).copied().unwrap_or(*s)).collect()).collect();
    (g2, v)
}

/// Grammars with very many symbols, alternatives or productions, in shapes that are analysed in a
/// few rounds.
pub fn wide(rng: &mut Rng, top: usize) -> Gram {
    let n = rng.range(top / 12, top);
    let mut b = B::new();
    let s = b.sym();
    let eof = b.sym();
    match rng.below(5) {
        0 => {
            let a = b.sym();
            b.p(s, &[a, eof]);
            for _ in 0..n {
                let t = b.sym();
                b.p(a, &[t]);
            }
        }
        1 => {
            for _ in 0..n / 2 {
                let (a, t) = (b.sym(), b.sym());
                b.p(s, &[a, eof]);
                b.p(a, &[t]);
            }
        }
        2 => {
            let (a, x) = (b.sym(), b.sym());
            b.p(s, &[a, eof]);
            for _ in 0..n {
                let t = b.sym();
                b.p(a, &[x, t]);
            }
        }
        3 => {
            // levels of some symbols each
            let k = rng.range(5, 40);
            let mut above = vec![s];
            for _ in 0..n / 2 / k {
                let row = b.syms(k);
                for l in above {
                    let r = *rng.pick(&row);
                    let t = b.sym();
                    b.p(l, &[t, r]);
                }
                above = row;
            }
            for l in above {
                b.p(l, &[eof]);
            }
        }
        _ => {
            // a long output of different symbols
            let mut o = vec![];
            for _ in 0..n / 2 {
                let (a, t) = (b.sym(), b.sym());
                b.p(a, &[t]);
                o.push(a);
            }
            o.push(eof);
            b.p(s, &o);
        }
    }
    let mut g = b.done(s);
    if rng.pct(60) {
        let keep = rng.pct(50);
        shuffle_decls(&mut g, rng, keep);
    }
    relabel(&g, rng).0
}
