//! Grammars over plain ids and their reference analysis (nullable, FIRST, FOLLOW, LL(1) table,
//! left recursion). The algorithms are graph reachability, on purpose unlike the round-robin
//! fixpoints of the library.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Gram {
    pub eps: u32,
    pub start: u32,
    pub prods: Vec<(u32, Vec<u32>)>,
}

/// A set of dense indexes: blocks of 64 in a vector, or in a map when the grammar is giant.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Bits {
    Dense(Vec<u64>),
    Sparse(std::collections::BTreeMap<u32, u64>),
}
impl Bits {
    pub fn new(n: usize) -> Self {
        if n > 5000 { Bits::Sparse(Default::default()) } else { Bits::Dense(vec![0; (n + 63) / 64]) }
    }
    fn word(&mut self, i: usize) -> &mut u64 {
        match self {
            Bits::Dense(v) => &mut v[i / 64],
            Bits::Sparse(m) => m.entry((i / 64) as u32).or_default(),
        }
    }
    pub fn get(&self, i: usize) -> bool {
        let w = match self {
            Bits::Dense(v) => v[i / 64],
            Bits::Sparse(m) => m.get(&((i / 64) as u32)).copied().unwrap_or(0),
        };
        w >> (i % 64) & 1 == 1
    }
    pub fn flip(&mut self, i: usize) {
        *self.word(i) ^= 1 << (i % 64);
    }
    pub fn set(&mut self, i: usize) -> bool {
        let w = self.word(i);
        let new = *w >> (i % 64) & 1 == 0;
        *w |= 1 << (i % 64);
        new
    }
    pub fn or(&mut self, o: &Bits) {
        match (self, o) {
            (Bits::Dense(v), Bits::Dense(o)) => {
                for (a, b) in v.iter_mut().zip(o) {
                    *a |= b;
                }
            }
            (Bits::Sparse(m), Bits::Sparse(o)) => {
                for (k, b) in o {
                    *m.entry(*k).or_default() |= b;
                }
            }
            _ => unreachable!("sets of different grammars"),
        }
    }
    pub fn meets(&self, o: &Bits) -> bool {
        match (self, o) {
            (Bits::Dense(v), Bits::Dense(o)) => v.iter().zip(o).any(|(a, b)| a & b != 0),
            (Bits::Sparse(m), Bits::Sparse(o)) => m.iter().any(|(k, a)| o.get(k).is_some_and(|b| a & b != 0)),
            _ => unreachable!("sets of different grammars"),
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        let blocks: Box<dyn Iterator<Item = (usize, u64)> + '_> = match self {
            Bits::Dense(v) => Box::new(v.iter().enumerate().map(|(i, w)| (i, *w))),
            Bits::Sparse(m) => Box::new(m.iter().map(|(i, w)| (*i as usize, *w))),
        };
        blocks.filter(|x| x.1 != 0).flat_map(|(i, w)| (0..64).filter(move |j| w >> j & 1 == 1).map(move |j| i * 64 + j))
    }
}

const NONE: usize = usize::MAX;

#[derive(Clone)]
pub struct Ana {
    /// dense index -> id, for every symbol mentioned (outputs, inputs, start, eps)
    pub syms: Vec<u32>,
    idx: Vec<usize>,
    pub is_nt: Vec<bool>,
    /// mentioned in some output and not a non-terminal (eps included when used)
    pub is_term: Vec<bool>,
    pub by_nt: Vec<Vec<usize>>,
    pub nullable: Vec<bool>,
    /// FIRST without eps, over dense indexes; terminals: themselves; eps: empty
    pub first: Vec<Bits>,
    pub follow: Vec<Bits>,
    pub eps: usize,
    pub start: usize,
    /// per production: terminals that predict it
    pub predict: Vec<Bits>,
    pub prod_nullable: Vec<bool>,
    pub prods: Vec<(usize, Vec<usize>)>,
}

impl Ana {
    pub fn ix(&self, id: u32) -> Option<usize> {
        match self.idx.get(id as usize) {
            Some(&i) if i != NONE => Some(i),
            _ => None,
        }
    }

    pub fn new(g: &Gram) -> Ana {
        let mut syms: Vec<u32> = vec![g.eps, g.start];
        for (l, r) in &g.prods {
            syms.push(*l);
            syms.extend(r.iter().copied());
        }
        syms.sort_unstable();
        syms.dedup();
        let top = *syms.last().unwrap() as usize;
        let mut idx = vec![NONE; top + 1];
        for (i, s) in syms.iter().enumerate() {
            idx[*s as usize] = i;
        }
        let n = syms.len();
        let eps = idx[g.eps as usize];
        let start = idx[g.start as usize];
        let prods: Vec<(usize, Vec<usize>)> = g
            .prods
            .iter()
            .map(|(l, r)| {
                (
                    idx[*l as usize],
                    r.iter().map(|s| idx[*s as usize]).collect(),
                )
            })
            .collect();
        let mut is_nt = vec![false; n];
        for (l, _) in &prods {
            is_nt[*l] = true;
        }
        let mut is_term = vec![false; n];
        let mut by_nt = vec![vec![]; n];
        for (p, (l, r)) in prods.iter().enumerate() {
            by_nt[*l].push(p);
            for s in r {
                if !is_nt[*s] {
                    is_term[*s] = true;
                }
            }
        }
        // nullable: worklist with counters of not yet nullable symbols per production
        let mut nullable = vec![false; n];
        let mut occ: Vec<Vec<usize>> = vec![vec![]; n];
        let mut left: Vec<usize> = vec![0; prods.len()];
        let mut work: Vec<usize> = vec![];
        for (p, (_, r)) in prods.iter().enumerate() {
            for s in r {
                if *s != eps {
                    left[p] += 1;
                    occ[*s].push(p);
                }
            }
        }
        for (p, (l, _)) in prods.iter().enumerate() {
            if left[p] == 0 && !nullable[*l] {
                nullable[*l] = true;
                work.push(*l);
            }
        }
        while let Some(s) = work.pop() {
            for p in &occ[s] {
                left[*p] -= 1;
                let l = prods[*p].0;
                if left[*p] == 0 && !nullable[l] {
                    nullable[l] = true;
                    work.push(l);
                }
            }
        }
        // FIRST: reachability over "output of A can start with X"
        let mut begins: Vec<Vec<usize>> = vec![vec![]; n];
        for (l, r) in &prods {
            for s in r {
                if *s == eps {
                    continue;
                }
                begins[*l].push(*s);
                if !nullable[*s] {
                    break;
                }
            }
        }
        for b in begins.iter_mut() {
            b.sort_unstable();
            b.dedup();
        }
        let mut first: Vec<Bits> = Vec::with_capacity(n);
        for a in 0..n {
            let mut f = Bits::new(n);
            if !is_nt[a] {
                if a != eps {
                    f.set(a);
                }
            } else {
                let mut seen = Bits::new(n);
                let mut st = vec![a];
                seen.set(a);
                while let Some(x) = st.pop() {
                    for y in &begins[x] {
                        if seen.set(*y) {
                            if is_nt[*y] {
                                st.push(*y);
                            } else {
                                f.set(*y);
                            }
                        }
                    }
                }
            }
            first.push(f);
        }
        // FOLLOW: direct contributions, then reachability over "FOLLOW(B) includes FOLLOW(A)"
        let mut direct: Vec<Bits> = (0..n).map(|_| Bits::new(n)).collect();
        let mut incl: Vec<Vec<usize>> = vec![vec![]; n];
        for (l, r) in &prods {
            for i in 0..r.len() {
                if !is_nt[r[i]] {
                    continue;
                }
                let mut open = true;
                for y in &r[i + 1..] {
                    direct[r[i]].or(&first[*y]);
                    if !nullable[*y] {
                        open = false;
                        break;
                    }
                }
                if open {
                    incl[r[i]].push(*l);
                }
            }
        }
        let mut follow: Vec<Bits> = Vec::with_capacity(n);
        for a in 0..n {
            let mut f = Bits::new(n);
            if is_nt[a] {
                let mut seen = Bits::new(n);
                seen.set(a);
                let mut st = vec![a];
                while let Some(x) = st.pop() {
                    f.or(&direct[x]);
                    for y in &incl[x] {
                        if seen.set(*y) {
                            st.push(*y);
                        }
                    }
                }
            }
            follow.push(f);
        }
        let mut predict = vec![];
        let mut prod_nullable = vec![];
        for (l, r) in &prods {
            let mut f = Bits::new(n);
            let mut nul = true;
            for s in r {
                if *s == eps {
                    continue;
                }
                f.or(&first[*s]);
                if !nullable[*s] {
                    nul = false;
                    break;
                }
            }
            prod_nullable.push(nul);
            if nul {
                f.or(&follow[*l]);
            }
            predict.push(f);
        }
        Ana {
            syms,
            idx,
            is_nt,
            is_term,
            by_nt,
            nullable,
            first,
            follow,
            eps,
            start,
            predict,
            prod_nullable,
            prods,
        }
    }

    /// The predictions that the sets give (after the sets were changed).
    pub fn predict_again(&mut self) {
        for (p, (l, r)) in self.prods.iter().enumerate() {
            let mut f = Bits::new(self.syms.len());
            for s in r.iter().filter(|s| **s != self.eps) {
                f.or(&self.first[*s]);
                if !self.nullable[*s] {
                    break;
                }
            }
            if self.prod_nullable[p] {
                f.or(&self.follow[*l]);
            }
            self.predict[p] = f;
        }
    }

    pub fn n(&self) -> usize {
        self.syms.len()
    }

    /// productions of A applicable to lookahead id `tok` (any id, known or not)
    pub fn cands(&self, a: usize, tok: u32) -> Vec<usize> {
        match self.ix(tok) {
            Some(t) if self.is_term[t] && t != self.eps => self.by_nt[a]
                .iter()
                .copied()
                .filter(|p| self.predict[*p].get(t))
                .collect(),
            _ => vec![],
        }
    }

    /// first cell with two or more productions: (p, q)
    pub fn conflict(&self) -> Option<(usize, usize)> {
        for ps in &self.by_nt {
            if ps.len() > 500 {
                let mut owner = std::collections::HashMap::new();
                for p in ps {
                    for t in self.predict[*p].iter() {
                        if let Some(q) = owner.insert(t, *p) {
                            return Some((q, *p));
                        }
                    }
                }
                continue;
            }
            for (i, p) in ps.iter().enumerate() {
                for q in &ps[i + 1..] {
                    if self.predict[*p].meets(&self.predict[*q]) {
                        return Some((*p, *q));
                    }
                }
            }
        }
        None
    }

    /// No cell of the table holds two productions, and no symbol has two nullable productions.
    pub fn is_ll1(&self) -> bool {
        self.conflict().is_none()
            && self
                .by_nt
                .iter()
                .all(|ps| ps.iter().filter(|p| self.prod_nullable[**p]).count() <= 1)
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut st = vec![self.start];
        seen[self.start] = true;
        while let Some(x) = st.pop() {
            for p in &self.by_nt[x] {
                for y in &self.prods[*p].1 {
                    if !seen[*y] {
                        seen[*y] = true;
                        st.push(*y);
                    }
                }
            }
        }
        seen
    }

    /// A production on a left-recursion cycle reachable from the start symbol, if any.
    pub fn left_recursion(&self) -> Option<usize> {
        let reach = self.reachable();
        let n = self.n();
        // edges A -> B through production p where B is at a nullable-prefix position
        let mut edges: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
        for (p, (l, r)) in self.prods.iter().enumerate() {
            if !reach[*l] {
                continue;
            }
            for s in r {
                if self.is_nt[*s] {
                    edges[*l].push((*s, p));
                }
                if *s != self.eps && !self.nullable[*s] {
                    break;
                }
            }
        }
        // iterative DFS, colours
        let mut col = vec![0u8; n];
        for a in 0..n {
            if !self.is_nt[a] || !reach[a] || col[a] != 0 {
                continue;
            }
            let mut st: Vec<(usize, usize)> = vec![(a, 0)];
            col[a] = 1;
            while let Some((x, i)) = st.pop() {
                if i < edges[x].len() {
                    st.push((x, i + 1));
                    let (y, p) = edges[x][i];
                    match col[y] {
                        0 => {
                            col[y] = 1;
                            st.push((y, 0));
                        }
                        1 => return Some(p),
                        _ => {}
                    }
                } else {
                    col[x] = 2;
                }
            }
        }
        None
    }

    /// The end marker, when every start production ends in one terminal used nowhere else and the
    /// start symbol occurs in no output.
    pub fn end_marker(&self) -> Option<usize> {
        let ps = &self.by_nt[self.start];
        if ps.is_empty() {
            return None;
        }
        let e = *self.prods[ps[0]].1.last().unwrap();
        if e == self.eps || self.is_nt[e] {
            return None;
        }
        for (l, r) in &self.prods {
            if r.contains(&self.start) {
                return None;
            }
            let c = r.iter().filter(|s| **s == e).count();
            if *l == self.start {
                if c != 1 || *r.last().unwrap() != e {
                    return None;
                }
            } else if c != 0 {
                return None;
            }
        }
        Some(e)
    }

    /// Minimal derivation height per symbol (terminals 0); usize::MAX when unproductive.
    pub fn heights(&self) -> Vec<usize> {
        let n = self.n();
        let mut h = vec![usize::MAX; n];
        for i in 0..n {
            if !self.is_nt[i] {
                h[i] = 0;
            }
        }
        loop {
            let mut ch = false;
            for (l, r) in &self.prods {
                let m = r.iter().map(|s| h[*s]).max().unwrap();
                if m != usize::MAX && m + 1 < h[*l] {
                    h[*l] = m + 1;
                    ch = true;
                }
            }
            if !ch {
                return h;
            }
        }
    }
}
