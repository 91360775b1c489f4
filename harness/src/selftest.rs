//! The reference side checked against slower, simpler definitions (no library code involved).
use crate::checks::{gen_case, malformed, Depth};
use crate::gen;
use crate::gram::{Ana, Gram};
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

type Sets = BTreeMap<u32, BTreeSet<u32>>;

/// Textbook fixpoints over plain sets, FIRST with the empty-string symbol inside.
fn textbook(g: &Gram) -> (Sets, Sets) {
    let nts: BTreeSet<u32> = g.prods.iter().map(|p| p.0).collect();
    let mut first: Sets = nts.iter().map(|n| (*n, BTreeSet::new())).collect();
    let of = |first: &Sets, s: u32| -> BTreeSet<u32> {
        first.get(&s).cloned().unwrap_or_else(|| [s].into_iter().collect())
    };
    let seq = |first: &Sets, r: &[u32]| -> BTreeSet<u32> {
        let mut o = BTreeSet::new();
        for s in r {
            let f = of(first, *s);
            let e = f.contains(&g.eps);
            o.extend(f.into_iter().filter(|x| *x != g.eps));
            if !e {
                return o;
            }
        }
        o.insert(g.eps);
        o
    };
    loop {
        let mut ch = false;
        for (l, r) in &g.prods {
            for x in seq(&first, r) {
                ch |= first.get_mut(l).unwrap().insert(x);
            }
        }
        if !ch {
            break;
        }
    }
    let mut follow: Sets = nts.iter().map(|n| (*n, BTreeSet::new())).collect();
    loop {
        let mut ch = false;
        for (l, r) in &g.prods {
            for i in 0..r.len() {
                if !nts.contains(&r[i]) {
                    continue;
                }
                let f = seq(&first, &r[i + 1..]);
                let mut add: BTreeSet<u32> = f.iter().copied().filter(|x| *x != g.eps).collect();
                if f.contains(&g.eps) {
                    add.extend(follow[l].iter().copied());
                }
                for x in add {
                    ch |= follow.get_mut(&r[i]).unwrap().insert(x);
                }
            }
        }
        if !ch {
            return (first, follow);
        }
    }
}

/// All sentences of at most `n` tokens (small grammars), by iteration over lengths.
fn language(g: &Gram, n: usize) -> Option<BTreeSet<Vec<u32>>> {
    let nts: BTreeSet<u32> = g.prods.iter().map(|p| p.0).collect();
    let mut lang: BTreeMap<u32, BTreeSet<Vec<u32>>> = nts.iter().map(|n| (*n, BTreeSet::new())).collect();
    loop {
        let mut ch = false;
        for (l, r) in &g.prods {
            let mut acc: BTreeSet<Vec<u32>> = [vec![]].into_iter().collect();
            for s in r {
                let opts: Vec<Vec<u32>> = if *s == g.eps {
                    vec![vec![]]
                } else if nts.contains(s) {
                    lang[s].iter().cloned().collect()
                } else {
                    vec![vec![*s]]
                };
                let mut nx = BTreeSet::new();
                for a in &acc {
                    for o in &opts {
                        if a.len() + o.len() <= n {
                            let mut v = a.clone();
                            v.extend(o);
                            nx.insert(v);
                        }
                    }
                }
                if nx.len() > 3000 {
                    return None;
                }
                acc = nx;
            }
            let e = lang.get_mut(l).unwrap();
            for a in acc {
                ch |= e.insert(a);
            }
        }
        if !ch {
            return lang.remove(&g.start);
        }
    }
}

pub fn run() -> i32 {
    assert!(crate::ambient::works(), "clocks and environment are not intercepted");
    let mut counts = [0u64; 8];
    for i in 0..20_000u64 {
        let mut rng = Rng::new(i ^ 0x5E1F);
        let g = gen::any(&mut rng);
        assert!(!malformed(&g));
        let a = Ana::new(&g);
        let (first, follow) = textbook(&g);
        for s in 0..a.n() {
            if !a.is_nt[s] {
                continue;
            }
            let id = a.syms[s];
            let mut f: BTreeSet<u32> = a.first[s].iter().map(|x| a.syms[x]).collect();
            if a.nullable[s] {
                f.insert(g.eps);
            }
            assert_eq!(f, first[&id], "FIRST {} of {:?}", id, g);
            let f: BTreeSet<u32> = a.follow[s].iter().map(|x| a.syms[x]).collect();
            assert_eq!(f, follow[&id], "FOLLOW {} of {:?}", id, g);
            counts[0] += 2;
        }
    }
    // sampled sentences: accepted by both recognisers with the sampled tree
    for i in 0..20_000u64 {
        let mut rng = Rng::new(i ^ 0x11);
        let g = gen::ll1(&mut rng);
        let a = Ana::new(&g);
        assert!(a.is_ll1() && a.end_marker().is_some() && a.left_recursion().is_none(), "{:?}", g);
        let sm = gen::Sampler::new(&a);
        if let Some((tree, s)) = sm.sentence(&mut rng, 12, 60) {
            let t = gen::toks(&s, &mut rng);
            if t.is_empty() || t.len() > 500 {
                continue;
            }
            assert_eq!(ll1_accepts(&a, &t).0, Some(s.len()), "{:?} {:?}", g, s);
            assert_eq!(derivation(&a, &t, &tree, g.start, 0), Ok(s.len()));
            match Model::run(&a, &t, None, 1_000_000) {
                Ok((Outcome::Ok(m), _, _)) => assert!(m.same_shape(&tree), "{:?} {:?}", g, s),
                Ok((o, _, _)) => panic!("{} on {:?} {:?}", o.name(), g, s),
                Err(_) => panic!("capped"),
            }
            counts[1] += 1;
        }
        // against the enumerated language
        if g.prods.len() <= 8 {
            if let Some(l) = language(&g, 5) {
                let al = gen::alphabet(&a);
                for _ in 0..10 {
                    let v = gen::random_tokens(&mut rng, &al, 5);
                    let t = gen::toks(&v, &mut rng);
                    let want = (0..=v.len()).find(|n| l.contains(&v[..*n]));
                    assert_eq!(ll1_accepts(&a, &t).0, want, "{:?} {:?}", g, v);
                    let got = match Model::run(&a, &t, None, 1_000_000) {
                        Ok((Outcome::Ok(m), _, _)) => Some(derivation(&a, &t, &m, g.start, 0).unwrap()),
                        Ok(_) => None,
                        Err(_) => panic!("capped"),
                    };
                    assert_eq!(got, want);
                    counts[2] += 1;
                }
            }
        }
    }
    // the search is sound, its reports are consistent, replaying its own log agrees with it
    for i in 0..20_000u64 {
        let d = Depth { thorough: false, cap: 15_000 };
        let c = gen_case("C13", i ^ 0xC0FFEE, d);
        let a = Ana::new(&c.gram);
        for t in &c.inputs {
            if let Ok((o, _, _)) = Model::run(&a, t, None, 15_000) {
                match &o {
                    Outcome::Ok(m) => {
                        derivation(&a, t, m, c.gram.start, 0).unwrap();
                        counts[3] += 1;
                    }
                    Outcome::Err(f) => {
                        failure(&a, t, f, Some(0), false).unwrap_or_else(|e| panic!("{} {:?}", e, c));
                        counts[4] += 1;
                    }
                    _ => panic!(),
                }
            }
            for p in &c.policies {
                if let Ok((o, log, _)) = Model::run(&a, t, Some(*p), 15_000) {
                    let r = Model::replay(&a, t, &log, 60_000);
                    assert!(r.mismatch.is_none());
                    assert!(r.out.unwrap() == o);
                    counts[5] += 1;
                    counts[6] += log.len() as u64;
                }
            }
        }
        let text = format!("property C13\n{}", c.text());
        let (_, c2) = crate::case::Case::parse(&text).unwrap();
        assert_eq!(c.text(), c2.text());
    }
    println!(
        "selftest ok: {} sets, {} sentences, {} strings against enumerated languages, {} trees, {} reports, {} replayed searches with {} requests",
        counts[0], counts[1], counts[2], counts[3], counts[4], counts[5], counts[6]
    );
    0
}
