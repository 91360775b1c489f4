//! One test case, its text form (replay files) and its shrinking steps.
use crate::gram::Gram;
use crate::model::{Policy, Tok};

#[derive(Clone, Debug)]
pub struct Case {
    pub gram: Gram,
    /// symbol type, see real::KINDS
    pub kind: usize,
    pub inputs: Vec<Vec<Tok>>,
    pub policies: Vec<Policy>,
    /// for the choices that a check makes by itself
    pub seed: u64,
}

fn pol(p: &Policy) -> String {
    match p {
        Policy::Never => "never".into(),
        Policy::Here => "here".into(),
        Policy::Skip(n) => format!("skip {}", n),
        Policy::Far(n) => format!("far {}", n),
        Policy::ToEnd => "to-end".into(),
        Policy::Hash(s) => format!("hash {}", s),
    }
}

impl Case {
    pub fn new(gram: Gram, kind: usize, seed: u64) -> Case {
        Case { gram, kind, inputs: vec![], policies: vec![], seed }
    }

    pub fn text(&self) -> String {
        let mut s = format!(
            "kind {}\nseed {}\neps {}\nstart {}\n",
            crate::real::KINDS[self.kind], self.seed, self.gram.eps, self.gram.start
        );
        for (l, r) in &self.gram.prods {
            s.push_str(&format!("prod {} ->", l));
            for x in r {
                s.push_str(&format!(" {}", x));
            }
            s.push('\n');
        }
        for i in &self.inputs {
            s.push_str("input");
            for t in i {
                match t.lex {
                    Some(l) => s.push_str(&format!(" {}:{}:{}", t.sym, l, t.tag)),
                    None => s.push_str(&format!(" {}:-:{}", t.sym, t.tag)),
                }
            }
            s.push('\n');
        }
        for p in &self.policies {
            s.push_str(&format!("policy {}\n", pol(p)));
        }
        s
    }

    /// Compact form for evidence samples.
    pub fn brief(&self) -> String {
        let mut s = format!("start {} eps {};", self.gram.start, self.gram.eps);
        for (l, r) in self.gram.prods.iter().take(14) {
            let o: Vec<String> = r.iter().take(30).map(|x| x.to_string()).collect();
            let more = if r.len() > 30 { format!(" ... ({} symbols)", r.len()) } else { String::new() };
            s.push_str(&format!(" {}->{}{};", l, o.join(" "), more));
        }
        if self.gram.prods.len() > 14 {
            s.push_str(&format!(" ... ({} productions);", self.gram.prods.len()));
        }
        if let Some(i) = self.inputs.first() {
            let v: Vec<String> = i.iter().take(24).map(|t| t.sym.to_string()).collect();
            s.push_str(&format!(" input [{}{}]", v.join(" "), if i.len() > 24 { " ..." } else { "" }));
            if self.inputs.len() > 1 {
                s.push_str(&format!(" and {} more", self.inputs.len() - 1));
            }
        }
        if let Some(p) = self.policies.first() {
            s.push_str(&format!(" solver {}", pol(p)));
        }
        s
    }

    pub fn parse(text: &str) -> Option<(Option<String>, Case)> {
        let mut c = Case::new(Gram { eps: 0, start: 0, prods: vec![] }, 0, 0);
        let mut prop = None;
        for line in text.lines() {
            let mut w = line.split_whitespace();
            match w.next() {
                Some("property") => prop = w.next().map(|s| s.to_string()),
                Some("kind") => {
                    let k = w.next()?;
                    c.kind = crate::real::KINDS.iter().position(|x| *x == k)?;
                }
                Some("seed") => c.seed = w.next()?.parse().ok()?,
                Some("eps") => c.gram.eps = w.next()?.parse().ok()?,
                Some("start") => c.gram.start = w.next()?.parse().ok()?,
                Some("prod") => {
                    let l = w.next()?.parse().ok()?;
                    w.next()?;
                    c.gram.prods.push((l, w.map(|x| x.parse().unwrap()).collect()));
                }
                Some("input") => c.inputs.push(
                    w.map(|x| {
                        let p: Vec<&str> = x.split(':').collect();
                        Tok {
                            sym: p[0].parse().unwrap(),
                            lex: p[1].parse().ok(),
                            tag: p[2].parse().unwrap(),
                        }
                    })
                    .collect(),
                ),
                Some("policy") => {
                    let k = w.next()?;
                    let n = w.next().and_then(|x| x.parse::<u64>().ok());
                    c.policies.push(match k {
                        "never" => Policy::Never,
                        "here" => Policy::Here,
                        "skip" => Policy::Skip(n? as usize),
                        "far" => Policy::Far(n? as usize),
                        "to-end" => Policy::ToEnd,
                        _ => Policy::Hash(n?),
                    });
                }
                _ => {}
            }
        }
        Some((prop, c))
    }

    /// Smaller variants, most drastic first, until one is taken.
    pub fn smaller(&self, take: &mut dyn FnMut(Case) -> bool) {
        let n = self.inputs.len();
        if n > 1 {
            for i in 0..n {
                let mut c = self.clone();
                c.inputs = vec![self.inputs[i].clone()];
                if take(c) {
                return;
            }
            }
            for i in 0..n {
                let mut c = self.clone();
                c.inputs.remove(i);
                if take(c) {
                return;
            }
            }
        }
        if self.policies.len() > 1 {
            for i in 0..self.policies.len() {
                let mut c = self.clone();
                c.policies = vec![self.policies[i]];
                if take(c) {
                return;
            }
            }
        }
        if self.kind != 0 {
            let mut c = self.clone();
            c.kind = 0;
            if take(c) {
                return;
            }
        }
        // chunks of productions, then single ones
        let np = self.gram.prods.len();
        let mut w = np / 2;
        while w >= 1 {
            let mut i = 0;
            while i < np {
                let mut c = self.clone();
                c.gram.prods.drain(i..(i + w).min(np));
                if take(c) {
                return;
            }
                i += w;
            }
            w /= 2;
        }
        for k in 0..n {
            let len = self.inputs[k].len();
            let mut w = len / 2;
            while w >= 1 {
                let mut i = 0;
                while i < len {
                    let mut c = self.clone();
                    c.inputs[k].drain(i..(i + w).min(len));
                    if !c.inputs[k].is_empty() {
                        if take(c) {
                return;
            }
                    }
                    i += w;
                }
                w /= 2;
            }
        }
        for p in 0..np {
            let len = self.gram.prods[p].1.len();
            if len > 1 {
                for i in 0..len {
                    let mut c = self.clone();
                    c.gram.prods[p].1.remove(i);
                    if take(c) {
                return;
            }
                }
            }
        }
    }
}
