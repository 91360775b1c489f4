//! Command line, worker threads, shrinking, reports.
use crate::case::Case;
use crate::checks::*;
use crate::rng::mix;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// (property, quick cases, floor on distinct non-trivial cases for a verdict)
const PLAN: [(&str, u64, u64); 23] = [
    ("C01", 150_000, 2_000),
    ("C02", 300_000, 2_000),
    ("C03", 120_000, 2_000),
    ("C04", 120_000, 2_000),
    ("C05", 60_000, 1_000),
    ("C06", 60_000, 2_000),
    ("C07", 60_000, 2_000),
    ("C08", 80_000, 2_000),
    ("C09", 60_000, 2_000),
    ("C10", 40_000, 2_000),
    ("C11", 80_000, 2_000),
    ("C12", 60_000, 2_000),
    ("C13", 60_000, 2_000),
    ("C14", 60_000, 2_000),
    ("C15", 15_000, 2_000),
    ("C17", 200_000, 1_000),
    ("C18", 12_000, 1_000),
    ("C19", 6_000, 1_000),
    ("C20", 20_000, 1_000),
    ("C22", 4_000, 1_000),
    ("C23", 18_000, 2_000),
    ("C24", 2_000, 500),
    ("C25", 4_000, 1_000),
];

const STACK: usize = 3 << 29;

fn depth(tier: &str) -> Depth {
    if tier == "thorough" {
        Depth { thorough: true, cap: 60_000 }
    } else {
        Depth { thorough: false, cap: 15_000 }
    }
}

fn silent() {
    std::panic::set_hook(Box::new(|_| crate::checks::HOOKED.with(|n| n.set(n.get() + 1))));
}

/// A panic of the harness itself (or of the library where no budget guards it) is an error.
fn guarded(prop: &str, c: &Case, st: &mut Stats, d: Depth) -> Result<V, String> {
    catch_unwind(AssertUnwindSafe(|| check_case(prop, c, st, d))).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

fn fails(prop: &str, c: &Case, d: Depth, times: usize) -> Option<String> {
    for _ in 0..times {
        if let Ok(V::Bad(m)) = guarded(prop, c, &mut Stats::default(), d) {
            return Some(m);
        }
    }
    None
}

fn shrink(prop: &str, c: Case, msg: String, d: Depth, secs: u64) -> (Case, String) {
    let end = Instant::now() + Duration::from_secs(secs);
    let (mut best, mut msg) = (c, msg);
    loop {
        let mut found = None;
        best.smaller(&mut |s| {
            if Instant::now() > end {
                return true;
            }
            found = fails(prop, &s, d, 2).map(|m| (s, m));
            found.is_some()
        });
        match found {
            Some((s, m)) => (best, msg) = (s, m),
            None => break,
        }
    }
    (best, msg)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn map(m: &std::collections::BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 6 => check(&a[2], &a[3], a[4].parse().unwrap_or(1), &a[5], a.get(6)),
        Some("effect-of") if a.len() >= 4 => {
            // one case, watched from outside
            silent();
            let (t, s): (String, u64) = (a[2].clone(), a[3].parse().unwrap());
            let c = gen_case("C21", s, depth(&t));
            println!("property C21\n{}", c.text());
            on_big_stack(move || {
                marker("BEGIN");
                marker(&format!("CASE {}\n", s));
                let vars = || std::env::vars_os().collect::<std::collections::BTreeMap<_, _>>();
                let before = vars();
                let r = guarded("C21", &c, &mut Stats::default(), depth(&t));
                marker("END");
                if let Ok(V::Bad(m)) = &r {
                    println!("# {}", m);
                }
                if vars() != before {
                    println!("# the environment variables have changed");
                }
                r.is_err() as i32
            })
        }
        Some("one") if a.len() >= 5 => {
            silent();
            let (p, t, s) = (a[2].clone(), a[3].clone(), a[4].parse().unwrap());
            on_big_stack(move || {
                let mut c = gen_case(&p, s, depth(&t));
                if c.kind == crate::real::KIND_U32 && std::env::var("HARNESS_COUNTED").is_ok() {
                    c.kind = 0;
                }
                println!("property {}\n{}", p, c.text());
                let mut st = Stats::default();
                match guarded(&p, &c, &mut st, depth(&t)) {
                    Ok(V::Bad(m)) => {
                        println!("# VIOLATED: {}", m);
                        1
                    }
                    Ok(V::Pass) => {
                        println!("# observed {}", map(&st.counters));
                        0
                    }
                    Ok(V::Skip(m)) => {
                        println!("# skipped: {}", m);
                        0
                    }
                    Err(m) => {
                        println!("# harness error: {}", m);
                        2
                    }
                }
            })
        }
        Some("replay") if a.len() >= 3 => {
            silent();
            let text = fs::read_to_string(&a[2]).expect("replay file");
            let (p, c) = Case::parse(&text).expect("replay file");
            let p = p.expect("property line");
            let d = depth("thorough");
            on_big_stack(move || match fails(&p, &c, d, 60) {
                Some(m) => {
                    println!("VIOLATED: {}", m);
                    1
                }
                None => {
                    println!("not violated in 60 runs");
                    0
                }
            })
        }
        Some("effects") if a.len() >= 6 => {
            effects(&a[2], a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(1000), &a[5])
        }
        Some("selftest") => {
            silent();
            on_big_stack(crate::selftest::run)
        }
        _ => {
            eprintln!("usage: harness check PROP TIER SEED DIR | one PROP TIER CASESEED | replay FILE | selftest | effects TIER SEED CASES FILE");
            2
        }
    }
}

fn check(prop: &str, tier: &str, seed: u64, dir: &str, scale: Option<&String>) -> i32 {
    silent();
    let t0 = Instant::now();
    let (_, quick, floor) = match PLAN.iter().find(|p| p.0 == prop) {
        Some(p) => *p,
        None => return 2,
    };
    let thorough = tier == "thorough";
    let d = depth(tier);
    let mut n = if thorough { quick * 200 } else { quick * 5 };
    if let Some(s) = scale {
        n = (n as f64 * s.parse::<f64>().unwrap()) as u64;
    }
    let cap = std::env::var("HARNESS_CAP").ok().and_then(|s| s.parse().ok());
    let cap = Duration::from_secs(cap.unwrap_or(if thorough { 540 } else { 75 }));
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).clamp(2, 8);
    let pid = prop.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let bad: Arc<Mutex<Option<(u64, Case, String)>>> = Arc::new(Mutex::new(None));
    let err: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    // what each worker is doing, for crashes and endless loops
    let state = Arc::new(
        fs::OpenOptions::new().create(true).truncate(true).write(true).open(format!("{}/state", dir)).unwrap(),
    );
    let begun: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let mut hs = vec![];
    for w in 0..threads {
        let (next, stop, bad, err, samples, state, begun, current, prop) = (
            next.clone(), stop.clone(), bad.clone(), err.clone(), samples.clone(), state.clone(),
            begun.clone(), current.clone(), prop.to_string(),
        );
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut st = Stats::default();
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || t0.elapsed() > cap {
                        break;
                    }
                    let mut cs = mix(seed.wrapping_mul(0x1_0001) ^ pid ^ mix(i));
                    // not at once: ordinary faults show in smaller cases
                    if (400..400 + SPECIAL).contains(&i) {
                        cs = special_seed(i - 400, cs);
                    }
                    let _ = state.write_at(&cs.to_le_bytes(), 8 * w as u64);
                    current[w].store(cs, Ordering::Relaxed);
                    begun[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let c = gen_case(&prop, cs, d);
                    let before = st.distinct.len();
                    let r = guarded(&prop, &c, &mut st, d);
                    st.evals += 1;
                    let ms = t0.elapsed().as_millis() as u64 + 1 - begun[w].load(Ordering::Relaxed);
                    if ms > 3000 && std::env::var("HARNESS_SLOW").is_ok() {
                        println!("{} ms: case {}", ms, cs);
                    }
                    match r {
                        Ok(V::Pass) => {
                            if st.distinct.len() > before && i % 61 < 6 {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 6 {
                                    s.push(c.brief());
                                }
                            }
                        }
                        Ok(V::Skip(m)) => *st.skips.entry(m).or_default() += 1,
                        Ok(V::Bad(m)) => {
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().is_none_or(|x| i < x.0) {
                                *b = Some((i, c, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        Err(m) => {
                            *err.lock().unwrap() = Some(format!("case {}: {}", cs, m));
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                begun[w].store(0, Ordering::Relaxed);
                st
            })
            .unwrap();
        hs.push(h);
    }
    // watchdog: one case for minutes is no verdict here, the driver looks into it
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = t0.elapsed().as_millis() as u64;
        for w in 0..threads {
            let b = begun[w].load(Ordering::Relaxed);
            if b > 0 && now > b + 90_000 {
                println!("STUCK {}", current[w].load(Ordering::Relaxed));
                std::process::exit(3);
            }
        }
    }
    let mut st = Stats::default();
    for h in hs {
        st.merge(h.join().unwrap());
    }
    let bad = bad.lock().unwrap().take();
    let mut code = 0;
    let mut violations = 0;
    let mut message = String::new();
    if let Some((_, c, m)) = bad {
        violations = 1;
        code = 1;
        let p = prop.to_string();
        let (c, m) = on_big_stack(move || shrink(&p, c, m, d, 15));
        message = m.chars().take(2000).collect();
        let text = format!(
            "property {}\n{}# {}\n",
            prop,
            c.text(),
            message.replace('\n', " ")
        );
        let _ = fs::write(format!("{}/replay", dir), text);
        println!("{}", message);
    } else if let Some(m) = err.lock().unwrap().take() {
        println!("harness error: {}", m);
        code = 2;
    } else if (st.distinct.len() as u64) < floor.min(n / 20) {
        println!("only {} distinct non-trivial cases were observed, {} needed", st.distinct.len(), floor);
        code = 2;
    }
    let samples = samples.lock().unwrap();
    let out = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"threads\": {}, \"observed\": {}, \"maxima\": {}, \"skipped\": {}, \"samples\": [{}], \"violations\": {}, \"message\": {}, \"wall_s\": {:.2}, \"planned\": {}}}\n",
        st.evals,
        st.distinct.len(),
        threads,
        map(&st.counters),
        map(&st.maxima),
        map(&st.skips),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        violations,
        esc(&message),
        t0.elapsed().as_secs_f64(),
        n
    );
    let _ = fs::write(format!("{}/result.json", dir), out);
    code
}

extern "C" {
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}
/// A write to nowhere, for whoever watches the system calls.
fn marker(s: &str) {
    unsafe {
        write(-1, s.as_ptr().cast(), s.len());
    }
}

/// C21: runs the workload between two markers, with one marker per case; the driver reads the
/// trace of the system calls in between.
fn effects(tier: &str, seed: u64, n: u64, out: &str) -> i32 {
    silent();
    let d = depth(tier);
    let threads = 6;
    let vars = || std::env::vars_os().collect::<std::collections::BTreeMap<_, _>>();
    let before = vars();
    let next = Arc::new(AtomicU64::new(0));
    let ready = Arc::new(std::sync::Barrier::new(threads + 1));
    let gate = Arc::new(std::sync::Barrier::new(threads + 1));
    let end = Arc::new(std::sync::Barrier::new(threads + 1));
    let mut hs = vec![];
    for _ in 0..threads {
        let (next, ready, gate, end) = (next.clone(), ready.clone(), gate.clone(), end.clone());
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                // the allocator makes its arrangements for this thread before anybody looks
                for i in 0..20 {
                    std::hint::black_box(vec![0u8; 1 << i]);
                }
                let _ = catch_unwind(|| panic!("warm"));
                ready.wait();
                gate.wait();
                let mut st = Stats::default();
                let mut err = None;
                let mut bad = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let cs = mix(seed.wrapping_mul(0x1_0001) ^ 0xEFFE_C75 ^ mix(i));
                    marker(&format!("CASE {}\n", cs));
                    let c = gen_case("C21", cs, d);
                    match guarded("C21", &c, &mut st, d) {
                        Ok(V::Skip(m)) => *st.skips.entry(m).or_default() += 1,
                        Err(m) => err = Some(m),
                        Ok(V::Bad(m)) => bad.push(format!("{} {}", cs, m)),
                        Ok(V::Pass) => {}
                    }
                    st.evals += 1;
                }
                end.wait();
                (st, err, bad)
            })
            .unwrap();
        hs.push(h);
    }
    ready.wait();
    marker("BEGIN");
    gate.wait();
    end.wait();
    marker("END");
    let mut st = Stats::default();
    let mut code = 0;
    let mut bad = vec![];
    for h in hs {
        let (s, e, b) = h.join().unwrap();
        st.merge(s);
        bad.extend(b);
        if let Some(m) = e {
            println!("harness error: {}", m);
            code = 2;
        }
    }
    if vars() != before {
        bad.push("- the environment variables have changed".into());
    }
    let _ = fs::write(format!("{}.bad", out), bad.join("\n"));
    let text = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"threads\": {}, \"observed\": {}, \"maxima\": {}, \"skipped\": {}}}\n",
        st.evals, st.distinct.len(), threads, map(&st.counters), map(&st.maxima), map(&st.skips)
    );
    let _ = fs::write(out, text);
    code
}
