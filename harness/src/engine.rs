//! A small property-based-testing engine with internal shrinking.
//!
//! Every random decision of a case is drawn through `Gen` and recorded as a choice sequence.
//! A failing case is shrunk by simplifying that sequence (deleting, zeroing and lowering choices) and
//! re-running the property; the shrunk sequence is the replay file.
//! A run is a pure function of the code under test, VERIF_SEED and VERIF_TIER.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

/// Source of all random decisions of one case.
pub struct Gen {
    src: Source,
    pub log: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    verbose: bool,
    pub notes: Vec<String>,
}

impl Gen {
    pub fn for_dump(seed: u64) -> Self {
        Self::random(seed)
    }
    fn random(seed: u64) -> Self {
        Gen {
            src: Source::Random(Rng::new(seed)),
            log: vec![],
            labels: vec![],
            nontrivial: false,
            verbose: false,
            notes: vec![],
        }
    }
    fn replay(choices: Vec<u64>, verbose: bool) -> Self {
        Gen {
            src: Source::Replay(choices, 0),
            log: vec![],
            labels: vec![],
            nontrivial: false,
            verbose,
            notes: vec![],
        }
    }
    /// A value in 0..bound (bound > 0). 0 is the simplest choice.
    pub fn below(&mut self, bound: u64) -> u64 {
        assert!(bound > 0);
        let v = match &mut self.src {
            Source::Random(r) => {
                let x = r.next();
                if bound == u64::MAX {
                    x
                } else {
                    // bias-free enough
                    ((x as u128 * bound as u128) >> 64) as u64
                }
            }
            Source::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(bound - 1)
            }
        };
        self.log.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.src {
            Source::Random(r) => r.next(),
            Source::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v
            }
        };
        self.log.push(v);
        v
    }
    pub fn usize(&mut self, bound: usize) -> usize {
        self.below(bound as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn range_i(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    /// Index chosen by weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 = keep in place
            let j = i - self.usize(i + 1);
            v.swap(i, j);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    /// Marks the case as non-trivial (by the rule stated for the property).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Attach human readable description (only evaluated when sampling or replaying).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(f());
        }
    }
    pub fn verbose(&self) -> bool {
        self.verbose
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// Stable signature, used to match known findings.
    pub sig: String,
    pub detail: String,
}
impl Failure {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Self {
        Failure {
            sig: sig.into(),
            detail: detail.into(),
        }
    }
}
pub type CaseResult = Result<(), Failure>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Failure::new($sig, format!($($arg)*)));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {
        $crate::ensure_eq!($a, $b, $sig, "")
    };
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::engine::Failure::new($sig, format!("{:?} != {:?}: {}", a, b, format!($($arg)*))));
        }
    }};
}

pub type PropFn = fn(&mut Gen) -> CaseResult;

/// One executable sub-check of a property.
pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

static START: Mutex<Option<Instant>> = Mutex::new(None);

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        } else {
            old(info)
        }
    }));
}

/// Runs a closure, converting a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| {
        PANIC.with(|p| {
            p.borrow_mut()
                .take()
                .map(|(m, l)| format!("{m} @ {l}"))
                .unwrap_or_else(|| "panic in another thread".into())
        })
    })
}

fn run_case(f: PropFn, g: &mut Gen) -> CaseResult {
    match catch(|| f(g)) {
        Ok(r) => r,
        Err(msg) => {
            let (m, _) = msg.split_once(" @ ").unwrap_or((&msg, ""));
            let m: String = m
                .chars()
                .map(|c| if c.is_ascii_digit() { '#' } else { c })
                .take(60)
                .collect();
            Err(Failure::new(
                format!("panic:{m}"),
                format!("unexpected panic: {msg}"),
            ))
        }
    }
}

fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed ^ fnv(id.as_bytes()).rotate_left(17) ^ fnv(sub.as_bytes()));
    let a = r.next();
    Rng::new(a ^ i.wrapping_mul(0xD6E8FEB86659FD93)).next()
}

fn shrink(f: PropFn, start: Vec<u64>, sig: &str, deadline: Instant) -> Vec<u64> {
    let mut best = start;
    let fails = |c: &[u64]| -> Option<Vec<u64>> {
        let mut g = Gen::replay(c.to_vec(), false);
        match run_case(f, &mut g) {
            Err(fl) if fl.sig == sig => Some(g.log),
            _ => None,
        }
    };
    let less = |a: &[u64], b: &[u64]| -> bool { (a.len(), a) < (b.len(), b) };
    // Normalise (drop unused tail).
    if let Some(l) = fails(&best) {
        if less(&l, &best) {
            best = l;
        }
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > deadline {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                match fails(&c) {
                    Some(l) if less(&l, &best) => best = l,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > deadline {
                    return best;
                }
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(l) = fails(&c) {
                        if less(&l, &best) {
                            best = l;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // lower individual values (binary search) and decrement with deletion of a follower
        let mut i = 0;
        while i < best.len() {
            if Instant::now() > deadline {
                return best;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut tries = 0;
            while lo < hi && tries < 70 {
                tries += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                match fails(&c) {
                    Some(l) if less(&l, &best) => {
                        best = l;
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            if i < best.len() && best[i] > 0 {
                for k in 1..=4usize {
                    if i + 1 + k > best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    if let Some(l) = fails(&c) {
                        if less(&l, &best) {
                            best = l;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

struct SubStats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn known_findings(id: &str) -> BTreeMap<String, String> {
    // lines: "known: property=<id> sig=<signature> :: <description>"
    let p = format!("{}/known-findings.txt", verif_dir());
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: ")?;
            let rest = rest.strip_prefix(&format!("property={id} "))?;
            let sig = rest.strip_prefix("sig=")?;
            let (sig, desc) = sig.split_once(" :: ")?;
            Some((sig.trim().to_string(), desc.trim().to_string()))
        })
        .collect()
}

pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    *START.lock().unwrap() = Some(Instant::now());
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let text = std::fs::read_to_string(&args[2]).unwrap();
        let v: serde_json::Value = serde_json::from_str(&text).unwrap();
        let id = v["property"].as_str().unwrap();
        let sub = v["sub"].as_str().unwrap();
        let choices: Vec<u64> = v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_u64().unwrap())
            .collect();
        let p = props.iter().find(|p| p.id == id).expect("no such property");
        let s = p.subs.iter().find(|s| s.name == sub).expect("no such sub");
        let f = s.f;
        let (r, notes) = big_thread(move || {
            let mut g = Gen::replay(choices, true);
            let r = run_case(f, &mut g);
            (r, g.notes)
        });
        for n in notes {
            println!("{n}");
        }
        match r {
            Ok(()) => {
                println!("replay: property held");
                std::process::exit(0)
            }
            Err(f) => {
                println!("replay: FAILED sig={} {}", f.sig, f.detail);
                println!("VIOLATION property={id} replay={}", args[2]);
                std::process::exit(1)
            }
        }
    }
    let id = args.get(1).expect("usage: <bin> <property-id>").clone();
    let only = args.get(2).cloned();
    let p = props
        .into_iter()
        .find(|p| p.id == id)
        .expect("no such property");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i128>().ok().map(|v| v as u64))
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let limit = Duration::from_secs(
        std::env::var("VERIF_LIMIT_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 6 * 3600 } else { 840 }),
    );
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        eprintln!("ERROR: watchdog: time limit reached, inconclusive");
        std::process::exit(3);
    });
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let threads: u64 = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let known = known_findings(&id);
    let started = Instant::now();
    let mut coverage_subs = serde_json::Map::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let (mut evaluations, mut distinct_total) = (0u64, 0u64);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<String> = None;
    for sub in &p.subs {
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        let t0 = Instant::now();
        let n = ((if thorough { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let failure: Mutex<Option<(u64, Vec<u64>, Failure)>> = Mutex::new(None);
        let stats = Mutex::new(SubStats {
            evaluations: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
        });
        let known_sub: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let f = sub.f;
        std::thread::scope(|scope| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(scope, || {
                        let mut local = SubStats {
                            evaluations: 0,
                            nontrivial: 0,
                            distinct: HashSet::new(),
                            labels: BTreeMap::new(),
                        };
                        // Cases are handed out in index order, and a failing index only stops
                        // higher ones, so the reported failure is the lowest failing index.
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut g = Gen::random(case_seed(seed, &id, sub.name, i));
                            let r = run_case(f, &mut g);
                            local.evaluations += 1;
                            if g.nontrivial {
                                local.nontrivial += 1;
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                g.log.hash(&mut h);
                                local.distinct.insert(h.finish());
                            }
                            for l in &g.labels {
                                *local.labels.entry(l).or_default() += 1;
                            }
                            if let Err(fl) = r {
                                if known.contains_key(&fl.sig) {
                                    *known_sub.lock().unwrap().entry(fl.sig).or_default() += 1;
                                    continue;
                                }
                                let mut lock = failure.lock().unwrap();
                                if lock.as_ref().map(|(j, _, _)| i < *j).unwrap_or(true) {
                                    *lock = Some((i, g.log.clone(), fl));
                                }
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                        let mut s = stats.lock().unwrap();
                        s.evaluations += local.evaluations;
                        s.nontrivial += local.nontrivial;
                        s.distinct.extend(local.distinct);
                        for (k, v) in local.labels {
                            *s.labels.entry(k).or_default() += v;
                        }
                    })
                    .unwrap();
            }
        });
        for (k, v) in known_sub.into_inner().unwrap() {
            *known_hits.entry(k).or_default() += v;
        }
        let s = stats.into_inner().unwrap();
        evaluations += s.evaluations;
        distinct_total += s.distinct.len() as u64;
        // A few samples, written out.
        let sample_count = if p.subs.len() > 4 { 1 } else { 2 };
        let mut found = 0;
        for i in 0..n.min(60) {
            if found >= sample_count {
                break;
            }
            let seed_i = case_seed(seed, &id, sub.name, i);
            let r = big_thread(move || {
                let mut g = Gen::random(seed_i);
                g.verbose = true;
                let _ = run_case(f, &mut g);
                (g.nontrivial, g.notes.join("\n"))
            });
            if r.0 && !r.1.is_empty() {
                found += 1;
                let mut t = r.1;
                if t.len() > 1500 {
                    let mut k = 1500;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                    t.push_str("...");
                }
                samples.push(serde_json::json!({"sub": sub.name, "case": i, "text": t}));
            }
        }
        eprintln!(
            "[{id}/{}] {} cases, {} non-trivial ({} distinct), {:.1}s, labels {:?}",
            sub.name,
            s.evaluations,
            s.nontrivial,
            s.distinct.len(),
            t0.elapsed().as_secs_f64(),
            s.labels
        );
        coverage_subs.insert(
            sub.name.into(),
            serde_json::json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial,
              "distinct_nontrivial": s.distinct.len(), "labels": s.labels}),
        );
        if let Some((i, log, fl)) = failure.into_inner().unwrap() {
            let deadline = Instant::now() + Duration::from_secs(60);
            let sig = fl.sig.clone();
            let sig2 = sig.clone();
            let shrunk = big_thread(move || shrink(f, log, &sig2, deadline));
            let c2 = shrunk.clone();
            let (r, notes) = big_thread(move || {
                let mut g = Gen::replay(c2, true);
                let r = run_case(f, &mut g);
                (r, g.notes)
            });
            let detail = r.err().map(|f| f.detail).unwrap_or(fl.detail);
            let dir = format!("{}/replays", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-{}-seed{seed}-case{i}.json", sub.name);
            let j = serde_json::json!({"property": id, "sub": sub.name, "seed": seed, "case": i, "sig": sig,
                "detail": detail, "notes": notes, "choices": shrunk});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            for n in &notes {
                println!("{n}");
            }
            println!("[{id}/{}] case {i} failed: sig={sig} {detail}", sub.name);
            println!("VIOLATION property={id} replay={path}");
            violation = Some(path);
            break;
        }
    }
    for (sig, desc) in &known {
        let v = known_hits.get(sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={id} {sig}: {desc} (hit by {v} cases of this run)");
    }
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct_total,
            "rule": p.rule,
            "samples": samples,
            "sub_checks": coverage_subs,
            "known_finding_cases": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": if violation.is_some() {1} else {0},
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        format!("{dir}/{id}.json"),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    if violation.is_some() {
        std::process::exit(1)
    }
    println!("[{id}] property held on {evaluations} cases ({distinct_total} distinct non-trivial)");
    std::process::exit(0)
}

pub fn big_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap()
}
