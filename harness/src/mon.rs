//! A small driver for self-judging monitors: `--mode M --seed S --count N
//! --budget-ms B [--only I]`.  One iteration = one random history.
use crate::report;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::Instant;

#[derive(Default)]
pub struct Mon {
    pub log: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, BTreeSet<String>>,
    sig: Vec<u64>,
    sigs: HashSet<u64>,
    trivial: bool,
}
impl Mon {
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_default() += n; }
    pub fn note(&mut self, k: &str, v: &str) {
        if !self.sets.get(k).is_some_and(|s| s.contains(v)) {
            self.sets.entry(k.to_string()).or_default().insert(v.to_string());
        }
    }
    /// Part of what makes this history distinct
    pub fn sig(&mut self, x: u64) { self.sig.push(x) }
    pub fn op(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.sig.push(s.bytes().fold(0, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64)));
        self.log.push(s);
    }
    pub fn trivial(&mut self) { self.trivial = true }
}
thread_local! { static FAILED: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
/// Remember the first failure: on the way out, mocks may panic when dropped
pub fn failed(s: String) -> String {
    FAILED.with(|f| f.borrow_mut().get_or_insert(s.clone()).clone())
}
/// That failure was not one, after all
pub fn forget() { FAILED.with(|f| f.borrow_mut().take()); }
pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::mon::failed(format!($($t)*))); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::mon::failed(format!("{}: {:?} expected, {:?} observed", format!($($t)*), b, a))); }
    }};
}

pub type Mode = (&'static str, fn(&mut Rng, &mut Mon) -> Verdict);
pub fn drive(modes: &[Mode]) {
    crate::spec::quiet_hook();
    let (mut mode, mut seed, mut count, mut budget, mut only) = (String::new(), 1u64, 100u64, u64::MAX, None::<u64>);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap();
        match a.as_str() {
            "--mode" => mode = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--count" => count = v().parse().unwrap(),
            "--budget-ms" => budget = v().parse().unwrap(),
            "--only" => only = Some(v().parse().unwrap()),
            "--samples" => drop(v()),
            _ => panic!("{a}"),
        }
    }
    if mode.is_empty() {
        mode = modes[0].0.to_string();
    }
    let f = modes.iter().find(|m| m.0 == mode).unwrap_or_else(|| panic!("no mode {mode}")).1;
    let mut m = Mon::default();
    let mut evals = 0;
    let mut nontrivial = 0;
    let t0 = Instant::now();
    let range = only.map(|i| i..i + 1).unwrap_or(0..count);
    let mut sample = vec![];
    for i in range {
        if t0.elapsed().as_millis() as u64 > budget {
            break;
        }
        eprintln!("H {i}");
        m.log.clear();
        m.sig.clear();
        m.trivial = false;
        let mut r = Rng::new(mix(&[seed, i, mode.len() as u64]));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, &mut m)));
        let res = match res {
            Ok(r) => r,
            Err(e) => Err(failed(format!("unexpected panic: {:?}", crate::spec::payload(e)))),
        };
        if let Err(why) = res {
            let ops = std::mem::take(&mut m.log);
            report::violation(
                &why,
                &[("mode", mode.clone()), ("seed", seed.to_string()), ("history", i.to_string())],
                ops,
            );
            std::process::exit(1);
        }
        evals += 1;
        if !m.trivial && m.sigs.insert(mix(&m.sig)) {
            nontrivial += 1;
        }
        if sample.len() < 15 {
            sample.extend(m.log.iter().take(15 - sample.len()).cloned());
        }
    }
    report::sample(sample);
    let c: Vec<(&str, u64)> = m.counters.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    let mut sets: Vec<(&str, Vec<String>)> =
        m.sets.iter().map(|(k, v)| (k.as_str(), v.iter().cloned().collect())).collect();
    sets.push(("history_signatures", m.sigs.iter().take(200_000).map(|x| format!("{x:x}")).collect()));
    report::counters(evals, nontrivial, &c, &sets);
}
