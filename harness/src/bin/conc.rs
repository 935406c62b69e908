//! C11: concurrent calls.  Small histories are checked for linearizability
//! against the sequential model; big ones for conservation.
//!
//! conc --mode small|stress --seed S --count N --budget-ms B [--only I]
#![allow(dead_code)]
use mockall::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use vh::model::{self, Class, MExp, Out, Seqs};
use vh::report;
use vh::rng::{mix, Rng};
use vh::spec::{const_val, fn_val, quiet_hook, run, End, Mat, Ret, RetKind, UserPanic};

#[automock]
pub trait Cm {
    fn foo(&self, x: u32) -> u64;
    fn bar(&self, x: u32, y: u32) -> u64;
    fn gen<T: 'static>(&self, t: T) -> u64;
    fn rf(&self, x: u32) -> &u64;
    fn st(x: u32) -> u64;
    fn sg<T: 'static>(x: T) -> u64;
}
#[automock]
pub mod fns {
    #[allow(unused)]
    pub fn f1(x: u32, y: u32) -> u64 { 0 }
}

// channels 0..4 belong to mock 0, 5..9 to mock 1, 10.. are static
const PER: usize = 5;
const NCH: usize = 14;
fn ch_arity(ch: usize) -> usize {
    match ch {
        c if c < 2 * PER => [1, 2, 1, 1, 1][c % PER],
        13 => 2,
        _ => 1,
    }
}
fn ch_name(ch: usize) -> &'static str {
    if ch < 2 * PER {
        ["foo", "bar", "gen<u8>", "gen<i8>", "rf"][ch % PER]
    } else {
        ["st", "sg<u8>", "sg<i8>", "fns::f1"][ch - 2 * PER]
    }
}
fn ch_obj(ch: usize) -> usize {
    match ch {
        c if c < PER => 0,
        c if c < 2 * PER => 1,
        10 => 2,
        11 | 12 => 3,
        _ => 4,
    }
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicU64 = AtomicU64::new(0);
static OVERLAP: Mutex<Vec<String>> = Mutex::new(Vec::new());
static OVERLAPS_SEEN: AtomicU64 = AtomicU64::new(0);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static JITTER: AtomicU64 = AtomicU64::new(0);

fn tick() -> u64 { CLOCK.fetch_add(1, Ordering::SeqCst) }

/// Perturb the schedule
fn jitter(level: u32) {
    if level == 0 {
        return;
    }
    let r = mix(&[JITTER.fetch_add(1, Ordering::Relaxed)]) % 100;
    if cfg!(miri) {
        if r < 40 {
            std::thread::yield_now();
        }
        return;
    }
    match (level, r) {
        (_, 0..=39) => (),
        (_, 40..=69) => std::thread::yield_now(),
        (1, _) => {
            for _ in 0..(r * 20) {
                std::hint::spin_loop();
            }
        }
        (_, 70..=89) => {
            for _ in 0..(r * 60) {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(Duration::from_micros(r * 2)),
    }
}

/// A returning closure which notices being run twice at once
struct Serial {
    inside: AtomicBool,
    id: u64,
    k: u32,
    panic_at: u32,
    jit: u32,
}
impl Serial {
    fn call(&mut self, xs: &[u32]) -> u64 {
        struct Leave<'a>(&'a AtomicBool);
        impl Drop for Leave<'_> {
            fn drop(&mut self) { self.0.store(false, Ordering::SeqCst) }
        }
        if self.inside.swap(true, Ordering::SeqCst) {
            OVERLAP.lock().unwrap().push(format!("closure {} entered while running", self.id));
        }
        let k0 = self.k;
        jitter(self.jit);
        self.k = k0 + 1;
        let l = Leave(&self.inside);
        if self.panic_at == self.k {
            std::panic::panic_any(UserPanic(self.id));
        }
        let v = fn_val(self.id, xs, self.k);
        drop(l);
        v
    }
}
fn serial(r: &Ret, jit: u32) -> Serial {
    Serial { inside: AtomicBool::new(false), id: r.id, k: 0, panic_at: r.panic_at, jit }
}
fn bit(mask: u16, a: u32, b: u32) -> bool { mask >> (a * 4 + b) & 1 == 1 }

/// What we ask of one expectation
#[derive(Clone, Debug)]
struct Es {
    mask: Option<u16>,
    lo: usize,
    hi: usize,
    ret: Option<Ret>,
    seq: Option<usize>,
}
macro_rules! conf {
    ($e:expr, $s:expr, $seqs:expr, $jit:expr, $($p:ident),+) => {{
        let e = $e;
        let e = if $s.hi == usize::MAX { e.times($s.lo..) } else { e.times($s.lo..=$s.hi) };
        if let Some(m) = $s.mask {
            let jit = $jit;
            e.withf(move |$($p),+| { jitter(jit); let v = [$(*$p as u32),+, 0]; bit(m, v[0], if v.len() > 2 { v[1] } else { 0 }) });
        }
        if let Some(q) = $s.seq { e.in_sequence(&mut $seqs[q]); }
        match &$s.ret {
            Some(r) if r.kind == RetKind::Const => { e.return_const(const_val(r.id)); }
            Some(r) if r.kind == RetKind::Once => {
                let mut f = serial(r, $jit);
                e.return_once(move |$($p),+| f.call(&[$($p as u32),+]));
            }
            Some(r) => {
                let mut f = serial(r, $jit);
                e.returning(move |$($p),+| f.call(&[$($p as u32),+]));
            }
            None => (),
        }
    }};
}
fn expect(ms: &mut [MockCm], st: &Statics, ch: usize, s: &Es, seqs: &mut [Sequence], jit: u32) {
    if ch < 2 * PER {
        let m = &mut ms[ch / PER];
        match ch % PER {
            0 => conf!(m.expect_foo(), s, seqs, jit, x),
            1 => conf!(m.expect_bar(), s, seqs, jit, x, y),
            2 => conf!(m.expect_gen::<u8>(), s, seqs, jit, x),
            3 => conf!(m.expect_gen::<i8>(), s, seqs, jit, x),
            _ => {
                let e = m.expect_rf();
                let e = if s.hi == usize::MAX { e.times(s.lo..) } else { e.times(s.lo..=s.hi) };
                if let Some(k) = s.mask {
                    e.withf(move |x| {
                        jitter(jit);
                        bit(k, *x, 0)
                    });
                }
                if let Some(q) = s.seq {
                    e.in_sequence(&mut seqs[q]);
                }
                if let Some(r) = &s.ret {
                    e.return_const(const_val(r.id));
                }
            }
        }
    } else {
        st.expect(ch, s, seqs, jit)
    }
}
struct Statics {
    st: __mock_MockCm_Cm::__st::Context,
    sg: __mock_MockCm_Cm::__sg::Context,
    f1: mock_fns::__f1::Context,
}
impl Statics {
    fn new() -> Self {
        Statics { st: MockCm::st_context(), sg: MockCm::sg_context(), f1: mock_fns::f1_context() }
    }
    fn expect(&self, ch: usize, s: &Es, seqs: &mut [Sequence], jit: u32) {
        match ch {
            10 => { let mut g = self.st.expect(); conf!(g.times(..), s, seqs, jit, x) }
            11 => { let mut g = self.sg.expect::<u8>(); conf!(g.times(..), s, seqs, jit, x) }
            12 => { let mut g = self.sg.expect::<i8>(); conf!(g.times(..), s, seqs, jit, x) }
            _ => { let mut g = self.f1.expect(); conf!(g.times(..), s, seqs, jit, x, y) }
        }
    }
    fn checkpoint(&self, obj: usize) {
        match obj {
            2 => self.st.checkpoint(),
            3 => self.sg.checkpoint(),
            _ => self.f1.checkpoint(),
        }
    }
}
fn call(ms: &[MockCm], ch: usize, a: u32, b: u32) -> u64 {
    if ch < 2 * PER {
        let m = &ms[ch / PER];
        match ch % PER {
            0 => m.foo(a),
            1 => m.bar(a, b),
            2 => m.gen(a as u8),
            3 => m.gen(a as i8),
            _ => *m.rf(a),
        }
    } else {
        match ch {
            10 => MockCm::st(a),
            11 => MockCm::sg(a as u8),
            12 => MockCm::sg(a as i8),
            _ => mock_fns::f1(a, b),
        }
    }
}

#[derive(Clone, Debug)]
enum Act {
    Call(usize, u32, u32),
    Expect(usize, Es),
    /// of the statics of one function
    Checkpoint(usize),
}
#[derive(Clone, Debug)]
struct Ev {
    act: Act,
    thread: usize,
    t0: u64,
    t1: u64,
    end: End,
}
#[derive(Clone)]
struct State {
    chans: Vec<Vec<MExp>>,
    seqs: Seqs,
    uid: u64,
}
impl State {
    fn add(&mut self, ch: usize, s: &Es) {
        self.uid += 1;
        let mut e = MExp::new(self.uid);
        e.mat = s.mask.map(|m| Mat::Withf(m, 0));
        e.min = s.lo;
        e.max = s.hi;
        e.ret = s.ret.clone();
        if let Some(q) = s.seq {
            e.seq = Some((q, self.seqs.next[q]));
            self.seqs.next[q] += 1;
        }
        self.chans[ch].push(e);
    }
    fn verdict(&self, obj: usize) -> Vec<Class> {
        let mut v = vec![];
        for (ch, c) in self.chans.iter().enumerate() {
            if ch_obj(ch) == obj {
                for e in c {
                    if let Some(b) = e.bad() {
                        if !v.contains(&b) {
                            v.push(b)
                        }
                    }
                }
            }
        }
        v
    }
    fn key(&self, done: u64) -> Vec<u64> {
        let mut k = vec![done];
        for c in &self.chans {
            k.push(1 << 40);
            for e in c {
                k.push(e.uid << 32 | (e.count as u64) << 16 | (e.k as u64) << 1 | e.expired as u64);
            }
        }
        k.extend(self.seqs.level.iter().map(|x| *x as u64));
        k
    }
}
fn agrees(want: &Out, got: &End) -> bool {
    match (want, got) {
        (Out::Val(a), End::Val(b)) => a == b,
        (Out::User(a), End::User(b)) => a == b,
        (Out::Mock(c), End::Msg(m)) => match Class::of(m) {
            Some(d) => *c == d,
            None => !m.contains("Poison"),
        },
        _ => false,
    }
}
fn agrees_verify(want: &[Class], got: &End) -> bool {
    match got {
        End::Val(_) => want.is_empty(),
        End::Msg(m) => match Class::of(m) {
            Some(c) => want.contains(&c),
            None => !want.is_empty() && !m.contains("Poison"),
        },
        _ => false,
    }
}

struct Lin<'a> {
    evs: &'a [Ev],
    finals: &'a [End], // per object: verification at the end
    seen: HashSet<Vec<u64>>,
    nodes: u64,
}
impl Lin<'_> {
    /// Is there a linearization?  None: gave up
    fn go(&mut self, done: u64, st: &State) -> Option<bool> {
        self.nodes += 1;
        if self.nodes > 3_000_000 {
            return None;
        }
        if done == (1u64 << self.evs.len()) - 1 {
            return Some((0..self.finals.len()).all(|o| agrees_verify(&st.verdict(o), &self.finals[o])));
        }
        if !self.seen.insert(st.key(done)) {
            return Some(false);
        }
        let first_ret = (0..self.evs.len()).filter(|i| done >> i & 1 == 0).map(|i| self.evs[i].t1).min().unwrap();
        for i in 0..self.evs.len() {
            if done >> i & 1 == 1 || self.evs[i].t0 > first_ret {
                continue;
            }
            let ev = self.evs[i].clone();
            let mut s2 = st.clone();
            match &ev.act {
                Act::Call(ch, a, b) => {
                    let Some(p) =
                        model::call(&mut s2.chans[*ch], &mut s2.seqs, ch_arity(*ch), |v| v, *a, *b, true)
                    else {
                        return None;
                    };
                    if !agrees(&p.out, &ev.end) {
                        continue;
                    }
                    if p.out == Out::Mock(Class::Sequence) {
                        return Some(true); // nothing is promised afterwards
                    }
                }
                Act::Expect(ch, s) => {
                    if !matches!(ev.end, End::Val(_)) {
                        continue;
                    }
                    s2.add(*ch, s);
                }
                Act::Checkpoint(o) => {
                    if !agrees_verify(&s2.verdict(*o), &ev.end) {
                        continue;
                    }
                    for ch in 0..NCH {
                        if ch_obj(ch) == *o {
                            s2.chans[ch].clear();
                        }
                    }
                }
            }
            match self.go(done | 1 << i, &s2) {
                Some(false) => (),
                x => return x,
            }
        }
        Some(false)
    }
}

#[derive(Default)]
struct St {
    histories: u64,
    nontrivial: u64,
    calls: u64,
    answered: u64,
    panics: u64,
    overlapping: u64,
    lin_nodes: u64,
    gave_up: u64,
    orders: HashSet<u64>,
    stress_calls: u64,
    checkpoints: u64,
    expects_midway: u64,
    seq_members: u64,
}

fn gen_es(r: &mut Rng, ch: usize, id: u64, seq: Option<usize>) -> Es {
    let mask = if r.chance(1, 2) {
        None
    } else if ch_arity(ch) == 1 {
        // (a, 0)
        Some((0..4).filter(|_| r.chance(2, 3)).map(|a| 1u16 << (a * 4)).sum())
    } else {
        Some((r.next() as u16) | (r.next() as u16))
    };
    let (lo, hi) = if seq.is_some() {
        let n = 1 + r.weighted(&[5, 3, 1]);
        (n, n)
    } else {
        let lo = r.weighted(&[4, 3, 2, 1]);
        match r.below(4) {
            0 => (lo, usize::MAX),
            1 => (lo, lo),
            _ => (lo, lo + r.below(3)),
        }
    };
    let kind = if ch < 2 * PER && ch % PER == 4 {
        RetKind::Const
    } else {
        [RetKind::Const, RetKind::Fn, RetKind::Fn, RetKind::Once][r.below(4)]
    };
    let panic_at = if r.chance(1, 8) && kind == RetKind::Fn { 1 + r.below(2) as u32 } else { 0 };
    let ret = if r.chance(1, 15) { None } else { Some(Ret { kind, id, panic_at, panic_str: false }) };
    Es { mask, lo, hi, ret, seq }
}

/// One small history, checked for linearizability
fn small(seed: u64, stats: &mut St) -> Result<(), (String, Vec<String>)> {
    let mut r = Rng::new(seed);
    let nthreads = 2 + r.weighted(&[5, 3, 1]);
    let jit = r.below(3) as u32;
    let nseqs = 2;
    let mut seqs: Vec<Sequence> = (0..nseqs).map(|_| Sequence::new()).collect();
    let mut ms = vec![MockCm::new(), MockCm::new()];
    let statics = Statics::new();
    let mut st = State {
        chans: vec![vec![]; NCH],
        seqs: Seqs { level: vec![0; nseqs], next: vec![0; nseqs] },
        uid: 0,
    };
    let style = r.below(5);
    // few channels, so that threads collide
    let nch = 1 + r.below(2);
    let chans: Vec<usize> = (0..nch)
        .map(|_| match style {
            0 => 2 * PER + r.below(NCH - 2 * PER),
            1 => [0, PER][r.below(2)],
            _ => r.below(NCH),
        })
        .collect();
    let use_seq = r.chance(1, 3);
    let mut id = 10;
    let nexp = 1 + r.below(4);
    for _ in 0..nexp {
        let ch = *r.pick(&chans);
        id += 10;
        let seq = if use_seq && r.chance(3, 4) { Some(r.below(nseqs)) } else { None };
        let es = gen_es(&mut r, ch, id, seq);
        if es.seq.is_some() {
            stats.seq_members += 1;
        }
        expect(&mut ms, &statics, ch, &es, &mut seqs, jit);
        st.add(ch, &es);
    }
    let initial = st.clone();
    // scripts
    let per = 2 + r.below(3);
    let mut scripts: Vec<Vec<Act>> = (0..nthreads)
        .map(|_| {
            (0..per)
                .map(|_| {
                    let ch = *r.pick(&chans);
                    let b = if ch_arity(ch) > 1 { r.below(4) as u32 } else { 0 };
                    Act::Call(ch, r.below(if use_seq { 2 } else { 3 }) as u32, b)
                })
                .collect()
        })
        .collect();
    // sometimes the main thread changes static expectations meanwhile
    let sch: Vec<usize> = chans.iter().copied().filter(|c| *c >= 2 * PER).collect();
    let mut mainscript = vec![];
    if !sch.is_empty() && r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            let ch = *r.pick(&sch);
            id += 10;
            if r.chance(1, 3) && !use_seq {
                mainscript.push(Act::Checkpoint(ch_obj(ch)));
            } else {
                mainscript.push(Act::Expect(ch, gen_es(&mut r, ch, id, None)));
            }
        }
    }
    for s in &mainscript {
        match s {
            Act::Checkpoint(_) => stats.checkpoints += 1,
            _ => stats.expects_midway += 1,
        }
    }
    let evs: Mutex<Vec<Ev>> = Mutex::new(vec![]);
    let barrier = Barrier::new(nthreads + 1);
    {
        let (ms, evs, barrier, statics) = (&ms[..], &evs, &barrier, &statics);
        std::thread::scope(|sc| {
            for (t, script) in scripts.drain(..).enumerate() {
                sc.spawn(move || {
                    let mut mine = vec![];
                    barrier.wait();
                    for act in script {
                        let Act::Call(ch, a, b) = act else { unreachable!() };
                        jitter(jit);
                        let t0 = tick();
                        let end = run(|| call(ms, ch, a, b));
                        let t1 = tick();
                        mine.push(Ev { act, thread: t, t0, t1, end });
                    }
                    evs.lock().unwrap().extend(mine);
                });
            }
            barrier.wait();
            let mut none: [Sequence; 0] = [];
            for act in mainscript {
                jitter(2);
                let t0 = tick();
                let end = match &act {
                    Act::Expect(ch, s) => run(|| {
                        statics.expect(*ch, s, &mut none, jit);
                        0
                    }),
                    Act::Checkpoint(o) => run(|| {
                        statics.checkpoint(*o);
                        0
                    }),
                    _ => unreachable!(),
                };
                let t1 = tick();
                evs.lock().unwrap().push(Ev { act, thread: nthreads, t0, t1, end });
            }
        });
    }
    let mut finals = vec![];
    let b = ms.pop().unwrap();
    let a = ms.pop().unwrap();
    finals.push(run(move || { drop(a); 0 }));
    finals.push(run(move || { drop(b); 0 }));
    let Statics { st: cst, sg, f1 } = statics;
    finals.push(run(move || { drop(cst); 0 }));
    finals.push(run(move || { drop(sg); 0 }));
    finals.push(run(move || { drop(f1); 0 }));
    let mut evs = evs.into_inner().unwrap();
    evs.sort_by_key(|e| e.t0);
    let dump = |evs: &[Ev]| {
        let mut v: Vec<String> = vec![];
        for (ch, c) in initial.chans.iter().enumerate() {
            for e in c {
                v.push(format!("initial {}#{}: {:?} times {}..={} seq {:?} ret {:?}", ch_name(ch), ch_obj(ch), e.mat, e.min, e.max as isize, e.seq, e.ret));
            }
        }
        v.extend(evs.iter().map(|e| format!("[{}..{}] thread {} {:?} -> {:?}", e.t0, e.t1, e.thread, e.act, e.end)));
        v.push(format!("final verifications {finals:?}"));
        v
    };
    let ov = std::mem::take(&mut *OVERLAP.lock().unwrap());
    if !ov.is_empty() {
        return Err((ov.join("; "), dump(&evs)));
    }
    stats.histories += 1;
    stats.calls += evs.len() as u64;
    stats.answered += evs.iter().filter(|e| matches!(e.end, End::Val(_))).count() as u64;
    stats.panics += evs.iter().filter(|e| !matches!(e.end, End::Val(_))).count() as u64;
    let over = evs.iter().enumerate().map(|(i, e)| evs[i + 1..].iter().filter(|f| f.t0 < e.t1).count() as u64).sum::<u64>();
    stats.overlapping += over;
    if over > 0 {
        let mut k = vec![];
        let mut m: Vec<(u64, u64)> = evs.iter().enumerate().flat_map(|(i, e)| [(e.t0, i as u64 * 2), (e.t1, i as u64 * 2 + 1)]).collect();
        m.sort();
        k.extend(m.iter().map(|x| x.1));
        k.extend(evs.iter().map(|e| mix(&[e.thread as u64, format!("{:?}", e.end).len() as u64])));
        if stats.orders.insert(mix(&k)) {
            stats.nontrivial += 1;
        }
    }
    let mut lin = Lin { evs: &evs, finals: &finals, seen: HashSet::new(), nodes: 0 };
    let res = lin.go(0, &initial);
    stats.lin_nodes += lin.nodes;
    match res {
        Some(true) => Ok(()),
        None => {
            stats.gave_up += 1;
            Ok(())
        }
        Some(false) => Err(("no one-at-a-time order of these calls explains their outcomes".into(), dump(&evs))),
    }
}

/// Many threads, many calls; conservation of counts
fn stress(seed: u64, stats: &mut St) -> Result<(), (String, Vec<String>)> {
    let mut r = Rng::new(seed);
    let threads = 2 + r.below(7);
    let per = if cfg!(miri) { 6 } else { 50 + r.below(400) };
    let total = threads * per;
    let ch = [0usize, 1, 2, 3, 10, 11, 13][r.below(7)];
    let jit = r.below(2) as u32;
    let mut ms = vec![MockCm::new(), MockCm::new()];
    let statics = Statics::new();
    let mode = r.below(4);
    let mut seqs = vec![Sequence::new()];
    let fail = |w: String| Err((w, vec![format!("mode {mode} threads {threads} per {per} channel {}", ch_name(ch))]));
    let other = if ch < PER { ch + PER } else { ch };
    if mode == 3 {
        // phases: a sequence over two objects; never a violation
        let n = if cfg!(miri) { 2 } else { 8 };
        let reps = 1 + r.below(3);
        for p in 0..n {
            let es = Es { mask: None, lo: threads * reps, hi: threads * reps,
                ret: Some(Ret { kind: RetKind::Fn, id: 10 + p as u64, panic_at: 0, panic_str: false }), seq: Some(0) };
            expect(&mut ms, &statics, if p % 2 == 0 { ch } else { other }, &es, &mut seqs, jit);
        }
        let bar = Barrier::new(threads);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        {
            let (ms, bar, bad) = (&ms[..], &bar, &bad);
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(move || {
                        for p in 0..n {
                            bar.wait();
                            for _ in 0..reps {
                                let e = run(|| call(ms, if p % 2 == 0 { ch } else { other }, 1, 0));
                                if !matches!(e, End::Val(_)) {
                                    bad.lock().unwrap().push(format!("phase {p}: an in-order call gave {e:?}"));
                                }
                            }
                            bar.wait();
                        }
                    });
                }
            });
        }
        stats.stress_calls += (n * reps * threads) as u64;
        let bad = bad.into_inner().unwrap();
        if !bad.is_empty() {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _k = (ms, statics);
                std::panic::panic_any(UserPanic(0));
            }));
            return fail(bad[0].clone());
        }
        for e in [run(move || { drop(ms); 0 }), run(move || { drop(statics); 0 })] {
            if !matches!(e, End::Val(_)) {
                return fail(format!("verification after a sequence called exactly: {e:?}"));
            }
        }
        return Ok(());
    }
    // modes 0..2: a cascade of expectations with limits
    let n = 1 + r.below(4);
    let mut caps = vec![];
    for i in 0..n {
        let cap = 1 + r.below(1 + total / n);
        let kind = if mode == 1 && i == 0 { RetKind::Once } else { RetKind::Fn };
        let cap = if kind == RetKind::Once { 1 } else { cap };
        caps.push(cap);
        let es = Es { mask: Some(0xffff), lo: 0, hi: cap,
            ret: Some(Ret { kind, id: 100 + i as u64, panic_at: if mode == 2 && i == 0 { 1 } else { 0 }, panic_str: false }), seq: None };
        expect(&mut ms, &statics, ch, &es, &mut seqs, jit);
    }
    let outs: Mutex<Vec<Vec<(u32, End)>>> = Mutex::new(vec![]);
    {
        let (ms, outs) = (&ms[..], &outs);
        let bar = &Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                s.spawn(move || {
                    bar.wait();
                    let v: Vec<(u32, End)> = (0..per)
                        .map(|k| {
                            let a = ((t + k) % 4) as u32;
                            (a, run(|| call(ms, ch, a, 0)))
                        })
                        .collect();
                    outs.lock().unwrap().push(v);
                });
            }
        });
    }
    let outs = outs.into_inner().unwrap();
    stats.stress_calls += total as u64;
    // every answer identifies (expectation, invocation)
    let mut left = total;
    let mut want: HashSet<(u32, u64)> = HashSet::new();
    let mut counts = vec![];
    for c in &caps {
        let k = left.min(*c);
        left -= k;
        counts.push(k);
    }
    for (i, k) in counts.iter().enumerate() {
        for j in 1..=*k {
            for a in 0..4 {
                let xs = if ch_arity(ch) == 1 { vec![a] } else { vec![a, 0] };
                want.insert((a, fn_val(100 + i as u64, &xs, j as u32)));
            }
        }
    }
    let mut ok = 0;
    let mut failed = 0;
    let mut user = 0;
    let mut seen: HashSet<u64> = HashSet::new();
    for (a, e) in outs.iter().flatten() {
        match e {
            End::Val(v) => {
                ok += 1;
                if !want.contains(&(*a, *v)) {
                    return fail(format!("call({a}) returned {v:x}, which no permitted invocation returns (or to a different argument)"));
                }
                if !seen.insert(*v) {
                    return fail(format!("the same invocation answered two calls ({v:x})"));
                }
            }
            End::User(_) => user += 1,
            End::Msg(m) => {
                failed += 1;
                if Class::of(m).is_none() {
                    return fail(format!("unexpected panic {m}"));
                }
            }
            x => return fail(format!("{x:?}")),
        }
    }
    let granted: usize = counts.iter().sum();
    let uw = if mode == 2 { 1 } else { 0 };
    if ok + user != granted || user != uw || failed != total - granted {
        return fail(format!("{total} calls against limits {caps:?}: {ok} answered, {user} user panics, {failed} refused; {granted} should be answered"));
    }
    let ov = std::mem::take(&mut *OVERLAP.lock().unwrap());
    if !ov.is_empty() {
        return fail(ov.join("; "));
    }
    let over = n == 1 && left > 0;
    for (i, e) in [run(move || { drop(ms); 0 }), run(move || { drop(statics); 0 })].iter().enumerate() {
        let mine = (ch >= 2 * PER) as usize == i;
        let want: &[Class] = if over && mine { &[Class::TooMany] } else { &[] };
        if !agrees_verify(want, e) {
            return fail(format!("verification {i}: expected {want:?}, got {e:?}"));
        }
    }
    Ok(())
}

/// All threads stuck?
fn watchdog() {
    fn cpu() -> u64 {
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
    }
    std::thread::spawn(|| {
        let (mut last, mut c0, mut ticks) = (u64::MAX, 0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::SeqCst);
            if p != last {
                (last, c0, ticks) = (p, cpu(), 0);
                continue;
            }
            ticks += 1;
            if ticks >= 40 {
                if cpu() - c0 < 10 {
                    report::violation(&format!("deadlock: all threads of history {} have been blocked for {} s without using any CPU", p, ticks / 2), &[("history", p.to_string())], vec![]);
                    std::process::exit(1);
                }
                (c0, ticks) = (cpu(), 0);
            }
        }
    });
}

fn main() {
    quiet_hook();
    let (mut mode, mut seed, mut count, mut budget, mut only) = ("small".to_string(), 1u64, 100u64, u64::MAX, None::<u64>);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap();
        match a.as_str() {
            "--mode" => mode = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--count" => count = v().parse().unwrap(),
            "--budget-ms" => budget = v().parse().unwrap(),
            "--only" => only = Some(v().parse().unwrap()),
            "--samples" => {
                v();
            }
            _ => panic!("{a}"),
        }
    }
    if !cfg!(miri) {
        watchdog();
    }
    let mut st = St::default();
    let t0 = Instant::now();
    let range = only.map(|i| i..i + 1).unwrap_or(0..count);
    let mut n = 0;
    for i in range {
        if t0.elapsed().as_millis() as u64 > budget {
            break;
        }
        eprintln!("H {i}");
        PROGRESS.store(i, Ordering::SeqCst);
        let hs = mix(&[seed, i, 11]);
        JITTER.store(hs, Ordering::SeqCst);
        let both = mode == "both";
        let res = if mode == "stress" || both && i % 8 == 7 {
            st.histories += 1;
            stress(hs, &mut st)
        } else {
            small(hs, &mut st)
        };
        n += 1;
        if let Err((why, ops)) = res {
            report::violation(&why, &[("mode", mode.clone()), ("seed", seed.to_string()), ("history", i.to_string())], ops);
            std::process::exit(1);
        }
    }
    let _ = Arc::new(n);
    report::sample(vec![format!("{n} histories in mode {mode}, first seed {:x}", mix(&[seed, 0, 11]))]);
    report::counters(
        st.histories,
        if mode == "stress" { n } else { st.nontrivial },
        &[
            ("calls_in_small_histories", st.calls),
            ("calls_answered", st.answered),
            ("calls_ending_in_a_panic", st.panics),
            ("overlapping_pairs_of_calls", st.overlapping),
            ("linearization_search_nodes", st.lin_nodes),
            ("linearization_searches_given_up", st.gave_up),
            ("distinct_interleavings", st.orders.len() as u64),
            ("stress_calls", st.stress_calls),
            ("concurrent_checkpoints", st.checkpoints),
            ("concurrent_expects", st.expects_midway),
            ("sequence_members", st.seq_members),
        ],
        &[("history_signatures", st.orders.iter().take(200_000).map(|x| format!("{x:x}")).collect())],
    );
}
