//! C16: the facts stated by panic messages, against an independent account.
//! Names, argument values, counts and bounds are recognised as words; the
//! wording itself is not judged.
#![allow(clippy::all, dead_code)]
use mockall::predicate::{always, eq};
use mockall::*;
use std::fmt;
use std::panic::panic_any;
use vh::mon::{failed, Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, Marker};
use vh::{ensure, same};

/// Printable
#[derive(Clone, Copy, PartialEq)]
pub struct A(u32);
impl fmt::Debug for A { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "A{}", self.0) } }
/// Not printable
#[derive(Clone, Copy, PartialEq)]
pub struct N(u32);
pub trait Dy { fn k(&self) -> u32; }
impl Dy for A { fn k(&self) -> u32 { self.0 } }
impl Dy for N { fn k(&self) -> u32 { self.0 } }
/// Prints differently when pretty
pub struct L<'a>(&'a u32);
impl fmt::Debug for L<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "A{}", self.0) } }

mock! {
    pub Zulu {
        fn alpha(&self, a: A, b: A) -> u32;
        fn bravo(&mut self) -> u32;
        fn charlie<T: fmt::Debug + PartialEq + Send + 'static>(&self, t: T, a: A) -> u32;
        fn delta(a: A) -> u32;
        fn echo(&self, a: &A, s: &str, n: N) -> &u32;
        fn foxtrot(&mut self, a: A, n: N, b: &[N], c: A) -> &mut u32;
        fn golf(self, n: N, a: A) -> u32;
        #[mockall::concretize]
        fn kilo<P: Dy>(&self, a: A, p: P) -> u32;
        fn life<'a>(&self, a: L<'a>, b: A) -> u32;
        async fn oscar(&self, a: A) -> u32;
        fn papa(&self, a: Option<A>, n: Option<N>, v: Vec<A>, t: (A, N)) -> u32;
        fn tango<T: PartialEq + Send + 'static>(t: T, a: A) -> u32;
    }
    impl Trt for Zulu {
        fn hotel(&self, a: A, b: A, c: A, d: A) -> u32;
        fn india(n: N, a: A) -> u32;
    }
    impl Trg<u8> for Zulu {
        fn quebec(&self, a: A) -> u32;
    }
    impl Trg<u16> for Zulu {
        fn romeo(&self, a: A, b: A) -> u32;
    }
}
pub trait Trt { fn hotel(&self, a: A, b: A, c: A, d: A) -> u32; fn india(n: N, a: A) -> u32; }
pub trait Trg<T> { fn quebec(&self, _a: A) -> u32 { 0 } fn romeo(&self, _a: A, _b: A) -> u32 { 0 } }
#[automock]
pub trait Yankee<T: 'static> {
    fn alpha(&self, b: A, a: T) -> u32;
    fn sierra(a: T, b: A) -> u32;
}
#[automock]
pub mod xray {
    use super::{A, N};
    pub fn lima(a: A, b: A) -> u32 { a.0 + b.0 }
    pub fn mike<T: 'static>(a: A, t: T) -> u32 { let _ = t; a.0 }
    pub fn uniform(n: N) -> u32 { n.0 }
}
#[automock]
pub mod whiskey {
    use super::A;
    #[allow(improper_ctypes)]
    extern "C" {
        pub fn november(a: u32, b: A) -> u32;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum C { Alpha, Bravo, Charlie, CharlieU, Delta, Echo, Foxtrot, Golf, Kilo, KiloN, Life, Oscar, Papa, Tango, TangoN, Hotel, India, Quebec, Romeo, YAlpha, Sierra, Lima, Mike, MikeN, Uniform, November }
use C::*;
const ALL: [C; 26] = [Alpha, Bravo, Charlie, CharlieU, Delta, Echo, Foxtrot, Golf, Kilo, KiloN, Life, Oscar, Papa, Tango, TangoN, Hotel, India, Quebec, Romeo, YAlpha, Sierra, Lima, Mike, MikeN, Uniform, November];
const METHODS: [&str; 20] = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "kilo", "life", "oscar", "papa", "tango", "hotel", "india", "quebec", "romeo", "sierra", "lima", "mike", "uniform"];
const OWNERS: [&str; 4] = ["MockZulu", "MockYankee", "mock_xray", "mock_whiskey"];
impl C {
    fn name(self) -> &'static str {
        match self { Alpha | YAlpha => "alpha", Bravo => "bravo", Charlie | CharlieU => "charlie", Delta => "delta", Echo => "echo", Foxtrot => "foxtrot", Golf => "golf", Kilo | KiloN => "kilo",
            Life => "life", Oscar => "oscar", Papa => "papa", Tango | TangoN => "tango", Hotel => "hotel", India => "india", Quebec => "quebec", Romeo => "romeo", Sierra => "sierra", Lima => "lima",
            Mike | MikeN => "mike", Uniform => "uniform", November => "november" }
    }
    fn owner(self) -> &'static str {
        match self { YAlpha | Sierra => "MockYankee", Lima | Mike | MikeN | Uniform => "mock_xray", November => "mock_whiskey", _ => "MockZulu" }
    }
    /// How the arguments are shown, in order.  `None`: those that cannot be
    fn shown(self, x: &[u32]) -> Vec<String> {
        let a = |i: usize| format!("A{}", x[i]);
        let q = || "?".to_string();
        match self {
            Alpha | Lima | Romeo => vec![a(0), a(1)],
            Bravo => vec![],
            Charlie => vec![a(0), a(1)],
            CharlieU => vec![x[0].to_string(), a(1)],
            Delta | Oscar | Quebec => vec![a(0)],
            Echo => vec![a(0), format!("S{}", x[1]), q()],
            Foxtrot => vec![a(0), q(), q(), a(1)],
            Golf | India => vec![q(), a(0)],
            Kilo | KiloN => vec![a(0), q()],
            Life => vec![a(0), a(1)],
            Papa => vec!["Some".into(), a(0), q(), a(1), a(2), q()],
            Tango => vec![q(), a(0)],
            TangoN => vec![q(), a(0)],
            Hotel => (0..4).map(a).collect(),
            YAlpha => vec![a(0), q()],
            Sierra => vec![q(), a(0)],
            Mike | MikeN => vec![a(0), q()],
            Uniform => vec![q()],
            November => vec![x[0].to_string(), a(1)],
        }
    }
    /// Values of which expectations can be made with `eq`
    fn keys(self, x: &[u32]) -> Vec<u32> {
        match self {
            Alpha | Lima | Romeo | Charlie | CharlieU | November => vec![x[0], x[1]],
            Bravo | Uniform => vec![],
            Foxtrot => vec![x[0], x[1]],
            Hotel => x.to_vec(),
            Life | Kilo | KiloN | Papa => vec![],
            _ => vec![x[0]],
        }
    }
    fn obj(self) -> bool { !matches!(self, Delta | Tango | TangoN | India | Sierra | Lima | Mike | MikeN | Uniform | November) }
}

/// Words of a message; every character that is not part of a word and not '?' is ignored
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut w = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' { w.push(c); continue }
        if !w.is_empty() { v.push(std::mem::take(&mut w)) }
        if c == '?' { v.push("?".into()) }
    }
    v
}
fn is_tok(w: &str) -> bool { w == "?" || w == "Some" || w == "None" || (w.len() > 1 && (w.starts_with('A') || w.starts_with('S')) && w[1..].bytes().all(|b| b.is_ascii_digit())) }
fn nums(w: &[String]) -> Vec<u64> { w.iter().filter_map(|x| x.parse().ok()).collect() }

/// It names the right type and method, and no other
fn names(msg: &str, c: C) -> Verdict {
    let w = words(msg);
    for o in OWNERS {
        ensure!(w.iter().any(|x| x == o) == (o == c.owner()), "the message about {}::{} {} {o}: {msg}", c.owner(), c.name(), if o == c.owner() { "does not name" } else { "names" });
    }
    for n in METHODS.iter().chain(&["november"]) {
        ensure!(w.iter().any(|x| x == n) == (*n == c.name()), "the message about {}::{} {} {n}: {msg}", c.owner(), c.name(), if *n == c.name() { "does not name" } else { "names" });
    }
    Ok(())
}
/// It shows just these arguments
fn args(msg: &str, c: C, x: &[u32]) -> Verdict {
    // what comes before the method's name, or on further lines, is not about arguments
    let l = msg.lines().find(|l| words(l).iter().any(|w| w == c.name())).unwrap_or(msg);
    let w = words(l);
    let want = c.shown(x);
    let numeric = want.iter().any(|s| s.bytes().all(|b| b.is_ascii_digit()));
    let got: Vec<String> = w.into_iter().filter(|w| is_tok(w) || (numeric && w.bytes().all(|b| b.is_ascii_digit()))).collect();
    same!(got, want, "arguments in the message {msg:?}");
    Ok(())
}

struct Exp { c: C, keys: Option<Vec<u32>>, min: usize, max: usize, n: usize, prov: u8, seq: Option<usize> }
struct W {
    z: MockZulu, y: MockYankee<N>,
    delta: __mock_MockZulu::__delta::Context, tango: __mock_MockZulu::__tango::Context, india: __mock_MockZulu_Trt::__india::Context,
    sierra: Box<dyn FnMut(&Exp, usize, &mut Sequence)>,
    lima: mock_xray::__lima::Context, mike: mock_xray::__mike::Context, uniform: mock_xray::__uniform::Context, nov: mock_whiskey::__november::Context,
}

macro_rules! set { ($x:ident, $style:ident, $seq:ident, $e:expr, [$($pr:expr),*], |$($a:ident),*|, $ret:ident) => {{
    let e = $e;
    if $x.max == usize::MAX { if $x.min > 0 { e.times($x.min..); } } else if $x.min == $x.max { e.times($x.min); } else { e.times($x.min..=$x.max); }
    set!(@with $x, e, [$($pr),*]);
    if $x.keys.is_none() && $style == 1 { e.withf(|$($a),*| { let _ = ($(&$a,)*); true }); }
    set!(@ret $x, e, $ret, |$($a),*|);
    if $x.seq.is_some() { e.in_sequence($seq); }
}};
(@with $x:ident, $e:ident, []) => {};
(@with $x:ident, $e:ident, [$($pr:expr),+]) => { if $x.keys.is_some() { $e.with($($pr),+); } };
(@ret $x:ident, $e:ident, own, |$($a:ident),*|) => { match $x.prov { 0 => {} 1 => { $e.return_const(1u32); } 2 => { $e.return_once(|$($a),*| { $(let _ = $a;)* 1 }); } _ => { $e.returning(|$($a),*| { $(let _ = $a;)* 1 }); } } };
(@ret $x:ident, $e:ident, rf, |$($a:ident),*|) => { if $x.prov != 0 { $e.return_const(1u32); } };
(@ret $x:ident, $e:ident, mt, |$($a:ident),*|) => { match $x.prov { 0 => {} 1 => { $e.return_var(1u32); } _ => { $e.returning(|$($a),*| { $(let _ = $a;)* 1 }); } } };
}
fn expect(w: &mut W, x: &Exp, style: usize, seq: &mut Sequence) {
    macro_rules! go { ($($t:tt)*) => { set!(x, style, seq, $($t)*) } }
    let k = x.keys.clone().unwrap_or(vec![0; 4]);
    let a = |i: usize| eq(A(k[i]));
    match x.c {
        Alpha => go!(w.z.expect_alpha(), [a(0), a(1)], |p, q|, own),
        Bravo => go!(w.z.expect_bravo(), [], | |, own),
        Charlie => go!(w.z.expect_charlie::<A>(), [a(0), a(1)], |p, q|, own),
        CharlieU => go!(w.z.expect_charlie::<u32>(), [eq(k[0]), a(1)], |p, q|, own),
        Delta => { let mut g = w.delta.expect(); go!(g.times(..), [a(0)], |p|, own) }
        Echo => go!(w.z.expect_echo(), [a(0), always(), always()], |p, q, r|, rf),
        Foxtrot => go!(w.z.expect_foxtrot(), [a(0), always(), always(), a(1)], |p, q, r, s|, mt),
        Golf => go!(w.z.expect_golf(), [always(), a(0)], |p, q|, own),
        Kilo | KiloN => go!(w.z.expect_kilo(), [], |p, q|, own),
        Life => go!(w.z.expect_life(), [], |p, q|, own),
        Oscar => go!(w.z.expect_oscar(), [a(0)], |p|, own),
        Papa => go!(w.z.expect_papa(), [], |p, q, r, s|, own),
        Tango => { let mut g = w.tango.expect::<A>(); go!(g.times(..), [always(), a(0)], |p, q|, own) }
        TangoN => { let mut g = w.tango.expect::<N>(); go!(g.times(..), [always(), a(0)], |p, q|, own) }
        Hotel => go!(w.z.expect_hotel(), [a(0), a(1), a(2), a(3)], |p, q, r, s|, own),
        India => { let mut g = w.india.expect(); go!(g.times(..), [always(), a(0)], |p, q|, own) }
        Quebec => go!(w.z.expect_quebec(), [a(0)], |p|, own),
        Romeo => go!(w.z.expect_romeo(), [a(0), a(1)], |p, q|, own),
        YAlpha => go!(w.y.expect_alpha(), [a(0), always()], |p, q|, own),
        Sierra => (w.sierra)(x, style, seq),
        Lima => { let mut g = w.lima.expect(); go!(g.times(..), [a(0), a(1)], |p, q|, own) }
        Mike => { let mut g = w.mike.expect::<u8>(); go!(g.times(..), [a(0), always()], |p, q|, own) }
        MikeN => { let mut g = w.mike.expect::<N>(); go!(g.times(..), [a(0), always()], |p, q|, own) }
        Uniform => { let mut g = w.uniform.expect(); go!(g.times(..), [], |p|, own) }
        November => { let mut g = w.nov.expect(); go!(g.times(..), [eq(k[0]), a(1)], |p, q|, own) }
    }
}
fn sierra() -> Box<dyn FnMut(&Exp, usize, &mut Sequence)> {
    let cx = MockYankee::<N>::sierra_context();
    Box::new(move |x, style, seq| {
        let k = x.keys.clone().unwrap_or(vec![0]);
        let mut g = cx.expect();
        set!(x, style, seq, g.times(..), [always(), eq(A(k[0]))], |p, q|, own)
    })
}
fn call(w: &mut W, c: C, x: &[u32]) -> End {
    let a = |i: usize| A(x[i]);
    let n = N(x[3]);
    run(|| (match c {
        Alpha => w.z.alpha(a(0), a(1)),
        Bravo => w.z.bravo(),
        Charlie => w.z.charlie(a(0), a(1)),
        CharlieU => w.z.charlie(x[0], a(1)),
        Delta => MockZulu::delta(a(0)),
        Echo => *w.z.echo(&a(0), &format!("S{}", x[1]), n),
        Foxtrot => *w.z.foxtrot(a(0), n, &[n, n], a(1)),
        Golf => std::mem::take(&mut w.z).golf(n, a(0)),
        Kilo => w.z.kilo(a(0), a(1)),
        KiloN => w.z.kilo(a(0), n),
        Life => w.z.life(L(&x[0]), a(1)),
        Oscar => futures::executor::block_on(w.z.oscar(a(0))),
        Papa => w.z.papa(Some(a(0)), Some(n), vec![a(1), a(2)], (a(0), n)),
        Tango => MockZulu::tango(a(1), a(0)),
        TangoN => MockZulu::tango(n, a(0)),
        Hotel => w.z.hotel(a(0), a(1), a(2), a(3)),
        India => MockZulu::india(n, a(0)),
        Quebec => Trg::<u8>::quebec(&w.z, a(0)),
        Romeo => Trg::<u16>::romeo(&w.z, a(0), a(1)),
        YAlpha => w.y.alpha(a(0), n),
        Sierra => MockYankee::sierra(n, a(0)),
        Lima => mock_xray::lima(a(0), a(1)),
        Mike => mock_xray::mike(a(0), 5u8),
        MikeN => mock_xray::mike(a(0), n),
        Uniform => mock_xray::uniform(n),
        November => unsafe { mock_whiskey::november(x[0], a(1)) },
    }) as u64)
}

/// Does the message fit the expectation's matcher?
fn fits(msg: &str, e: &Exp) -> bool {
    let w = words(msg);
    let got: Vec<String> = w.iter().filter(|w| w.starts_with('A') && is_tok(w)).cloned().collect();
    let want: Vec<String> = match (&e.keys, e.c) {
        (None, _) => vec![],
        (Some(k), CharlieU | November) => { if !nums(&w).contains(&(k[0] as u64)) { return false } vec![format!("A{}", k[1])] }
        (Some(k), _) => k.iter().map(|k| format!("A{k}")).collect(),
    };
    got == want
}
/// A count violation: which expectation is blamed, rightly?
fn blame(msg: &str, cands: &[(usize, usize, usize)], es: &[Exp], low: bool) -> Result<usize, String> {
    let w = words(msg);
    let l = msg.to_lowercase();
    for (i, made, bound) in cands {
        let e = &es[*i];
        if !fits(msg, e) { continue }
        let mut ns = nums(&w);
        if let (Some(k), CharlieU | November) = (&e.keys, e.c) { if let Some(p) = ns.iter().position(|n| *n == k[0] as u64) { ns.remove(p); } }
        ns.sort();
        let mut want = vec![*made as u64, *bound as u64];
        want.sort();
        // calls that are forbidden altogether need no numbers
        let never = *bound == 0 && !low && ns.iter().all(|n| *n == *made as u64 || *n == 0);
        if ns != want && !never { continue }
        if low && (l.contains("more than") || l.contains("should not")) { continue }
        if !low && (l.contains("fewer") || l.contains("less than")) { continue }
        return Ok(*i);
    }
    Err(failed(format!("the message {msg:?} is not true of any failing expectation: (matcher keys, calls made, bound) {:?}",
        cands.iter().map(|(i, m, b)| (&es[*i].keys, m, b)).collect::<Vec<_>>())))
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    let mut w = W { z: MockZulu::new(), y: MockYankee::new(), delta: MockZulu::delta_context(), tango: MockZulu::tango_context(), india: MockZulu::india_context(),
        sierra: sierra(), lima: mock_xray::lima_context(), mike: mock_xray::mike_context(), uniform: mock_xray::uniform_context(), nov: mock_whiskey::november_context() };
    let mut seq = Sequence::new();
    let mut all: Vec<C> = ALL.to_vec();
    r.shuffle(&mut all);
    all.truncate(r.range(1, 5));
    let use_seq = r.chance(1, 3);
    let mut es: Vec<Exp> = vec![];
    // distinctive argument values
    let vals: Vec<u32> = (0..5).map(|i| 100_000 + i * 100_000 + r.below(99_999) as u32).collect();
    let mut members = 0;
    let mut uniq = 0;
    for _ in 0..r.range(1, 8) {
        // a concretized method has one set of expectations
        let c = match *r.pick(&all) { KiloN => Kilo, c => c };
        let x: Vec<u32> = (0..4).map(|_| *r.pick(&vals)).collect();
        let keys = c.keys(&x);
        let (mut min, mut max) = match r.below(6) { 0 => (0, usize::MAX), 1 => (r.range(1, 4), usize::MAX), 2 => { let n = r.below(3); (n, n + r.range(1, 4)) } 3 => (0, 0), _ => { let n = r.range(1, 5); (n, n) } };
        // one of two digits, to tell counts and bounds apart
        if r.chance(1, 3) && max > 0 { uniq += 1; min = 10 + uniq; if max != usize::MAX { max = min + [0, 7][r.below(2)]; } }
        let inseq = use_seq && min == max;
        let e = Exp { c, keys: if keys.is_empty() || r.chance(1, 3) { None } else { Some(keys) }, min, max, n: 0, prov: r.below(8) as u8 % 5, seq: if inseq { members += 1; Some(members - 1) } else { None } };
        m.op(format!("expect {c:?} keys {:?} {}..={} provider {} sequence {:?}", e.keys, e.min, e.max, e.prov, e.seq));
        expect(&mut w, &e, r.below(2), &mut seq);
        es.push(e);
    }
    let mut level = 0;
    let skip = |es: &[Exp], level: &mut usize| while let Some(e) = es.iter().find(|e| e.seq == Some(*level)) { if e.n >= e.max { *level += 1 } else { break } };
    skip(&es, &mut level);
    let mut retired = false;
    for _ in 0..r.range(3, 40) {
        let c = *r.pick(&all);
        // by-value calls consume the object and verify what it still holds
        if c == Golf && es.iter().any(|e| e.c.obj() && e.c.owner() == "MockZulu" && e.c != Golf) { continue }
        if c == Golf { let g: Vec<&Exp> = es.iter().filter(|e| e.c == Golf).collect(); if g.len() > 1 || g.iter().any(|e| e.min > 1 || e.max == 0 || e.n > 0 || e.prov == 0 || e.keys.is_some() || e.seq.is_some()) { continue } }
        let x: Vec<u32> = match es.iter().filter(|e| e.c == c && e.keys.is_some()).last() {
            Some(e) if r.chance(2, 3) => { let mut k = e.keys.clone().unwrap(); while k.len() < 4 { k.push(*r.pick(&vals)) } k }
            _ => (0..4).map(|_| *r.pick(&vals)).collect(),
        };
        let keys = c.keys(&x);
        let own = if c == KiloN { Kilo } else { c };
        let cand: Vec<usize> = (0..es.len()).filter(|i| es[*i].c == own && es[*i].keys.as_ref().is_none_or(|k| *k == keys)).collect();
        let hit = cand.iter().copied().find(|i| es[*i].n < es[*i].max);
        let end = call(&mut w, c, &x);
        m.op(format!("call {c:?} {:?} -> {end:?}", &x));
        m.count("calls");
        match hit {
            Some(i) => {
                es[i].n += 1;
                if es[i].seq.is_some_and(|s| s != level) {
                    let End::Msg(msg) = &end else { return Err(failed(format!("a call out of order ended with {end:?}"))) };
                    names(msg, c)?;
                    args(msg, c, &x)?;
                    m.count("sequence_messages");
                    retired = true;
                    break;
                }
                skip(&es, &mut level);
                let e = &es[i];
                match (e.prov, &end) {
                    (0, End::Msg(msg)) => { names(msg, c)?; ensure!(fits(msg, e), "the message {msg:?} is about an expectation for {:?}", e.keys); m.count("no_provider_messages"); }
                    (2, End::Msg(msg)) if e.n > 1 && !matches!(c, Echo | Foxtrot) => { names(msg, c)?; ensure!(fits(msg, e), "the message {msg:?} is about an expectation for {:?}", e.keys); m.count("once_messages"); }
                    (p, End::Val(1)) if p > 0 && (p != 2 || e.n == 1 || matches!(c, Echo | Foxtrot)) => { m.count("calls_answered"); if c == Golf { es[i].n = 0; es.retain(|e| e.c != Golf); } }
                    _ => return Err(failed(format!("call {c:?} {x:?} ended with {end:?}"))),
                }
            }
            None => {
                let End::Msg(msg) = &end else { return Err(failed(format!("a call which nothing accepts ended with {end:?}"))) };
                names(msg, c)?;
                // among several expectations, spent ones do not take part in matching
                if cand.is_empty() || (msg.to_lowercase().contains("no match") && es.iter().filter(|e| e.c == own).count() > 1) {
                    args(msg, c, &x)?;
                    m.count("no_match_messages");
                } else {
                    let cs: Vec<(usize, usize, usize)> = cand.iter().map(|i| (*i, es[*i].n + 1, es[*i].max)).collect();
                    let i = blame(msg, &cs, &es, false)?;
                    es[i].n += 1;
                    m.count("too_many_messages");
                    if es[i].seq.is_some() { retired = true; break }
                }
            }
        }
    }
    if retired {
        same!(run(|| { let _w = w; panic_any(Marker) }), End::Marker, "teardown while unwinding");
        return Ok(());
    }
    let W { mut z, y, delta, tango, india, sierra, lima, mike, uniform, nov } = w;
    let ck = r.chance(1, 3);
    type Sel = fn(C) -> bool;
    let ends: Vec<(End, Sel)> = vec![
        (run(|| { if ck { z.checkpoint() } drop(z); 0 }), |c| c.obj() && c.owner() == "MockZulu"),
        (run(|| { drop(y); 0 }), |c| c == YAlpha),
        (run(|| { if ck { delta.checkpoint() } drop(delta); 0 }), |c| c == Delta),
        (run(|| { drop(tango); 0 }), |c| matches!(c, Tango | TangoN)),
        (run(|| { drop(india); 0 }), |c| c == India),
        (run(|| { drop(sierra); 0 }), |c| c == Sierra),
        (run(|| { if ck { lima.checkpoint() } drop(lima); 0 }), |c| c == Lima),
        (run(|| { drop(mike); 0 }), |c| matches!(c, Mike | MikeN)),
        (run(|| { drop(uniform); 0 }), |c| c == Uniform),
        (run(|| { drop(nov); 0 }), |c| c == November),
    ];
    for (end, sel) in ends {
        let low: Vec<_> = (0..es.len()).filter(|i| sel(es[*i].c) && es[*i].n < es[*i].min).map(|i| (i, es[i].n, es[i].min)).collect();
        let high: Vec<_> = (0..es.len()).filter(|i| sel(es[*i].c) && es[*i].n > es[*i].max).map(|i| (i, es[i].n, es[i].max)).collect();
        match &end {
            End::Val(0) if low.is_empty() && high.is_empty() => m.count("verifications_passed"),
            End::Msg(msg) if !low.is_empty() || !high.is_empty() => {
                let mut cs = low.clone();
                cs.extend(&high);
                // whose is it?
                let who: Vec<C> = cs.iter().map(|x| es[x.0].c).filter(|c| words(msg).iter().any(|w| w == c.name())).collect();
                ensure!(!who.is_empty(), "the message {msg:?} names none of the failing methods {:?}", cs.iter().map(|x| es[x.0].c).collect::<Vec<_>>());
                names(msg, who[0])?;
                let of = |v: &[(usize, usize, usize)]| v.iter().filter(|x| es[x.0].c.name() == who[0].name()).copied().collect::<Vec<_>>();
                if blame(msg, &of(&low), &es, true).is_err() { vh::mon::forget(); blame(msg, &of(&high), &es, false)?; }
                m.count("verification_messages");
            }
            _ => return Err(failed(format!("verification ended with {end:?}; too few: {low:?}, too many: {high:?}"))),
        }
    }
    Ok(())
}
