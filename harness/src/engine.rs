//! Generates and executes histories of operations on real mocks, comparing
//! every observable outcome with the model.
use crate::model::{self, Class, MExp, Out, Pred, Seqs};
use crate::rng::Rng;
use crate::shape::{ChanInfo, Shape};
use crate::spec::*;
use mockall::Sequence;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::panic_any;

pub type Make = fn() -> Box<dyn Shape>;
pub type Zoo = Vec<(&'static str, &'static [&'static str], Make)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(usize, usize),
    Drop(usize),
    DropUnwind(usize),
    Expect(usize, usize, Spec),
    Call(usize, usize, u32, u32),
    /// Many identical calls
    Burst(usize, usize, u32, u32, usize),
    CallThread(usize, usize, u32, u32),
    Checkpoint(usize),
    CtxOpen(usize, usize),
    CtxDrop(usize, usize),
    CtxDropUnwind(usize, usize),
    CtxCheckpoint(usize, usize),
    SeqNew(usize),
}

#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    /// Shapes to use: those having any of these tags (empty: all)
    pub tags: &'static [&'static str],
    pub slots: usize,
    pub ops: (usize, usize),
    pub max_chans: usize,
    // weights: expect, call, burst, callthread, checkpoint, drop, dropunwind,
    // ctxopen, ctxdrop, ctxdropunwind, ctxcheckpoint, seqnew
    pub w: [u32; 12],
    pub p_seq: usize,
    pub p_times: usize,
    pub p_mat: usize,
    pub p_ret: usize,
    pub p_panic: usize,
    pub p_override: usize,
    pub p_bad: usize,
    pub p_big: usize,
    pub seqs: usize,
    /// Prefer specific providers
    pub ret_w: [u32; 7], // c cs o os f fs v
    pub seq_in_order: usize,
    pub p_viol: usize,
    pub bursts: &'static [usize],
    pub big: &'static [usize],
}
impl Profile {
    pub fn base(name: &'static str) -> Profile {
        Profile {
            name,
            tags: &[],
            slots: 3,
            ops: (20, 90),
            max_chans: 6,
            w: [30, 60, 1, 2, 3, 3, 1, 8, 3, 1, 2, 1],
            p_seq: 10,
            p_times: 60,
            p_mat: 70,
            p_ret: 95,
            p_panic: 3,
            p_override: 10,
            p_bad: 2,
            p_big: 3,
            seqs: 2,
            ret_w: [3, 2, 2, 1, 8, 2, 4],
            seq_in_order: 60,
            p_viol: 10,
            bursts: &[5, 20, 130, 254, 255, 256, 257, 300],
            big: &[9, 16, 100, 127, 200, 254, 255, 256, 257, 300],
        }
    }
}

struct Slot {
    kind: usize,
    shape: Box<dyn Shape>,
    infos: Vec<ChanInfo>,
    chans: Vec<Vec<MExp>>,
    open: Vec<bool>,
    /// the channels this history uses in this slot
    focus: Vec<usize>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub histories: u64,
    pub nontrivial: u64,
    pub ops: u64,
    pub calls: u64,
    pub ok_calls: u64,
    pub spilled: u64,
    pub panics: BTreeMap<String, u64>,
    pub user_panics: u64,
    pub verifications: u64,
    pub failed_verifications: u64,
    pub matcher_evals: u64,
    pub ret_evals: u64,
    pub expects: u64,
    pub seq_members: u64,
    pub unwinds: u64,
    pub chans: BTreeSet<String>,
    pub provs: BTreeSet<String>,
    pub times_forms: BTreeSet<String>,
    pub sigs: BTreeSet<u64>,
}

pub struct World<'z> {
    zoo: &'z Zoo,
    slots: Vec<Option<Slot>>,
    seqs: Vec<Sequence>,
    pool: Vec<usize>,
    sm: Seqs,
    uid: u64,
    pub stats: Stats,
    pub sig: u64,
}

fn fmt_end(e: &End) -> String { format!("{e:?}") }

impl<'z> World<'z> {
    pub fn new(zoo: &'z Zoo, p: &Profile) -> Self {
        let mut w = World {
            zoo,
            slots: (0..p.slots).map(|_| None).collect(),
            seqs: vec![],
            pool: vec![],
            sm: Seqs::default(),
            uid: 0,
            stats: Stats::default(),
            sig: 0,
        };
        for _ in 0..p.seqs {
            w.seqs.push(Sequence::new());
            w.pool.push(w.sm.level.len());
            w.sm.level.push(0);
            w.sm.next.push(0);
        }
        w
    }

    fn complaints(&self) -> Result<(), String> {
        let mut g = COMPLAINTS.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_empty() {
            Ok(())
        } else {
            let s = g.join("; ");
            g.clear();
            Err(s)
        }
    }

    /// Compare one guarded execution with the prediction
    fn judge(&self, what: &str, want: &Out, got: &End) -> Result<(), String> {
        let ok = match (want, got) {
            (Out::Val(v), End::Val(w)) => v == w,
            (Out::User(u), End::User(w)) => u == w,
            (Out::UserStr(u), End::Msg(w)) => u == w,
            (Out::Mock(c), End::Msg(m)) => match Class::of(m) {
                Some(c2) => *c == c2,
                None => !m.starts_with("user panic") && !m.contains("Poison") && !m.starts_with("<foreign"),
            },
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{what}: expected {want:?}, got {}", fmt_end(got)))
        }
    }

    /// Does verification of these expectations fail?
    fn verdict(chans: &[&Vec<MExp>]) -> Vec<Class> {
        let mut v: Vec<Class> = vec![];
        for c in chans {
            for e in c.iter() {
                if let Some(b) = e.bad() {
                    if !v.contains(&b) {
                        v.push(b);
                    }
                }
            }
        }
        v
    }

    fn judge_verify(&mut self, what: &str, want: &[Class], got: &End) -> Result<(), String> {
        self.stats.verifications += 1;
        match got {
            End::Val(_) if want.is_empty() => Ok(()),
            End::Msg(m) if !want.is_empty() => {
                self.stats.failed_verifications += 1;
                match Class::of(m) {
                    Some(c) if want.contains(&c) => Ok(()),
                    None if !m.contains("Poison") => Ok(()),
                    _ => Err(format!("{what}: verification must fail with {want:?}, got {m}")),
                }
            }
            _ => Err(format!(
                "{what}: verification must {}, got {}",
                if want.is_empty() { "pass".to_string() } else { format!("fail with {want:?}") },
                fmt_end(got)
            )),
        }
    }

    /// Drop the slot's remains while unwinding; must be silent.
    fn drop_unwinding(&mut self, i: usize) -> Result<(), String> {
        let Some(s) = self.slots[i].take() else { return Ok(()) };
        self.stats.unwinds += 1;
        let sh = s.shape;
        let r = run(move || {
            let _keep = sh;
            panic_any(Marker)
        });
        if r != End::Marker {
            return Err(format!("drop during unwinding: the original panic was replaced by {}", fmt_end(&r)));
        }
        self.complaints()
    }

    fn retire_seq(&mut self, seq: usize) -> Result<(), String> {
        for i in 0..self.slots.len() {
            let hit = self.slots[i].as_ref().is_some_and(|s| {
                s.chans.iter().flatten().any(|e| e.seq.is_some_and(|x| x.0 == seq))
            });
            if hit {
                self.drop_unwinding(i)?;
            }
        }
        Ok(())
    }

    fn do_call(&mut self, i: usize, ch: usize, a: u32, b: u32, thread: bool) -> Result<bool, String> {
        let Some(s) = self.slots[i].as_mut() else { return Ok(false) };
        let Some(info) = s.infos.get(ch).cloned() else { return Ok(false) };
        if info.free.is_none() && !s.shape.alive() {
            return Ok(false);
        }
        let a = if info.arity >= 1 { a } else { 0 };
        let b = if info.arity >= 2 { b } else { 0 };
        if thread {
            // Single-threaded providers are another property's business
            let st = |e: &MExp| {
                e.ret.as_ref().is_some_and(|r| {
                    matches!(r.kind, RetKind::ConstSt | RetKind::OnceSt | RetKind::FnSt)
                }) || matches!(e.mat, Some(Mat::WithfSt(..)))
            };
            if info.free.is_none() || s.chans[ch].iter().any(st) {
                return Ok(false);
            }
        }
        let exps = &mut s.chans[ch];
        let Some(p) = model::call(exps, &mut self.sm, info.arity, info.canon, a, b, true) else {
            return Ok(false);
        };
        self.stats.calls += 1;
        EVENTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
        set_cur(a, b);
        let got = if thread {
            let f = info.free.unwrap();
            std::thread::spawn(move || run(move || f(a, b))).join().unwrap()
        } else {
            let sh = &mut s.shape;
            run(|| sh.call(ch, a, b))
        };
        unset_cur();
        let evs = std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()));
        let what = format!("call of {}.{}({a},{b})", s.shape.name(), info.name);
        let mut want = p.out.clone();
        let consumed = info.consumes;
        let mut bad = vec![];
        if consumed {
            if let Out::Val(_) = want {
                let cs: Vec<&Vec<MExp>> = s
                    .chans
                    .iter()
                    .zip(&s.infos)
                    .filter(|(_, n)| n.group.is_none())
                    .map(|(c, _)| c)
                    .collect();
                bad = Self::verdict(&cs);
                if let Some(c) = bad.first() {
                    want = Out::Mock(c.clone());
                }
            }
        }
        if !bad.is_empty() {
            self.judge_verify(&what, &bad, &got)?;
        } else {
            self.judge(&what, &want, &got)?;
        }
        let want_evs: Vec<Ev> = p.ev.clone().into_iter().collect();
        if evs != want_evs {
            return Err(format!("{what}: expected callbacks {want_evs:?}, observed {evs:?}"));
        }
        self.complaints().map_err(|e| format!("{what}: {e}"))?;
        // statistics
        let s = self.slots[i].as_mut().unwrap();
        self.stats.chans.insert(format!("{}.{}", s.shape.name(), info.name));
        match &p {
            Pred { out: Out::Val(_), idx, .. } => {
                self.stats.ok_calls += 1;
                if *idx != Some(0) {
                    self.stats.spilled += 1;
                }
            }
            Pred { out: Out::Mock(c), .. } => *self.stats.panics.entry(format!("{c:?}")).or_default() += 1,
            _ => self.stats.user_panics += 1,
        }
        self.sig = crate::rng::mix(&[
            self.sig,
            ch as u64,
            p.idx.map(|x| x as u64 + 1).unwrap_or(0),
            matches!(p.out, Out::Val(_)) as u64,
        ]);
        let violated = match &p {
            Pred { out: Out::Mock(Class::Sequence), idx: Some(ix), .. } => s.chans[ch][*ix].seq,
            _ => None,
        };
        if consumed {
            for (c, n) in s.chans.iter_mut().zip(&s.infos) {
                if n.group.is_none() {
                    c.clear();
                }
            }
            if s.open.iter().all(|x| !x) {
                self.slots[i] = None;
            }
        }
        if let Some((sq, _)) = violated {
            // after a sequence violation nothing more is promised about the
            // sequence's members
            self.retire_seq(sq)?;
        }
        Ok(true)
    }

    pub fn exec(&mut self, op: &Op) -> Result<bool, String> {
        match op {
            Op::New(i, kind) => {
                if self.slots[*i].is_some() {
                    return Ok(false);
                }
                let shape = (self.zoo[*kind].2)();
                let infos = shape.infos();
                let has_static = infos.iter().any(|n| n.group.is_some());
                if has_static
                    && self.slots.iter().flatten().any(|s| s.kind == *kind)
                {
                    return Ok(false); // globals: one owner at a time
                }
                let n = infos.len();
                self.slots[*i] = Some(Slot {
                    kind: *kind,
                    shape,
                    infos,
                    chans: vec![vec![]; n],
                    open: vec![false; n],
                    focus: vec![],
                });
                Ok(true)
            }
            Op::Drop(i) => {
                let Some(s) = self.slots[*i].as_mut() else { return Ok(false) };
                let name = s.shape.name();
                if s.shape.alive() {
                    let cs: Vec<&Vec<MExp>> = s
                        .chans
                        .iter()
                        .zip(&s.infos)
                        .filter(|(_, n)| n.group.is_none())
                        .map(|(c, _)| c)
                        .collect();
                    let want = Self::verdict(&cs);
                    let sh = &mut s.shape;
                    let got = run(|| {
                        sh.drop_obj();
                        0
                    });
                    self.judge_verify(&format!("drop of {name}"), &want, &got)?;
                }
                let opens: Vec<usize> = {
                    let s = self.slots[*i].as_ref().unwrap();
                    (0..s.open.len()).filter(|c| s.open[*c]).collect()
                };
                for c in opens {
                    self.exec(&Op::CtxDrop(*i, c))?;
                }
                self.slots[*i] = None;
                self.complaints()?;
                Ok(true)
            }
            Op::DropUnwind(i) => {
                if self.slots[*i].is_none() {
                    return Ok(false);
                }
                self.drop_unwinding(*i)?;
                Ok(true)
            }
            Op::Expect(i, ch, spec) => {
                let Some(s) = self.slots[*i].as_mut() else { return Ok(false) };
                let Some(info) = s.infos.get(*ch).cloned() else { return Ok(false) };
                if info.group.is_some() && !s.open[*ch] {
                    return Ok(false);
                }
                if info.group.is_none() && !s.shape.alive() {
                    return Ok(false);
                }
                self.uid += 1;
                let mut e = MExp::new(self.uid);
                let want = model::configure(&mut e, spec, &mut self.sm, &self.pool, info.canon);
                let sh = &mut s.shape;
                let seqs = &mut self.seqs;
                let got = run(|| {
                    sh.expect(*ch, spec, seqs);
                    0
                });
                let what = format!("configuring {}.{}", s.shape.name(), info.name);
                if e.seq.is_some() {
                    self.stats.seq_members += 1;
                }
                if let Some(r) = &e.ret {
                    self.stats.provs.insert(format!("{:?}", r.kind));
                }
                for st in &spec.steps {
                    if let Step::Times(t) = st {
                        let n = format!("{t:?}");
                        self.stats.times_forms.insert(n.split('(').next().unwrap().to_string());
                    }
                }
                self.stats.expects += 1;
                s.chans[*ch].push(e);
                let want = match want {
                    Ok(()) => Out::Val(0),
                    Err(c) => Out::Mock(c),
                };
                self.judge(&what, &want, &got)?;
                self.complaints()?;
                Ok(true)
            }
            Op::Call(i, ch, a, b) => self.do_call(*i, *ch, *a, *b, false),
            Op::CallThread(i, ch, a, b) => self.do_call(*i, *ch, *a, *b, true),
            Op::Burst(i, ch, a, b, n) => {
                let mut any = false;
                let ok = self.stats.ok_calls;
                for k in 0..*n {
                    // a long run of failures teaches nothing new
                    if k as u64 > self.stats.ok_calls - ok + 60 {
                        break;
                    }
                    if !self.do_call(*i, *ch, *a, *b, false)? {
                        break;
                    }
                    any = true;
                }
                Ok(any)
            }
            Op::Checkpoint(i) => {
                let Some(s) = self.slots[*i].as_mut() else { return Ok(false) };
                if !s.shape.alive() {
                    return Ok(false);
                }
                let module = s.shape.is_module();
                let sel: Vec<bool> = s.infos.iter().map(|n| n.group.is_some() == module).collect();
                let want = {
                    let cs: Vec<&Vec<MExp>> =
                        s.chans.iter().zip(&sel).filter(|x| *x.1).map(|x| x.0).collect();
                    Self::verdict(&cs)
                };
                for (c, y) in s.chans.iter_mut().zip(&sel) {
                    if *y {
                        c.clear();
                    }
                }
                let sh = &mut s.shape;
                let got = run(|| {
                    sh.checkpoint();
                    0
                });
                let name = s.shape.name();
                self.judge_verify(&format!("checkpoint of {name}"), &want, &got)?;
                if !want.is_empty() {
                    // a failed checkpoint ends the test; whatever it left
                    // behind is unspecified
                    self.drop_unwinding(*i)?;
                }
                self.complaints()?;
                Ok(true)
            }
            Op::CtxOpen(i, ch) => {
                let Some(s) = self.slots[*i].as_mut() else { return Ok(false) };
                let Some(info) = s.infos.get(*ch) else { return Ok(false) };
                if info.group.is_none() || s.open[*ch] {
                    return Ok(false);
                }
                let sh = &mut s.shape;
                let got = run(|| {
                    sh.ctx_open(*ch);
                    0
                });
                s.open[*ch] = true;
                self.judge("opening a context", &Out::Val(0), &got)?;
                Ok(true)
            }
            Op::CtxDrop(i, ch) | Op::CtxDropUnwind(i, ch) | Op::CtxCheckpoint(i, ch) => {
                let Some(s) = self.slots[*i].as_mut() else { return Ok(false) };
                let Some(info) = s.infos.get(*ch) else { return Ok(false) };
                if info.group.is_none() || !s.open[*ch] {
                    return Ok(false);
                }
                let g = info.group;
                let sel: Vec<bool> = s.infos.iter().map(|n| n.group == g).collect();
                let want = {
                    let cs: Vec<&Vec<MExp>> =
                        s.chans.iter().zip(&sel).filter(|x| *x.1).map(|x| x.0).collect();
                    Self::verdict(&cs)
                };
                for (c, y) in s.chans.iter_mut().zip(&sel) {
                    if *y {
                        c.clear();
                    }
                }
                let sh = &mut s.shape;
                match op {
                    Op::CtxDropUnwind(..) => {
                        s.open[*ch] = false;
                        let got = run(|| {
                            struct D<'a>(&'a mut Box<dyn Shape>, usize);
                            impl Drop for D<'_> {
                                fn drop(&mut self) { self.0.ctx_drop(self.1) }
                            }
                            let _d = D(sh, *ch);
                            panic_any(Marker)
                        });
                        self.stats.unwinds += 1;
                        if got != End::Marker {
                            return Err(format!("context dropped while unwinding: got {}", fmt_end(&got)));
                        }
                    }
                    Op::CtxDrop(..) => {
                        s.open[*ch] = false;
                        let got = run(|| {
                            sh.ctx_drop(*ch);
                            0
                        });
                        let n = s.shape.name();
                        self.judge_verify(&format!("context drop of {n} chan {ch}"), &want, &got)?;
                    }
                    _ => {
                        let got = run(|| {
                            sh.ctx_checkpoint(*ch);
                            0
                        });
                        let n = s.shape.name();
                        self.judge_verify(&format!("context checkpoint of {n} chan {ch}"), &want, &got)?;
                    }
                }
                self.complaints()?;
                Ok(true)
            }
            Op::SeqNew(k) => {
                if *k >= self.seqs.len() {
                    return Ok(false);
                }
                self.seqs[*k] = Sequence::new(); // members of the old one live on
                self.pool[*k] = self.sm.level.len();
                self.sm.level.push(0);
                self.sm.next.push(0);
                Ok(true)
            }
        }
    }

    /// End of history: everything goes away, judged.
    pub fn finish(&mut self) -> Result<(), String> {
        for i in 0..self.slots.len() {
            self.exec(&Op::Drop(i))?;
        }
        Ok(())
    }
    /// Clean up without judging (after a mismatch)
    pub fn abandon(&mut self) {
        for i in 0..self.slots.len() {
            let _ = self.drop_unwinding(i);
        }
        let _ = self.complaints();
    }

    // ---------------- generation ----------------
    fn gen_times(&self, r: &mut Rng, p: &Profile) -> TimesSpec {
        use TimesSpec::*;
        if r.chance(p.p_bad, 100) {
            return match r.below(5) {
                0 => Range(3, 1 + r.below(3)),
                1 => Incl(2 + r.below(3), r.below(2)),
                2 => To(0),
                3 => {
                    let a = r.below(5);
                    Range(a, a)
                }
                _ => Range(300, 299),
            };
        }
        if r.chance(p.p_big, 100) {
            let base = *r.pick(p.big);
            return match r.below(6) {
                0 => N(base),
                1 => Range(base, base + 1 + r.below(3)),
                2 => To(base + 1),
                3 => From(base),
                4 => ToIncl(base),
                _ => N((1usize << *r.pick(&[16, 31, 32, 33, 40])) + r.below(3)),
            };
        }
        let a = r.weighted(&[2, 5, 4, 2, 1]);
        let b = a + r.below(4);
        match r.weighted(&[6, 3, 3, 2, 2, 3, 1, 3, 2]) {
            0 => N(a),
            1 => Range(a, b + 1),
            2 => Incl(a, b),
            3 => To(b + 1),
            4 => ToIncl(b),
            5 => From(a),
            6 => Full,
            7 => Once,
            _ => Never,
        }
    }
    fn gen_mat(&self, r: &mut Rng, p: &Profile, info: &ChanInfo, via_guard: bool) -> Mat {
        let dense = |r: &mut Rng| -> u16 {
            match r.below(4) {
                0 => 1u16 << r.below(16),
                1 => (r.next() as u16) & (r.next() as u16),
                2 => r.next() as u16,
                _ => (r.next() as u16) | (r.next() as u16),
            }
        };
        if info.with && r.chance(1, 2) {
            Mat::With(
                (0..info.arity)
                    .map(|_| {
                        let mask = match r.below(6) {
                            0 => 15,
                            1 | 2 => 1 << r.below(4),
                            3 => 15 ^ (1 << r.below(4)),
                            _ => (r.next() & 15) as u8,
                        };
                        Pr { mask, style: r.below(4) as u8 }
                    })
                    .collect(),
            )
        } else {
            let m = dense(r);
            let pan = if r.chance(p.p_panic, 100) { 1u16 << r.below(16) } else { 0 };
            if r.chance(1, 3) && !via_guard {
                Mat::WithfSt(m, pan)
            } else {
                Mat::Withf(m, pan)
            }
        }
    }
    fn gen_ret(&mut self, r: &mut Rng, p: &Profile, info: &ChanInfo) -> Ret {
        let all = [
            RetKind::Const,
            RetKind::ConstSt,
            RetKind::Once,
            RetKind::OnceSt,
            RetKind::Fn,
            RetKind::FnSt,
            RetKind::Var,
        ];
        let ks: Vec<RetKind> = all.iter().copied().filter(|k| info.rets.contains(k)).collect();
        let ws: Vec<u32> = ks
            .iter()
            .map(|k| p.ret_w[all.iter().position(|x| x == k).unwrap()].max(1))
            .collect();
        let kind = ks[r.weighted(&ws)];
        self.uid += 1;
        let id = self.uid * 1000 + 7;
        let panic_at = if r.chance(p.p_panic, 100)
            && matches!(kind, RetKind::Once | RetKind::OnceSt | RetKind::Fn | RetKind::FnSt)
        {
            1 + r.below(3) as u32
        } else {
            0
        };
        Ret { kind, id, panic_at, panic_str: r.chance(1, 3) }
    }
    fn gen_spec(&mut self, r: &mut Rng, p: &Profile, info: &ChanInfo) -> Spec {
        let via_guard = r.chance(1, 2);
        let mut steps = vec![];
        let mut seq = None;
        if r.chance(p.p_seq, 100) && !self.pool.is_empty() {
            seq = Some(r.below(self.pool.len()));
        }
        let mut times: Vec<Step> = vec![];
        if seq.is_some() && !r.chance(p.p_bad, 100) {
            let n = r.weighted(&[1, 8, 3, 2, 1]);
            times.push(Step::Times(if n == 1 && r.chance(1, 3) {
                TimesSpec::Once
            } else if n == 0 && r.chance(1, 2) {
                TimesSpec::Never
            } else if r.chance(1, 4) {
                TimesSpec::Incl(n, n)
            } else if r.chance(1, 4) {
                TimesSpec::Range(n, n + 1)
            } else {
                TimesSpec::N(n)
            }));
        } else if r.chance(p.p_times, 100) {
            times.push(Step::Times(self.gen_times(r, p)));
        }
        if !times.is_empty() && r.chance(p.p_override, 100) {
            let t = self.gen_times(r, p);
            times.insert(0, Step::Times(t));
        }
        let mut others: Vec<Step> = vec![];
        if r.chance(p.p_mat, 100) {
            others.push(Step::Mat(self.gen_mat(r, p, info, via_guard)));
            if r.chance(p.p_override, 100) {
                others.push(Step::Mat(self.gen_mat(r, p, info, via_guard)));
            }
        }
        if r.chance(p.p_ret, 100) {
            others.push(Step::Ret(self.gen_ret(r, p, info)));
            if r.chance(p.p_override, 100) {
                let mut x = self.gen_ret(r, p, info);
                x.id += 1;
                others.push(Step::Ret(x));
            }
        }
        r.shuffle(&mut others);
        // interleave, keeping the order of `times`
        let mut ti = times.into_iter().peekable();
        let mut oi = others.into_iter().peekable();
        while ti.peek().is_some() || oi.peek().is_some() {
            if ti.peek().is_some() && (oi.peek().is_none() || r.chance(1, 2)) {
                steps.push(ti.next().unwrap());
            } else {
                steps.push(oi.next().unwrap());
            }
        }
        if let Some(k) = seq {
            // after the last Times
            let lo = steps.iter().rposition(|s| matches!(s, Step::Times(_))).map(|x| x + 1).unwrap_or(0);
            let at = r.range(lo, steps.len() + 1);
            steps.insert(at, Step::Seq(k));
        }
        Spec { steps, via_guard }
    }

    fn gen_call(&self, r: &mut Rng, p: &Profile) -> Option<(usize, usize, u32, u32)> {
        let live: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect();
        if live.is_empty() {
            return None;
        }
        // Often: advance a sequence in order
        if r.chance(p.seq_in_order, 100) {
            let mut cands = vec![];
            for &i in &live {
                let s = self.slots[i].as_ref().unwrap();
                for (ch, c) in s.chans.iter().enumerate() {
                    for (ei, e) in c.iter().enumerate() {
                        if let Some((q, pos)) = e.seq {
                            if self.sm.level[q] == pos && !e.done() {
                                cands.push((i, ch, ei));
                            }
                        }
                    }
                }
            }
            if !cands.is_empty() {
                let (i, ch, ei) = *r.pick(&cands);
                let s = self.slots[i].as_ref().unwrap();
                let inf = &s.infos[ch];
                let mut c2 = s.chans[ch].clone();
                let mut sm = self.sm.clone();
                let off = r.below(16) as u32;
                for k in 0..16u32 {
                    let x = (k + off) % 16;
                    let (a, b) = (if inf.arity > 0 { x / 4 } else { 0 }, if inf.arity > 1 { x % 4 } else { 0 });
                    if let Some(pr) = model::call(&mut c2, &mut sm, inf.arity, inf.canon, a, b, false) {
                        if pr.idx == Some(ei) {
                            return Some((i, ch, a, b));
                        }
                    }
                }
            }
        }
        let mut i = *r.pick(&live);
        let mut ch = *r.pick(&self.slots[i].as_ref().unwrap().focus);
        if !r.chance(1, 8) {
            // a channel with expectations
            let mut c = vec![];
            for &i in &live {
                let s = self.slots[i].as_ref().unwrap();
                for (ch, e) in s.chans.iter().enumerate() {
                    if !e.is_empty() {
                        c.push((i, ch));
                    }
                }
            }
            if !c.is_empty() {
                (i, ch) = *r.pick(&c);
            }
        }
        let s = self.slots[i].as_ref().unwrap();
        let inf = &s.infos[ch];
        let mut best = None;
        // Prefer calls which succeed, most of the time; consuming calls rarely
        let tries = if r.chance(1, 4) { 1 } else { 8 };
        for _ in 0..tries {
            let (a, b) = (r.below(4) as u32, r.below(4) as u32);
            let (a, b) = (if inf.arity > 0 { a } else { 0 }, if inf.arity > 1 { b } else { 0 });
            best = Some((i, ch, a, b));
            let mut c2 = s.chans[ch].clone();
            let mut sm = self.sm.clone();
            if let Some(pr) = model::call(&mut c2, &mut sm, inf.arity, inf.canon, a, b, false) {
                let violates = matches!(pr.out, Out::Mock(Class::Sequence));
                if violates && !r.chance(p.p_viol, 100) {
                    best = None;
                } else if pr.idx.is_some() {
                    break;
                }
            }
        }
        best
    }

    pub fn gen(&mut self, r: &mut Rng, p: &Profile, kinds: &[usize]) -> Option<Op> {
        // keep slots populated
        for i in 0..self.slots.len() {
            if self.slots[i].is_none() && r.chance(1, 2) {
                return Some(Op::New(i, *r.pick(kinds)));
            }
        }
        for s in self.slots.iter_mut().flatten() {
            if s.focus.is_empty() {
                let n = s.infos.len();
                let mut all: Vec<usize> = (0..n).collect();
                r.shuffle(&mut all);
                // consuming channels at most one
                let k = 1 + r.below(p.max_chans.min(n));
                all.truncate(k);
                s.focus = all;
            }
        }
        let live: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].is_some()).collect();
        if live.is_empty() {
            return None;
        }
        let pick_static = |r: &mut Rng, slots: &Vec<Option<Slot>>, open: Option<bool>| {
            let mut c = vec![];
            for &i in &live {
                let s = slots[i].as_ref().unwrap();
                for &ch in &s.focus {
                    if s.infos[ch].group.is_some() && open.map_or(true, |o| s.open[ch] == o) {
                        c.push((i, ch));
                    }
                }
            }
            if c.is_empty() { None } else { Some(*r.pick(&c)) }
        };
        Some(match r.weighted(&p.w) {
            0 => {
                let i = *r.pick(&live);
                let s = self.slots[i].as_ref().unwrap();
                let ch = *r.pick(&s.focus);
                let info = s.infos[ch].clone();
                if info.group.is_some() && !s.open[ch] {
                    return Some(Op::CtxOpen(i, ch));
                }
                let spec = self.gen_spec(r, p, &info);
                Op::Expect(i, ch, spec)
            }
            1 => {
                let (i, ch, a, b) = self.gen_call(r, p)?;
                // consuming calls end the object; make them rare
                if self.slots[i].as_ref().unwrap().infos[ch].consumes && !r.chance(1, 5) {
                    return None;
                }
                Op::Call(i, ch, a, b)
            }
            2 => {
                let (i, ch, a, b) = self.gen_call(r, p)?;
                let s = self.slots[i].as_ref().unwrap();
                if s.infos[ch].consumes || s.chans[ch].is_empty() {
                    return None;
                }
                Op::Burst(i, ch, a, b, *r.pick(p.bursts))
            }
            3 => {
                let (i, ch) = pick_static(r, &self.slots, None)?;
                Op::CallThread(i, ch, r.below(4) as u32, r.below(4) as u32)
            }
            4 => Op::Checkpoint(*r.pick(&live)),
            5 => Op::Drop(*r.pick(&live)),
            6 => Op::DropUnwind(*r.pick(&live)),
            7 => {
                let (i, ch) = pick_static(r, &self.slots, Some(false))?;
                Op::CtxOpen(i, ch)
            }
            8 => {
                let (i, ch) = pick_static(r, &self.slots, Some(true))?;
                Op::CtxDrop(i, ch)
            }
            9 => {
                let (i, ch) = pick_static(r, &self.slots, Some(true))?;
                Op::CtxDropUnwind(i, ch)
            }
            10 => {
                let (i, ch) = pick_static(r, &self.slots, Some(true))?;
                Op::CtxCheckpoint(i, ch)
            }
            _ => Op::SeqNew(r.below(self.pool.len().max(1))),
        })
    }
}

pub struct Failure {
    pub why: String,
    pub ops: Vec<Op>,
}

/// Run a given list of operations
pub fn replay(zoo: &Zoo, p: &Profile, ops: &[Op], trace: bool) -> Result<(), String> {
    let mut w = World::new(zoo, p);
    for op in ops {
        if trace {
            eprintln!("OP {}", show(zoo, op));
        }
        if let Err(e) = w.exec(op) {
            w.abandon();
            return Err(e);
        }
    }
    if let Err(e) = w.finish() {
        w.abandon();
        return Err(e);
    }
    Ok(())
}

pub fn show(zoo: &Zoo, op: &Op) -> String {
    match op {
        Op::New(i, k) => format!("New slot {i} = {}", zoo[*k].0),
        o => format!("{o:?}"),
    }
}

/// One random history
pub fn history(zoo: &Zoo, p: &Profile, seed: u64, stats: &mut Stats, trace: bool) -> Result<(), Failure> {
    let mut r = Rng::new(seed);
    let kinds_all: Vec<usize> = (0..zoo.len())
        .filter(|k| p.tags.is_empty() || zoo[*k].1.iter().any(|t| p.tags.contains(t)))
        .collect();
    // a few kinds per history
    let n = 1 + r.below(3);
    let kinds: Vec<usize> = (0..n).map(|_| *r.pick(&kinds_all)).collect();
    let mut w = World::new(zoo, p);
    std::mem::swap(&mut w.stats, stats);
    w.stats.histories += 1;
    let len = r.range(p.ops.0, p.ops.1);
    let mut ops = vec![];
    let mut res = Ok(());
    let before = (w.stats.ok_calls, w.stats.verifications);
    for _ in 0..len {
        let Some(op) = w.gen(&mut r, p, &kinds) else { continue };
        ops.push(op.clone());
        if trace {
            eprintln!("OP {}", show(zoo, &op));
        }
        w.stats.ops += 1;
        if let Err(e) = w.exec(&op) {
            res = Err(e);
            break;
        }
        // generation marks new slots' focus lazily
    }
    if res.is_ok() {
        if trace {
            eprintln!("OP finish");
        }
        res = w.finish();
    }
    if res.is_err() {
        w.abandon();
    }
    if w.stats.ok_calls > before.0 && w.stats.verifications > before.1 {
        w.stats.nontrivial += 1;
        let s = w.sig;
        if w.stats.sigs.len() < 2_000_000 {
            w.stats.sigs.insert(s);
        }
    }
    std::mem::swap(&mut w.stats, stats);
    res.map_err(|why| Failure { why, ops })
}

/// Shrink a failing list of operations
pub fn shrink(zoo: &Zoo, p: &Profile, f: Failure) -> Failure {
    let mut best = f;
    let mut chunk = best.ops.len() / 2;
    let mut budget = 3000;
    while chunk >= 1 {
        let mut i = 0;
        let mut progress = false;
        while i < best.ops.len() && budget > 0 {
            let mut cand = best.ops.clone();
            let hi = (i + chunk).min(cand.len());
            cand.drain(i..hi);
            budget -= 1;
            match replay(zoo, p, &cand, false) {
                Err(why) => {
                    best = Failure { why, ops: cand };
                    progress = true;
                }
                Ok(()) => i += chunk,
            }
        }
        if !progress || budget <= 0 {
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        if budget <= 0 {
            break;
        }
    }
    best
}
