//! The sequential reference model: what mockall's documentation promises.
use crate::pred::holds;
use crate::spec::*;

#[derive(Clone, Debug)]
pub struct MExp {
    pub uid: u64,
    pub mat: Option<Mat>,
    pub min: usize,
    pub max: usize,
    pub count: usize,
    pub ret: Option<Ret>,
    pub k: u32,
    pub expired: bool,
    pub var: u64,
    /// (sequence uid, position)
    pub seq: Option<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    NoMatch,
    TooMany,
    TooFew,
    Sequence,
    NoReturn,
    Twice,
    Backwards,
    Inexact,
}
impl Class {
    /// Which class does this message claim, if we know the phrase at all?
    pub fn of(msg: &str) -> Option<Class> {
        use Class::*;
        [
            ("No matching expectation found", NoMatch),
            ("Was an already-satisfied method called another time", Sequence),
            ("Method sequence violation", Sequence),
            ("should not have been called", TooMany),
            ("which is more than", TooMany),
            ("which is fewer than", TooFew),
            ("called twice, but it returns by move", Twice),
            ("Returning default values requires", NoReturn),
            ("Can only return default values", NoReturn),
            ("Backwards range", Backwards),
            ("exact call count", Inexact),
        ]
        .into_iter()
        .find(|(p, _)| msg.contains(p))
        .map(|x| x.1)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Val(u64),
    Mock(Class),
    User(u64),
    UserStr(String),
}

#[derive(Clone, Debug)]
pub struct Pred {
    pub out: Out,
    pub ev: Option<Ev>,
    /// the expectation that answers, if any
    pub idx: Option<usize>,
}

impl MExp {
    pub fn new(uid: u64) -> Self {
        MExp {
            uid,
            mat: None,
            min: 0,
            max: usize::MAX,
            count: 0,
            ret: None,
            k: 0,
            expired: false,
            var: 0,
            seq: None,
        }
    }
    pub fn matches(&self, a: u32, b: u32) -> Result<bool, ()> {
        Ok(match &self.mat {
            None => true,
            Some(Mat::With(ps)) => {
                let xs = full_args(a, b, ps.len());
                ps.iter().zip(xs).all(|(p, x)| holds(p.mask, x))
            }
            Some(Mat::Withf(m, p)) | Some(Mat::WithfSt(m, p)) => {
                let bit = 1u16 << (a * 4 + b);
                if p & bit != 0 {
                    return Err(());
                }
                m & bit != 0
            }
        })
    }
    pub fn done(&self) -> bool { self.count >= self.max }
    pub fn bad(&self) -> Option<Class> {
        if self.count < self.min {
            Some(Class::TooFew)
        } else if self.count > self.max {
            Some(Class::TooMany)
        } else {
            None
        }
    }
}

/// Levels of all sequences ever created
#[derive(Clone, Debug, Default)]
pub struct Seqs {
    pub level: Vec<usize>,
    pub next: Vec<usize>,
}

/// Predict a call on a list of expectations, and update them.
/// None: the specification leaves the outcome open; don't make this call.
pub fn call(
    exps: &mut [MExp],
    seqs: &mut Seqs,
    arity: usize,
    canon: fn(u64) -> u64,
    a: u32,
    b: u32,
    commit: bool,
) -> Option<Pred> {
    let n = exps.len();
    let mut sel = None;
    for (i, e) in exps.iter().enumerate() {
        match e.matches(a, b) {
            Err(()) => {
                if e.done() {
                    return None; // unspecified: is a saturated expectation's matcher run?
                }
                return Some(Pred { out: Out::User(0xFACE), ev: None, idx: None });
            }
            Ok(true) => {
                if !e.done() || n == 1 {
                    sel = Some(i);
                    break;
                }
            }
            Ok(false) => (),
        }
    }
    let Some(i) = sel else {
        return Some(Pred { out: Out::Mock(Class::NoMatch), ev: None, idx: None });
    };
    let mut scratch;
    let e: &mut MExp = if commit {
        &mut exps[i]
    } else {
        scratch = exps[i].clone();
        &mut scratch
    };
    e.count += 1;
    if e.count > e.max {
        return Some(Pred { out: Out::Mock(Class::TooMany), ev: None, idx: Some(i) });
    }
    if let Some((s, pos)) = e.seq {
        if seqs.level[s] != pos {
            return Some(Pred { out: Out::Mock(Class::Sequence), ev: None, idx: Some(i) });
        }
        if e.count == e.min && commit {
            seqs.level[s] += 1;
        }
    }
    let xs = full_args(a, b, arity);
    let Some(r) = &e.ret else {
        return Some(Pred { out: Out::Mock(Class::NoReturn), ev: None, idx: Some(i) });
    };
    let (out, ev) = match r.kind {
        RetKind::None => unreachable!(),
        RetKind::Const | RetKind::ConstSt => (Out::Val(canon(const_val(r.id))), None),
        RetKind::Var => {
            let v = e.var;
            e.var = canon(v.wrapping_add(1));
            (Out::Val(v), None)
        }
        RetKind::Once | RetKind::OnceSt if e.expired => (Out::Mock(Class::Twice), None),
        RetKind::Once | RetKind::OnceSt | RetKind::Fn | RetKind::FnSt => {
            if matches!(r.kind, RetKind::Once | RetKind::OnceSt) {
                e.expired = true;
            }
            e.k += 1;
            let ev = Ev { ret: r.id, k: e.k, args: xs.clone() };
            let out = if r.panic_at == e.k {
                if r.panic_str {
                    Out::UserStr(format!("user panic {}", r.id))
                } else {
                    Out::User(r.id)
                }
            } else {
                Out::Val(canon(fn_val(r.id, &xs, e.k)))
            };
            (out, Some(ev))
        }
    };
    Some(Pred { out, ev, idx: Some(i) })
}

/// Configure an expectation.  Err: mockall must refuse at some step.
pub fn configure(
    e: &mut MExp,
    spec: &Spec,
    seqs: &mut Seqs,
    pool: &[usize],
    canon: fn(u64) -> u64,
) -> Result<(), Class> {
    for st in &spec.steps {
        match st {
            Step::Times(t) => match t.bounds() {
                None => return Err(Class::Backwards),
                Some((lo, hi)) => {
                    e.min = lo;
                    e.max = hi;
                }
            },
            Step::Mat(m) => e.mat = Some(m.clone()),
            Step::Ret(r) => {
                e.ret = if r.kind == RetKind::None { None } else { Some(r.clone()) };
                e.k = 0;
                e.expired = false;
                e.var = canon(const_val(r.id));
            }
            Step::Seq(i) => {
                if e.min != e.max {
                    return Err(Class::Inexact);
                }
                if e.max == 0 {
                    continue;
                }
                let s = pool[*i];
                e.seq = Some((s, seqs.next[s]));
                seqs.next[s] += 1;
            }
        }
    }
    Ok(())
}
