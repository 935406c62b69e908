//! C03: sequences far longer than any counter of 8 or 16 bits, over many mocks,
//! methods, generic instances, statics and objects that die early.
use mockall::*;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End};
use vh::{ensure, same};

#[automock]
pub trait Sq {
    fn a(&self, x: u32) -> u64;
    fn b(&mut self) -> u64;
    fn g<T: 'static>(&self, x: T) -> u64;
    fn r(&self) -> &u64;
    fn m(&mut self) -> &mut u64;
    fn s(x: u32) -> u64;
    fn sg<T: 'static>(x: T) -> u64;
}

#[derive(Clone, Copy)]
struct Member { obj: usize, kind: u8, times: usize }

fn call(ms: &mut [Option<MockSq>], mem: &Member) -> End {
    run(|| match mem.kind {
        0 => ms[mem.obj].as_ref().unwrap().a(7),
        1 => ms[mem.obj].as_mut().unwrap().b(),
        2 => ms[mem.obj].as_ref().unwrap().g(1u8),
        3 => ms[mem.obj].as_ref().unwrap().g(1u16),
        4 => *ms[mem.obj].as_ref().unwrap().r(),
        5 => *ms[mem.obj].as_mut().unwrap().m(),
        6 => MockSq::s(3),
        _ => MockSq::sg(3i8),
    })
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    let big = r.chance(1, 8);
    let nobj = if big { 90 } else { r.range(1, 40) };
    let len = if big { r.range(65_530, 65_800) } else { *r.pick(&[1usize, 2, 3, 40, 254, 255, 256, 257, 258, 300, 511, 513, 1000, 2500]) + r.below(3) };
    m.op(format!("sequence of {len} members over {nobj} objects"));
    m.sig(r.next());
    let mut ms: Vec<Option<MockSq>> = (0..nobj).map(|_| Some(MockSq::new())).collect();
    let (mut cs, mut csg) = (Some(MockSq::s_context()), Some(MockSq::sg_context()));
    let mut seq = Sequence::new();
    let mut members = vec![];
    // plan an out-of-order call at an interesting distance, of an object that
    // has no other member
    let ds: Vec<usize> = [1usize, 2, 3, 127, 128, 255, 256, 257, 511, 512, 1024, 32_768, 65_535, 65_536, 65_537]
        .into_iter().filter(|d| *d < len).collect();
    let probe = (!ds.is_empty() && r.chance(1, 2)).then(|| {
        let d = if big && r.chance(2, 3) { *ds.last().unwrap() } else { *r.pick(&ds) };
        let stop = r.below(len - d);
        (stop, stop + d)
    });
    ms.push(Some(MockSq::new()));
    let val = |i: usize| i as u64 * 3 + 1;
    for i in 0..len {
        let mem = Member {
            obj: if probe.is_some_and(|p| p.1 == i) { nobj } else { r.below(nobj) },
            // not too many on statics, whose list is searched linearly
            kind: if r.chance(1, 60) && probe.is_none_or(|p| p.1 != i) { 6 + r.below(2) as u8 } else { r.below(6) as u8 },
            times: if r.chance(1, 12) { r.range(2, 4) } else { 1 },
        };
        let (t, v) = (mem.times, val(i));
        {
            let o = ms[mem.obj].as_mut().unwrap();
            match mem.kind {
                0 => { o.expect_a().times(t).return_const(v).in_sequence(&mut seq); }
                1 => { o.expect_b().times(t).in_sequence(&mut seq).returning(move || v); }
                2 => { o.expect_g::<u8>().times(t).in_sequence(&mut seq).return_const(v); }
                3 => { o.expect_g::<u16>().times(t).in_sequence(&mut seq).return_const(v); }
                4 => { o.expect_r().times(t).in_sequence(&mut seq).return_const(v); }
                5 => { o.expect_m().times(t).in_sequence(&mut seq).return_var(v); }
                6 => { cs.as_ref().unwrap().expect().times(t).in_sequence(&mut seq).return_const(v); }
                _ => { csg.as_ref().unwrap().expect::<i8>().times(t).in_sequence(&mut seq).return_const(v); }
            }
        }
        members.push(mem);
    }
    if r.chance(2, 3) {
        drop(seq);
    }
    m.add("members", len as u64);
    // in order, up to some point; objects die when their last member is done
    let stop = match probe { Some(p) => p.0, None if r.chance(1, 2) => len, _ => r.below(len + 1) };
    let mut last = vec![0usize; nobj + 1];
    for (i, x) in members.iter().enumerate() { if x.kind < 6 { last[x.obj] = i } }
    let die = stop == len && r.chance(1, 2);
    for i in 0..stop {
        for k in 0..members[i].times {
            let got = call(&mut ms, &members[i]);
            same!(got, End::Val(val(i)), "in-order call {k} of member {i} of {len}");
        }
        if die && members[i].kind < 6 && last[members[i].obj] == i {
            let o = ms[members[i].obj].take();
            let got = run(|| { drop(o); 0 });
            same!(got, End::Val(0), "dropping an object whose members are all done");
        }
    }
    m.add("calls_in_order", stop as u64);
    if stop < len {
        // one call out of order
        let j = probe.map_or_else(|| r.range(stop, len), |p| p.1);
        // the call finds the first unsaturated member of its channel: that is j's only if none
        // is in between
        let chan = |x: &Member| if x.kind >= 6 { (usize::MAX, x.kind) } else { (x.obj, x.kind) };
        let first = (stop..len).find(|i| chan(&members[*i]) == chan(&members[j])).unwrap();
        let got = call(&mut ms, &members[first]);
        m.op(format!("after {stop} members, call member {first}: {got:?}"));
        if first == stop {
            same!(got, End::Val(val(first)), "in-order call of member {first}");
        } else {
            ensure!(matches!(&got, End::Msg(_)), "member {first} called while member {stop} is due (of {len}), but {got:?}");
            m.count("calls_out_of_order_refused");
        }
        m.note("distance_refused", &format!("{}", if first - stop < 20 { first - stop } else { (first - stop) / 64 * 64 }));
        // too few calls: verification must fail somewhere; everything is dropped without it
        let _ = run(|| {
            let (_ms, _a, _b) = (std::mem::take(&mut ms), cs.take(), csg.take());
            std::panic::panic_any(vh::spec::Marker)
        });
    } else {
        for (i, o) in ms.iter_mut().enumerate() {
            let o = o.take();
            let got = run(|| { drop(o); 0 });
            same!(got, End::Val(0), "verifying object {i} after a complete run");
        }
        let got = run(|| { drop(cs.take()); drop(csg.take()); 0 });
        same!(got, End::Val(0), "verifying the statics after a complete run");
        m.count("complete_runs");
    }
    Ok(())
}
