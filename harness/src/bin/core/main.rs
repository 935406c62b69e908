use std::sync::atomic::Ordering;
use std::time::Instant;
use vh::engine::*;
use vh::report;
use vh::rng::mix;
use vh::spec::*;

mod zoo;
mod zoo2;

fn profile(name: &str) -> Profile {
    let b = Profile::base("base");
    match name {
        "C01" => Profile { w: [30, 70, 1, 2, 2, 2, 1, 8, 2, 0, 1, 1], p_seq: 5, ..b },
        "C01many" => Profile { w: [50, 60, 0, 1, 1, 0, 0, 8, 1, 0, 0, 0], slots: 1, max_chans: 2, p_seq: 2, p_times: 85,
            p_mat: 85, p_ret: 99, ops: (150, 500), ..b },
        "C02big" => Profile { w: [20, 10, 10, 0, 3, 3, 0, 8, 2, 0, 1, 0], slots: 1, max_chans: 2, p_seq: 2, p_times: 99,
            p_mat: 15, p_ret: 99, p_big: 60, p_panic: 0, ops: (10, 30), ret_w: [8, 1, 1, 1, 4, 1, 4],
            bursts: &[1000, 4095, 65534, 65535, 65536, 65537], big: &[1023, 4096, 65534, 65535, 65536, 65537], ..b },
        "C03long" => Profile { w: [50, 70, 0, 1, 0, 0, 0, 8, 0, 0, 0, 0], slots: 3, max_chans: 3, p_seq: 96, p_times: 60,
            p_mat: 10, p_ret: 99, p_bad: 0, p_panic: 1, seqs: 1, seq_in_order: 96, p_viol: 1, ops: (300, 1200), ..b },
        "C02" => Profile { w: [30, 60, 6, 2, 5, 5, 1, 8, 4, 0, 2, 1], p_seq: 3, p_times: 95, p_mat: 40,
            p_override: 20, p_bad: 6, p_big: 12, max_chans: 3, ..b },
        "C03" => Profile { w: [40, 60, 0, 2, 1, 1, 1, 10, 1, 0, 0, 3], p_seq: 75, p_times: 60, p_mat: 30,
            seq_in_order: 75, slots: 4, seqs: 3, ops: (30, 140), p_bad: 4, ..b },
        "C04" => Profile { w: [40, 50, 0, 2, 14, 5, 1, 8, 1, 0, 1, 1], p_times: 60, p_seq: 4, ..b },
        "C05" => Profile { tags: &["static"], w: [40, 50, 0, 10, 4, 2, 2, 20, 12, 6, 8, 1], p_times: 70, p_panic: 6,
            p_seq: 5, ..b },
        "C06" => Profile { tags: &["generic"], w: [40, 60, 0, 2, 4, 3, 1, 10, 4, 1, 2, 1], p_times: 60, slots: 4,
            max_chans: 10, ..b },
        "C07" => Profile { w: [30, 80, 1, 2, 2, 2, 1, 8, 2, 0, 1, 1], p_times: 20, p_mat: 30, p_override: 45,
            p_ret: 90, ret_w: [5, 4, 5, 5, 6, 5, 6], p_panic: 2, ..b },
        "C08" => Profile { tags: &["ref"], w: [30, 90, 0, 2, 2, 2, 1, 8, 2, 0, 1, 1], p_times: 40, p_mat: 40, ..b },
        "C09" => Profile { w: [40, 90, 0, 2, 2, 2, 1, 8, 2, 0, 1, 1], p_times: 20, p_mat: 97, p_override: 35,
            p_seq: 2, ..b },
        "C10" => Profile { w: [30, 70, 1, 4, 3, 3, 8, 10, 3, 8, 2, 1], p_panic: 25, p_times: 60, ..b },
        // small, for sanitizers and Miri
        "C13" => Profile { w: [30, 60, 0, 1, 4, 4, 3, 8, 3, 2, 2, 1], p_panic: 10, p_override: 20, p_big: 0,
            ops: (20, 60), ..b },
        "C13static" => Profile { tags: &["static"], w: [30, 60, 0, 1, 4, 4, 3, 10, 3, 4, 2, 1], p_panic: 10, p_override: 20, p_big: 0,
            ops: (20, 60), ..b },
        "C18" => Profile { tags: &["conc"], w: [30, 70, 1, 2, 3, 3, 1, 8, 3, 1, 2, 1], ..b },
        _ => panic!("no profile {name}"),
    }
}

fn main() {
    quiet_hook();
    let mut prof = "C01".to_string();
    let (mut seed, mut count, mut budget, mut only) = (1u64, 100u64, u64::MAX, None::<u64>);
    let mut trace = false;
    let mut samples = 1usize;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap();
        match a.as_str() {
            "--profile" => prof = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--count" => count = v().parse().unwrap(),
            "--budget-ms" => budget = v().parse().unwrap(),
            "--only" => only = Some(v().parse().unwrap()),
            "--samples" => samples = v().parse().unwrap(),
            "--trace" => trace = true,
            _ => panic!("{a}"),
        }
    }
    let mut zoo = zoo::zoo();
    zoo.extend(zoo2::zoo());
    let p = profile(&prof);
    let mut st = Stats::default();
    let t0 = Instant::now();
    let range = match only {
        Some(i) => i..i + 1,
        None => 0..count,
    };
    let mut done = 0;
    for i in range {
        if t0.elapsed().as_millis() as u64 > budget {
            break;
        }
        eprintln!("H {i}");
        let hs = mix(&[seed, i]);
        if let Err(f) = history(&zoo, &p, hs, &mut st, trace) {
            let f = shrink(&zoo, &p, f);
            report::violation(
                &f.why,
                &[("profile", prof.clone()), ("seed", seed.to_string()), ("history", i.to_string())],
                f.ops.iter().map(|o| show(&zoo, o)).collect(),
            );
            std::process::exit(1);
        }
        done += 1;
        let _ = done;
    }
    st.matcher_evals = MATCHER_EVALS.load(Ordering::Relaxed);
    st.ret_evals = RET_EVALS.load(Ordering::Relaxed);
    if samples > 0 {
        // write out one history
        let mut w = World::new(&zoo, &p);
        let mut r = vh::rng::Rng::new(mix(&[seed, 0]));
        let kinds: Vec<usize> = (0..zoo.len())
            .filter(|k| p.tags.is_empty() || zoo[*k].1.iter().any(|t| p.tags.contains(t)))
            .take(3)
            .collect();
        let mut out = vec![];
        for _ in 0..12 {
            if let Some(op) = w.gen(&mut r, &p, &kinds) {
                if let Ok(true) = w.exec(&op) {
                    out.push(show(&zoo, &op));
                }
            }
        }
        w.abandon();
        report::sample(out);
    }
    report::stats(&st);
}
