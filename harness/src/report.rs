//! Machine-readable output, one JSON object per line on stdout.
use crate::engine::Stats;
use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().map(|s| esc(&s)).collect();
    format!("[{}]", v.join(","))
}
/// A failure, seen by check.py
pub fn violation(why: &str, replay: &[(&str, String)], ops: Vec<String>) {
    let mut s = format!("{{\"t\":\"violation\",\"why\":{},\"ops\":{}", esc(why), list(ops));
    for (k, v) in replay {
        let _ = write!(s, ",{}:{}", esc(k), esc(v));
    }
    println!("{s}}}");
}
pub fn sample(s: Vec<String>) {
    println!("{{\"t\":\"sample\",\"v\":{}}}", list(s));
}
/// Counters (summed by check.py) and sets (united)
pub fn counters(evals: u64, nontrivial: u64, c: &[(&str, u64)], sets: &[(&str, Vec<String>)]) {
    let mut s = format!("{{\"t\":\"stats\",\"evaluations\":{evals},\"nontrivial\":{nontrivial},\"counters\":{{");
    for (i, (k, v)) in c.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    s.push_str("},\"sets\":{");
    for (i, (k, v)) in sets.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), list(v.clone()));
    }
    println!("{s}}}}}");
}
pub fn stats(st: &Stats) {
    let mut c = vec![
        ("operations", st.ops),
        ("calls", st.calls),
        ("calls_answered", st.ok_calls),
        ("calls_answered_by_later_expectation", st.spilled),
        ("user_panics_propagated", st.user_panics),
        ("verifications", st.verifications),
        ("verifications_failed_as_predicted", st.failed_verifications),
        ("matcher_evaluations", st.matcher_evals),
        ("return_provider_invocations", st.ret_evals),
        ("expectations", st.expects),
        ("sequence_members", st.seq_members),
        ("drops_while_unwinding", st.unwinds),
    ];
    let pn: Vec<(String, u64)> = st.panics.iter().map(|(k, v)| (format!("mock_panics_{k}"), *v)).collect();
    for (k, v) in &pn {
        c.push((k.as_str(), *v));
    }
    counters(
        st.histories,
        st.nontrivial,
        &c,
        &[
            ("channels", st.chans.iter().cloned().collect()),
            ("providers", st.provs.iter().cloned().collect()),
            ("times_forms", st.times_forms.iter().cloned().collect()),
            ("history_signatures", st.sigs.iter().take(200_000).map(|x| format!("{x:x}")).collect()),
        ],
    );
}
