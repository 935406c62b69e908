//! Monitors for what the uniform model of `core` cannot express.
mod conc;
mod conv;
mod ctxbusy;
mod msgs;
mod nested;
mod refs;
mod seq;
mod types;
fn main() {
    vh::mon::drive(&[
        ("localtypes", types::history),
        ("longseq", seq::history),
        ("conv", conv::history),
        ("refs", refs::history),
        ("nested", nested::history),
        ("concid", conc::history),
        ("msgs", msgs::history),
        ("ctxbusy", ctxbusy::history),
    ])
}
