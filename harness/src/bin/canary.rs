//! If this does not build or run, the build environment (or mockall as a
//! whole) is broken, and the other binaries' failure to build proves nothing.
use mockall::automock;
#[automock]
trait Canary {
    fn tweet(&self, x: u32) -> u32;
}
fn main() {
    let mut m = MockCanary::new();
    m.expect_tweet().returning(|x| x + 1);
    println!("{}", m.tweet(41));
}
