//! What an execution of a history shows: observations, and the first thing that is wrong.
use std::collections::BTreeMap;
use vcommon::Rng;

/// a short name of what is wrong, and the details
pub type Bad = (String, String);
pub type V<T = ()> = Result<T, Bad>;

pub struct Obs {
    pub rng: Rng,
    pub counts: BTreeMap<&'static str, u64>,
    pub evals: Vec<(u64, bool)>,
}
impl Obs {
    pub fn new(seed: u64) -> Obs {
        Obs { rng: Rng::new(seed), counts: BTreeMap::new(), evals: vec![] }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals.push((key, nontrivial));
    }
}
pub fn fail<T>(sig: &str, detail: impl Into<String>) -> V<T> {
    Err((sig.replace(' ', "-"), detail.into()))
}
pub fn ensure(ok: bool, sig: &str, detail: impl FnOnce() -> String) -> V {
    if ok { Ok(()) } else { fail(sig, detail()) }
}
pub fn same<T: PartialEq + std::fmt::Debug>(got: &T, want: &T, sig: &str) -> V {
    ensure(got == want, sig, || format!("observed {got:?}\nexpected {want:?}"))
}
/// an error where success is promised
pub fn must<T, E: std::fmt::Display>(r: Result<T, E>, sig: &str) -> V<T> {
    r.or_else(|e| fail(sig, format!("unexpected error: {e}")))
}
