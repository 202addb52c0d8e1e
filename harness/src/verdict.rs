//! Three-valued verdicts and per-case reports.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Verdict {
    Held,
    Violation(String),
    Inconclusive(String),
}
pub struct Report {
    pub verdict: Verdict,
    pub case: String,
    pub nontrivial: bool,
    pub fp: u64,
    /// how many cases this report stands for, and the fingerprints of those that count as non-trivial when several
    pub evals: u64,
    pub fps: Vec<u64>,
    pub sums: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    /// known findings met: key -> what failed
    pub known: BTreeMap<String, String>,
    /// individual values, for checks over the whole set of cases
    pub vals: Vec<(String, f64)>,
}
impl Report {
    pub fn new() -> Self {
        Self {
            verdict: Verdict::Held,
            case: String::new(),
            nontrivial: false,
            fp: 0,
            evals: 1,
            fps: vec![],
            sums: BTreeMap::new(),
            maxes: BTreeMap::new(),
            known: BTreeMap::new(),
            vals: vec![],
        }
    }
    pub fn add(&mut self, k: impl Into<String>, n: u64) {
        *self.sums.entry(k.into()).or_insert(0) += n;
    }
    pub fn val(&mut self, k: impl Into<String>, x: f64) {
        self.vals.push((k.into(), x));
    }
    pub fn max(&mut self, k: impl Into<String>, x: f64) {
        let e = self.maxes.entry(k.into()).or_insert(f64::NEG_INFINITY);
        if !(x <= *e) {
            *e = x;
        }
    }
    pub fn violate(&mut self, m: impl Into<String>) {
        if !matches!(self.verdict, Verdict::Violation(_)) {
            self.verdict = Verdict::Violation(m.into());
        }
    }
    pub fn inconclusive(&mut self, m: impl Into<String>) {
        if matches!(self.verdict, Verdict::Held) {
            self.verdict = Verdict::Inconclusive(m.into());
        }
    }
    /// record a normalised error and require it to stay below 1
    pub fn bound(&mut self, k: &str, x: f64, detail: impl FnOnce() -> String) {
        self.max(k, x);
        if !(x < 1.0) {
            self.violate(format!("{k}: normalised error {x:.4e} (limit 1): {}", detail()));
        }
    }
    /// A failure with the exact signature `key`: known when the committed list names it, a violation otherwise.
    pub fn known_or_violate(&mut self, property: &str, key: &str, m: impl Into<String>) {
        let m = m.into();
        if crate::KNOWN.get_or_init(crate::driver::known_list).contains(&format!("{property}/{key}")) {
            self.known.entry(key.to_string()).or_insert(m);
        } else {
            self.violate(m);
        }
    }
    pub fn violated(&self) -> bool {
        matches!(self.verdict, Verdict::Violation(_))
    }
}
