//! Parallel execution of a check's cases, evidence, verdicts and replays.
use crate::exec::catch;
use crate::verdict::{Report, Verdict};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
}
pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&Ctx, u64) -> Report,
    /// a judgement over all cases together
    pub post: Option<fn(&Agg) -> Option<String>>,
}
/// index standing for "all cases together"
pub const ALL: u64 = u64::MAX;
#[derive(Default)]
pub struct Agg {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub held: u64,
    pub inconclusive: BTreeMap<String, u64>,
    pub sums: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, (f64, u64)>,
    pub samples: BTreeMap<u64, Value>,
    pub violations: BTreeMap<u64, (String, String)>,
    pub known: BTreeMap<String, (u64, String)>,
    pub vals: BTreeMap<String, Vec<f64>>,
}
impl Agg {
    pub fn take(&mut self, i: u64, r: Report) {
        self.evaluations += r.evals;
        for (k, v) in &r.sums {
            *self.sums.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.maxes {
            let e = self.maxes.entry(k.clone()).or_insert((f64::NEG_INFINITY, i));
            if !(*v <= e.0) {
                *e = (*v, i);
            }
        }
        for (k, v) in &r.vals {
            self.vals.entry(k.clone()).or_default().push(*v);
        }
        for (k, m) in &r.known {
            self.known.entry(k.clone()).or_insert((0, m.clone())).0 += 1;
        }
        match &r.verdict {
            Verdict::Held => self.held += r.evals,
            Verdict::Inconclusive(m) => {
                let m: String = m.chars().take(80).collect();
                *self.inconclusive.entry(m).or_insert(0) += r.evals;
            }
            Verdict::Violation(m) => {
                self.violations.insert(i, (m.clone(), r.case.clone()));
            }
        }
        if r.nontrivial && !matches!(r.verdict, Verdict::Inconclusive(_)) {
            if r.fps.is_empty() {
                self.nontrivial.insert(r.fp);
            }
            self.nontrivial.extend(&r.fps);
            if self.samples.len() < 4 || i < 4 {
                self.samples.insert(i, json!({"index": i, "case": r.case, "observed": r.sums, "max_normalised_errors": r.maxes.iter().map(|(k,v)| (k.clone(), format!("{v:.3e}"))).collect::<BTreeMap<_,_>>()}));
            }
        }
    }
}
pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8)
}
pub fn time_guard(thorough: bool) -> f64 {
    std::env::var("VERIF_GUARD_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780.0 } else { 420.0 })
}
pub fn run_all(c: &Check, ctx: Ctx, from: u64, n: u64, stop_early: bool) -> Agg {
    let next = AtomicU64::new(from);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let t0 = Instant::now();
    let guard = time_guard(ctx.thorough);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > guard {
                        return;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= from + n {
                        return;
                    }
                    let r = one(c, &ctx, i);
                    let v = r.violated();
                    agg.lock().unwrap().take(i, r);
                    if v && stop_early {
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let mut a = agg.into_inner().unwrap();
    if let Some(m) = c.post.and_then(|f| f(&a)) {
        a.violations.insert(ALL, (m, "all cases together".into()));
    }
    a
}
pub fn one(c: &Check, ctx: &Ctx, i: u64) -> Report {
    match catch(|| (c.run)(ctx, i)) {
        Ok(r) => r,
        Err(m) => {
            let mut r = Report::new();
            r.inconclusive(format!("harness panic: {m}"));
            r.add("harness_panics", 1);
            r
        }
    }
}
pub fn finish(c: &Check, ctx: Ctx, mut a: Agg, wall: f64, extra: Vec<(&str, Value)>) -> i32 {
    let root = crate::root();
    let mut code = 0;
    if let Some((i, (m, case))) = a.violations.iter().next() {
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", c.id, ctx.seed, if *i == ALL { "all".to_string() } else { i.to_string() });
        let v = json!({"property": c.id, "seed": ctx.seed, "tier": tier(&ctx), "index": i, "message": m, "case": case,
            "replay": format!("{root}/check.sh replay {path}")});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
        println!("{} violated: {m}", c.id);
        println!("  case {i}: {case}");
        println!("VIOLATION property={} replay={path}", c.id);
        code = 1;
    }
    for (k, (n, m)) in &a.known {
        println!("KNOWN-FINDING: property={} {k}: {m} ({n} cases)", c.id);
    }
    let concl = a.evaluations - a.inconclusive.values().sum::<u64>();
    let mut cov = json!({
        "evaluations": a.evaluations,
        "distinct_nontrivial": a.nontrivial.len(),
        "rule": crate::checks::meta(c.id).0,
        "samples": a.samples.values().take(4).collect::<Vec<_>>(),
        "held": a.held,
        "inconclusive": a.inconclusive,
        "observed": a.sums,
        "max_normalised_errors": a.maxes.iter().map(|(k,(v,i))| (k.clone(), format!("{v:.3e} (case {i})"))).collect::<BTreeMap<_,_>>(),
        "known_findings_seen": a.known.iter().map(|(k,v)| (k.clone(), v.0)).collect::<BTreeMap<_,_>>(),
    });
    for (k, v) in extra {
        cov[k] = v;
    }
    let ev = json!({
        "property": c.id, "tier": tier(&ctx), "seed": ctx.seed, "level": "exploration",
        "coverage": cov, "assumptions": crate::checks::meta(c.id).1, "wall_s": (wall * 100.0).round() / 100.0,
        "violations": a.violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", c.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence file");
    println!(
        "{}: {} cases, {} held, {} distinct non-trivial, {} inconclusive, {} violations, {wall:.1}s",
        c.id, a.evaluations, a.held, a.nontrivial.len(), a.evaluations - concl, a.violations.len()
    );
    if code == 0 && (a.nontrivial.len() < 2 || concl * 2 < a.evaluations) {
        println!("{}: observed too little ({:?})", c.id, a.inconclusive);
        code = 2;
    }
    a.samples.clear();
    code
}
pub fn tier(c: &Ctx) -> &'static str {
    if c.thorough {
        "thorough"
    } else {
        "quick"
    }
}
pub fn known_list() -> BTreeSet<String> {
    // "known: property=<id> key=<key> ..." lines; "fixed:" lines suppress nothing
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", crate::root())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let p = l.split_whitespace().find_map(|w| w.strip_prefix("property="))?;
            let k = l.split_whitespace().find_map(|w| w.strip_prefix("key="))?;
            Some(format!("{p}/{k}"))
        })
        .collect()
}
