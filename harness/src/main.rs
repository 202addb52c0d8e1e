#![allow(clippy::all)]
#![allow(warnings)]
mod case;
mod checks;
mod driver;
mod exec;
mod gen;
mod mon;
mod oracle;
mod refmodel;
mod rng;
mod verdict;

use driver::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub static KNOWN: OnceLock<BTreeSet<String>> = OnceLock::new();
/// the verification directory (holds evidence/, replays/, known-findings.txt)
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let ctx = Ctx { seed, thorough };
    let find = |id: &str| {
        checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown check {id}");
            std::process::exit(2)
        })
    };
    match a.get(1).map(String::as_str) {
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay json");
            let c = find(v["property"].as_str().unwrap());
            let ctx = Ctx { seed: v["seed"].as_u64().unwrap(), thorough: v["tier"] == "thorough" };
            if v["index"] == ALL {
                let g = run_all(&c, ctx, 0, if ctx.thorough { c.thorough } else { c.quick }, false);
                println!("{:?}", g.violations.get(&ALL));
                std::process::exit(i32::from(!g.violations.is_empty()));
            }
            let r = one(&c, &ctx, v["index"].as_u64().unwrap());
            println!("{}\n{:?}\n{:?}\n{:?}", r.case, r.sums, r.maxes, r.verdict);
            std::process::exit(i32::from(r.violated()));
        }
        Some("cfgrun") => checks::text::cfgrun(&a[2], &a[3]),
        Some("fp") => checks::isolate::fp(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("c19worker") => checks::sanitize::worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("c08worker") => checks::hostile::worker(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("case") => {
            let c = find(&a[2]);
            let r = one(&c, &ctx, a[3].parse().unwrap());
            println!("{}\n{:?}\n{:?}\n{:?}\n{:?}", r.case, r.sums, r.maxes, r.known, r.verdict);
        }
        // calibration: run n cases of a check, keep going, print the largest normalised errors and every failing case
        Some("calib") => {
            let c = find(&a[2]);
            let n = a[3].parse().unwrap();
            let t = std::time::Instant::now();
            let g = run_all(&c, ctx, 0, n, false);
            println!("{} eval {} held {} nontriv {} time {:?}", c.id, g.evaluations, g.held, g.nontrivial.len(), t.elapsed());
            println!("  inconclusive {:?}", g.inconclusive);
            println!("  sums {:?}", g.sums);
            for (k, (v, i)) in &g.maxes {
                println!("  max {k} = {v:.3e} case {i}");
            }
            for (k, v) in &g.known {
                println!("  known {k} {v:?}");
            }
            for (i, (m, _)) in g.violations.iter().take(12) {
                println!("  VIOL {i}: {m}");
            }
            println!("  {} violations", g.violations.len());
        }
        Some(id) => {
            let c = find(id);
            let t = std::time::Instant::now();
            let n = if thorough { c.thorough } else { c.quick };
            let g = run_all(&c, ctx, 0, n, true);
            std::process::exit(finish(&c, ctx, g, t.elapsed().as_secs_f64(), vec![]));
        }
        None => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
    }
}
