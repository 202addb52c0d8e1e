//! C19: the same workload in plain, address-, thread- and memory-sanitized builds and under Miri.
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::verdict::Report;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::{Barrier, Mutex};

/// builds, and how many inputs a block of theirs takes (quick, thorough)
const MODES: [(&str, u64, u64); 5] = [("plain", 150, 600), ("asan", 60, 300), ("tsan", 40, 150), ("msan", 40, 200), ("miri", 2, 6)];
/// the order in which blocks of the builds are run
const ORDER: [usize; 8] = [4, 1, 2, 3, 4, 0, 2, 4];

const MIRI_RUSTFLAGS: &str = "-Zmir-opt-level=3 -Zinline-mir=yes";

/// seconds an interpreter may take; what it has not done by then is left out
const MIRI_CPU: u64 = 100;

struct Size {
    /// everything small enough for an interpreter
    tiny: bool,
    budget: u64,
}
fn small(r: &mut Rng, c: &mut Case, z: &Size) {
    if z.tiny {
        c.n = r.pick(&[0, 1, 2, 2, 3, 4, 5, 6]);
        c.ode = r.pick(&[(1e6, 1e6), (1e6, 1e6), (10.0, 0.1)]);
        c.mi = c.mi.min(2);
        c.mo = c.mo.min(2);
        if r.chance(0.7) {
            c.inner = (1e30, 1e30);
        }
        if r.chance(0.7) {
            c.outer = (1e30, 1e30);
        }
    }
}
/// text that may or may not be a configuration
fn garble(r: &mut Rng, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    for _ in 0..r.pick(&[0, 1, 1, 2, 5, 20]) {
        if b.is_empty() {
            break;
        }
        let k = r.below(b.len() as u64) as usize;
        match r.below(6) {
            0 => b[k] = r.below(256) as u8,
            1 => {
                b.remove(k);
            }
            2 => b.truncate(k),
            3 => b.insert(k, r.pick(b"{}[]\":,.-+eE0919 \n#'&*!|>%@`~_infNa")),
            4 => {
                let e = (k + r.below(40) as usize).min(b.len());
                let x = b[k..e].to_vec();
                b.splice(k..k, x);
            }
            _ => {
                let x: Vec<u8> = r.pick(&["1e999", "-0", "99999999999999999999", "4294967296", "-1", "18446744073709551615", "nan", "inf", "null", "true", "1e-400"]).bytes().collect();
                b.splice(k..k, x);
            }
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}
fn text(r: &mut Rng, z: &Size, panics: &mut Vec<String>) -> u64 {
    use sett_rs::*;
    let mut c = super::text::supported(r);
    small(r, &mut c, z);
    c.n = c.n.min(64);
    c.mi = c.mi.min(3);
    c.mo = c.mo.min(2);
    let (modern, legacy) = super::text::docs(&c);
    let f = r.pick(&super::text::FORMATS);
    let is_legacy = r.chance(0.4);
    let clean = super::text::write(r, if is_legacy { &legacy } else { &modern }, f.0);
    let t = if r.chance(0.4) { clean.clone() } else { garble(r, &clean) };
    let got = catch(|| {
        let read = |layout: bool| -> Result<Config, String> {
            if layout {
                super::text::parse::<Legacy>(&t, f.1).map(Config::from)
            } else {
                super::text::parse::<Config>(&t, f.1)
            }
        };
        let Ok(cfg) = read(is_legacy) else { return 1 };
        let n = format!("{cfg:?}").len() as u64;
        if is_legacy || t != clean {
            // may ask for more than can be run here: only read, compare and print
            return 3 + n + u64::from(read(is_legacy).is_ok_and(|x| x == cfg));
        }
        4 + run_engine(cfg).map_or(7, |r| format!("{r:?}").len() as u64)
    });
    got.unwrap_or_else(|m| {
        panics.push(m);
        0
    })
}
fn threads_of(r: &mut Rng, ctx: &Ctx, i: u64, z: &Size, panics: &mut Vec<String>) -> u64 {
    let mut cases = super::isolate::batch(ctx, i);
    if z.tiny {
        let c = cases[r.below(7) as usize];
        cases = vec![c.single_shot()];
    }
    for c in &mut cases {
        small(r, c, z);
    }
    let k = if z.tiny { 2 } else { 4 };
    let (bar, all) = (Barrier::new(k), Mutex::new(vec![]));
    std::thread::scope(|s| {
        for t in 0..k {
            let (bar, all, cases) = (&bar, &all, &cases);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    for j in 0..cases.len() {
                        // every other round all threads run the same engine
                        let c = &cases[if j % 2 == 0 { j } else { (j + t) % cases.len() }];
                        bar.wait();
                        let o = observe(c, Opts { budget: Some(z.budget), ..Opts::default() });
                        let raw = if z.tiny { None } else { run_budgeted(c) };
                        let f = fingerprint(&o.out);
                        let mut g = all.lock().unwrap();
                        for o in [Some(&o.out), raw.as_ref()].into_iter().flatten() {
                            if let Outcome::Panic(m) = o {
                                g.push(Err(m.clone()));
                            }
                        }
                        g.push(Ok(f));
                    }
                })
                .expect("thread");
        }
    });
    let mut h = 0u64;
    for x in all.into_inner().unwrap() {
        match x {
            Ok(f) => h ^= f,
            Err(m) => panics.push(m),
        }
    }
    h
}
/// without any instrumentation between the threads, where one cycle is all that is asked for
fn run_budgeted(c: &Case) -> Option<Outcome> {
    let mut c = *c;
    c.mi = c.mi.min(2);
    c.mo = c.mo.min(1);
    run_raw(&c)
}
fn extremes(r: &mut Rng, z: &Size, panics: &mut Vec<String>) -> u64 {
    let mut c = gen(r, &FULL).single_shot();
    small(r, &mut c, z);
    if !z.tiny {
        c.n = r.pick(&[0, 1, 2, 3, 255, 256, 257, 32_767, 65_535, 65_536, 65_537, 70_001, 100_001]);
    }
    c.mi = r.pick(&[1, 2, u32::MAX as usize, usize::MAX, usize::MAX - 1]);
    c.mo = r.pick(&[1, 2, u32::MAX as usize, usize::MAX, usize::MAX - 1]);
    let o = observe(&c, Opts { budget: Some(z.budget + 30 * u64::from(c.n)), ..Opts::default() });
    if let Outcome::Panic(m) = &o.out {
        panics.push(m.clone());
    }
    fingerprint(&o.out)
}
fn faulty(r: &mut Rng, seed: u64, i: u64, z: &Size, panics: &mut Vec<String>) -> u64 {
    let (mut c, mut f, _) = super::hostile::make(seed, i);
    small(r, &mut c, z);
    if z.tiny {
        if let Some(f) = &mut f {
            f.at = f.at.min(40);
        }
    }
    let o = observe(&c, Opts { budget: Some(z.budget / 2), fault: f, ..Opts::default() });
    if let Outcome::Panic(m) = &o.out {
        panics.push(m.clone());
    }
    fingerprint(&o.out)
}
/// runs given up in the middle, between runs that must not notice
fn unwound(r: &mut Rng, z: &Size, panics: &mut Vec<String>) -> u64 {
    let mut c = gen(r, &FULL);
    small(r, &mut c, z);
    c.mi = c.mi.min(3);
    c.mo = c.mo.min(2);
    let mut h = 0;
    let marks = if z.tiny { vec![r.below(30), r.below(60)] } else { vec![r.below(30), r.below(600), r.below(8000), z.budget] };
    for b in marks {
        let o = observe(&c, Opts { budget: Some(b.min(z.budget)), ..Opts::default() });
        if let Outcome::Panic(m) = &o.out {
            panics.push(m.clone());
        }
        h ^= fingerprint(&o.out);
    }
    h
}
fn probes(ctx: &Ctx, i: u64, z: &Size, panics: &mut Vec<String>) -> u64 {
    // the components and fluids asked directly: the other monitors' probing code, verdicts ignored
    let all = super::props::checks();
    let c = &all[i as usize % all.len()];
    if z.tiny && i % 7 != 0 {
        return i;
    }
    match catch(|| (c.run)(ctx, i)) {
        Ok(rep) => i ^ rep.fp,
        Err(m) => {
            panics.push(m);
            i
        }
    }
}
/// one input: what it computed and the panics seen on the way
fn work(mode: &str, seed: u64, i: u64) -> (&'static str, u64, Vec<String>) {
    let z = match mode {
        "miri" => Size { tiny: true, budget: 120 },
        "plain" => Size { tiny: false, budget: 400_000 },
        _ => Size { tiny: false, budget: 60_000 },
    };
    let mut r = Rng::new(seed, "C19", i);
    let ctx = Ctx { seed, thorough: false };
    let mut p = vec![];
    let kind = if mode == "tsan" { i % 2 } else { i % 8 };
    let (k, h) = match kind {
        0 => ("threads", threads_of(&mut r, &ctx, i, &z, &mut p)),
        1 | 5 => ("faulty", faulty(&mut r, seed, i, &z, &mut p)),
        2 | 6 => ("text", text(&mut r, &z, &mut p)),
        3 => ("extremes", extremes(&mut r, &z, &mut p)),
        4 => ("unwound", unwound(&mut r, &z, &mut p)),
        _ => ("probes", probes(&ctx, i, &z, &mut p)),
    };
    (k, h, p)
}
/// panics that arithmetic overflow or a violated safety precondition raise
fn is_overflow(m: &str) -> bool {
    (m.contains("with overflow") && m.contains("attempt to")) || m.contains("unsafe precondition") || m.contains("capacity overflow") || m.contains("memory allocation")
}
pub fn worker(mode: &str, seed: u64, from: u64, to: u64) {
    let out = std::io::stdout();
    for i in from..to {
        let _ = writeln!(out.lock(), "@S {i}");
        let _ = out.lock().flush();
        let t = std::time::Instant::now();
        let (k, h, p) = work(mode, seed, i);
        if std::env::var("C19_TIME").is_ok() {
            eprintln!("{mode} {i} {k} {:?}", t.elapsed());
        }
        for m in p.iter().filter(|m| is_overflow(m)) {
            let _ = writeln!(out.lock(), "@P {i} {}", m.replace('\n', " "));
        }
        let _ = writeln!(out.lock(), "@R {i} {k} {h}");
        let _ = out.lock().flush();
    }
}
fn spawn(mode: &str, seed: u64, from: u64, to: u64, salt: u64) -> Option<(String, String, Option<i32>)> {
    let args = ["c19worker".to_string(), mode.into(), seed.to_string(), from.to_string(), to.to_string()];
    let env = |k: &str| std::env::var(k).ok().filter(|x| !x.is_empty());
    let mut c = match mode {
        "plain" => Command::new(std::env::current_exe().ok()?),
        "miri" => {
            let dir = env("C19_MIRI")?;
            let mut c = Command::new("sh");
            c.args(["-c", &format!("ulimit -t {MIRI_CPU}; exec cargo \"$@\""), "sh", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", &format!("{}/harness/Cargo.toml", crate::root()), "--target-dir", &dir, "--"]);
            // another schedule and address layout for every block
            // (nalgebra does not follow Stacked Borrows, so aliasing is judged by Tree Borrows, in half of the blocks as it is slow)
            let aliasing = if salt % 2 == 0 { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows" };
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {aliasing} -Zmiri-seed={salt}"));
            c.env("RUSTFLAGS", MIRI_RUSTFLAGS);
            c
        }
        m => Command::new(env(&format!("C19_{}", m.to_uppercase()))?),
    };
    c.env("ASAN_OPTIONS", "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1");
    c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=77:history_size=6");
    c.env("MSAN_OPTIONS", "halt_on_error=1:exitcode=77");
    let o = c.args(args).stdin(Stdio::null()).output().ok()?;
    Some((
        String::from_utf8_lossy(&o.stdout).into_owned(),
        String::from_utf8_lossy(&o.stderr).into_owned(),
        o.status.code().or_else(|| o.status.signal().map(|s| 1000 + s)),
    ))
}
/// the first line of a sanitizer's report and what follows it
fn report(err: &str) -> Option<String> {
    let marks = ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "ERROR: ThreadSanitizer", "Undefined Behavior", "unsafe precondition", "stack overflow", "memory allocation of"];
    let ls: Vec<&str> = err.lines().collect();
    let k = ls.iter().position(|l| marks.iter().any(|m| l.contains(m)))?;
    Some(ls[k..(k + 14).min(ls.len())].join(" | "))
}
pub fn c19(ctx: &Ctx, b: u64) -> Report {
    let mut rep = Report::new();
    rep.evals = 0;
    let only = std::env::var("C19_ONLY").ok();
    let m = only.and_then(|o| MODES.iter().position(|m| m.0 == o)).unwrap_or(ORDER[(b % 8) as usize]);
    let (mode, q, t) = MODES[m];
    let len = if ctx.thorough { t } else { q };
    // blocks start at different kinds of input
    let at = b * 1000 + b / 8 * 3 + b % 8;
    let (mut i, end) = (at, at + len);
    rep.case = format!("{mode} inputs {i}..{end}");
    let mut deaths = 0;
    while i < end {
        let Some((out, err, code)) = spawn(mode, ctx.seed, i, end, ctx.seed.wrapping_add(b) % 1_000_000) else {
            rep.inconclusive(format!("the {mode} build is not available"));
            rep.evals += 1;
            break;
        };
        let mut last = None;
        for l in out.lines() {
            let p: Vec<&str> = l.splitn(3, ' ').collect();
            let k = p.get(1).and_then(|x| x.parse::<u64>().ok());
            match (p[0], k) {
                ("@S", Some(k)) => last = Some(k),
                ("@P", Some(k)) => rep.violate(format!("{mode} input {k}: {}", p.get(2).unwrap_or(&""))),
                ("@R", Some(k)) => {
                    last = None;
                    i = k + 1;
                    rep.evals += 1;
                    let mut q = p.get(2).unwrap_or(&"").split(' ');
                    rep.add(format!("{mode}_{}", q.next().unwrap_or("")), 1);
                    rep.fps.push(q.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) ^ ((m as u64) << 60));
                }
                _ => {}
            }
        }
        if let Some(r) = report(&err) {
            rep.violate(format!("{mode} input {last:?}: {r}"));
            rep.evals += 1;
            break;
        }
        if code == Some(0) && last.is_none() {
            break;
        }
        if mode == "miri" && last.is_some() && code != Some(0) {
            rep.add("miri_cut_short", 1);
            i = last.unwrap_or(i) + 1;
            deaths += 1;
            if deaths > 2 {
                break;
            }
            continue;
        }
        // it died of something else: a signal is a memory error, the rest is not this property's business
        deaths += 1;
        match (last, code) {
            (Some(k), Some(1011 | 1007 | 1004 | 1006 | 1008)) => rep.violate(format!("{mode} input {k}: died of signal {}: {}", code.unwrap_or(0) - 1000, err.chars().take(600).collect::<String>())),
            (Some(k), _) => {
                rep.inconclusive(format!("the {mode} worker ended at an input ({code:?}): {}", err.chars().take(200).collect::<String>()));
                i = k + 1;
            }
            (None, _) => {
                rep.inconclusive(format!("the {mode} worker could not be run ({code:?}): {}", err.chars().take(300).collect::<String>()));
                break;
            }
        }
        rep.evals += 1;
        if deaths > 3 || rep.violated() {
            break;
        }
    }
    rep.nontrivial = true;
    rep
}
pub fn checks() -> Vec<Check> {
    vec![Check { id: "C19", quick: 40, thorough: 400, run: c19, post: None }]
}
