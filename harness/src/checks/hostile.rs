//! C08: hostile inputs and faulty callbacks, in limited worker processes.
#![allow(non_snake_case)]
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::rng::Rng;
use crate::verdict::Report;
use std::io::Write;
use std::process::{Command, Stdio};

const BLOCK: u64 = 50;
/// consultations of components and volume function a run may take: its iterations times what one integration can take
fn budget(c: &Case) -> u64 {
    // 100 000 steps of 7 evaluations each, per integration
    let one = 700_000 + 20;
    let cycles = if c.mi > 1000 || c.mo > 1000 { 8 } else { (c.mi as u64 + 1) * c.mo.max(1) as u64 };
    cycles.saturating_mul(one).saturating_add(4 * u64::from(c.n) * c.mo.clamp(1, 1000) as u64).saturating_add(1000)
}
fn hostile(r: &mut Rng, x: f64) -> f64 {
    match r.below(16) {
        0 => 0.0,
        1 => -0.0,
        2 => -x,
        3 => 1e-300,
        4 => 1e300,
        5 => f64::MAX,
        6 => f64::MIN,
        7 => f64::MIN_POSITIVE,
        8 => 5e-324,
        9 => x * 1e12,
        10 => x * 1e-12,
        11 => x * r.log(1e-6, 1e6),
        12 => r.log(1e-30, 1e30),
        13 => -r.log(1e-30, 1e30),
        14 => x * r.log(1e-3, 1e3),
        _ => 1.0,
    }
}
fn mutate(r: &mut Rng, c: &mut Case) -> String {
    let k = r.below(40);
    let mut name = String::new();
    let mut set = |n: &str, x: &mut f64, r: &mut Rng| {
        let y = hostile(r, if x.is_finite() { *x } else { 1.0 });
        *x = y;
        name = format!("{n}={y:e}");
    };
    match k {
        0 | 1 => set("p0", &mut c.p0, r),
        2 | 3 => set("ts", &mut c.ts, r),
        4 | 5 => set("th", &mut c.th, r),
        6 | 7 | 8 => set("f", &mut c.ws.f, r),
        9 => set("cl_c", &mut c.ws.cl_c, r),
        10 => set("cl_e", &mut c.ws.cl_e, r),
        11 => set("r_c", &mut c.ws.r_c, r),
        12 => set("r_e", &mut c.ws.r_e, r),
        13..=16 => match &mut c.ws.drive {
            Drive::Sin { phase, sw_c, sw_e } | Drive::Harm { phase, sw_c, sw_e, .. } => match k {
                13 => set("phase", phase, r),
                14 | 15 => set("sw_c", sw_c, r),
                _ => set("sw_e", sw_e, r),
            },
            Drive::Rhombic { r: cr, l, e, dp, dd } => match r.below(5) {
                0 => set("r_crank", cr, r),
                1 => set("l_conn", l, r),
                2 => set("ecc", e, r),
                3 => set("d_p", dp, r),
                _ => set("d_d", dd, r),
            },
        },
        17..=22 => {
            let h = match k % 3 {
                0 => &mut c.chx,
                1 => &mut c.regen,
                _ => &mut c.hhx,
            };
            match &mut h.model {
                Model::Approach(a) | Model::Ua(a) => set(&format!("model{}", k % 3), a, r),
                Model::Settle { target, .. } | Model::Ladder { target, .. } => set(&format!("settle{}", k % 3), target, r),
            }
        }
        23..=25 => {
            let h = [&mut c.chx, &mut c.regen, &mut c.hhx].into_iter().nth(k as usize % 3).unwrap();
            set("vol", &mut h.vol, r);
        }
        26 => set("rhyd", &mut c.regen.rhyd, r),
        27 => set("par", &mut c.hhx.par.th, r),
        28 => set("inner_abs", &mut c.inner.0, r),
        29 => set("inner_rel", &mut c.inner.1, r),
        30 => set("outer_abs", &mut c.outer.0, r),
        31 => set("outer_rel", &mut c.outer.1, r),
        32 | 33 => set("ode_abs", &mut c.ode.0, r),
        34 | 35 => set("ode_rel", &mut c.ode.1, r),
        36 => set("shift", &mut c.fluid.shift, r),
        37 => {
            c.n = r.pick(&[0, 1, 2, 3, 1000, 100_000]);
            name = format!("n={}", c.n);
        }
        38 => set("par_me", &mut c.ws.pc.me, r),
        _ => set("rhyd_chx", &mut c.chx.rhyd, r),
    }
    name
}
pub fn make(seed: u64, i: u64) -> (Case, Option<Fault>, String) {
    let mut r = Rng::new(seed, "C08", i);
    let mut c = gen(&mut r, &FULL);
    c.mi = r.pick(&[0, 1, 2, 3, 3]);
    c.mo = r.pick(&[0, 1, 2, 2]);
    if r.chance(0.6) {
        // results that are accepted at once, so that failing to converge does not hide them
        c.inner = (1e30, 1e30);
        c.outer = (1e30, 1e30);
    }
    let mut what = String::new();
    if i % 25 == 7 {
        // an engine whose first iterations are accepted, with budgets that must cost nothing
        c.inner = (1e30, 1e30);
        c.outer = (1e30, 1e30);
        let big = [1 << 20, 1 << 32, 1 << 44, usize::MAX / 64, usize::MAX / 2, usize::MAX - 1, usize::MAX];
        c.mi = r.pick(&big);
        c.mo = r.pick(&big);
        match r.below(3) {
            0 => c.mi = 2,
            1 => c.mo = 2,
            _ => {}
        }
        return (c, None, format!("budgets {} {}", c.mi, c.mo));
    }
    if i % 3 == 2 {
        let w = r.pick(&[Which::Chx, Which::Regen, Which::Hhx]);
        let site = r.pick(&[
            Site::Dens, Site::Inte, Site::Enth, Site::Cp, Site::DdDp, Site::DdDt, Site::DuDp, Site::DuDt, Site::VolC, Site::VolE, Site::DVolC, Site::DVolE,
            Site::Freq, Site::ResC, Site::ResE, Site::Appr(w), Site::Rhyd(w), Site::ParM(w), Site::ParT(w), Site::ParWs, Site::HxVol(w), Site::Init(w),
        ]);
        let kind = r.pick(&[FaultKind::Nan, FaultKind::PosInf, FaultKind::NegInf, FaultKind::Zero, FaultKind::Neg, FaultKind::Huge]);
        let extract = r.chance(0.2);
        let at = if extract { r.pick(&[0, 0, 0, 1, 2, 20]) } else { r.pick(&[0, 0, 1, 2, 7, 50, 300, 2000, 20_000]) + r.below(3) };
        let len = r.pick(&[1, 1, 3, 100, u64::MAX]);
        let f = Fault { site, kind, at, len, extract };
        what = format!("{f:?}");
        return (c, Some(f), what);
    }
    for _ in 0..r.pick(&[1, 1, 2, 3]) {
        what += &mutate(&mut r, &mut c);
        what.push(' ');
    }
    (c, None, what)
}
fn judge(c: &Case, o: &Obs) -> Result<(), String> {
    match &o.out {
        Outcome::Err(_) => Ok(()),
        Outcome::Panic(m) => Err(format!("panicked: {m}")),
        Outcome::Budget => Err(format!("did not end within {} evaluations", budget(c))),
        Outcome::Ok(r) => {
            let t = &r.temperature;
            for (n, x) in [("sink", t.sink), ("chx", t.chx), ("regen_cold", t.regen_cold), ("regen_avg", t.regen_avg), ("regen_hot", t.regen_hot), ("hhx", t.hhx), ("source", t.source)] {
                if !x.is_finite() {
                    return Err(format!("successful result with a {n} temperature of {x}"));
                }
            }
            for (n, s) in series(r) {
                if n == "P_c" || n == "P_e" {
                    continue;
                }
                if let Some(k) = s.iter().position(|x| !x.is_finite()) {
                    return Err(format!("successful result with {n}[{k}] = {}", s[k]));
                }
            }
            Ok(())
        }
    }
}
/// the worker: a line when a case starts, a line when it has ended
pub fn worker(seed: u64, from: u64, to: u64) {
    let out = std::io::stdout();
    for i in from..to {
        let (c, f, what) = make(seed, i);
        let _ = writeln!(out.lock(), "S {i}");
        let _ = out.lock().flush();
        let t0 = std::time::Instant::now();
        let o = observe(&c, Opts { budget: Some(budget(&c)), fault: f, ..Opts::default() });
        if std::env::var("C08_TIME").is_ok() && t0.elapsed().as_secs_f64() > 3.0 {
            eprintln!("slow {i} {:?} {} {what} {c:?}", t0.elapsed(), o.log.vol_calls.get());
        }
        let j = judge(&c, &o);
        let v = j.err().map_or("ok".to_string(), |m| format!("bad {m}: {what}: {c:?}"));
        let hit = f.is_none() || o.log.fault_hits.get() > 0;
        let _ = writeln!(out.lock(), "R {i} {} {} {} {} {v}", o.out.kind(), fingerprint(&o.out), u8::from(hit), o.log.vol_calls.get());
    }
}
fn spawn(seed: u64, from: u64, to: u64, cpu: u64) -> (String, Option<i32>, String) {
    let me = std::env::current_exe().expect("own path");
    let o = Command::new("sh")
        .args(["-c", &format!("ulimit -v 3000000; ulimit -t {cpu}; exec \"$0\" c08worker {seed} {from} {to}"), me.to_str().unwrap()])
        .stdin(Stdio::null())
        .output();
    match o {
        Ok(o) => (
            String::from_utf8_lossy(&o.stdout).into_owned(),
            o.status.code().or_else(|| std::os::unix::process::ExitStatusExt::signal(&o.status).map(|s| 1000 + s)),
            String::from_utf8_lossy(&o.stderr).chars().take(300).collect(),
        ),
        Err(e) => (String::new(), None, e.to_string()),
    }
}
/// an input that never returns has been found: looking for more of them would take too long
static HUNG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn c08(ctx: &Ctx, b: u64) -> Report {
    let mut rep = Report::new();
    if HUNG.load(std::sync::atomic::Ordering::SeqCst) {
        rep.inconclusive("skipped, an input that hangs was found");
        return rep;
    }
    rep.evals = 0;
    rep.case = format!("block {b} of {BLOCK} hostile inputs");
    let (mut i, end) = (b * BLOCK, (b + 1) * BLOCK);
    while i < end {
        let (out, code, err) = spawn(ctx.seed, i, end, lim()[0]);
        let mut last = None;
        for l in out.lines() {
            let mut p = l.splitn(7, ' ');
            let (tag, k) = (p.next().unwrap_or(""), p.next().and_then(|x| x.parse::<u64>().ok()));
            let Some(k) = k else { continue };
            if tag == "S" {
                last = Some(k);
            } else if let (Some(kind), Some(fp), Some(hit), Some(n), Some(v)) = (p.next(), p.next(), p.next(), p.next(), p.next()) {
                last = None;
                i = k + 1;
                rep.evals += 1;
                rep.add(format!("outcome_{kind}"), 1);
                rep.add("derivative_evaluations_observed", n.parse().unwrap_or(0));
                if hit == "1" {
                    rep.fps.push(fp.parse::<u64>().unwrap_or(0) ^ k);
                    if k % 3 == 2 {
                        rep.add("faults_injected", 1);
                    }
                }
                if let Some(m) = v.strip_prefix("bad ") {
                    rep.violate(format!("input {k}: {m}"));
                }
            }
        }
        if code == Some(0) && last.is_none() {
            break;
        }
        let Some(k) = last else {
            rep.inconclusive(format!("a worker could not be run ({code:?} {err})"));
            rep.evals += end - i;
            break;
        };
        // confirm the culprit alone, in a fresh process
        let (out, code2, err2) = spawn(ctx.seed, k, k + 1, lim()[1]);
        if out.lines().any(|l| l.starts_with("R ")) {
            rep.add("deaths_not_confirmed", 1);
        } else {
            let (c, _, what) = make(ctx.seed, k);
            let how = match code2 {
                Some(1024) | Some(1009) => format!("did not return within {} s of CPU time", lim()[1]),
                x => format!("ended its process ({x:?}) {err2}"),
            };
            rep.violate(format!("input {k}: {how}: {what}: {c:?}"));
            if matches!(code2, Some(1024) | Some(1009)) {
                HUNG.store(true, std::sync::atomic::Ordering::SeqCst);
                rep.evals += 1;
                break;
            }
        }
        let _ = (code, err);
        rep.evals += 1;
        i = k + 1;
    }
    rep.nontrivial = true;
    rep
}
pub fn checks() -> Vec<Check> {
    vec![Check { id: "C08", quick: 160, thorough: 6000, run: c08, post: None }]
}
/// CPU seconds for a block and for a single case
fn lim() -> [u64; 2] {
    match std::env::var("C08_CPU").ok().and_then(|s| s.parse().ok()) {
        Some(x) => [x, x],
        None => [100, 80],
    }
}
