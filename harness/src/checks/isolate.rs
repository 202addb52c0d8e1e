//! C18: a run's outcome depends on its own arguments only.
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::rng::Rng;
use crate::verdict::Report;
use sett_rs::api::RunResults;
use sett_rs::fluid::IdealGas;
use sett_rs::*;
use std::collections::BTreeSet;

/// One batch: a base engine, near copies of it that differ in one respect, strangers, and runs that fail.
pub fn batch(ctx: &Ctx, i: u64) -> Vec<Case> {
    let mut r = Rng::new(ctx.seed, "C18", i);
    let mut base = gen(&mut r, &FULL);
    base.n = r.pick(&[2, 5, 30, 31, 101]);
    base.ode = r.pick(&[(1e-6, 1e-6), (1e-5, 1e-5), (1e-7, 1e-7)]);
    let l = loop_tols(&mut r, base.ode);
    base.inner = (l.0 .0 * 10.0, l.0 .1 * 10.0);
    base.outer = (l.1 .0 * 10.0, l.1 .1 * 10.0);
    let mut v = vec![base];
    let mut near = |r: &mut Rng| {
        let mut c = base;
        match r.below(24) {
            0 => c.fluid.base = if c.fluid.base == FluidSpec::He { FluidSpec::H2 } else { FluidSpec::He },
            1 => c.fluid.shift += 1234.5,
            2 => c.p0 *= 1.0 + 1e-9,
            3 => c.n += 1,
            4 => c.solver = if c.solver == Solver::Lu { Solver::Qr } else { Solver::Lu },
            5 => c.ws.f *= 1.5,
            6 => c.chx.vol *= 2.0,
            7 => c.ws.r_c = if c.ws.r_c.is_finite() { f64::INFINITY } else { 1.0 },
            8 => c.regen.rhyd += 1.0,
            9 => c.ode = (c.ode.0 * 0.1, c.ode.1 * 0.1),
            10 => c.ts += 1e-3,
            11 => c.th += 5.0,
            12 => c.ws.cl_e *= 1.1,
            13 => c.hhx.par.th += 1.0,
            // another drive, exchanger or gas with the same time grid
            15..=18 => match &mut c.ws.drive {
                Drive::Sin { phase, sw_c, sw_e } | Drive::Harm { phase, sw_c, sw_e, .. } => match r.below(3) {
                    0 => *phase += 2.0,
                    1 => *sw_c *= 1.03,
                    _ => *sw_e *= 0.97,
                },
                Drive::Rhombic { dp, dd, .. } => *(if r.chance(0.5) { dp } else { dd }) *= 0.99,
            },
            19 => c.chx.model = Model::Approach(match c.chx.model { Model::Approach(a) => a * 1.01 + 0.5, m => m.target().unwrap_or(7.0) }),
            20 => c.hhx.model = Model::Approach(match c.hhx.model { Model::Approach(a) => a * 1.01 + 0.5, m => m.target().unwrap_or(7.0) }),
            21 => c.regen.model = Model::Approach(match c.regen.model { Model::Approach(a) => a * 1.01 + 0.5, m => m.target().unwrap_or(7.0) }),
            14 => c.inner = (c.inner.0 * 3.0, c.inner.1 * 3.0),
            _ => c.ws.pc.me += 1.0,
        }
        c
    };
    for _ in 0..4 {
        v.push(near(&mut r));
    }
    let mut stranger = gen(&mut r, &FULL);
    if r.chance(0.5) {
        (stranger.ws.f, stranger.n) = (base.ws.f, base.n);
    }
    v.push(stranger);
    // runs that fail
    let mut f = base;
    match r.below(5) {
        0 => f.mi = 1,
        1 => f.mo = 0,
        2 => f.ws.cl_c = f64::NAN,
        3 => f.n = 1,
        _ => f.p0 = -f.p0,
    }
    f.mi = f.mi.min(3);
    f.mo = f.mo.min(3);
    v.push(f);
    v
}
pub fn once(c: &Case) -> u64 {
    fingerprint(&observe(c, Opts { budget: Some(3_000_000), ..Opts::default() }).out)
}
/// a cold heat exchanger that runs another engine whenever it is consulted
struct Nesting(Box<dyn chx::ColdHeatExchanger>, Case);
impl chx::ColdHeatExchanger for Nesting {
    fn volume(&self) -> f64 {
        once(&self.1);
        self.0.volume()
    }
    fn approach(&self, s: &chx::State) -> f64 {
        once(&self.1);
        self.0.approach(s)
    }
    fn hydraulic_resistance(&self, s: &chx::State) -> f64 {
        once(&self.1);
        self.0.hydraulic_resistance(s)
    }
    fn parasitics(&self, s: &chx::State) -> types::ParasiticPower {
        once(&self.1);
        self.0.parasitics(s)
    }
    fn initial_approach(&self) -> f64 {
        self.0.initial_approach()
    }
}
/// components that give up in the middle of a run
fn abandoned(c: &Case, at: u64) {
    let _ = fingerprint(&observe(c, Opts { budget: Some(at), ..Opts::default() }).out);
}
/// two engines alive at once, extracted in the other order
fn interleaved(a: &Case, b: &Case) -> Option<(u64, u64)> {
    let go = |c: &Case| {
        let comps = raw_components(c)?;
        let g = match c.fluid {
            FluidCase { base: FluidSpec::H2, shift } if shift == 0.0 => IdealGas::hydrogen(),
            FluidCase { base: FluidSpec::He, shift } if shift == 0.0 => IdealGas::helium(),
            _ => return None,
        };
        Some(catch(|| Engine::run::<LuSolver>(comps, g, c.inputs(), c.settings())))
    };
    let (x, y) = (go(a)?, go(b)?);
    let out = |e: Result<Result<Engine<IdealGas>, types::RunError>, String>| match e {
        Ok(Ok(e)) => match catch(|| RunResults::from(e)) {
            Ok(r) => Outcome::Ok(Box::new(r)),
            Err(m) => Outcome::Panic(m),
        },
        Ok(Err(e)) => Outcome::Err(e),
        Err(m) => Outcome::Panic(m),
    };
    let fy = fingerprint(&out(y));
    let fx = fingerprint(&out(x));
    Some((fx, fy))
}
/// everything that can be done within one process; what differed
pub fn in_process(ctx: &Ctx, i: u64, rep: &mut Report, base: &[u64], cases: &[Case]) {
    let mut r = Rng::new(ctx.seed, "C18-order", i);
    let differs = |rep: &mut Report, k: usize, got: u64, how: &str| {
        rep.add("runs_compared", 1);
        if got != base[k] {
            rep.violate(format!("run {k} of the batch gives another result {how}"));
        }
    };
    // any order, repeated, interleaved with abandoned and failing runs
    for _ in 0..2 * cases.len() {
        let k = r.below(cases.len() as u64) as usize;
        if r.chance(0.3) {
            abandoned(&cases[r.below(cases.len() as u64) as usize], r.pick(&[1, 3, 10, 100, 1000, 5000]));
        }
        differs(rep, k, once(&cases[k]), "after other runs");
    }
    // inside another engine's components
    let (o, n) = (r.below(5) as usize, cases.len() - 1 - r.below(2) as usize);
    let mut c = cases[o];
    if matches!(c.chx.model, Model::Approach(_) | Model::Ua(_)) {
        c.mo = c.mo.min(6);
        let alone = fingerprint(&observe(&c, Opts::default()).out);
        let log = new_log(Opts::default());
        log.half.set(0.4 * c.period());
        let mut inner = cases[n];
        inner.mo = inner.mo.min(2);
        inner.mi = inner.mi.min(5);
        let mut comps = mon_components(&c, &log, Dep::default());
        comps.chx = Box::new(Nesting(comps.chx, inner));
        let out = run_components(comps, MonFluid::new(&c.fluid, &log), &c, Some(&log));
        rep.add("nested_runs", 1);
        if fingerprint(&out) != alone {
            rep.violate(format!("run {o} gives another result when its components run other engines"));
        }
    }
    // several engines alive at once
    let (a, b) = (r.below(5) as usize, r.below(cases.len() as u64) as usize);
    if let (Some((x, y)), Some(z), Some(w)) = (interleaved(&Case { solver: Solver::Lu, ..cases[a] }, &Case { solver: Solver::Lu, ..cases[b] }), run_raw(&Case { solver: Solver::Lu, ..cases[a] }), run_raw(&Case { solver: Solver::Lu, ..cases[b] })) {
        rep.add("coexisting_engines", 2);
        if x != fingerprint(&z) || y != fingerprint(&w) {
            rep.violate(format!("runs {a} and {b} give other results when both engines are alive"));
        }
    }
    // concurrently
    let orders: Vec<Vec<usize>> = (0..3)
        .map(|_| {
            let mut o: Vec<usize> = (0..cases.len()).collect();
            for j in (1..o.len()).rev() {
                o.swap(j, r.below(j as u64 + 1) as usize);
            }
            o
        })
        .collect();
    let got: Vec<Vec<(usize, u64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders.iter().map(|o| s.spawn(move || o.iter().map(|&k| (k, once(&cases[k]))).collect::<Vec<_>>())).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (k, f) in got.into_iter().flatten() {
        differs(rep, k, f, "concurrently with other runs");
        rep.add("concurrent_runs", 1);
    }
}
pub fn c18(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let cases = batch(ctx, i);
    rep.case = format!("{cases:?}");
    let base: Vec<u64> = cases.iter().map(once).collect();
    in_process(ctx, i, &mut rep, &base, &cases);
    // a fresh process, in reverse order, in another environment
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["fp", &ctx.seed.to_string(), &i.to_string()])
        .env_clear()
        .env("TZ", "Asia/Kolkata")
        .env("LC_ALL", "de_DE.UTF-8")
        .env("RUST_BACKTRACE", "1")
        .current_dir("/")
        .output();
    match out {
        Ok(o) if o.status.success() => {
            let f: Vec<u64> = String::from_utf8_lossy(&o.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if f.len() != base.len() {
                rep.inconclusive("a fresh process gave no answer");
            }
            for (k, f) in f.iter().enumerate() {
                rep.add("fresh_process_runs", 1);
                if *f != base[k] {
                    rep.violate(format!("run {k} of the batch gives another result in a fresh process"));
                }
            }
        }
        _ => rep.inconclusive("a fresh process gave no answer"),
    }
    rep.fp = base.iter().fold(i, |a, b| a.rotate_left(7) ^ b);
    rep.add("distinct_results", base.iter().collect::<BTreeSet<_>>().len() as u64);
    rep.nontrivial = base.iter().collect::<BTreeSet<_>>().len() >= 3;
    rep
}
/// fingerprints of a batch run in reverse order (for a fresh process)
pub fn fp(seed: u64, i: u64) {
    let ctx = Ctx { seed, thorough: false };
    let cases = batch(&ctx, i);
    let mut f: Vec<u64> = cases.iter().rev().map(once).collect();
    f.reverse();
    for x in f {
        println!("{x}");
    }
}
pub fn checks() -> Vec<Check> {
    vec![Check { id: "C18", quick: 250, thorough: 5000, run: c18, post: None }]
}
