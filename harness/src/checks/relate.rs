//! Relations between runs: C17 (matrix solvers), C20 (similarity), C21 (resolution and tolerances), C23 (enthalpy zero, real gases).
#![allow(non_snake_case)]
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::Log;
use crate::oracle;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::verdict::Report;
use sett_rs::api::RunResults;
use std::rc::Rc;

/// multiples for comparing a result with another one: (name, dimension)
#[derive(Clone, Copy, PartialEq)]
pub(super) enum Dim {
    Time,
    Pres,
    Temp,
    Mass,
    Heat,
    Power,
    Torque,
    One,
}
pub(super) fn dim(name: &str) -> Dim {
    match name {
        "time" => Dim::Time,
        n if n.starts_with("pressure") || n.starts_with("P") => Dim::Pres,
        n if n.starts_with("temperature") || n.starts_with("T_") => Dim::Temp,
        n if n.starts_with("m_dot") || n.starts_with("mass_flow") => Dim::Mass,
        n if n.starts_with("Q_dot") || n.starts_with("heat_flow") => Dim::Heat,
        n if n.starts_with("power") => Dim::Power,
        "shaft_torque" => Dim::Torque,
        _ => Dim::One,
    }
}
#[derive(Clone, Copy)]
pub(super) struct Factors {
    time: f64,
    pres: f64,
    flow: f64,
    torque: f64,
}
impl Factors {
    pub(super) const ONE: Factors = Factors { time: 1.0, pres: 1.0, flow: 1.0, torque: 1.0 };
    fn of(&self, d: Dim) -> f64 {
        match d {
            Dim::Time => self.time,
            Dim::Pres => self.pres,
            Dim::Temp | Dim::One => 1.0,
            Dim::Mass | Dim::Heat | Dim::Power => self.flow,
            Dim::Torque => self.torque,
        }
    }
}
/// Largest differences between two results, the second divided by the factors, each on its natural scale:
/// [pressures and temperatures, flows and heats (series), averages and powers]
pub(super) struct Diff {
    pub state: f64,
    pub flow: f64,
    pub avg: f64,
    pub what: [String; 3],
}
pub(super) fn compare(c: &Case, a: &RunResults, b: &RunResults, k: Factors) -> Option<Diff> {
    let (ms, qs) = oracle::flow_scales(c, a);
    let w0 = a.pressure.max.abs().max(c.p0) * volumes_swing(c) * c.ws.f;
    let par = [c.chx.par, c.regen.par, c.hhx.par, c.ws.pc, c.ws.pe].iter().map(|p| p.th.abs() + p.me.abs()).sum::<f64>();
    let scale = |d: Dim| match d {
        Dim::Time => c.period(),
        Dim::Pres => c.p0,
        Dim::Temp => a.temperature.hhx.abs().max(a.temperature.chx.abs()),
        Dim::Mass => ms,
        Dim::Heat => qs + par,
        Dim::Power => qs + w0 + par,
        Dim::Torque => (qs + w0 + par) / (2.0 * std::f64::consts::PI * c.ws.f),
        Dim::One => 1.0,
    };
    let mut d = Diff { state: 0.0, flow: 0.0, avg: 0.0, what: Default::default() };
    for ((n, x), (_, y)) in series(a).into_iter().zip(series(b)) {
        if x.len() != y.len() {
            return None;
        }
        let dm = dim(n);
        for i in 0..x.len() {
            let e = (x[i] - y[i] / k.of(dm)).abs() / scale(dm);
            let (slot, w) = if matches!(n, "time" | "P" | "T_c" | "T_e") { (&mut d.state, 0) } else { (&mut d.flow, 1) };
            if !(e <= *slot) {
                *slot = e;
                d.what[w] = format!("{n}[{i}] {:e} and {:e}", x[i], y[i] / k.of(dm));
            }
        }
    }
    for ((n, x), (_, y)) in scalars(a).into_iter().zip(scalars(b)) {
        let dm = dim(n);
        let y = y / k.of(dm);
        let mut e = if x == y || (x.is_nan() && y.is_nan()) { 0.0 } else { (x - y).abs() / scale(dm) };
        if n.starts_with("efficiency") {
            // net power over heat input: an error of either, relative to the input
            e *= (a.heat_flow.input / scale(Dim::Power)).abs() / (1.0 + x.abs());
        }
        if !(e <= d.avg) {
            d.avg = e;
            d.what[2] = format!("{n} {x:e} and {y:e}");
        }
    }
    Some(d)
}
fn volumes_swing(c: &Case) -> f64 {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for i in 0..64 {
        let (a, _, b, _) = volumes(&c.ws, c.period() * i as f64 / 64.0);
        lo = lo.min(a).min(b);
        hi = hi.max(a).max(b);
    }
    hi - lo
}
pub(super) fn run(c: &Case) -> (Outcome, Rc<Log>) {
    let o = observe(c, Opts::default());
    (o.out, o.log)
}
/// scale an engine: pressure, frequency and volume factors
fn scaled(c: &Case, kp: f64, kf: f64, kv: f64) -> (Case, Factors) {
    let mut s = *c;
    let flow = kp * kf * kv;
    s.p0 *= kp;
    s.ws.f *= kf;
    s.ws.cl_c *= kv;
    s.ws.cl_e *= kv;
    match &mut s.ws.drive {
        Drive::Sin { sw_c, sw_e, .. } | Drive::Harm { sw_c, sw_e, .. } => {
            *sw_c *= kv;
            *sw_e *= kv;
        }
        Drive::Rhombic { r, l, e, dp, dd } => {
            for x in [r, l, e, dp, dd] {
                *x *= kv.cbrt();
            }
        }
    }
    s.ws.r_c /= flow;
    s.ws.r_e /= flow;
    for h in [&mut s.chx, &mut s.regen, &mut s.hhx] {
        h.vol *= kv;
        h.rhyd *= kp / (kf * kv);
        if let Model::Ua(u) = &mut h.model {
            *u *= flow;
        }
    }
    for p in [&mut s.ws.pc, &mut s.ws.pe, &mut s.chx.par, &mut s.regen.par, &mut s.hhx.par] {
        p.th *= flow;
        p.me *= flow;
        p.el *= flow;
    }
    (s, Factors { time: 1.0 / kf, pres: kp, flow, torque: kp * kv })
}
/// what a difference of one more or one fewer iteration may amount to, relative
pub(super) fn loop_slack(c: &Case) -> f64 {
    let t = c.ts.min(c.th);
    let lim = |x: (f64, f64)| (x.0 / t).min(x.1);
    lim(c.inner) + lim(c.outer)
}
pub(super) fn counts(l: &Log) -> (u64, u64) {
    let outer = l.ev.borrow().iter().filter(|e| matches!(e, crate::mon::Ev::Hx(h) if h.which == crate::mon::Which::Regen && h.q == crate::mon::HxQ::Approach)).count();
    (l.starts.get(), outer as u64)
}
/// Two engines whose results should be the same up to rounding and integration accuracy (same iterations) or
/// up to the loop tolerances. `noise` is what rounding of the matrix solution may amount to.
fn judge(rep: &mut Report, ca: &Case, cb: &Case, k: Factors, tag: &str, noise: f64, desc: &str) -> Outcome {
    let (a, la) = run(ca);
    let (b, lb) = run(cb);
    judge_runs(rep, ca, cb, (&a, &la), (&b, &lb), k, tag, noise, desc);
    a
}
pub(super) fn limits(c: &Case, noise: f64) -> [f64; 3] {
    let acc = oracle::ODE_MULT * (c.ode.1 + c.ode.0 / c.ts.min(c.th));
    [acc + 0.1 * noise, 10.0 * acc + noise, 10.0 * acc + noise]
}
fn judge_runs(rep: &mut Report, ca: &Case, cb: &Case, a: (&Outcome, &Rc<Log>), b: (&Outcome, &Rc<Log>), k: Factors, tag: &str, noise: f64, desc: &str) {
    let (x, y) = match (a.0, b.0) {
        (Outcome::Ok(x), Outcome::Ok(y)) => (x, y),
        (x, y) => {
            if x.kind() == y.kind() {
                rep.add(format!("{tag}_failed_alike_{}", x.kind()), 1);
                return;
            }
            // loops may stall on integration noise, differently for inputs that differ by rounding: not with looser tolerances
            let loose = |c: &Case| {
                let mut c = *c;
                c.inner = (c.inner.0 * 100.0, c.inner.1 * 100.0);
                c.outer = (c.outer.0 * 100.0, c.outer.1 * 100.0);
                c
            };
            if run(&loose(ca)).0.kind() == run(&loose(cb)).0.kind() {
                rep.inconclusive("a loop stalled on integration noise in one of the runs");
            } else {
                rep.violate(format!("{desc}: one run ended in {}, the other in {}", x.kind(), y.kind()));
            }
            return;
        }
    };
    let Some(d) = compare(ca, x, y, k) else {
        rep.violate(format!("{desc}: series of different lengths"));
        return;
    };
    let same = counts(a.1) == counts(b.1);
    let extra = if same { 0.0 } else { 30.0 * loop_slack(ca) };
    let sub = if same { "" } else { "_other_iterations" };
    let lim = limits(ca, noise);
    let lim = [lim[0] + extra, lim[1] + 10.0 * extra, lim[2] + 10.0 * extra];
    let got = [d.state, d.flow, d.avg];
    rep.add(format!("{tag}_pairs{sub}"), 1);
    if (0..3).any(|j| !(got[j] < lim[j])) {
        // An error-controlled integrator may misjudge single steps, differently for inputs that differ by rounding.
        // Such a difference belongs to the tolerance: it goes away when that is tightened.
        rep.add(format!("{tag}_judged_again_with_tighter_tolerances"), 1);
        let tight = |c: &Case| {
            let mut c = *c;
            c.ode = ((c.ode.0 * 1e-2).max(1e-13), (c.ode.1 * 1e-2).max(1e-13));
            c
        };
        if let (Outcome::Ok(x), Outcome::Ok(y)) = (&run(&tight(ca)).0, &run(&tight(cb)).0) {
            if let Some(e) = compare(ca, x, y, k) {
                let e = [e.state, e.flow, e.avg];
                if (0..3).all(|j| e[j] < lim[j] || e[j] < 0.2 * got[j]) && (0..3).all(|j| got[j] < 300.0 * lim[j]) {
                    return;
                }
            }
        }
    }
    for (j, n) in ["state", "flow", "average"].iter().enumerate() {
        rep.bound(&format!("{tag}_{n}{sub}"), got[j] / lim[j], || format!("{desc}: {}", d.what[j]));
    }
}
pub(super) fn tight_ode(r: &mut Rng, c: &mut Case) {
    c.ode = r.pick(&[(1e-8, 1e-8), (1e-9, 1e-9), (1e-10, 1e-10), (1e-6, 1e-9), (1e-9, 1e-10)]);
    let l = loop_tols(r, c.ode);
    let up = |t: (f64, f64)| (t.0 * 20.0, t.1 * 20.0);
    c.inner = up(l.0);
    c.outer = up(l.1);
}
/// C17
fn c17(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C17", i);
    let mut c = gen(&mut r, &FULL);
    c.n = r.pick(&[2, 5, 30, 101]);
    tight_ode(&mut r, &mut c);
    if i % 2 == 0 {
        c = c.single_shot();
    }
    if r.chance(0.6) {
        let (a, b, d) = (r.log(1e-3, 1e2), r.log(1e-2, 1e2), r.log(1e-4, 1e4));
        c = scaled(&c, if matches!(c.fluid.base, FluidSpec::Real { .. }) { 1.0 } else { a }, b, d).0;
    }
    rep.case = format!("{c:?}");
    let with = |s| Case { solver: s, ..c };
    let runs = [Solver::Lu, Solver::Qr, Solver::Svd].map(|s| run(&with(s)));
    rep.fp = fingerprint(&runs[0].0);
    rep.nontrivial = runs[0].0.ok().is_some();
    for (j, s, tag, d) in [(1, Solver::Qr, "lu_qr", "LU and QR"), (2, Solver::Svd, "lu_svd", "LU and SVD")] {
        judge_runs(&mut rep, &with(Solver::Lu), &with(s), (&runs[0].0, &runs[0].1), (&runs[j].0, &runs[j].1), Factors::ONE, tag, 2e-8, d);
    }
    rep.add(if i % 2 == 0 { "single_cycles" } else { "full_runs" }, 1);
    rep
}
/// C20
fn c20(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C20", i);
    let mut p = FULL;
    p.custom_fluid = false;
    let mut c = gen(&mut r, &p);
    if matches!(c.fluid.base, FluidSpec::Real { .. }) {
        c.fluid.base = FluidSpec::He;
    }
    c.n = r.pick(&[2, 5, 30, 101]);
    tight_ode(&mut r, &mut c);
    c.ode.0 = c.ode.0.min(1e-8);
    let which = i % 4;
    let far = |r: &mut Rng, e: f64| 10f64.powf(r.range(-e, e));
    let (kp, kf, kv) = match which {
        0 => (far(&mut r, 4.0), 1.0, 1.0),
        1 => (1.0, far(&mut r, 4.0), 1.0),
        2 => (1.0, 1.0, far(&mut r, 6.0)),
        _ => (far(&mut r, 3.0), far(&mut r, 3.0), far(&mut r, 4.0)),
    };
    // the pressure's absolute ODE tolerance is the one scale an engine has: keep it negligible
    if c.p0 * kp < 10.0 || c.p0 < 10.0 {
        rep.inconclusive("pressure too low");
        return rep;
    }
    let (s, k) = scaled(&c, kp, kf, kv);
    rep.case = format!("pressure x{kp:e}, frequency x{kf:e}, volumes x{kv:e}: {c:?}");
    let a = judge(&mut rep, &c, &s, k, "similar", 2e-8, &format!("pressure x{kp:e}, frequency x{kf:e}, volumes x{kv:e}"));
    rep.fp = fingerprint(&a);
    rep.nontrivial = a.ok().is_some();
    rep.add(["pressure_scaled", "frequency_scaled", "volumes_scaled", "all_scaled"][which as usize], 1);
    rep
}
/// C21
fn c21(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C21", i);
    let mut p = FULL;
    p.ua = false;
    p.settle = false;
    if i % 5 == 4 {
        return same_accuracy(&mut r, rep);
    }
    match i % 3 {
        0 => {
            // resolutions with common instants
            let mut c = gen(&mut r, &p);
            tight_ode(&mut r, &mut c);
            let m = r.pick(&[1u32, 2, 3, 4, 5, 7, 10, 29, 50, 99, 100]);
            let k = if r.chance(0.08) { (r.log(3000.0, 70000.0) as u32 / m).max(2) } else { r.pick(&[2u32, 3, 5, 10, 17]) };
            c.n = m + 1;
            let mut f = c;
            f.n = m * k + 1;
            rep.case = format!("{} and {} points: {c:?}", c.n, f.n);
            let (a, b) = (run(&c), run(&f));
            rep.fp = fingerprint(&a.0);
            let (x, y) = match (&a.0, b.0) {
                (Outcome::Ok(x), Outcome::Ok(y)) => (x, y),
                (x, y) => {
                    if x.kind() != y.kind() {
                        rep.violate(format!("with {} points the run ends in {}, with {} in {}", c.n, x.kind(), f.n, y.kind()));
                    } else {
                        rep.inconclusive("run failed");
                    }
                    return rep;
                }
            };
            let acc = oracle::ODE_MULT * (c.ode.1 + c.ode.0 / c.ts.min(c.th)) + 1e-9;
            let fine = y.values.time.len();
            // each run reports the averages of its own samples
            for (c, x) in [(&c, &**x), (&f, &*y)] {
                if oracle::same_lengths(x) && x.values.time.len() > 1 {
                    oracle::averages(c, x, &mut rep);
                    oracle::powers(c, x, &mut rep);
                }
            }
            let z = coarse(y, k as usize);
            if z.values.time.len() != x.values.time.len() {
                rep.violate(format!("{} and {} points reported for {} and {} requested", x.values.time.len(), fine, c.n, f.n));
                return rep;
            }
            // averages of the fine run's samples at the common instants
            let v = &z.values;
            let tf = v.time[v.time.len() - 1];
            let avg = |q: &[f64]| oracle::trapz(&v.time, q) / tf;
            let pavg = avg(&v.P);
            let work = c.ws.f * oracle::trapz(&v.time, &v.time.iter().zip(&v.P).map(|(t, p)| {
                let (_, dc, _, de) = volumes(&c.ws, *t);
                p * (dc + de)
            }).collect::<Vec<_>>());
            let w0 = c.p0 * volumes_swing(&c) * c.ws.f;
            let Some(d) = compare(&c, x, &z, Factors::ONE) else { return rep };
            if !(d.state < acc) && d.state < 300.0 * acc {
                // (integration accuracy: see judge_runs)
                let tight = |n| Case { n, ode: (c.ode.0 * 1e-2, (c.ode.1 * 1e-2).max(1e-13)), ..c };
                rep.add("judged_again_with_tighter_tolerances", 1);
                if let (Outcome::Ok(x), Outcome::Ok(y)) = (run(&tight(c.n)).0, run(&tight(f.n)).0) {
                    if compare(&c, &x, &coarse(y, k as usize), Factors::ONE).is_some_and(|e| e.state < acc || e.state < 0.2 * d.state) {
                        return rep;
                    }
                }
            }
            let big = if c.solver == Solver::Svd { 10.0 } else { 1.0 };
            rep.bound("common_instants_state", d.state / acc, || format!("{} and {} points: {}", c.n, f.n, d.what[0]));
            rep.bound("common_instants_flow", d.flow / (20.0 * acc * big + 1e-7), || format!("{} and {} points: {}", c.n, f.n, d.what[1]));
            rep.bound("coarse_average_pressure", (x.pressure.avg - pavg).abs() / c.p0 / acc, || format!("average pressure {:e}, its own instants sampled from a finer run give {pavg:e}", x.pressure.avg));
            rep.bound("coarse_power", (x.power.ideal_indicated - work).abs() / w0 / (20.0 * acc), || format!("ideal indicated power {:e}, its own instants sampled from a finer run give {work:e}", x.power.ideal_indicated));
            for (n, p, q) in [("chx", x.temperature.chx, z.temperature.chx), ("regen_avg", x.temperature.regen_avg, z.temperature.regen_avg), ("hhx", x.temperature.hhx, z.temperature.hhx)] {
                if p != q && (p - q).abs() > 1e-9 * p.abs() {
                    rep.violate(format!("{n} temperature {p:e} with {} points and {q:e} with {}", c.n, f.n));
                }
            }
            rep.add("resolution_pairs", 1);
            rep.nontrivial = m > 2;
        }
        1 => {
            // ODE tolerances
            let mut c = gen(&mut r, &FULL).single_shot();
            c.n = r.pick(&[2, 9, 30]);
            let tol = 10f64.powi(-(r.below(6) as i32) - 4);
            c.ode = (tol, tol);
            let mut f = c;
            f.ode = (tol * 1e-2, tol * 1e-2);
            if f.ode.0 < 1e-12 {
                f.ode = (1e-12, 1e-12);
            }
            rep.case = format!("ODE tolerances {:e} and {:e}: {c:?}", c.ode.0, f.ode.0);
            let (a, b) = (run(&c), run(&f));
            rep.fp = fingerprint(&a.0);
            rep.nontrivial = a.0.ok().is_some();
            match (&a.0, &b.0) {
                (Outcome::Ok(x), Outcome::Ok(y)) => {
                    if let Some(d) = compare(&c, x, y, Factors::ONE) {
                        let acc = oracle::ODE_MULT * tol + 1e-8;
                        if d.state / acc >= 1.0 {
                            rep.add("judged_with_tighter_tolerances", 1);
                            // single steps may be misjudged: the error must then go away with the tolerance
                            let mut g = c;
                            g.ode = (tol * 0.1, tol * 0.1);
                            let e = run(&g);
                            match e.0.ok().and_then(|z| compare(&c, z, y, Factors::ONE)) {
                                Some(e) if e.state < 0.4 * d.state && d.state < 1000.0 * acc => {}
                                _ => rep.bound("ode_state", d.state / acc, || format!("ODE tolerances {:e} and {:e}: {}", c.ode.0, f.ode.0, d.what[0])),
                            }
                        } else {
                            rep.max("ode_state", d.state / acc);
                        }
                    }
                    rep.add("ode_tolerance_pairs", 1);
                }
                (x, y) => {
                    // a cycle may be too stiff for a tolerance, but then the run says so
                    if matches!(x, Outcome::Panic(_) | Outcome::Budget) || matches!(y, Outcome::Panic(_) | Outcome::Budget) {
                        rep.violate(format!("a run ended in {} / {}", x.kind(), y.kind()));
                    }
                    rep.inconclusive("run failed");
                }
            }
        }
        _ => {
            // inner loop tolerances
            let mut c = gen(&mut r, &p);
            c.ode = (1e-9, 1e-9);
            c.n = r.pick(&[2, 9, 30]);
            let rel = r.chance(0.5);
            let hi = 10f64.powf(r.range(-2.5, 1.0));
            let set = |c: &mut Case, t: f64| c.inner = if rel { (1e6, t / 300.0) } else { (t, 1e3) };
            set(&mut c, hi);
            let mut f = c;
            set(&mut f, (hi * 1e-3).max(1e-4));
            rep.case = format!("inner tolerances {:?} and {:?}: {c:?}", c.inner, f.inner);
            let (a, b) = (run(&c), run(&f));
            rep.fp = fingerprint(&a.0);
            let (Outcome::Ok(x), Outcome::Ok(y)) = (&a.0, &b.0) else {
                rep.inconclusive("run failed");
                return rep;
            };
            // contraction of the successive substitution near its limit
            let t = oracle::temps(y);
            let Some(h) = super::loops::history(&c, t, 60, 1e-9) else {
                rep.inconclusive("no reference history");
                return rep;
            };
            let mut q: f64 = 0.0;
            for w in h.windows(2) {
                if w[0].abs() > 1e-3 && w[0].abs() < 50.0 * hi.max(0.1) {
                    q = q.max(w[1].abs() / w[0].abs());
                }
            }
            if !(q < 0.97) {
                rep.inconclusive("slow successive substitution");
                return rep;
            }
            let tmax = y.temperature.hhx.max(y.temperature.chx) * 1.6;
            let step = if rel { hi / 300.0 * tmax } else { hi };
            let lim = 3.0 * step / (1.0 - q) + 1e-3;
            for (n, u, v) in [("T_c", &x.values.T_c, &y.values.T_c), ("T_e", &x.values.T_e, &y.values.T_e)] {
                let d = u.iter().zip(v).map(|(p, q)| (p - q).abs()).fold(0.0, f64::max);
                rep.bound("inner_tolerance", d / lim, || format!("{n} differs by {d:e} K between inner tolerances {:?} and {:?} although each cycle contracts by {q:.2}", c.inner, f.inner));
            }
            rep.add("inner_tolerance_pairs", 1);
            rep.nontrivial = a.1.starts.get() != b.1.starts.get();
        }
    }
    rep
}
/// A cycle sampled finely is integrated as accurately as when it is sampled coarsely.
fn same_accuracy(r: &mut Rng, mut rep: Report) -> Report {
    let mut c = gen(r, &FULL).single_shot();
    c.solver = Solver::Lu;
    let tol = 10f64.powf(r.range(-8.0, -4.0));
    c.ode = (tol * r.pick(&[1e-2, 1.0, 100.0]), tol);
    let (m, k) = r.pick(&[(10u32, 400u32), (20, 50), (7, 300), (1, 1000), (8, 1250), (4, 5000), (100, 100)]);
    let mut e = c;
    e.ode = (1e-12, 1e-12);
    c.n = m + 1;
    e.n = m + 1;
    let mut f = c;
    f.n = m * k + 1;
    rep.case = format!("accuracy at {} and {} points: {c:?}", c.n, f.n);
    let (a, x) = (run(&c).0, run(&e).0);
    rep.fp = fingerprint(&a);
    let (Outcome::Ok(a), Outcome::Ok(x)) = (a, x) else {
        rep.inconclusive("run failed");
        return rep;
    };
    let err = |z: &RunResults| {
        let (u, v) = (&z.values, &x.values);
        let d = |p: &[f64], q: &[f64]| p.iter().zip(q).map(|(p, q)| ((p - q) / q).abs()).fold(0.0, f64::max);
        d(&u.P, &v.P).max(d(&u.T_c, &v.T_c)).max(d(&u.T_e, &v.T_e))
    };
    let unit = tol + c.ode.0 / c.ts.min(c.th);
    // how much worse the fine run is than the coarse one, with tolerances scaled by `s`
    let lost = |s: f64, a: Option<&RunResults>| -> Result<(f64, f64, f64), String> {
        let ode = (c.ode.0 * s, c.ode.1 * s);
        let other;
        let a = match a {
            Some(a) => a,
            None => {
                other = run(&Case { ode, ..c }).0;
                other.ok().ok_or("run failed")?
            }
        };
        let Outcome::Ok(b) = run(&Case { ode, ..f }).0 else { return Err("run failed".into()) };
        let b = coarse(b, k as usize);
        if b.values.time.len() != a.values.time.len() {
            return Err(format!("{} points reported for {} requested", b.values.time.len(), f.n));
        }
        let (ea, eb) = (err(a), err(&b));
        Ok(((eb - unit).max(0.0) / (8.0 * ea + unit), ea, eb))
    };
    let (mut worst, ea, eb) = match lost(1.0, Some(&a)) {
        Ok(q) => q,
        Err(m) if m == "run failed" => {
            rep.inconclusive(m);
            return rep;
        }
        Err(m) => {
            rep.violate(m);
            return rep;
        }
    };
    if worst >= 1.0 {
        // the error of a single run is partly luck: nearby tolerances have to show the same
        rep.add("accuracy_judged_again_with_nearby_tolerances", 1);
        let mut q: Vec<f64> = [0.7, 0.8, 0.9, 1.13, 1.3, 1.5].iter().filter_map(|s| lost(*s, None).ok()).map(|q| q.0).collect();
        q.push(worst);
        q.sort_by(f64::total_cmp);
        worst = q[q.len() / 2];
    }
    rep.bound("accuracy_lost_to_resolution", worst, || {
        format!("the history is off by {eb:e} with {} points, by {ea:e} at the same instants with {}: ODE tolerances {:?}", f.n, c.n, c.ode)
    });
    rep.max("resolution_error_over_tolerance", eb / unit);
    rep.add("accuracy_pairs", 1);
    rep.nontrivial = true;
    rep
}
/// the same results with every k-th sample only
fn coarse(mut z: Box<RunResults>, k: usize) -> Box<RunResults> {
    let v = &mut z.values;
    for s in [&mut v.time, &mut v.P, &mut v.P_c, &mut v.P_e, &mut v.T_c, &mut v.T_e, &mut v.m_dot_ck, &mut v.m_dot_kr, &mut v.m_dot_rl, &mut v.m_dot_le, &mut v.Q_dot_k, &mut v.Q_dot_r, &mut v.Q_dot_l] {
        *s = s.iter().copied().step_by(k).collect();
    }
    z
}
/// C23
fn c23(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C23", i);
    let mut c = gen(&mut r, &FULL);
    let real = |r: &mut Rng, c: &mut Case| {
        let rg = r.log(180.0, 5000.0);
        let t = 0.8 * c.ts;
        let k = rg * t / (4.0 * c.p0);
        let b = k * r.range(0.0, 0.15);
        c.fluid.base = FluidSpec::Real { r: rg, c0: rg * r.range(2.4, 5.0), c1: rg * r.range(0.0, 8e-4), a: k * rg * t * r.range(0.0, 0.1), b, c: k * t * t / (4.0 * c.p0) * r.range(-0.08, 0.08) };
    };
    if i % 2 == 0 {
        // another zero of enthalpy and internal energy
        if r.chance(0.3) {
            real(&mut r, &mut c);
        }
        c.n = r.pick(&[2, 5, 30, 101]);
        tight_ode(&mut r, &mut c);
        c.fluid.shift = 0.0;
        let mut s = c;
        s.fluid.shift = r.log(1e3, 1e8) * if r.chance(0.5) { 1.0 } else { -1.0 };
        if r.chance(0.15) {
            // enthalpies that vanish on average
            let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
            s.fluid.shift = -r.pick(&[f.enth(c.ts, c.p0), f.enth(c.th, c.p0), 0.5 * (f.enth(c.ts, c.p0) + f.enth(c.th, c.p0))]);
        }
        rep.case = format!("enthalpies shifted by {:e}: {c:?}", s.fluid.shift);
        let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
        // digits lost to the offset
        let lost = 1.0 + s.fluid.shift.abs() / (f.cp(c.ts, c.p0) * c.ts.min(c.th));
        let a = judge(&mut rep, &c, &s, Factors::ONE, "shift", 2e-8 * lost, &format!("enthalpies shifted by {:e}", s.fluid.shift));
        rep.fp = fingerprint(&a);
        rep.nontrivial = a.ok().is_some();
        rep.add("shifted_pairs", 1);
        return rep;
    }
    real(&mut r, &mut c);
    c.fluid.shift = if r.chance(0.3) { r.range(-3e6, 3e6) } else { 0.0 };
    c.n = r.pick(&[5, 30, 101, 201, 401]);
    rep.case = format!("{c:?}");
    let (out, _) = run(&c);
    rep.fp = fingerprint(&out);
    let Some(res) = out.ok().filter(|x| oracle::same_lengths(x) && x.values.time.len() > 1) else {
        rep.inconclusive(format!("run ended in {}", out.kind()));
        return rep;
    };
    for (n, f) in [
        ("balances", oracle::balances as fn(&Case, &RunResults, &mut Report)),
        ("grid", oracle::grid),
        ("averages", oracle::averages),
        ("powers", oracle::powers),
    ] {
        f(&c, res, &mut rep);
        rep.add(format!("real_gas_{n}"), 1);
    }
    for f in [oracle::inventory as fn(&Case, &RunResults, &mut Report), oracle::heats] {
        let mut one = Report::new();
        f(&c, res, &mut one);
        if one.violated() {
            // sums over few samples: judge the same engine again, sampled much more finely
            let mut c2 = c;
            c2.n = 40 * (c.n - 1).clamp(50, 1000) + 1;
            one = Report::new();
            if let Some(x) = run(&c2).0.ok() {
                f(&c2, x, &mut one);
            }
        }
        for (k, v) in one.maxes {
            rep.max(k, v);
        }
        if let crate::verdict::Verdict::Violation(m) = one.verdict {
            rep.violate(m);
        }
    }
    if let Some((e, _, what)) = oracle::trajectory_error(&c, res, oracle::reference_tol(&c)) {
        rep.bound("trajectory", e / (oracle::ODE_MULT * 20.0), || what);
    }
    rep.nontrivial = true;
    rep
}
pub fn checks() -> Vec<Check> {
    let mk = |id, quick, thorough, run| Check { id, quick, thorough, run, post: None };
    vec![
        mk("C17", 500, 12_000, c17 as fn(&Ctx, u64) -> Report),
        mk("C20", 1000, 20_000, c20),
        mk("C21", 3000, 120_000, c21),
        mk("C23", 1200, 25_000, c23),
    ]
}
