//! C24 (engine and results agree), C25 (origin of time), C26 (losses do not feed back), C27 (mirror engines).
#![allow(non_snake_case)]
use super::relate::*;
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::oracle;
use crate::rng::Rng;
use crate::verdict::Report;
use sett_rs::api::RunResults;
use sett_rs::fluid::Fluid;
use sett_rs::types::RunError;
use sett_rs::Engine;

const LENGTHS: [u32; 9] = [3, 5, 7, 9, 17, 31, 61, 101, 257];

/// what a converged engine shows before its results are extracted
#[derive(Default)]
struct View {
    scalars: Vec<(&'static str, f64)>,
    series: Vec<(&'static str, Vec<f64>)>,
    /// (what, shown, expected from the rest of the view and the fluid)
    derived: Vec<(&'static str, f64, f64)>,
}
fn view<F: Fluid>(e: &Engine<F>, c: &Case) -> View {
    let (s, v) = (&e.state, &e.values);
    let scalars = vec![
        ("heat_flow.chx", s.heat_flow.chx),
        ("heat_flow.regen", s.heat_flow.regen),
        ("heat_flow.hhx", s.heat_flow.hhx),
        ("mass_flow.chx", s.mass_flow.chx),
        ("mass_flow.regen", s.mass_flow.regen),
        ("mass_flow.hhx", s.mass_flow.hhx),
        ("pressure.avg", s.pres.avg),
        ("pressure.max", s.pres.max),
        ("pressure.min", s.pres.min),
        ("pressure.t_zero", s.pres.t_zero),
        ("regen_imbalance", s.regen_imbalance.0),
        ("temperature.sink", s.temp.sink),
        ("temperature.chx", s.temp.chx),
        ("temperature.regen_cold", s.temp.regen.cold),
        ("temperature.regen_avg", s.temp.regen.avg),
        ("temperature.regen_hot", s.temp.regen.hot),
        ("temperature.hhx", s.temp.hhx),
        ("temperature.source", s.temp.source),
    ];
    let series = vec![
        ("time", v.time.clone()),
        ("P", v.P.clone()),
        ("T_c", v.T_c.clone()),
        ("T_e", v.T_e.clone()),
        ("m_dot_ck", v.m_dot_ck.clone()),
        ("m_dot_kr", v.m_dot_kr.clone()),
        ("m_dot_rl", v.m_dot_rl.clone()),
        ("m_dot_le", v.m_dot_le.clone()),
        ("Q_dot_k", v.Q_dot_k.clone()),
        ("Q_dot_r", v.Q_dot_r.clone()),
        ("Q_dot_l", v.Q_dot_l.clone()),
    ];
    let mut derived = vec![];
    {
        let mut hx = |names: [&'static str; 6], h: sett_rs::types::HeatExchanger, temp: f64, m: f64, q: f64| {
            let want = [temp, s.pres.avg, s.fluid.dens(temp, s.pres.avg), s.fluid.cp(temp, s.pres.avg), m, q];
            let got = [h.temp, h.pres, h.dens, h.cp, h.m_dot, h.Q_dot];
            for i in 0..6 {
                derived.push((names[i], got[i], want[i]));
            }
        };
        hx(["chx temp", "chx pres", "chx dens", "chx cp", "chx m_dot", "chx Q_dot"], s.chx().hxr, s.temp.chx, s.mass_flow.chx, s.heat_flow.chx);
        hx(
            ["regen temp", "regen pres", "regen dens", "regen cp", "regen m_dot", "regen Q_dot"],
            s.regen().hxr,
            s.temp.regen.avg,
            s.mass_flow.regen,
            s.heat_flow.regen,
        );
        hx(["hhx temp", "hhx pres", "hhx dens", "hhx cp", "hhx m_dot", "hhx Q_dot"], s.hhx().hxr, s.temp.hhx, s.mass_flow.hhx, s.heat_flow.hhx);
    }
    let ws = s.ws();
    derived.extend([
        ("chx sink temperature", s.chx().sink_temp, s.temp.sink),
        ("hhx source temperature", s.hhx().source_temp, s.temp.source),
        ("regen cold neighbour", s.regen().temp_chx, s.temp.chx),
        ("regen hot neighbour", s.regen().temp_hhx, s.temp.hhx),
        ("working spaces' average pressure", ws.pres.avg, s.pres.avg),
        ("working spaces' maximum pressure", ws.pres.max, s.pres.max),
        ("working spaces' minimum pressure", ws.pres.min, s.pres.min),
        ("working spaces' pressure at time zero", ws.pres.t_zero, s.pres.t_zero),
        // the components are the ones given
        ("chx volume", e.components.chx.volume(), c.chx.vol),
        ("regen volume", e.components.regen.volume(), c.regen.vol),
        ("hhx volume", e.components.hhx.volume(), c.hhx.vol),
        ("chx hydraulic resistance", e.components.chx.hydraulic_resistance(&s.chx()), c.chx.rhyd),
        ("regen hydraulic resistance", e.components.regen.hydraulic_resistance(&s.regen()), c.regen.rhyd),
        ("hhx hydraulic resistance", e.components.hhx.hydraulic_resistance(&s.hhx()), c.hhx.rhyd),
        ("frequency", e.components.ws.frequency(&ws), c.ws.f),
    ]);
    View { scalars, series, derived }
}
fn go<U: MatrixDec>(c: &Case) -> Result<(View, RunResults), RunError> {
    let log = new_log(Opts::default());
    let e = U::run(mon_components(c, &log, Dep::default()), MonFluid::new(&c.fluid, &log), c)?;
    let v = view(&e, c);
    Ok((v, RunResults::from(e)))
}
/// loops as tight as the integrator allows
fn tight(r: &mut Rng, c: &mut Case) {
    c.ode = r.pick(&[(1e-8, 1e-8), (1e-9, 1e-9), (1e-10, 1e-10), (1e-9, 1e-10)]);
    (c.inner, c.outer) = loop_tols(r, c.ode);
}
/// C24
fn c24(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C24", i);
    let c = gen(&mut r, &FULL);
    rep.case = format!("{c:?}");
    let out = catch(|| match c.solver {
        Solver::Lu => go::<Lu>(&c),
        Solver::Qr => go::<Qr>(&c),
        Solver::Svd => go::<Svd>(&c),
    });
    let (v, res) = match out {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => {
            rep.inconclusive("run failed");
            return rep;
        }
        Err(m) => {
            rep.inconclusive(format!("run ended in a panic: {m}"));
            return rep;
        }
    };
    let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    let shown = scalars(&res);
    for (n, x) in &v.scalars {
        let y = shown.iter().find(|q| q.0 == *n).unwrap().1;
        if !same(*x, y) {
            rep.violate(format!("the engine's {n} is {x:e}, its results say {y:e}"));
        }
        rep.add("scalars_compared", 1);
    }
    let shown = series(&res);
    for (n, x) in &v.series {
        let y = shown.iter().find(|q| q.0 == *n).unwrap().1;
        if x.len() != y.len() || (0..x.len()).any(|i| !same(x[i], y[i])) {
            rep.violate(format!("the engine's {n} differs from the one in its results"));
        }
        rep.add("samples_compared", x.len() as u64);
    }
    for (n, x, y) in &v.derived {
        // (rounding of a default implementation apart, these are copies)
        if !(same(*x, *y) || (x - y).abs() <= 1e-13 * y.abs()) {
            rep.violate(format!("the converged engine gives its components {n} = {x:e}, expected {y:e}"));
        }
        rep.add("component_inputs_compared", 1);
    }
    if oracle::same_lengths(&res) && res.values.time.len() > 1 {
        oracle::averages(&c, &res, &mut rep);
    }
    rep.fp = fingerprint(&Outcome::Ok(Box::new(res)));
    rep.nontrivial = c.n > 3;
    rep
}
/// Two runs related by a transformation: `back` turns a result of the second into what the first should report.
fn related(rep: &mut Report, ca: &Case, cb: &Case, a: &Outcome, b: Outcome, tag: &str, desc: &str, back: &dyn Fn(&RunResults, Box<RunResults>) -> Box<RunResults>) {
    let (x, y) = match (a, b) {
        (Outcome::Ok(x), Outcome::Ok(y)) => (x, y),
        (x, y) => {
            if x.kind() == y.kind() {
                rep.inconclusive(format!("both runs ended in {}", x.kind()));
                return;
            }
            // loops may stall on integration noise, but not with looser tolerances
            let loose = |c: &Case| {
                let mut c = *c;
                c.inner = (c.inner.0 * 100.0, c.inner.1 * 100.0);
                c.outer = (c.outer.0 * 100.0, c.outer.1 * 100.0);
                run(&c).0.kind()
            };
            if loose(ca) == loose(cb) {
                rep.inconclusive("a loop stalled in one of the runs");
            } else {
                rep.violate(format!("{desc}: one run ended in {}, the other in {}", x.kind(), y.kind()));
            }
            return;
        }
    };
    if !oracle::same_lengths(x) || !oracle::same_lengths(&y) || x.values.time.len() != y.values.time.len() {
        rep.violate(format!("{desc}: series of different lengths"));
        return;
    }
    let y = back(x, y);
    let Some(d) = compare(ca, x, &y, Factors::ONE) else { return };
    let lim = limits(ca, 2e-8);
    let extra = 10.0 * loop_slack(ca);
    let lim = [lim[0] + extra, lim[1] + 10.0 * extra, lim[2] + 10.0 * extra];
    let got = [d.state, d.flow, d.avg];
    rep.add(format!("{tag}_pairs"), 1);
    if (0..3).any(|j| !(got[j] < lim[j])) {
        // slowly converging engines are further from their limit than the tolerances say: the difference must
        // then go away with the tolerances
        rep.add(format!("{tag}_judged_again_with_tighter_tolerances"), 1);
        let tight = |c: &Case| {
            let mut c = *c;
            c.ode = ((c.ode.0 * 1e-2).max(1e-13), (c.ode.1 * 1e-2).max(1e-13));
            c.inner = (c.inner.0 * 0.03, c.inner.1 * 0.03);
            c.outer = (c.outer.0 * 0.03, c.outer.1 * 0.03);
            c.mi *= 4;
            c.mo *= 4;
            run(&c).0
        };
        match (tight(ca), tight(cb)) {
            (Outcome::Ok(x), Outcome::Ok(y)) if oracle::same_lengths(&y) && x.values.time.len() == y.values.time.len() => {
                let y = back(&x, y);
                if let Some(e) = compare(ca, &x, &y, Factors::ONE) {
                    let e = [e.state, e.flow, e.avg];
                    if (0..3).all(|j| e[j] < lim[j] || e[j] < 0.2 * got[j]) && (0..3).all(|j| got[j] < 300.0 * lim[j]) {
                        return;
                    }
                }
            }
            _ => {
                if (0..3).all(|j| got[j] < 10.0 * lim[j]) {
                    rep.inconclusive("cannot be judged with tighter tolerances");
                    return;
                }
            }
        }
    }
    for (j, n) in ["state", "flow", "average"].iter().enumerate() {
        rep.bound(&format!("{tag}_{n}"), got[j] / lim[j], || format!("{desc}: {}", d.what[j]));
    }
}
fn all_series(r: &mut RunResults) -> [&mut Vec<f64>; 12] {
    let v = &mut r.values;
    [
        &mut v.P, &mut v.P_c, &mut v.P_e, &mut v.T_c, &mut v.T_e, &mut v.m_dot_ck, &mut v.m_dot_kr, &mut v.m_dot_rl, &mut v.m_dot_le,
        &mut v.Q_dot_k, &mut v.Q_dot_r, &mut v.Q_dot_l,
    ]
}
/// C25
fn c25(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C25", i);
    let mut c = gen(&mut r, &FULL);
    c.n = if r.chance(0.1) { r.log(3.0, 3000.0) as u32 } else { r.pick(&LENGTHS) };
    tight(&mut r, &mut c);
    let m = (c.n - 1) as usize;
    let j = 1 + r.below(m as u64 - 1) as usize;
    rep.case = format!("started {j}/{m} of a period later: {c:?}");
    let a = run(&c).0;
    rep.fp = fingerprint(&a);
    let Some(x) = a.ok().filter(|x| x.values.P.len() == c.n as usize) else {
        rep.inconclusive("run failed");
        return rep;
    };
    let mut s = c;
    s.ws.shift += j as f64 / m as f64;
    s.p0 = x.values.P[j];
    let b = run(&s).0;
    let back = |x: &RunResults, mut y: Box<RunResults>| {
        for q in all_series(&mut y) {
            *q = (0..=m).map(|i| q[(i + m - j) % m]).collect();
        }
        let _ = x;
        y.pressure.t_zero = y.values.P[0];
        y
    };
    // (when judged again with tighter tolerances the pressure to start from is, to within them, the same)
    related(&mut rep, &c, &s, &a, b, "shifted_start", &format!("started {j}/{m} of a period later"), &back);
    rep.nontrivial = true;
    rep
}
/// C26
fn c26(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C26", i);
    let c = gen(&mut r, &FULL);
    let mut s = c;
    let k = r.pick(&[0.0, 0.5, 2.0, 10.0, 1e3, -1.0]);
    let w0 = c.p0 * c.chx.vol * c.ws.f;
    let mut par = |x: &mut f64| {
        *x = match r.below(4) {
            0 => 0.0,
            1 => *x + w0,
            2 => -*x,
            _ => w0 * r.log(1e-3, 1e3),
        }
    };
    for h in [&mut s.chx, &mut s.regen, &mut s.hhx] {
        h.rhyd *= k;
        par(&mut h.par.th);
        par(&mut h.par.me);
        par(&mut h.par.el);
    }
    par(&mut s.ws.pc.me);
    par(&mut s.ws.pe.me);
    par(&mut s.ws.pe.th);
    rep.case = format!("hydraulic resistances x{k}, other parasitics: {c:?} and {s:?}");
    let (a, b) = (run(&c).0, run(&s).0);
    rep.fp = fingerprint(&a);
    let (x, y) = match (&a, &b) {
        (Outcome::Ok(x), Outcome::Ok(y)) => (x, y),
        (x, y) => {
            if x.kind() != y.kind() {
                rep.violate(format!("a run ends in {}, with other losses in {}", x.kind(), y.kind()));
            } else {
                rep.inconclusive("run failed");
            }
            return rep;
        }
    };
    for ((n, p), (_, q)) in series(x).into_iter().zip(series(y)) {
        if matches!(n, "P_c" | "P_e") {
            continue;
        }
        let m = p.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if p.len() != q.len() || p.iter().zip(q).any(|(p, q)| !((p - q).abs() <= 1e-13 * m)) {
            rep.violate(format!("{n} changes with the hydraulic resistances and parasitics"));
        }
        rep.add("samples_compared", p.len() as u64);
    }
    let unchanged = |n: &str| {
        n.starts_with("pressure") || n.starts_with("temperature") || n.starts_with("mass_flow") || matches!(n, "heat_flow.chx" | "heat_flow.regen" | "heat_flow.hhx" | "power.ideal_indicated" | "regen_imbalance")
    };
    for ((n, p), (_, q)) in scalars(x).into_iter().zip(scalars(y)) {
        if unchanged(n) && !((p - q).abs() <= 1e-13 * p.abs()) {
            rep.violate(format!("{n} is {p:e}, with other hydraulic resistances and parasitics {q:e}"));
        }
    }
    // pressure drops follow the resistances
    let (u, v) = (&x.values, &y.values);
    let dm = (0..u.P.len()).map(|i| (u.P_c[i] - u.P_e[i]).abs()).fold(0.0, f64::max);
    for i in 0..u.P.len() {
        let (d, e) = (u.P_c[i] - u.P_e[i], v.P_c[i] - v.P_e[i]);
        let t = 1e-9 * dm * k.abs() + 1e-14 * (u.P_c[i].abs() + v.P_c[i].abs()) * (1.0 + k.abs());
        rep.bound("pressure_drop_proportional", (e - k * d).abs() / t, || format!("pressure drop {d:e} becomes {e:e} when the hydraulic resistances are multiplied by {k}"));
        if rep.violated() {
            break;
        }
    }
    rep.add("loss_pairs", 1);
    rep.nontrivial = c.n > 3 && dm > 0.0;
    rep
}
/// the same engine with its two ends exchanged
fn mirror(c: &Case) -> Case {
    let flip = |h: Hx| {
        let model = match h.model {
            Model::Approach(a) => Model::Approach(-a),
            Model::Ua(u) => Model::Ua(u),
            Model::Settle { target, start, q } => Model::Settle { target: -target, start: -start, q },
            Model::Ladder { target, start, step } => Model::Ladder { target: -target, start: -start, step },
        };
        Hx { model, ..h }
    };
    let mut m = *c;
    m.ts = c.th;
    m.th = c.ts;
    m.ws.swap = !c.ws.swap;
    m.ws.r_c = c.ws.r_e;
    m.ws.r_e = c.ws.r_c;
    m.ws.pc = c.ws.pe;
    m.ws.pe = c.ws.pc;
    m.chx = flip(c.hhx);
    m.hhx = flip(c.chx);
    m.regen = flip(c.regen);
    m
}
/// C27
fn c27(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C27", i);
    let mut c = gen(&mut r, &FULL);
    if matches!(c.ws.drive, Drive::Rhombic { .. }) {
        // (thermal and electrical losses of the compression space cannot be given to a rhombic drive)
        c.ws.pe.th = 0.0;
        c.ws.pe.el = 0.0;
    }
    c.n = if r.chance(0.1) { r.log(2.0, 3000.0) as u32 } else { r.pick(&NS[..18]) };
    tight(&mut r, &mut c);
    let s = mirror(&c);
    rep.case = format!("mirrored: {c:?}");
    let (a, b) = (run(&c).0, run(&s).0);
    rep.fp = fingerprint(&a);
    let back = |x: &RunResults, mut y: Box<RunResults>| {
        let neg = |v: &mut Vec<f64>| v.iter_mut().for_each(|q| *q = -*q);
        let v = &mut y.values;
        std::mem::swap(&mut v.P_c, &mut v.P_e);
        std::mem::swap(&mut v.T_c, &mut v.T_e);
        std::mem::swap(&mut v.m_dot_ck, &mut v.m_dot_le);
        std::mem::swap(&mut v.m_dot_kr, &mut v.m_dot_rl);
        std::mem::swap(&mut v.Q_dot_k, &mut v.Q_dot_l);
        for q in [&mut v.m_dot_ck, &mut v.m_dot_kr, &mut v.m_dot_rl, &mut v.m_dot_le, &mut v.Q_dot_k, &mut v.Q_dot_l] {
            neg(q);
        }
        let t = &mut y.temperature;
        std::mem::swap(&mut t.sink, &mut t.source);
        std::mem::swap(&mut t.chx, &mut t.hhx);
        std::mem::swap(&mut t.regen_cold, &mut t.regen_hot);
        std::mem::swap(&mut y.mass_flow.chx, &mut y.mass_flow.hhx);
        let h = &mut y.heat_flow;
        (h.chx, h.hhx) = (-h.hhx, -h.chx);
        // heat input and rejection are defined for one end each
        h.input = x.heat_flow.input;
        h.rejection = x.heat_flow.rejection;
        y.efficiency.mechanical = x.efficiency.mechanical;
        y.efficiency.overall = x.efficiency.overall;
        y.regen_imbalance = x.regen_imbalance;
        y
    };
    rep.nontrivial = a.ok().is_some();
    related(&mut rep, &c, &s, &a, b, "mirrored", "mirrored", &back);
    rep
}
pub fn checks() -> Vec<Check> {
    let mk = |id, quick, thorough, run| Check { id, quick, thorough, run, post: None };
    vec![
        mk("C24", 1500, 60_000, c24 as fn(&Ctx, u64) -> Report),
        mk("C25", 800, 30_000, c25),
        mk("C26", 1000, 40_000, c26),
        mk("C27", 800, 30_000, c27),
    ]
}
