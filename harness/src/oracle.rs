//! Oracles over one observed successful run.
#![allow(non_snake_case)]
use crate::case::*;
use crate::refmodel::*;
use crate::verdict::Report;
use sett_rs::api::RunResults;

pub fn temps(r: &RunResults) -> Temps {
    let t = &r.temperature;
    Temps { chx: t.chx, rc: t.regen_cold, ra: t.regen_avg, rh: t.regen_hot, hhx: t.hhx }
}
pub fn trapz(x: &[f64], y: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 1..x.len() {
        s += (x[i] - x[i - 1]) * (y[i] + y[i - 1]);
    }
    0.5 * s
}
pub fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a, x| a.max(x.abs()))
}
pub fn same_lengths(r: &RunResults) -> bool {
    let n = r.values.time.len();
    crate::exec::series(r).iter().all(|(_, s)| s.len() == n)
}
/// solver-dependent noise floor of reported flows, relative to the flow scale
pub fn solver_noise(s: Solver) -> f64 {
    match s {
        Solver::Lu | Solver::Qr => 1e-8,
        Solver::Svd => 1e-7,
    }
}
/// scales of mass flow and of enthalpy flow of a run
pub fn flow_scales(c: &Case, r: &RunResults) -> (f64, f64) {
    let v = &r.values;
    let mut m = [&v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le].iter().map(|s| maxabs(s)).fold(0.0, f64::max);
    // displacement scale: flows cannot legitimately be judged finer than this
    let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
    let t = temps(r);
    let (mut dmax, mut i) = (0.0f64, 0);
    while i < 64 {
        let (_, dc, _, de) = volumes(&c.ws, c.period() * i as f64 / 64.0);
        dmax = dmax.max(dc.abs()).max(de.abs());
        i += 1;
    }
    m = m.max(dmax * f.dens(t.hhx.max(t.chx), r.pressure.avg));
    let q = m * f.cp(t.hhx.max(t.chx), r.pressure.avg) * t.hhx.max(t.chx);
    (m, q)
}
/// C01: conservation at every reported instant
pub fn balances(c: &Case, r: &RunResults, rep: &mut Report) {
    let t = temps(r);
    let m = Model0::new(c, t);
    let v = &r.values;
    let (ms, qs) = flow_scales(c, r);
    let noise = solver_noise(c.solver);
    let eps = noise * ms;
    let mut pat = 0u64;
    for i in 0..v.time.len() {
        let got = [v.m_dot_ck[i], v.m_dot_kr[i], v.m_dot_rl[i], v.m_dot_le[i], v.Q_dot_k[i], v.Q_dot_r[i], v.Q_dot_l[i]];
        let sols = m.solutions(v.time[i], v.P[i], v.T_c[i], v.T_e[i], eps);
        if sols.is_empty() {
            rep.add("instants_reference_undetermined", 1);
            continue;
        }
        let mut best = f64::INFINITY;
        let mut bestw = String::new();
        for s in &sols {
            let a = s.arr();
            let mut e: f64 = 0.0;
            let mut w = 0;
            for k in 0..7 {
                let d = (got[k] - a[k]).abs() / (noise * if k < 4 { ms } else { qs });
                if !(d <= e) {
                    e = d;
                    w = k;
                }
            }
            if !(e >= best) {
                best = e;
                bestw = format!(
                    "{} at t[{i}]={:e}: reported {:e}, conservation requires {:e}",
                    ["m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l"][w],
                    v.time[i],
                    got[w],
                    a[w]
                );
            }
        }
        let nm = format!("balance_{:?}", c.solver);
        rep.bound(&nm, best, || bestw);
        if rep.violated() {
            return;
        }
        pat |= 1 << (u64::from(got[0] >= 0.0) | u64::from(got[1] >= 0.0) << 1 | u64::from(got[2] >= 0.0) << 2 | u64::from(got[3] >= 0.0) << 3);
        rep.add("instants_checked", 1);
    }
    for k in 0..16 {
        if pat >> k & 1 == 1 {
            rep.add(format!("flow_pattern_{k:04b}"), 1);
        }
    }
    rep.nontrivial |= pat.count_ones() >= 2;
}
/// the accuracy one may expect of a value integrated with these tolerances
pub fn ode_acc(c: &Case, y: f64) -> f64 {
    c.ode.0 + c.ode.1 * y.abs()
}
pub const ODE_MULT: f64 = 2000.0;
/// C02: the reported trajectory against a reference integration from the reported start.
/// Returns the largest error in units of the requested tolerances and a description of where it is.
pub fn trajectory_error(c: &Case, r: &RunResults, rt: f64) -> Option<(f64, f64, String)> {
    let v = &r.values;
    let m = Model0::new(c, temps(r));
    let y = m.integrate(&v.time, [v.P[0], v.T_c[0], v.T_e[0]], rt)?;
    // pressure errors follow temperature errors, so a pressure is as accurate as the temperatures are, relatively
    let pt = |p: f64, tc: f64, te: f64| {
        ode_acc(c, p) + p.abs() * (ode_acc(c, tc) / tc.abs() + ode_acc(c, te) / te.abs())
    };
    let (mut worst, mut rel, mut what) = (0.0f64, 0.0f64, String::new());
    for i in 0..v.time.len() {
        let got = [v.P[i], v.T_c[i], v.T_e[i]];
        let e = [
            (got[0] - y[i][0]).abs() / pt(y[i][0], y[i][1], y[i][2]),
            (got[1] - y[i][1]).abs() / (ode_acc(c, y[i][1]) + y[i][1] * ode_acc(c, y[i][0]) / y[i][0]),
            (got[2] - y[i][2]).abs() / (ode_acc(c, y[i][2]) + y[i][2] * ode_acc(c, y[i][0]) / y[i][0]),
        ];
        for w in 0..3 {
            let d = (got[w] / y[i][w] - 1.0).abs();
            if !(d <= rel) {
                rel = d;
            }
            if !(e[w] <= worst) {
                worst = e[w];
                what = format!(
                    "{} at t[{i}]={:e} is {:e}, the dynamics from the reported start give {:e} (requested ODE tolerances abs {:e} rel {:e})",
                    ["P", "T_c", "T_e"][w],
                    v.time[i],
                    got[w],
                    y[i][w],
                    c.ode.0,
                    c.ode.1
                );
            }
        }
    }
    Some((worst, rel, what))
}
pub fn reference_tol(c: &Case) -> f64 {
    (c.ode.1.max(c.ode.0 / 1000.0) * 0.1).clamp(1e-13, 1e-7)
}
/// C03: inventories
pub fn inventory(c: &Case, r: &RunResults, rep: &mut Report) {
    let v = &r.values;
    let t = temps(r);
    let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
    let n = v.time.len();
    let mut mass = Vec::with_capacity(n);
    let mut en = Vec::with_capacity(n);
    let mut w = Vec::with_capacity(n);
    let mut gross = Vec::with_capacity(n);
    // what the known inconsistency of the hydrogen model adds to the balance
    let mut known = vec![0.0; n];
    let m0 = Model0::new(c, t);
    for i in 0..n {
        let (vc, dvc, ve, dve) = volumes(&c.ws, v.time[i]);
        let p = v.P[i];
        let part = |t: f64, vol: f64| {
            let d = f.dens(t, p) * vol;
            (d, d * f.inte(t, p))
        };
        let ps = [part(v.T_c[i], vc), part(t.chx, c.chx.vol), part(t.ra, c.regen.vol), part(t.hhx, c.hhx.vol), part(v.T_e[i], ve)];
        mass.push(ps.iter().map(|x| x.0).sum::<f64>());
        en.push(ps.iter().map(|x| x.1).sum::<f64>());
        let qc = (v.T_c[i] - t.chx) / c.ws.r_c;
        let qe = (v.T_e[i] - t.hhx) / c.ws.r_e;
        // dU/dt = -P dV - Qc - Qe - Qk - Qr + Ql
        w.push(-p * (dvc + dve) - qc - qe - v.Q_dot_k[i] - v.Q_dot_r[i] + v.Q_dot_l[i]);
        if c.fluid.base == FluidSpec::H2 {
            if let Some(s) = m0.solutions(v.time[i], p, v.T_c[i], v.T_e[i], 0.0).first() {
                known[i] = ps[0].0 * f.du_defect(v.T_c[i]) * s.dTc + ps[4].0 * f.du_defect(v.T_e[i]) * s.dTe;
            }
        }
        gross.push((p * dvc).abs() + (p * dve).abs() + qc.abs() + qe.abs() + v.Q_dot_k[i].abs() + v.Q_dot_r[i].abs() + v.Q_dot_l[i].abs());
    }
    for i in 0..n {
        let acc = ode_acc(c, v.P[i]) / v.P[i] + ode_acc(c, v.T_c[i]) / v.T_c[i] + ode_acc(c, v.T_e[i]) / v.T_e[i];
        let e = (mass[i] / mass[0] - 1.0).abs() / (0.2 * ODE_MULT * acc + 1e-12);
        rep.bound("mass_inventory", e, || {
            format!("gas mass {:e} kg at t[{i}]={:e}, {:e} kg at the start of the cycle", mass[i], v.time[i], mass[0])
        });
    }
    rep.add("instants_checked", n as u64);
    if n >= 90 && n % 2 == 1 {
        // cumulative energy, with the sampling error estimated from every other point
        let (mut s1, mut sk, mut g, mut quad) = (0.0, 0.0, 0.0, 0.0f64);
        let h = (v.time[n - 1] - v.time[0]) / (n - 1) as f64;
        let acc = ODE_MULT * (c.ode.1 + c.ode.0 / 200.0) + 1e-9 + 0.1 * solver_noise(c.solver);
        let mut known_seen = None;
        let mut i = 2;
        while i < n {
            let simpson = |y: &[f64]| h / 3.0 * (y[i - 2] + 4.0 * y[i - 1] + y[i]);
            s1 += simpson(&w);
            sk += simpson(&known);
            g += simpson(&gross);
            // local sampling error of this panel: the difference from the two trapezoids (first order at kinks)
            let d2 = |j: usize| (w[j - 1] - 2.0 * w[j] + w[j + 1]).abs();
            let dm = (i.saturating_sub(5).max(1)..(i + 4).min(n - 1)).map(d2).fold(0.0, f64::max);
            quad += h / 3.0 * dm;
            let du = en[i] - en[0];
            // absolute thermal energy content: what an error in temperature or pressure is relative to
            let tot = mass[0] * f.cp(t.hhx.max(t.chx), c.p0) * v.T_e[0].max(v.T_c[0]).max(t.hhx) + g;
            let den = 2.0 * quad + acc * tot;
            let e = (du - s1).abs() / den;
            let ek = (du - s1 - sk).abs() / den;
            let msg = || {
                format!("internal energy changed by {du:e} J up to t[{i}]={:e} but heat less work is {s1:e} J (gross exchange {g:e} J)", v.time[i])
            };
            if !(e < 1.0) && ek < 1.0 {
                known_seen = Some(msg());
            }
            rep.bound("energy_inventory", if ek < e { ek } else { e }, msg);
            if rep.violated() {
                return;
            }
            i += 2;
        }
        if let Some(m) = known_seen {
            rep.known_or_violate("C03", "hydrogen-du_dT", m);
        }
        rep.add("energy_histories", 1);
        rep.nontrivial = true;
    }
}
/// C04: grid
pub fn grid(c: &Case, r: &RunResults, rep: &mut Report) {
    let n = c.n as usize;
    for (name, s) in crate::exec::series(r) {
        if s.len() != n {
            rep.violate(format!("{name} has {} points, {n} requested", s.len()));
            return;
        }
    }
    let v = &r.values;
    if v.time[0] != 0.0 {
        rep.violate(format!("time starts at {:e}", v.time[0]));
    }
    let T = c.period();
    let tol = 1e-14 * (n as f64 + 16.0);
    for i in 0..n {
        let want = T * i as f64 / (n - 1) as f64;
        rep.bound("grid", (v.time[i] - want).abs() / T / tol, || {
            format!("time[{i}] = {:e}, a uniform grid of {n} points over one period {T:e} has {want:e}", v.time[i])
        });
        if rep.violated() {
            return;
        }
    }
    if v.P[0] != c.p0 || r.pressure.t_zero != c.p0 {
        rep.violate(format!("pressure at time zero is {:e} / {:e}, requested {:e}", v.P[0], r.pressure.t_zero, c.p0));
    }
    rep.add("points_checked", n as u64);
}
/// C05: closure
pub fn closure(c: &Case, r: &RunResults, rep: &mut Report) {
    let v = &r.values;
    let n = v.time.len();
    let mut rel = 0.0;
    for (name, s) in [("T_c", &v.T_c), ("T_e", &v.T_e)] {
        let d = s[n - 1] - s[0];
        let slack = 20.0 * ode_acc(c, s[0]).min(0.2 * c.inner.0 + 1e-9 * s[0]) ;
        let lim_abs = c.inner.0 + slack;
        let lim_rel = c.inner.1 + slack / s[0].abs();
        rep.bound("closure_abs", d.abs() / lim_abs, || {
            format!("{name} changes by {d:e} K over the cycle, absolute tolerance {:e}", c.inner.0)
        });
        rep.bound("closure_rel", (d / s[0]).abs() / lim_rel, || {
            format!("{name} goes from {:e} to {:e}, relative tolerance {:e}", s[0], s[n - 1], c.inner.1)
        });
        rel += (d / s[0]).abs();
    }
    let dp = (v.P[n - 1] / v.P[0] - 1.0).abs();
    let acc = ODE_MULT * (ode_acc(c, v.P[0]) / v.P[0] + ode_acc(c, v.T_c[0]) / v.T_c[0] + ode_acc(c, v.T_e[0]) / v.T_e[0]);
    rep.bound("closure_pressure", dp / (4.0 * rel + acc), || {
        format!("pressure goes from {:e} to {:e} over the cycle while temperatures close to {rel:e}", v.P[0], v.P[n - 1])
    });
}
fn near(rep: &mut Report, k: &str, got: f64, want: f64, scale: f64, tol: f64) {
    let e = if got == want || (got.is_nan() && want.is_nan()) { 0.0 } else { (got - want).abs() / (tol * scale.max(want.abs())) };
    rep.bound(k, e, || format!("reported {got:e}, recomputed {want:e}"));
}
/// C09: averages and extremes
pub fn averages(c: &Case, r: &RunResults, rep: &mut Report) {
    let v = &r.values;
    let n = v.time.len();
    let tf = v.time[n - 1];
    let avg = |y: &[f64]| trapz(&v.time, y) / tf;
    let tol = 1e-9;
    let p = &v.P;
    near(rep, "pressure.avg", r.pressure.avg, avg(p), c.p0, tol);
    near(rep, "pressure.max", r.pressure.max, p.iter().copied().fold(f64::NEG_INFINITY, f64::max), c.p0, 1e-14);
    near(rep, "pressure.min", r.pressure.min, p.iter().copied().fold(f64::INFINITY, f64::min), c.p0, 1e-14);
    near(rep, "pressure.t_zero", r.pressure.t_zero, p[0], c.p0, 1e-14);
    let mean = |a: &[f64], b: &[f64]| -> Vec<f64> { a.iter().zip(b).map(|(x, y)| (0.5 * (x + y)).abs()).collect() };
    let ms = flow_scales(c, r).0 * 1e-3;
    near(rep, "mass_flow.chx", r.mass_flow.chx, avg(&mean(&v.m_dot_ck, &v.m_dot_kr)), ms, tol);
    near(rep, "mass_flow.regen", r.mass_flow.regen, avg(&mean(&v.m_dot_kr, &v.m_dot_rl)), ms, tol);
    near(rep, "mass_flow.hhx", r.mass_flow.hhx, avg(&mean(&v.m_dot_rl, &v.m_dot_le)), ms, tol);
    let t = temps(r);
    let qc: Vec<f64> = v.T_c.iter().map(|x| (x - t.chx) / c.ws.r_c).collect();
    let qe: Vec<f64> = v.T_e.iter().map(|x| (t.hhx - x) / c.ws.r_e).collect();
    let qs = 1e-3 * (maxabs(&v.Q_dot_k) + maxabs(&v.Q_dot_l) + maxabs(&v.Q_dot_r) + maxabs(&qc) + maxabs(&qe));
    near(rep, "heat_flow.chx", r.heat_flow.chx, avg(&v.Q_dot_k) + avg(&qc), qs, tol * 10.0);
    near(rep, "heat_flow.regen", r.heat_flow.regen, avg(&v.Q_dot_r), qs, tol * 10.0);
    near(rep, "heat_flow.hhx", r.heat_flow.hhx, avg(&v.Q_dot_l) + avg(&qe), qs, tol * 10.0);
    rep.add("runs_checked", 1);
    rep.nontrivial |= n > 3 && r.pressure.max > r.pressure.min;
}
/// C10: pressure drops and powers
pub fn powers(c: &Case, r: &RunResults, rep: &mut Report) {
    let v = &r.values;
    let n = v.time.len();
    let t = temps(r);
    let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
    let (mut y1, mut y0, mut gross) = (vec![], vec![], vec![]);
    let mut dmax: f64 = 0.0;
    for i in 0..n {
        let p = v.P[i];
        let k = c.chx.rhyd * 0.5 * (v.m_dot_ck[i] + v.m_dot_kr[i]) / f.dens(t.chx, p);
        let g = c.regen.rhyd * 0.5 * (v.m_dot_kr[i] + v.m_dot_rl[i]) / f.dens(t.ra, p);
        let l = c.hhx.rhyd * 0.5 * (v.m_dot_rl[i] + v.m_dot_le[i]) / f.dens(t.hhx, p);
        let d = 0.5 * (k + g + l);
        dmax = dmax.max(d.abs());
        near(rep, "P_c", v.P_c[i], p + d, p, 1e-11);
        near(rep, "P_e", v.P_e[i], p - d, p, 1e-11);
        let (_, dc, _, de) = volumes(&c.ws, v.time[i]);
        y1.push((p + d) * dc + (p - d) * de);
        y0.push(p * dc + p * de);
        gross.push((p.abs() + d.abs()) * (dc.abs() + de.abs()));
    }
    // pressure drops themselves, judged on their own scale
    if dmax > 0.0 {
        for i in 0..n {
            let p = v.P[i];
            let k = c.chx.rhyd * 0.5 * (v.m_dot_ck[i] + v.m_dot_kr[i]) / f.dens(t.chx, p);
            let g = c.regen.rhyd * 0.5 * (v.m_dot_kr[i] + v.m_dot_rl[i]) / f.dens(t.ra, p);
            let l = c.hhx.rhyd * 0.5 * (v.m_dot_rl[i] + v.m_dot_le[i]) / f.dens(t.hhx, p);
            let want = k + g + l;
            let got = v.P_c[i] - v.P_e[i];
            let e = (got - want).abs() / (1e-9 * dmax + 1e-14 * p);
            rep.bound("pressure_drop", e, || format!("P_c - P_e = {got:e} at t[{i}], hydraulic resistances give {want:e}"));
        }
        rep.add("runs_with_pressure_drop", 1);
    }
    let fr = c.ws.f;
    let gs = fr * trapz(&v.time, &gross);
    let tol = 1e-10;
    near(rep, "power.ideal_indicated", r.power.ideal_indicated, fr * trapz(&v.time, &y0), gs, tol);
    near(rep, "power.indicated", r.power.indicated, fr * trapz(&v.time, &y1), gs, tol);
    // later stages from the reported earlier ones, so each step is judged by itself
    let shaft = r.power.indicated - c.ws.pc.me - c.ws.pe.me;
    let sc = r.power.indicated.abs() + c.ws.pc.me.abs() + c.ws.pe.me.abs();
    near(rep, "power.shaft", r.power.shaft, shaft, sc, 1e-11);
    let net = r.power.shaft - c.chx.par.me - c.hhx.par.me;
    near(rep, "power.net", r.power.net, net, sc + c.chx.par.me.abs() + c.hhx.par.me.abs(), 1e-11);
    near(rep, "shaft_torque", r.shaft_torque, r.power.shaft / (2.0 * std::f64::consts::PI * fr), 0.0, 1e-11);
    rep.add("runs_checked", 1);
    rep.nontrivial |= n > 3 && dmax > 0.0;
}
/// C11: heats, efficiency, first law
pub fn heats(c: &Case, r: &RunResults, rep: &mut Report) {
    let v = &r.values;
    let n = v.time.len();
    let t = temps(r);
    let fr = c.ws.f;
    let qc: Vec<f64> = v.T_c.iter().map(|x| (x - t.chx) / c.ws.r_c).collect();
    let qe: Vec<f64> = v.T_e.iter().map(|x| (x - t.hhx) / c.ws.r_e).collect();
    let a = |y: &[f64]| fr * trapz(&v.time, y);
    let ext = c.hhx.par.th + c.regen.par.th + c.ws.pe.th;
    let mech = c.ws.pc.me + c.ws.pe.me;
    let drop = r.power.ideal_indicated - r.power.indicated;
    let sc = 1e-3 * (maxabs(&v.Q_dot_k) + maxabs(&v.Q_dot_l) + maxabs(&qc) + maxabs(&qe)) + ext.abs() + mech.abs() + drop.abs();
    let tol = 1e-9;
    near(rep, "heat.input", r.heat_flow.input, a(&v.Q_dot_l) - a(&qe) + ext, sc, tol);
    near(rep, "heat.rejection", r.heat_flow.rejection, a(&v.Q_dot_k) + a(&qc) + drop + mech + ext, sc, tol);
    near(rep, "efficiency", r.efficiency.mechanical, r.power.net / r.heat_flow.input, 0.0, 1e-11);
    // first law: only sampling error separates the two sides
    let res = r.heat_flow.input - r.heat_flow.rejection - r.power.shaft - r.heat_flow.regen;
    let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
    let m0 = Model0::new(c, t);
    let energy = |i: usize| {
        let (vc, _, ve, _) = volumes(&c.ws, v.time[i]);
        let p = v.P[i];
        [(v.T_c[i], vc), (t.chx, c.chx.vol), (t.ra, c.regen.vol), (t.hhx, c.hhx.vol), (v.T_e[i], ve)]
            .iter()
            .map(|&(t, vol)| {
                let m = f.dens(t, p) * vol;
                (m * f.inte(t, p), m * f.cp(t, p) * t)
            })
            .fold((0.0, 0.0), |a, b| (a.0 + b.0, a.1 + b.1))
    };
    let mut w = Vec::with_capacity(n);
    let mut known = vec![0.0; n];
    let mut gross = Vec::with_capacity(n);
    for i in 0..n {
        let (vc, dc, ve, de) = volumes(&c.ws, v.time[i]);
        let p = v.P[i];
        w.push(-p * (dc + de) - qc[i] - qe[i] - v.Q_dot_k[i] - v.Q_dot_r[i] + v.Q_dot_l[i]);
        gross.push(p * (dc.abs() + de.abs()) + v.Q_dot_k[i].abs() + v.Q_dot_l[i].abs() + v.Q_dot_r[i].abs() + qc[i].abs() + qe[i].abs());
        if c.fluid.base == FluidSpec::H2 {
            if let Some(s) = m0.solutions(v.time[i], p, v.T_c[i], v.T_e[i], 0.0).first() {
                known[i] = vc * f.dens(v.T_c[i], p) * f.du_defect(v.T_c[i]) * s.dTc + ve * f.dens(v.T_e[i], p) * f.du_defect(v.T_e[i]) * s.dTe;
            }
        }
    }
    let g = a(&gross);
    if n >= 50 {
        let h = v.time[n - 1] / (n - 1) as f64;
        let d2: Vec<f64> = (1..n - 1).map(|j| (w[j - 1] - 2.0 * w[j] + w[j + 1]).abs() + (known[j - 1] - 2.0 * known[j] + known[j + 1]).abs()).collect();
        let quad = fr * h * (0..d2.len()).map(|j| d2[j.saturating_sub(2)..(j + 3).min(d2.len())].iter().fold(0.0f64, |a, &b| a.max(b))).sum::<f64>() / 3.0;
        let (e0, tot) = energy(0);
        let (e1, _) = energy(n - 1);
        let want = fr * (e1 - e0);
        let acc = ODE_MULT * (c.ode.1 + c.ode.0 / 200.0) + 1e-9 + 10.0 * solver_noise(c.solver);
        let den = 2.0 * quad + acc * (fr * tot + g);
        let e = (res - want).abs() / den;
        let ek = (res - want + a(&known)).abs() / den;
        let msg = || {
            format!(
                "input {:e} - rejection {:e} - shaft {:e} = {:e} W but the gas leaves {:e} W in the regenerator (gross {g:e})",
                r.heat_flow.input,
                r.heat_flow.rejection,
                r.power.shaft,
                r.heat_flow.input - r.heat_flow.rejection - r.power.shaft,
                r.heat_flow.regen
            )
        };
        rep.bound("first_law", if ek < e { ek } else { e }, msg);
        if !(e < 1.0) && ek < 1.0 {
            rep.known_or_violate("C11", "hydrogen-du_dT", msg());
        }
        rep.add("first_law_checked", 1);
    }
    rep.add("runs_checked", 1);
    rep.nontrivial |= n > 3 && (ext != 0.0 || mech != 0.0);
}
