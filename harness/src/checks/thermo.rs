//! C28 (entropy balance, Carnot), C29 (equivalent descriptions of one engine).
#![allow(non_snake_case)]
use super::relate::*;
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::oracle;
use crate::refmodel::{RefFluid, HE_CP, HE_R};
use crate::rng::Rng;
use crate::verdict::Report;
use sett_rs::api::RunResults;

/// entropy generated per unit heat capacity flow when gas at `up` is brought to `t` by something at `t`
fn mix(up: f64, t: f64) -> f64 {
    let x = (up - t) / t;
    x - x.ln_1p()
}
/// Entropy rates of one run, averaged over the cycle from every `step`-th sample: (given to the exchangers and
/// stored in the regenerator's ends, generated, added by the offset of the gas's internal energy from h - p/rho)
fn entropy(c: &Case, r: &RunResults, cp: f64, k: f64, step: usize) -> (f64, f64, f64) {
    let (v, t) = (&r.values, &r.temperature);
    let (tk, tl) = (t.chx, t.hhx);
    let (a, b) = (0.5 * (tk + t.regen_cold), 0.5 * (tl + t.regen_hot)); // ends of the regenerator's temperature profile
    let (mut time, mut out, mut gen, mut off) = (vec![], vec![], vec![], vec![]);
    for i in (0..v.time.len()).step_by(step) {
        let (ck, kr, rl, le) = (cp * v.m_dot_ck[i], cp * v.m_dot_kr[i], cp * v.m_dot_rl[i], cp * v.m_dot_le[i]);
        let (tc, te) = (v.T_c[i], v.T_e[i]);
        let (mut s, mut o) = (0.0, 0.0);
        // compression space and cold exchanger
        s += if ck > 0.0 { ck * mix(tc, tk) } else { -ck * mix(tk, tc) };
        // cold exchanger and regenerator
        if kr > 0.0 {
            s += kr * mix(tk, a);
            o -= kr * (a - tk) / a;
        } else {
            s -= kr * (mix(a, t.regen_cold) + mix(t.regen_cold, tk));
            o -= -kr * (t.regen_cold - a) / t.regen_cold;
        }
        // regenerator and hot exchanger
        if rl > 0.0 {
            s += rl * (mix(b, t.regen_hot) + mix(t.regen_hot, tl));
            o += rl * (b - t.regen_hot) / t.regen_hot;
        } else {
            s -= rl * mix(tl, b);
            o += -rl * (tl - b) / b;
        }
        // hot exchanger and expansion space
        s += if le > 0.0 { le * mix(tl, te) } else { -le * mix(te, tl) };
        // walls
        s += (tc - tk).powi(2) / (c.ws.r_c * tc * tk) + (te - tl).powi(2) / (c.ws.r_e * te * tl);
        o += (v.Q_dot_k[i] + (tc - tk) / c.ws.r_c) / tk - (v.Q_dot_l[i] + (tl - te) / c.ws.r_e) / tl;
        time.push(v.time[i]);
        out.push(o);
        gen.push(s);
        off.push(k * (v.m_dot_ck[i] / tc - v.m_dot_le[i] / te));
    }
    let p = time[time.len() - 1] - time[0];
    (oracle::trapz(&time, &out) / p, oracle::trapz(&time, &gen) / p, oracle::trapz(&time, &off) / p)
}
/// C28
fn c28(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C28", i);
    let mut c = gen(&mut r, &FULL);
    // an ideal gas of constant heat capacity: then the regenerator model conserves entropy between its ends
    if r.chance(0.5) {
        c.fluid.base = FluidSpec::He;
    } else {
        let rg = r.log(180.0, 5000.0);
        c.fluid.base = FluidSpec::Exact { r: rg, cp: rg * r.range(2.4, 5.0) };
    }
    let ideal = r.chance(0.4);
    if ideal {
        c.regen.model = Model::Approach(0.0);
    }
    if r.chance(0.3) {
        for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
            h.rhyd = 0.0;
        }
    }
    c.n = r.pick(&[129, 257, 257, 513, 1025, 2049]);
    c.ode = r.pick(&[(1e-8, 1e-8), (1e-9, 1e-9), (1e-10, 1e-10)]);
    (c.inner, c.outer) = loop_tols(&mut r, c.ode);
    rep.case = format!("{c:?}");
    let out = run(&c).0;
    rep.fp = fingerprint(&out);
    let Some(x) = out.ok().filter(|x| oracle::same_lengths(x) && x.values.time.len() == c.n as usize) else {
        rep.inconclusive("run failed");
        return rep;
    };
    let f = RefFluid { spec: c.fluid.base, shift: 0.0 };
    let cp = f.cp0(c.ts);
    let ((o1, s1, k1), (o2, s2, k2), (o4, s4, k4)) = (entropy(&c, x, cp, f.offset(), 1), entropy(&c, x, cp, f.offset(), 2), entropy(&c, x, cp, f.offset(), 4));
    // averages that the engine itself reports
    let (t, v) = (&x.temperature, &x.values);
    let (tk, tl) = (t.chx, t.hhx);
    let n = v.time.len() - 1;
    let m = cp * (x.mass_flow.chx + x.mass_flow.regen + x.mass_flow.hhx).max(0.0);
    // what the cycle leaves open
    let dt = (v.T_c[n] - v.T_c[0]).abs() / v.T_c[0] + (v.T_e[n] - v.T_e[0]).abs() / v.T_e[0] + (v.P[n] - v.P[0]).abs() / v.P[0];
    let vol = {
        let (a, _, b, _) = crate::refmodel::volumes(&c.ws, 0.0);
        a + b + c.chx.vol + c.regen.vol + c.hhx.vol
    };
    let store = c.ws.f * cp * v.P[0] * vol / (f.r() * tk.min(tl).min(v.T_c[0]).min(v.T_e[0]));
    // gas that is left over at an end of the regenerator moves its enthalpy to another temperature
    let drift = {
        let q = |m: &[f64]| (oracle::trapz(&v.time, m) * c.ws.f).abs();
        let h = cp + (c.fluid.shift.abs() + f.enth(tl, c.p0).abs().max(f.enth(tk, c.p0).abs())) / tk.min(tl);
        h * (q(&v.m_dot_ck) + q(&v.m_dot_kr) + q(&v.m_dot_rl) + q(&v.m_dot_le))
    };
    let _ = drift;
    let e = |a: f64, b: f64, c: f64| (a - b).abs().max(0.25 * (b - c).abs());
    let quad = e(o1 - s1 - k1, o2 - s2 - k2, o4 - s4 - k4) + 0.1 * (e(o1, o2, o4) + e(s1, s2, s4) + e(k1, k2, k4));
    let acc = oracle::ODE_MULT * (c.ode.1 + c.ode.0 / c.ts.min(c.th));
    let noise = (acc + oracle::solver_noise(c.solver)) * (m + store);
    let lim = 3.0 * quad + 3.0 * store * dt + noise;
    // the crate's own gases have internal energies that are off from h - p/rho (known finding): each kg that leaves a
    // working space takes that much energy too little with it
    let s0 = s1;
    let offset = f.offset() != 0.0 && !((o1 - s0).abs() < lim);
    let s1 = if offset { s1 + k1 } else { s1 };
    rep.bound("entropy_balance", (o1 - s1).abs() / lim, || {
        format!("the exchangers receive {o1:e} W/K of entropy, {s1:e} W/K are generated (limit {lim:e}; {o2:e} and {s2:e} from every other sample)")
    });
    rep.max("entropy_balance_limit_over_generated", lim / s1.abs().max(1e-3 * m));
    rep.val("entropy_sharpness", lim / s1.abs().max(1e-3 * m));
    // the averages an engine reports are the ones the balance was made with
    let qk = |y: &[f64], w: &dyn Fn(usize) -> f64| c.ws.f * oracle::trapz(&v.time, &(0..=n).map(|i| y[i] + w(i)).collect::<Vec<_>>());
    let want = qk(&v.Q_dot_k, &|i| (v.T_c[i] - tk) / c.ws.r_c) / tk - qk(&v.Q_dot_l, &|i| (tl - v.T_e[i]) / c.ws.r_e) / tl;
    let got = x.heat_flow.chx / tk - x.heat_flow.hhx / tl;
    let scale = oracle::maxabs(&v.Q_dot_k) / tk + oracle::maxabs(&v.Q_dot_l) / tl + m;
    rep.bound("reported_heats", (got - want).abs() / (1e-8 * scale), || format!("reported heats give the exchangers {got:e} W/K of entropy, their histories {want:e}"));
    // a regenerator without approach: no engine does better than Carnot's
    if ideal && s0 >= 0.0 && t.regen_cold == tk && t.regen_hot == tl {
        let carnot = x.heat_flow.hhx * (1.0 - tk / tl);
        let w = x.power.ideal_indicated;
        let wlim = tk * lim + 4.0 * power_error(x, &c) + 1e-9 * w.abs();
        // the lost work, and with it Carnot's limit
        rep.bound("lost_work", (carnot - w - tk * s1).abs() / wlim, || format!("{w:e} W instead of {carnot:e} W, but only {:e} W are lost to irreversibility", tk * s1));
        rep.add("carnot_comparisons", 1);
        if !offset {
            rep.bound("carnot", (w - carnot) / wlim, || {
                format!("{w:e} W from {:e} W of heat at {tl:e} K, rejected at {tk:e} K: at most {carnot:e} W are possible", x.heat_flow.hhx)
            });
        } else if w > carnot + wlim {
            rep.add("built_in_gas_beats_carnot", 1);
        }
        let pars = [c.chx.par.me, c.hhx.par.me, c.ws.pc.me, c.ws.pe.me, c.hhx.par.th, c.regen.par.th, c.ws.pe.th];
        if !offset && tl > tk && x.heat_flow.hhx > 0.0 && pars.iter().all(|p| *p >= 0.0) && [c.chx, c.regen, c.hhx].iter().all(|h| h.rhyd == 0.0) {
            let e = x.efficiency.mechanical;
            let best = 1.0 - tk / tl;
            rep.bound("efficiency", (e - best) / (wlim / x.heat_flow.input + 1e-12), || format!("efficiency {e:e} between {tl:e} K and {tk:e} K, where at most {best:e} is possible"));
            rep.add("efficiencies_compared", 1);
        }
    }
    rep.add("entropy_balances", 1);
    if offset && !rep.violated() {
        rep.known_or_violate(
            "C28",
            "reference-offset",
            format!("the exchangers receive {o1:e} W/K of entropy, but {s0:e} W/K are generated: the rest enters because helium's inte is not enth - p/rho"),
        );
    }
    rep.nontrivial = s1 > 10.0 * lim;
    rep
}
/// quadrature error of the power
fn power_error(x: &RunResults, c: &Case) -> f64 {
    let v = &x.values;
    let w = |k: usize| {
        let (mut t, mut y) = (vec![], vec![]);
        for i in (0..v.time.len()).step_by(k) {
            let (_, dc, _, de) = crate::refmodel::volumes(&c.ws, v.time[i]);
            t.push(v.time[i]);
            y.push(v.P[i] * (dc + de));
        }
        c.ws.f * oracle::trapz(&t, &y)
    };
    (w(1) - w(2)).abs().max(0.25 * (w(2) - w(4)).abs())
}
/// C29
fn c29(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C29", i);
    let mut c = gen(&mut r, &FULL);
    c.n = if r.chance(0.1) { r.log(2.0, 3000.0) as u32 } else { r.pick(&NS[..18]) };
    c.ode = r.pick(&[(1e-8, 1e-8), (1e-9, 1e-9), (1e-10, 1e-10), (1e-9, 1e-10)]);
    (c.inner, c.outer) = loop_tols(&mut r, c.ode);
    let tm = 0.5 * (c.ts + c.th);
    let rf = RefFluid { spec: c.fluid.base, shift: 0.0 };
    let sw = match c.ws.drive {
        Drive::Sin { sw_c, .. } | Drive::Harm { sw_c, .. } => sw_c,
        _ => c.ws.cl_c,
    };
    let cdot = rf.cp(tm, c.p0) * rf.dens(tm, c.p0) * (sw + c.ws.cl_c + c.chx.vol + c.hhx.vol) * c.ws.f;
    let kind = i % 6;
    let tag = ["resolved_approaches", "adiabatic_limit", "built_in_drive", "built_in_fluid", "ideal_exchangers", "warm_start"][kind as usize];
    match kind {
        0 => {
            for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
                match h.model {
                    // also far too small
                    Model::Ua(u) if r.chance(0.5) => h.model = Model::Ua(u * r.log(0.03, 1.0)),
                    Model::Ua(_) => {}
                    _ if r.chance(0.4) => h.model = Model::Ua(cdot * r.log(0.05, 30.0)),
                    _ => {}
                }
            }
        }
        1 => {
            let (a, b) = (r.chance(0.7), r.chance(0.7));
            if a || !b {
                c.ws.r_c = f64::INFINITY;
            }
            if b {
                c.ws.r_e = f64::INFINITY;
            }
        }
        2 => {
            if let Drive::Rhombic { .. } = c.ws.drive {
                let v = r.log(1e-6, 1e-3);
                c.ws.drive = Drive::Sin { phase: r.range(40.0, 140.0), sw_c: v, sw_e: v * r.log(0.3, 3.0) };
                (c.ws.cl_c, c.ws.cl_e) = (v * r.log(0.02, 1.5), v * r.log(0.02, 1.5));
            }
            if let Drive::Harm { phase, sw_c, sw_e, .. } = c.ws.drive {
                c.ws.drive = Drive::Sin { phase, sw_c, sw_e };
            }
        }
        3 => c.fluid.base = FluidSpec::He,
        4 => {
            for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
                if r.chance(0.6) {
                    h.model = Model::Approach(0.0);
                }
            }
        }
        _ => {}
    }
    // another description of `c`, given what `c` reports
    let all = r.chance(0.7);
    let fixed: Vec<bool> = (0..3).map(|_| all || r.chance(0.6)).collect();
    let k = r.log(1.0, 1e6);
    let other = |c: &Case, x: &RunResults| {
        let mut s = *c;
        let t = &x.temperature;
        match kind {
            0 | 5 => {
                // (the regenerator's approach also depends on what the exchangers do, so its own is taken with theirs)
                let a = [t.chx - c.ts, t.regen_cold - t.chx, c.th - t.hhx];
                for (j, h) in [&mut s.chx, &mut s.regen, &mut s.hhx].into_iter().enumerate() {
                    if kind == 5 {
                        if matches!(h.model, Model::Settle { .. } | Model::Ladder { .. }) {
                            h.model = Model::Settle { target: h.model.target().unwrap(), start: a[j], q: 0.1 };
                        }
                    } else if fixed[j] || !matches!(h.model, Model::Ua(_)) {
                        h.model = Model::Approach(a[j]);
                    }
                }
            }
            1 => {
                for q in [&mut s.ws.r_c, &mut s.ws.r_e] {
                    if q.is_infinite() {
                        *q = 1e9 * k / cdot;
                    }
                }
            }
            2 => {
                if let Drive::Sin { phase, sw_c, sw_e } = s.ws.drive {
                    s.ws.drive = Drive::Harm { phase, sw_c, sw_e, k: 0.0 };
                }
            }
            3 => s.fluid.base = FluidSpec::Real { r: HE_R, c0: HE_CP, c1: 0.0, a: 0.0, b: 0.0, c: 0.0 },
            _ => {
                for (h, big) in [(&mut s.chx, 1e4), (&mut s.regen, 1e12), (&mut s.hhx, 1e4)] {
                    if matches!(h.model, Model::Approach(a) if a == 0.0) {
                        h.model = Model::Ua(big * k * cdot);
                    }
                }
            }
        }
        s
    };
    rep.case = format!("{tag}: {c:?}");
    let a = run(&c).0;
    rep.fp = fingerprint(&a);
    let Some(x) = a.ok().filter(|x| oracle::same_lengths(x)) else {
        rep.inconclusive("run failed");
        return rep;
    };
    let s = other(&c, x);
    rep.case = format!("{tag}: {c:?} described as {:?} {:?} {:?} {:?} {:?}", s.fluid, s.ws, s.chx, s.regen, s.hhx);
    let b = run(&s).0;
    let lim = limits(&c, 2e-8);
    let extra = 10.0 * loop_slack(&c);
    let lim = [lim[0] + extra, lim[1] + 10.0 * extra, lim[2] + 10.0 * extra];
    let y = match &b {
        Outcome::Ok(y) => y,
        b => {
            // loops may stall on integration noise, but not with looser tolerances
            let loose = |c: &Case| {
                let mut c = *c;
                c.inner = (c.inner.0 * 100.0, c.inner.1 * 100.0);
                c.outer = (c.outer.0 * 100.0, c.outer.1 * 100.0);
                run(&c).0.kind()
            };
            // on its way there from another start, a loop may pass through states it cannot be integrated in
            let starts_there = [&s.chx, &s.regen, &s.hhx].iter().all(|h| matches!(h.model, Model::Approach(_)));
            if matches!(kind, 0 | 5) && !starts_there {
                rep.inconclusive("another path to the same engine fails");
            } else if loose(&c) == loose(&s) {
                rep.inconclusive("a loop stalled in one of the runs");
            } else {
                rep.violate(format!("the run succeeds, but ends in {} when described otherwise ({tag})", b.kind()));
            }
            return rep;
        }
    };
    if !oracle::same_lengths(y) || x.values.time.len() != y.values.time.len() {
        rep.violate(format!("{tag}: series of different lengths"));
        return rep;
    }
    let Some(d) = compare(&c, x, y, Factors::ONE) else { return rep };
    let got = [d.state, d.flow, d.avg];
    let t = &x.temperature;
    rep.max(format!("{tag}_largest_approach"), (t.chx - c.ts).abs().max((c.th - t.hhx).abs()).max((t.regen_cold - t.chx).abs()));
    if kind == 0 {
        // the approaches are those the conductances give for the flows and heats reported
        let got = [t.chx - c.ts, t.regen_cold - t.chx, c.th - t.hhx];
        let (pm, m, q) = (x.pressure.avg, &x.mass_flow, &x.heat_flow);
        let law = |h: &Hx, temp: f64, m: f64, q: f64| match h.model {
            Model::Ua(ua) => {
                let cd = rf.cp(temp, pm) * m;
                Some((q / cd) / (ua / cd).exp_m1())
            }
            _ => None,
        };
        let regen = match c.regen.model {
            Model::Ua(ua) => Some((t.hhx - t.chx) / (1.0 + 0.5 * ua / (rf.cp(t.regen_avg, pm) * m.regen))),
            _ => None,
        };
        let want = [law(&c.chx, t.chx, m.chx, q.chx), regen, law(&c.hhx, t.hhx, m.hhx, q.hhx)];
        for j in 0..3 {
            if let Some(w) = want[j] {
                let top = [c.ts, c.th, t.chx, t.hhx, t.regen_cold, t.regen_hot].iter().fold(0.0f64, |a, b| a.max(b.abs())) + w.abs();
                let tol = 2.0 * c.outer.0.min(c.outer.1 * top) + 1e-9 * top;
                rep.bound("conductance_law", (got[j] - w).abs() / tol, || format!("approach {j} is {:e} K, its conductance and the reported flows and heats give {w:e} K", got[j]));
                rep.add("conductance_laws_checked", 1);
            }
        }
    }
    rep.add(format!("{tag}_pairs"), 1);
    rep.nontrivial = format!("{c:?}") != format!("{s:?}");
    if (0..3).any(|j| !(got[j] < lim[j])) {
        // slowly converging engines are further from their limit than the tolerances say: the difference must
        // then go away with the tolerances
        rep.add("judged_again_with_tighter_tolerances", 1);
        let mut c = c;
        c.ode = ((c.ode.0 * 1e-2).max(1e-13), (c.ode.1 * 1e-2).max(1e-13));
        c.inner = (c.inner.0 * 0.03, c.inner.1 * 0.03);
        c.outer = (c.outer.0 * 0.03, c.outer.1 * 0.03);
        c.mi *= 4;
        c.mo *= 4;
        if let Outcome::Ok(x) = run(&c).0 {
            if let Outcome::Ok(y) = run(&other(&c, &x)).0 {
                if let Some(e) = compare(&c, &x, &y, Factors::ONE) {
                    let e = [e.state, e.flow, e.avg];
                    if (0..3).all(|j| e[j] < lim[j] || e[j] < 0.2 * got[j]) && (0..3).all(|j| got[j] < 300.0 * lim[j]) {
                        return rep;
                    }
                }
            }
        } else if (0..3).all(|j| got[j] < 10.0 * lim[j]) {
            rep.inconclusive("cannot be judged with tighter tolerances");
            return rep;
        }
    }
    for (j, n) in ["state", "flow", "average"].iter().enumerate() {
        rep.bound(&format!("{tag}_{n}"), got[j] / lim[j], || format!("{tag}: {}", d.what[j]));
    }
    rep
}
pub fn checks() -> Vec<Check> {
    let mk = |id, quick, thorough, run| Check { id, quick, thorough, run, post: None };
    vec![mk("C28", 1500, 60_000, c28 as fn(&Ctx, u64) -> Report), mk("C29", 1000, 60_000, c29)]
}
