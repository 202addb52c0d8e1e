//! C12 (drive kinematics), C13 (ideal gases), C14 (heat exchanger laws)
#![allow(non_snake_case)]
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::verdict::Report;
use sett_rs::fluid::{Fluid, IdealGas};
use sett_rs::types::*;
use sett_rs::ws::*;
use sett_rs::{chx, hhx, regen};
use std::cell::RefCell;
use std::rc::Rc;

type VolFn = Box<dyn Fn(f64) -> (CompVolume, ExpVolume)>;
#[derive(Default)]
pub struct Probed {
    pub vols: Option<VolFn>,
    pub freq: f64,
    pub res: Option<ThermalResistance>,
    pub par: Option<Parasitics>,
}
/// a drive that hands what the real one answers to the harness
struct Probe {
    inner: Box<dyn WorkingSpaces>,
    out: Rc<RefCell<Probed>>,
}
impl WorkingSpaces for Probe {
    fn frequency(&self, s: &State) -> f64 {
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &State) -> VolFn {
        *self.out.borrow_mut() = Probed {
            vols: Some(self.inner.volumes(s)),
            freq: self.inner.frequency(s),
            res: Some(self.inner.thermal_resistance(s)),
            par: Some(self.inner.parasitics(s)),
        };
        self.inner.volumes(s)
    }
    fn thermal_resistance(&self, s: &State) -> ThermalResistance {
        self.inner.thermal_resistance(s)
    }
    fn parasitics(&self, s: &State) -> Parasitics {
        self.inner.parasitics(s)
    }
}
pub fn probe(inner: Box<dyn WorkingSpaces>, p0: f64) -> Option<Probed> {
    let out = Rc::new(RefCell::new(Probed::default()));
    let comps = sett_rs::Components {
        ws: Box::new(Probe { inner, out: out.clone() }),
        chx: Box::<chx::FixedApproach>::default(),
        regen: Box::<regen::FixedApproach>::default(),
        hhx: Box::<hhx::FixedApproach>::default(),
    };
    let t = |abs, rel| ConvergenceTolerance { abs, rel };
    // no cycle is integrated: the run ends as soon as the drive has been asked
    let _ = catch(|| {
        sett_rs::Engine::run::<sett_rs::LuSolver>(
            comps,
            IdealGas::helium(),
            RunInputs { pres_zero: p0, temp_sink: 300.0, temp_source: 800.0 },
            RunSettings {
                resolution: 10,
                loop_tol: LoopTolerance { inner: t(1e-3, 1e-3), outer: t(1e-3, 1e-3) },
                ode_tol: OdeTolerance { abs: 1e-3, rel: 1e-3 },
                max_iters: MaxIters { inner: 0, outer: 1 },
            },
        )
        .is_ok()
    });
    let p = out.replace(Probed::default());
    p.vols.is_some().then_some(p)
}
fn c12(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C12", i);
    let mut p = FULL;
    p.custom_ws = false;
    let mut ws = gen(&mut r, &p).ws;
    (ws.pc.th, ws.pc.el, ws.pe.el) = (0.0, 0.0, 0.0);
    if i % 2 == 0 {
        let v = r.log(1e-9, 10.0);
        ws.f = r.log(1e-4, 1e5);
        ws.drive = if i % 4 == 0 {
            rhombic(&mut r, v)
        } else {
            Drive::Sin { phase: r.pick(&[0.0, 90.0, -90.0, 180.0, 360.0, 1e3, -720.0, 0.1, 45.0]) + r.range(-1000.0, 1000.0) * r.below(2) as f64, sw_c: v, sw_e: v * r.log(0.01, 100.0) }
        };
        ws.cl_c = if r.chance(0.2) { 0.0 } else { v * r.log(1e-3, 50.0) };
        ws.cl_e = if r.chance(0.2) { 0.0 } else { v * r.log(1e-3, 50.0) };
    }
    rep.case = format!("{ws:?}");
    let b = match ws.drive {
        // through the configuration layer too
        Drive::Sin { phase, sw_c, sw_e } if r.chance(0.5) => {
            let v = serde_json::json!({"sinusoidal": {"frequency": ws.f, "phase_angle": phase, "V_swept_c": sw_c, "V_clearance_c": ws.cl_c, "R_c": 1.5,
                "W_parasitic_c": ws.pc.me, "V_swept_e": sw_e, "V_clearance_e": ws.cl_e, "R_e": 2.5, "W_parasitic_e": ws.pe.me, "Q_parasitic_e": ws.pe.th}});
            ws.r_c = 1.5;
            ws.r_e = 2.5;
            match serde_json::from_value::<sett_rs::ws::Config>(v) {
                Ok(sett_rs::ws::Config::Sinusoidal(c)) => Box::<SinusoidalDrive>::new(c.into()) as Box<dyn WorkingSpaces>,
                e => {
                    rep.violate(format!("a sinusoidal drive's configuration is not accepted: {}", e.is_err()));
                    return rep;
                }
            }
        }
        _ => real_ws(&ws),
    };
    let Some(d) = probe(b, r.log(1e4, 1e7)) else {
        rep.inconclusive("drive not asked");
        return rep;
    };
    let f = d.vols.unwrap();
    if d.freq != ws.f {
        rep.violate(format!("frequency {:e}, configured {:e}", d.freq, ws.f));
    }
    let (res, par) = (d.res.unwrap(), d.par.unwrap());
    if res.comp != ws.r_c || res.exp != ws.r_e {
        rep.violate(format!("thermal resistances {:e} {:e}, configured {:e} {:e}", res.comp, res.exp, ws.r_c, ws.r_e));
    }
    let want = [ws.pc.th, ws.pc.me, ws.pe.th, ws.pe.me];
    let got = [par.comp.thermal, par.comp.mechanical, par.exp.thermal, par.exp.mechanical];
    if got != want {
        rep.violate(format!("parasitics (thermal, mechanical of compression, expansion) {got:?}, configured {want:?}"));
    }
    let T = 1.0 / ws.f;
    let w = 2.0 * std::f64::consts::PI * ws.f;
    let (mut sc, mut se) = (0.0f64, 0.0f64);
    let (mut lo, mut hi) = ([f64::INFINITY; 2], [f64::NEG_INFINITY; 2]);
    let m = 720;
    let at = |t: f64| {
        let (c, e) = f(t);
        ([c.value, e.value], [c.deriv, e.deriv])
    };
    for k in 0..m {
        let t = T * k as f64 / m as f64;
        let (v, _) = at(t);
        for j in 0..2 {
            lo[j] = lo[j].min(v[j]);
            hi[j] = hi[j].max(v[j]);
        }
    }
    sc = sc.max(hi[0] - lo[0]);
    se = se.max(hi[1] - lo[1]);
    let sweep = [sc, se];
    let cl = [ws.cl_c, ws.cl_e];
    let nm = ["compression", "expansion"];
    // a rhombic linkage near its limits amplifies rounding of lengths
    let amp = match ws.drive {
        Drive::Rhombic { l, e, r, dp, dd, .. } => {
            let b = (l * l - (e + r) * (e + r)).sqrt();
            let area = dp.max(dd).powi(2);
            (l / b).powi(3) * 20.0 * (area * l / sc.min(se)).max(1.0)
        }
        _ => 20.0,
    };
    let eps = 2.3e-16 * amp;
    for k in 0..60 {
        let t = match k % 5 {
            0 => r.range(0.0, 1.0) * T,
            1 => r.range(-3.0, 0.0) * T,
            2 => r.range(1.0, 50.0) * T,
            3 => r.pick(&[0.0, 0.25, 0.5, 0.75, 1.0, 2.0, -1.0, 0.125, 1e-9]) * T,
            _ => r.range(-1e4, 1e4) * T,
        };
        let (v, dv) = at(t);
        let (v2, dv2) = at(t + T);
        let ph = eps * (1.0 + w * t.abs() + 10.0);
        let (rc, rdc, re, rde) = volumes(&ws, t);
        let h = 1e-4 * T;
        let (p1, m1, p2, m2) = (at(t + h).0, at(t - h).0, at(t + 2.0 * h).0, at(t - 2.0 * h).0);
        for j in 0..2 {
            let s = sweep[j];
            let tv = ph * (s + cl[j]) * 4.0;
            let td = ph * s * w * 20.0 * amp / 20.0;
            let rv = [rc, re][j];
            let rd = [rdc, rde][j];
            rep.bound("volume", (v[j] - rv).abs() / tv, || format!("{} volume at t={t:e} is {:e}, the drive's geometry gives {rv:e}", nm[j], v[j]));
            rep.bound("rate", (dv[j] - rd).abs() / td, || format!("{} volume rate at t={t:e} is {:e}, the drive's geometry gives {rd:e}", nm[j], dv[j]));
            rep.bound("period_volume", (v[j] - v2[j]).abs() / (2.0 * tv), || format!("{} volume is {:e} at t={t:e} and {:e} one period later", nm[j], v[j], v2[j]));
            rep.bound("period_rate", (dv[j] - dv2[j]).abs() / (4.0 * td), || format!("{} volume rate is {:e} at t={t:e} and {:e} one period later", nm[j], dv[j], dv2[j]));
            // rates against reported values alone
            let num = (8.0 * (p1[j] - m1[j]) - (p2[j] - m2[j])) / (12.0 * h);
            let tn = 30.0 * tv / h + 1e-7 * s * w * amp;
            rep.bound("numeric_rate", (dv[j] - num).abs() / tn, || format!("{} volume rate at t={t:e} is {:e}, its volumes change at {num:e}", nm[j], dv[j]));
            if v[j] < cl[j] - tv {
                rep.violate(format!("{} volume {:e} at t={t:e} is below its clearance {:e}", nm[j], v[j], cl[j]));
            }
        }
        rep.add("instants_checked", 1);
        if rep.violated() {
            return rep;
        }
    }
    // each volume reaches its clearance, and the sinusoidal ones their swept volume
    for j in 0..2 {
        let find = |want_min: bool| {
            let g = |t: f64| if want_min { at(t).0[j] } else { -at(t).0[j] };
            let mut best = (f64::INFINITY, 0.0);
            for k in 0..m {
                let t = T * k as f64 / m as f64;
                if g(t) < best.0 {
                    best = (g(t), t);
                }
            }
            let (mut a, mut b) = (best.1 - T / m as f64, best.1 + T / m as f64);
            for _ in 0..60 {
                let (x, y) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
                if g(x) < g(y) {
                    b = y;
                } else {
                    a = x;
                }
            }
            at(0.5 * (a + b)).0[j]
        };
        let s = sweep[j];
        let tol = eps * 50.0 * (s + cl[j]) + 1e-13 * s;
        let mn = find(true);
        rep.bound("clearance", (mn - cl[j]).abs() / tol, || format!("{} volume comes down to {mn:e}, its clearance is {:e}", nm[j], cl[j]));
        if let Drive::Sin { sw_c, sw_e, .. } = ws.drive {
            let mx = find(false);
            let want = cl[j] + [sw_c, sw_e][j];
            rep.bound("swept", (mx - want).abs() / tol, || format!("{} volume rises to {mx:e}, clearance plus swept volume is {want:e}", nm[j]));
        }
    }
    rep.add(if matches!(ws.drive, Drive::Sin { .. }) { "sinusoidal_drives" } else { "rhombic_drives" }, 1);
    rep.fp = (ws.f.to_bits() ^ ws.cl_c.to_bits().rotate_left(7)) ^ sc.to_bits().rotate_left(13);
    rep.nontrivial = true;
    rep
}

fn c13(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C13", i);
    let he = i % 2 == 0;
    let (g, spec, R, name) = if he { (IdealGas::helium(), FluidSpec::He, HE_R, "helium") } else { (IdealGas::hydrogen(), FluidSpec::H2, H2_R, "hydrogen") };
    let rf = RefFluid { spec, shift: 0.0 };
    let lo = r.range(100.0, 1400.0);
    let span = r.log(1e-3, 1500.0 - lo);
    rep.case = format!("{name} {lo:e}..{:e} K", lo + span);
    let mut prev: Option<(f64, f64, f64)> = None;
    let k = 60;
    for q in 0..k {
        let t = lo + span * q as f64 / k as f64;
        let p = r.log(1e3, 1e8);
        let p2 = r.log(1e3, 1e8);
        let (d, u, h, cp) = (g.dens(t, p), g.inte(t, p), g.enth(t, p), g.cp(t, p));
        let near = |rep: &mut Report, k: &str, got: f64, want: f64, tol: f64, what: &str| {
            rep.bound(k, (got - want).abs() / tol, || format!("{name} at {t:e} K, {p:e} Pa: {what} is {got:e}, should be {want:e}"));
        };
        near(&mut rep, "density", d * R * t, p, 1e-13 * p, "rho R T");
        // signature of the recorded finding: off by exactly R T_ref, at every state
        let excess = h - u - p / d;
        let tol = 1e-9 * (h.abs() + u.abs() + p / d);
        if !(excess.abs() < tol) {
            let msg = format!("{name} at {t:e} K, {p:e} Pa: enthalpy less internal energy is {:e}, p/rho is {:e}", h - u, p / d);
            if (excess + R * T_REF).abs() < tol {
                rep.known_or_violate("C13", "reference-offset", msg);
            } else {
                rep.violate(msg);
            }
        }
        rep.max("h_minus_u", (excess + R * T_REF).abs() / tol);
        if u != g.inte(t, p2) || h != g.enth(t, p2) {
            rep.violate(format!("{name} at {t:e} K: internal energy or enthalpy differs between {p:e} and {p2:e} Pa"));
        }
        // derivatives against reported values
        let x = 1e-3;
        let dd = |f: &dyn Fn(f64) -> f64, a: f64, h: f64| (8.0 * (f(a + h) - f(a - h)) - (f(a + 2.0 * h) - f(a - 2.0 * h))) / (12.0 * h);
        let dp = dd(&|z| g.dens(t, z), p, x * p);
        near(&mut rep, "dd_dP", g.dd_dP_T(t, p), dp, 1e-10 * dp.abs(), "density derivative in pressure");
        let dt = dd(&|z| g.dens(z, p), t, x * t);
        near(&mut rep, "dd_dT", g.dd_dT_P(t, p), dt, 1e-9 * dt.abs(), "density derivative in temperature");
        let dup = dd(&|z| g.inte(t, z), p, x * p);
        near(&mut rep, "du_dP", g.du_dP_T(t, p) * p, dup * p, 1e-9 * cp * t, "internal energy derivative in pressure");
        near(&mut rep, "cp_R", g.du_dT_P(t, p), cp - R, 1e-12 * cp, "internal energy derivative in temperature");
        let dut = dd(&|z| g.inte(z, p), t, x * t);
        let got = g.du_dT_P(t, p);
        let tol = 1e-8 * cp;
        if !((got - dut).abs() < tol) {
            let msg = format!("{name} at {t:e} K: du_dT_P is {got:e}, the internal energy rises at {dut:e}");
            // signature of the recorded finding: the discrepancy is exactly that of the crate's enthalpy polynomial
            if (dut - got - rf.du_defect(t)).abs() < tol {
                rep.known_or_violate("C13", "hydrogen-du_dT", msg);
            } else {
                rep.violate(msg);
            }
        }
        rep.max("du_dT", (dut - got - rf.du_defect(t)).abs() / tol);
        // strictly increasing and continuous, also over tiny steps
        let t2 = t * (1.0 + r.log(1e-9, 1e-4));
        let (dh, du, st) = (g.enth(t2, p) - h, g.inte(t2, p) - u, t2 - t);
        let rounding = 1e-14 * (h.abs() + u.abs() + cp * T_REF);
        let slope = dut + R;
        if !(dh > -rounding && du > -rounding) || (dh - slope * st).abs() > 0.01 * slope * st + 4.0 * rounding || (du - dut * st).abs() > 0.01 * slope * st + 4.0 * rounding {
            rep.violate(format!("{name} between {t:e} and {t2:e} K: enthalpy changes by {dh:e}, internal energy by {du:e}, their slopes are {slope:e} and {dut:e}"));
        }
        if let Some((pt, ph, pu)) = prev {
            if t > pt * (1.0 + 1e-12) && !(h > ph - rounding && u > pu - rounding) {
                rep.violate(format!("{name}: enthalpy or internal energy falls between {pt:e} and {t:e} K"));
            }
            if t > pt * (1.0 + 1e-9) && !(h > ph && u > pu) {
                rep.violate(format!("{name}: enthalpy or internal energy does not rise between {pt:e} and {t:e} K"));
            }
        }
        prev = Some((t, h, u));
        rep.add(format!("{name}_states_checked"), 1);
        if rep.violated() {
            return rep;
        }
    }
    rep.fp = lo.to_bits() ^ span.to_bits();
    rep.nontrivial = true;
    rep
}

enum Any {
    Chx(Box<dyn chx::ColdHeatExchanger>),
    Regen(Box<dyn regen::Regenerator>),
    Hhx(Box<dyn hhx::HotHeatExchanger>),
}
fn c14(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C14", i);
    let which = r.pick(&[Which::Chx, Which::Regen, Which::Hhx]);
    let ua = r.chance(0.65);
    let x = if ua {
        r.log(1e-6, 1e9) * if which != Which::Regen && r.chance(0.1) { -1.0 } else { 1.0 }
    } else {
        r.range(-500.0, 500.0) * r.below(10).min(1) as f64
    };
    let any = |r: &mut Rng| if r.chance(0.15) { 0.0 } else { r.log(1e-9, 1e9) * if r.chance(0.2) { -1.0 } else { 1.0 } };
    let (vol, rh) = (any(&mut r), any(&mut r));
    let via_config = r.chance(0.5);
    let mut par = Par { th: any(&mut r), me: any(&mut r), el: any(&mut r) };
    let mut x = x;
    let mut h = Hx { model: if ua { Model::Ua(x) } else { Model::Approach(x) }, vol, rhyd: rh, par };
    let default = r.chance(0.03);
    if default {
        x = match (which, ua) {
            (Which::Chx, false) => 40.0,
            (Which::Chx, true) => 400.0,
            (Which::Regen, false) => 10.0,
            (Which::Regen, true) => 70000.0,
            (Which::Hhx, false) => 100.0,
            (Which::Hhx, true) => 100.0,
        };
        let v = if which == Which::Chx { 4e-5 } else { 1e-4 };
        par = Par::default();
        h = Hx { model: if ua { Model::Ua(x) } else { Model::Approach(x) }, vol: v, rhyd: 0.0, par };
    }
    rep.case = format!("{which:?} {h:?} via_config {via_config} default {default}");
    let m = if default {
        match (which, ua) {
            (Which::Chx, false) => Any::Chx(Box::<chx::FixedApproach>::default()),
            (Which::Chx, true) => Any::Chx(Box::<chx::FixedConductance>::default()),
            (Which::Regen, false) => Any::Regen(Box::<regen::FixedApproach>::default()),
            (Which::Regen, true) => Any::Regen(Box::<regen::FixedConductance>::default()),
            (Which::Hhx, false) => Any::Hhx(Box::<hhx::FixedApproach>::default()),
            (Which::Hhx, true) => Any::Hhx(Box::<hhx::FixedConductance>::default()),
        }
    } else if via_config {
        let mut b = serde_json::json!({"vol": h.vol, "R_hyd": h.rhyd});
        b[if ua { "UA" } else { "DT" }] = x.into();
        if which != Which::Regen {
            b["W_parasitic"] = par.me.into();
        }
        if which != Which::Chx {
            b["Q_parasitic"] = par.th.into();
        }
        h.par = Par { th: if which != Which::Chx { par.th } else { 0.0 }, me: if which != Which::Regen { par.me } else { 0.0 }, el: 0.0 };
        let v = serde_json::json!({ if ua { "fixed_conductance" } else { "fixed_approach" }: b });
        let bad = |rep: &mut Report| rep.violate("the model's configuration is not accepted");
        match which {
            Which::Chx => match serde_json::from_value(v) {
                Ok(chx::Config::FixedApproach(c)) => Any::Chx(Box::<chx::FixedApproach>::new(c.into())),
                Ok(chx::Config::FixedConductance(c)) => Any::Chx(Box::<chx::FixedConductance>::new(c.into())),
                _ => {
                    bad(&mut rep);
                    return rep;
                }
            },
            Which::Regen => match serde_json::from_value(v) {
                Ok(regen::Config::FixedApproach(c)) => Any::Regen(Box::<regen::FixedApproach>::new(c.into())),
                Ok(regen::Config::FixedConductance(c)) => Any::Regen(Box::<regen::FixedConductance>::new(c.into())),
                _ => {
                    bad(&mut rep);
                    return rep;
                }
            },
            Which::Hhx => match serde_json::from_value(v) {
                Ok(hhx::Config::FixedApproach(c)) => Any::Hhx(Box::<hhx::FixedApproach>::new(c.into())),
                Ok(hhx::Config::FixedConductance(c)) => Any::Hhx(Box::<hhx::FixedConductance>::new(c.into())),
                _ => {
                    bad(&mut rep);
                    return rep;
                }
            },
        }
    } else {
        match which {
            Which::Chx => Any::Chx(real_chx(&h).unwrap()),
            Which::Regen => Any::Regen(real_regen(&h).unwrap()),
            Which::Hhx => Any::Hhx(real_hhx(&h).unwrap()),
        }
    };
    let init = match &m {
        Any::Chx(c) => c.initial_approach(),
        Any::Regen(c) => c.initial_approach(),
        Any::Hhx(c) => c.initial_approach(),
    };
    if !init.is_finite() || (!ua && init != x) {
        rep.violate(format!("initial approach {init:e}"));
    }
    for _ in 0..25 {
        let s = HxSeen {
            which,
            q: HxQ::Approach,
            temp: r.log(50.0, 3000.0),
            pres: r.log(1e2, 1e9),
            dens: r.log(1e-3, 1e3),
            cp: r.log(100.0, 3e4),
            m_dot: r.log(1e-8, 1e3),
            q_dot: r.log(1e-6, 1e9) * if r.chance(0.5) { 1.0 } else { -1.0 },
            a: r.log(50.0, 3000.0),
            b: r.log(50.0, 3000.0),
            ret: 0.0,
        };
        let cap = s.cp * s.m_dot;
        let mut s = s;
        if ua && r.chance(0.8) {
            // a number of transfer units of order one, most of the time
            s.m_dot = x.abs() / (s.cp * if which == Which::Regen { r.log(1e-4, 1e7) } else { r.log(1e-4, 40.0) });
        }
        let cap = if s.m_dot.is_finite() { s.cp * s.m_dot } else { cap };
        let e = HeatExchanger { temp: s.temp, pres: s.pres, dens: s.dens, cp: s.cp, m_dot: s.m_dot, Q_dot: s.q_dot };
        let (a, v, rr, p) = match &m {
            Any::Chx(c) => {
                let st = chx::State { hxr: e, sink_temp: s.a };
                (c.approach(&st), c.volume(), c.hydraulic_resistance(&st), c.parasitics(&st))
            }
            Any::Regen(c) => {
                let st = regen::State { hxr: e, temp_chx: s.a, temp_hhx: s.b };
                (c.approach(&st), c.volume(), c.hydraulic_resistance(&st), c.parasitics(&st))
            }
            Any::Hhx(c) => {
                let st = hhx::State { hxr: e, source_temp: s.a };
                (c.approach(&st), c.volume(), c.hydraulic_resistance(&st), c.parasitics(&st))
            }
        };
        let ntu = x / cap;
        let (want, tol) = if !ua {
            (x, 0.0)
        } else if which == Which::Regen {
            let w = (s.b - s.a) / (1.0 + 0.5 * ntu);
            (w, 1e-13 * (s.b - s.a).abs() * (1.0 + 1.0))
        } else {
            // (Q/C)(1/e - 1) = (Q/C)/(exp(UA/C) - 1)
            let w = s.q_dot / cap / ntu.exp_m1();
            let e = -(-ntu).exp_m1();
            (w, (s.q_dot / cap).abs() * (1e-14 + 1e-13 / e.abs() + 4e-16 / (e * e)))
        };
        let err = if a == want { 0.0 } else { (a - want).abs() / tol };
        let overflow = !want.is_finite() || !tol.is_finite();
        if !overflow {
            rep.bound("approach", err, || format!("approach {a:e}, its law gives {want:e} (UA/C = {ntu:e}, state {s:?})"));
        }
        if v != h.vol || rr != h.rhyd || p.thermal != h.par.th || p.mechanical != h.par.me || p.electrical != h.par.el {
            rep.violate(format!("reports volume {v:e}, hydraulic resistance {rr:e}, parasitics {p:?} for state {s:?}"));
        }
        rep.add("states_checked", 1);
    }
    rep.add(format!("{which:?}_{}", if ua { "conductance" } else { "approach" }), 1);
    rep.fp = x.to_bits() ^ vol.to_bits().rotate_left(9);
    rep.nontrivial = true;
    rep
}
pub fn checks() -> Vec<Check> {
    let mk = |id, quick, thorough, run| Check { id, quick, thorough, run, post: None };
    vec![mk("C12", 6000, 400_000, c12 as fn(&Ctx, u64) -> Report), mk("C13", 20000, 1_000_000, c13), mk("C14", 60000, 3_000_000, c14)]
}
