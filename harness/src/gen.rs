//! Workload generation.
use crate::case::*;
use crate::refmodel::RefFluid;
use crate::rng::Rng;

pub const NS: [u32; 22] = [2, 3, 4, 5, 7, 10, 16, 20, 30, 31, 50, 64, 97, 100, 101, 128, 200, 257, 360, 401, 1000, 1025];

#[derive(Clone, Copy)]
pub struct Prof {
    pub custom_fluid: bool,
    pub shift: bool,
    pub custom_ws: bool,
    pub settle: bool,
    pub ua: bool,
    pub wide: bool,
    pub solvers: bool,
    pub heat_pump: bool,
}
pub const FULL: Prof = Prof {
    custom_fluid: true,
    shift: true,
    custom_ws: true,
    settle: true,
    ua: true,
    wide: true,
    solvers: true,
    heat_pump: true,
};
/// only built-in models (what configuration files can express)
pub const BUILTIN: Prof =
    Prof { custom_fluid: false, shift: false, custom_ws: false, settle: false, ua: true, wide: true, solvers: false, heat_pump: true };

pub fn gen_fluid(r: &mut Rng, p: &Prof) -> FluidCase {
    let base = match r.below(20) {
        0..=8 => FluidSpec::H2,
        9..=15 => FluidSpec::He,
        _ if p.custom_fluid => {
            let rg = r.log(180.0, 5000.0);
            FluidSpec::Real {
                r: rg,
                c0: rg * r.range(2.4, 5.0),
                c1: rg * r.range(0.0, 8e-4),
                a: 0.0,
                b: 0.0,
                c: 0.0,
            }
        }
        x => {
            if x % 2 == 0 {
                FluidSpec::H2
            } else {
                FluidSpec::He
            }
        }
    };
    let shift = if p.shift && r.chance(0.15) { r.range(-3e6, 3e6) } else { 0.0 };
    FluidCase { base, shift }
}
fn par(r: &mut Rng, scale: f64) -> f64 {
    if r.chance(0.35) {
        0.0
    } else {
        scale * r.log(1e-4, 0.3)
    }
}
pub fn gen(r: &mut Rng, p: &Prof) -> Case {
    let mut fluid = gen_fluid(r, p);
    let v = if p.wide { r.log(1e-7, 3e-2) } else { r.log(2e-5, 1e-3) };
    let p0 = if p.wide { r.log(1e4, 5e7) } else { r.log(3e5, 2e7) };
    let f = match r.below(6) {
        0 => r.pick(&[0.5, 1.0, 2.0, 10.0, 50.0, 60.0, 66.6667, 100.0, 4000.0 / 60.0]),
        _ if p.wide => r.log(0.05, 500.0),
        _ => r.log(5.0, 200.0),
    };
    let ts = r.range(250.0, 420.0);
    let mut th = ts + r.range(30.0, 800.0);
    if p.heat_pump && r.chance(0.08) {
        th = ts - r.range(5.0, 60.0);
    }
    if let FluidSpec::Real { r: rg, a, b, c, .. } = &mut fluid.base {
        // keep compressibility within some 15 % of ideal at the coldest, most compressed point
        let t = 0.8 * ts;
        let k = rg.to_owned() * t / (4.0 * p0);
        *b = k * r.range(0.0, 0.15);
        *a = k * *rg * t * r.range(0.0, 0.1);
        *c = k * t * t / (4.0 * p0) * r.range(-0.08, 0.08);
    }
    let rf = RefFluid { spec: fluid.base, shift: 0.0 };
    let tm = 0.5 * (ts + th);
    let cdot = rf.cp(tm, p0) * rf.dens(tm, p0) * v * f * 2.0; // W/K scale
    let w0 = p0 * v * f; // W scale

    let sw_e = v * if r.chance(0.4) { 1.0 } else { r.log(0.3, 3.0) };
    let cl_c = v * r.log(0.02, 1.5);
    let cl_e = v * r.log(0.02, 1.5);
    let phase = match r.below(8) {
        0 => 90.0,
        1 | 2 => r.range(40.0, 140.0),
        3 => r.pick(&[0.0, 180.0, 270.0, -90.0, 360.0, 450.0, 720.0 + 90.0, 120.0, 60.0]),
        4 => r.range(-900.0, 900.0),
        _ => r.range(60.0, 125.0),
    };
    let kind = r.below(10);
    let drive = if kind < 5 || (kind >= 8 && !p.custom_ws) {
        Drive::Sin { phase, sw_c: v, sw_e }
    } else if kind < 8 {
        rhombic(r, v)
    } else {
        Drive::Harm { phase, sw_c: v, sw_e, k: r.range(-0.2, 0.2) }
    };
    let res = |r: &mut Rng| if r.chance(0.5) { f64::INFINITY } else { 1.0 / (cdot * r.log(0.003, 1.5)) };
    let ws = Ws {
        drive,
        f,
        cl_c,
        cl_e,
        r_c: res(r),
        r_e: res(r),
        pc: Par { th: 0.0, me: par(r, w0), el: 0.0 },
        pe: Par { th: par(r, w0), me: par(r, w0), el: 0.0 },
        shift: if p.custom_ws && r.chance(0.1) { r.range(-0.5, 1.0) } else { 0.0 },
        swap: p.custom_ws && r.chance(0.05),
    };
    let rh = |r: &mut Rng| if r.chance(0.35) { 0.0 } else { p0 * r.log(1e-6, 0.03) / (v * f * 6.0) };
    let appr = |r: &mut Rng, scale: f64| match r.below(12) {
        0 => 0.0,
        1 => -r.range(0.5, 8.0),
        _ => r.range(0.5, scale),
    };
    let gap = (th - ts).abs();
    let sc = (gap * 0.25).min(80.0).max(2.0);
    let mk = |r: &mut Rng, which: usize, appr: f64| {
        let roll = r.f();
        let model = if p.ua && roll < 0.35 {
            Model::Ua(match which {
                1 => cdot * r.log(10.0, 800.0),
                _ => cdot * if r.chance(0.06) { r.log(6.0, 1e3) } else { r.log(0.4, 6.0) },
            })
        } else if p.settle && roll < 0.55 {
            let start = appr + r.range(-10.0, 10.0);
            if r.chance(0.2) {
                Model::Ladder { target: appr, start, step: r.range(0.3, 3.0) }
            } else {
                Model::Settle { target: appr, start, q: r.range(-0.6, 0.85) }
            }
        } else {
            Model::Approach(appr)
        };
        Hx {
            model,
            vol: v * r.log(0.03, 3.0),
            rhyd: rh(r),
            par: Par { th: if which == 0 { 0.0 } else { par(r, w0) }, me: if which == 1 { 0.0 } else { par(r, w0) }, el: 0.0 },
        }
    };
    let (a0, a1, a2) = (appr(r, sc), appr(r, 0.4 * sc), appr(r, sc));
    let chx = mk(r, 0, a0);
    let regen = mk(r, 1, a1);
    let hhx = mk(r, 2, a2);
    let (mut ws, mut chx, mut regen, mut hhx) = (ws, chx, regen, hhx);
    if p.custom_fluid && r.chance(0.3) {
        // losses that have no part in the reported powers and heats
        chx.par.th = par(r, w0);
        regen.par.me = par(r, w0);
        for x in [&mut chx.par, &mut regen.par, &mut hhx.par] {
            x.el = par(r, w0);
        }
        if !matches!(ws.drive, Drive::Rhombic { .. }) {
            ws.pc.th = par(r, w0);
            ws.pc.el = par(r, w0);
            ws.pe.el = par(r, w0);
        }
    }
    let ode = r.pick(&[(1e-6, 1e-6), (1e-8, 1e-8), (1e-8, 1e-8), (1e-10, 1e-9), (1e-9, 1e-10), (1e-3, 1e-8), (1e-6, 1e-7)]);
    let (inner, outer) = loop_tols(r, ode);
    Case {
        fluid,
        ws,
        chx,
        regen,
        hhx,
        p0,
        ts,
        th,
        n: match r.below(100) {
            0 => r.log(4000.0, 40000.0) as u32,
            1..=9 => r.log(2.0, 4000.0) as u32,
            _ => r.pick(&NS),
        },
        inner,
        outer,
        ode,
        mi: 600,
        mo: 150,
        solver: if p.solvers { r.pick(&[Solver::Lu, Solver::Lu, Solver::Lu, Solver::Lu, Solver::Lu, Solver::Qr, Solver::Qr, Solver::Svd]) } else { Solver::Lu },
    }
}
/// loop tolerances comfortably above the noise of the integrator
pub fn loop_tols(r: &mut Rng, ode: (f64, f64)) -> ((f64, f64), (f64, f64)) {
    let floor = 100.0 * (ode.0 + ode.1 * 1000.0);
    let inner_abs = floor.max(1e-5) * r.log(1.0, 30.0);
    let inner_rel = inner_abs / r.log(30.0, 1500.0);
    // outer tolerance above what the inner loop leaves undetermined
    let outer_abs = 5.0 * inner_abs * r.log(1.0, 20.0);
    let outer_rel = outer_abs / r.log(30.0, 1500.0);
    let relax = |r: &mut Rng, t: (f64, f64)| match r.below(6) {
        0 => (t.0, 1e3),
        1 => (1e6, t.1.max(floor / 300.0)),
        _ => (t.0, t.1.max(floor / 300.0)),
    };
    (relax(r, (inner_abs, inner_rel)), relax(r, (outer_abs, outer_rel)))
}
pub fn rhombic(r: &mut Rng, v: f64) -> Drive {
    let rr = r.log(0.2, 5.0) * v.cbrt() * 0.3;
    let e = rr * r.range(1.02, 2.2);
    let l = (e + rr) * r.range(1.04, 1.9);
    // area that gives roughly the wanted compression sweep
    let dx = (l * l - (e - rr).powi(2)).sqrt() - (l * l - (e + rr).powi(2)).sqrt();
    let dp = (v / (2.0 * dx) / std::f64::consts::FRAC_PI_4).sqrt();
    Drive::Rhombic { r: rr, l, e, dp, dd: dp * r.range(0.6, 1.25) }
}
/// round every parameter to a short decimal (exactly the same number in every file format)
pub fn shorten(r: &mut Rng, c: &mut Case) {
    let mut s = |x: &mut f64| {
        if x.is_finite() && *x != 0.0 {
            *x = r.short(*x);
        }
    };
    match &mut c.ws.drive {
        Drive::Sin { phase, sw_c, sw_e } => {
            s(phase);
            s(sw_c);
            s(sw_e);
        }
        Drive::Rhombic { r, l, e, dp, dd } => {
            // keep enough digits for the linkage to stay valid
            for x in [r, l, e, dp, dd] {
                *x = format!("{x:.5e}").parse().unwrap();
            }
        }
        Drive::Harm { .. } => {}
    }
    for x in [
        &mut c.ws.f, &mut c.ws.cl_c, &mut c.ws.cl_e, &mut c.ws.r_c, &mut c.ws.r_e, &mut c.ws.pc.me, &mut c.ws.pe.me,
        &mut c.ws.pe.th, &mut c.p0, &mut c.ts, &mut c.th,
        &mut c.inner.0, &mut c.inner.1, &mut c.outer.0, &mut c.outer.1, &mut c.ode.0, &mut c.ode.1,
    ] {
        s(x);
    }
    for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
        s(&mut h.vol);
        s(&mut h.rhyd);
        s(&mut h.par.th);
        s(&mut h.par.me);
        match &mut h.model {
            Model::Approach(a) | Model::Ua(a) => s(a),
            Model::Settle { .. } | Model::Ladder { .. } => {}
        }
    }
}
/// does any exchanger or space exchange conditions between outer iterations?
pub fn fixed_temps(c: &Case) -> bool {
    [c.chx, c.regen, c.hhx].iter().all(|h| matches!(h.model, Model::Approach(_)))
}
