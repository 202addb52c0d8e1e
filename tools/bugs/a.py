H = "mod common;\nuse common::*;\n#[allow(unused_imports)]\nuse sett_rs::{fluid::*, types::*, *};\n"
# mass balance of every volume from reported flows, at every interior point, by central differences
BUGS = [
dict(id="upwind-diverging", property="C01", needs="an instant at which gas leaves (or enters) the regenerator through both ends, seen only while the flow reverses",
 breaks="the enthalpy carried between regenerator and hot exchanger is taken from the wrong side while the flows at the two regenerator ends differ in direction",
 edits=[("state_equations/solver.rs", "let h_rl_norm = flow_dir.rl.select(self.h_regen_hot_norm, self.h_hhx_norm);",
 "let h_rl_norm = flow_dir.kr.select(self.h_regen_hot_norm, self.h_hhx_norm);")],
 demo=H+'''
fn main() {
    // a large regenerator stores gas, so its two ends reverse at different times
    let e = E { regen: Hx { vol: 4e-4, rhyd: 0.0, dt: 80.0, par: (0.0, 0.0) }, n: 2001, ..E::default() };
    let r = e.run();
    let (v, t) = (&r.values, &r.temperature);
    let cp = 5193.17;
    let h = |x: f64| cp * (x - 250.0);
    let mut split = 0;
    for i in 1..v.time.len() - 1 {
        let dp = (v.P[i + 1] - v.P[i - 1]) / (v.time[i + 1] - v.time[i - 1]);
        // energy kept by the gas of the regenerator: V/R (cp - R) dP/dt - ... for constant temperature: u d(rho)/dt V
        let u = h(t.regen_avg) - 2077.23 * (t.regen_avg - 250.0);
        let stored = e.regen.vol / (2077.23 * t.regen_avg) * dp * u;
        let cold = v.m_dot_kr[i] * if v.m_dot_kr[i] >= 0.0 { h(t.chx) } else { h(t.regen_cold) };
        let hot = v.m_dot_rl[i] * if v.m_dot_rl[i] >= 0.0 { h(t.regen_hot) } else { h(t.hhx) };
        split += usize::from(v.m_dot_kr[i] * v.m_dot_rl[i] < 0.0);
        let miss = (cold - hot - v.Q_dot_r[i] - stored).abs();
        assert!(miss < 20.0, "energy balance of the regenerator is off by {miss} W at {i}");
    }
    assert!(split > 2, "{split}");
}
'''),
dict(id="reversal-accepted", property="C01", needs="an instant just after the flow between compression space and cold exchanger reverses while the other flows keep their direction",
 breaks="a solution is accepted although the direction of the compression space flow disagrees with the enthalpy it was computed with",
 edits=[("state_equations/solver.rs", "        if flow_dir == actual_flow_dir {\n", "        if (flow_dir.kr, flow_dir.rl, flow_dir.le)\n            == (actual_flow_dir.kr, actual_flow_dir.rl, actual_flow_dir.le)\n        {\n")],
 demo=H+'''
fn main() {
    let e = E { n: 2001, cl_c: 1e-4, chx: Hx { vol: 2e-4, rhyd: 0.0, dt: 60.0, par: (0.0, 0.0) }, ..E::default() };
    let r = e.run();
    let (v, t) = (&r.values, &r.temperature);
    let h = |x: f64| 5193.17 * (x - 250.0);
    let mut worst: f64 = 0.0;
    let mut scale: f64 = 0.0;
    for i in 1..v.time.len() - 1 {
        let dp = (v.P[i + 1] - v.P[i - 1]) / (v.time[i + 1] - v.time[i - 1]);
        let u = h(t.chx) - 2077.23 * (t.chx - 250.0);
        let stored = e.chx.vol / (2077.23 * t.chx) * dp * u;
        let cold = v.m_dot_ck[i] * if v.m_dot_ck[i] >= 0.0 { h(v.T_c[i]) } else { h(t.chx) };
        let hot = v.m_dot_kr[i] * if v.m_dot_kr[i] >= 0.0 { h(t.chx) } else { h(t.regen_cold) };
        worst = worst.max((cold - hot - v.Q_dot_k[i] - stored).abs());
        scale = scale.max(v.Q_dot_k[i].abs());
    }
    assert!(worst < 2e-4 * scale, "energy balance of the cold exchanger is off by {worst} W of {scale} W");
}
'''),
dict(id="ode-tolerances-swapped", property="C02", needs="absolute and relative ODE tolerances that differ",
 breaks="the absolute and relative ODE tolerances change places",
 edits=[("state_equations/integrator.rs", "            tol.rel,\n            tol.abs,\n", "            tol.abs,\n            tol.rel,\n")],
 demo=H+'''
fn main() {
    for ode in [(1e-9, 1e-9), (1e-3, 1e-9), (1e-1, 1e-9)] {
        let e = E { ode, n: 61, inner: (1e30, 1e30), outer: (1e30, 1e30), ..E::default() };
        let r = e.run();
        for m in e.mass(&r) { close("gas mass", m / e.mass(&r)[0], 1.0, 1e-6); }
    }
}
'''),
dict(id="ode-floor", property="C02", needs="requested integration tolerances tighter than 1e-5",
 breaks="the requested relative ODE tolerance is silently limited",
 edits=[("state_equations/integrator.rs", "            tol.rel,\n", "            tol.rel.max(2e-5),\n")],
 demo=H+'''
fn main() {
    let e = E { ode: (1e-12, 1e-11), n: 61, inner: (1e30, 1e30), outer: (1e30, 1e30), ..E::default() };
    let a = e.run();
    let m = e.mass(&a);
    let d = m.iter().map(|x| (x / m[0] - 1.0).abs()).fold(0.0, f64::max);
    assert!(d < 1e-8, "gas mass drifts by {d}");
}
'''),
dict(id="cap-resolution", property="C04", needs="a resolution above 600 points",
 breaks="more than 600 requested points are silently reduced to 600",
 edits=[("engine.rs", "num_points: settings.resolution,", "num_points: settings.resolution.min(600),")],
 demo=H+'''
fn main() {
    for n in [2, 3, 100, 601, 1500] {
        let r = E { n, ..E::default() }.run();
        assert_eq!(r.values.time.len(), n as usize);
    }
}
'''),
dict(id="rel-change-sign", property="C05", needs="a relative tolerance tighter than the absolute one, and a temperature that falls over the cycle",
 breaks="a falling temperature always passes the relative criterion",
 edits=[("types.rs", "abs_change.abs() < self.abs && rel_change.abs() < self.rel", "abs_change.abs() < self.abs && rel_change < self.rel")],
 demo=H+'''
fn main() {
    for (dt, phase) in [(-5.0, 90.0), (40.0, 90.0), (40.0, -90.0), (-5.0, -90.0)] {
        let mut e = E { inner: (1e6, 1e-7), phase, ..E::default() };
        e.chx.dt = dt;
        let r = e.run();
        let v = &r.values;
        for x in [&v.T_c, &v.T_e] {
            let c = (x[x.len() - 1] - x[0]) / x[0];
            assert!(c.abs() < 2e-7, "temperature changes by a fraction {c:e} over the cycle");
        }
    }
}
'''),
dict(id="regen-unchecked", property="C06", needs="a regenerator whose approach settles more slowly than those of the other two exchangers",
 breaks="the regenerator temperatures do not take part in the convergence of the outer loop beyond its average",
 edits=[("engine/state.rs", "        tol.is_converged(self.cold, other.cold)\n            && tol.is_converged(self.avg, other.avg)\n            && tol.is_converged(self.hot, other.hot)", "        tol.is_converged(self.avg, other.avg)")],
 demo=H+'''
use std::cell::Cell;
struct Slow(Cell<u32>);
impl regen::Regenerator for Slow {
    fn volume(&self) -> f64 { 1e-4 }
    fn approach(&self, _: &regen::State) -> f64 {
        self.0.set(self.0.get() + 1);
        10.0 + 20.0 * 0.5f64.powi(self.0.get() as i32)
    }
    fn hydraulic_resistance(&self, _: &regen::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &regen::State) -> ParasiticPower { ParasiticPower::default() }
    fn initial_approach(&self) -> f64 { 30.0 }
}
fn main() {
    let e = E { outer: (0.01, 1e30), ..E::default() };
    let mut c = e.comps();
    c.regen = Box::new(Slow(Cell::new(0)));
    let r = e.with(c, IdealGas::helium()).unwrap();
    close("cold side of the regenerator", r.temperature.regen_cold, r.temperature.chx + 10.0, 0.03);
}
'''),
dict(id="late-inner-error", property="C07", needs="an inner loop that fails in a later outer iteration, after having converged in the first",
 breaks="the failure of the inner loop is reported as one of the outer loop unless it happens in the first outer iteration",
 edits=[("engine.rs", "        for _ in 0..settings.max_iters.outer {", "        for iter in 0..settings.max_iters.outer {"),
        ("engine.rs", "                .map_err(|_| RunError::InnerLoop)?;", "                .map_err(|_| {\n                    if iter == 0 {\n                        RunError::InnerLoop\n                    } else {\n                        RunError::OuterLoop\n                    }\n                })?;")],
 demo=H+'''
use std::cell::Cell;
struct Jump(Cell<u32>);
impl chx::ColdHeatExchanger for Jump {
    fn volume(&self) -> f64 { 4e-5 }
    fn approach(&self, _: &chx::State) -> f64 { self.0.set(self.0.get() + 1); f64::NAN }
    fn hydraulic_resistance(&self, _: &chx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &chx::State) -> ParasiticPower { ParasiticPower::default() }
    fn initial_approach(&self) -> f64 { 10.0 }
}
fn main() {
    // the second outer iteration has no cycle at all, so that its inner loop can't converge
    let e = E::default();
    let mut c = e.comps();
    c.chx = Box::new(Jump(Cell::new(0)));
    let seen = e.with(c, IdealGas::helium()).map(|_| ());
    assert!(matches!(seen, Err(RunError::InnerLoop)), "{seen:?}");
}
'''),
dict(id="history-capacity", property="C08", needs="an inner iteration budget near the largest integer",
 breaks="a run reserves memory for its iteration budget and panics when the budget is huge",
 edits=[("state_equations/cycle.rs", "        for _ in 0..max_iters {\n", "        let mut history = Vec::with_capacity(max_iters);\n        for _ in 0..max_iters {\n            history.push(ic);\n")],
 demo=H+'''
fn main() {
    for i in [1usize << 40, usize::MAX / 2, usize::MAX] {
        let e = E { iters: (i, 5), ..E::default() };
        e.run();
    }
}
'''),
dict(id="one-space-adiabatic", property="C09", needs="one working space with a finite wall resistance while the other is adiabatic",
 breaks="heat through the compression space wall is left out of the average cold exchanger heat flow unless both spaces exchange heat",
 edits=[("engine/state.rs", "        let Q_dot_c = if thermal_res.comp.is_infinite() {", "        let Q_dot_c = if thermal_res.comp.is_infinite() || thermal_res.exp.is_infinite() {")],
 demo=H+'''
fn main() {
    for (r_c, r_e) in [(f64::INFINITY, f64::INFINITY), (f64::INFINITY, 0.5), (0.5, 0.7), (0.5, f64::INFINITY)] {
        let r = E { r_c, r_e, ..E::default() }.run();
        let v = &r.values;
        let q: Vec<f64> = (0..v.time.len()).map(|i| v.Q_dot_k[i] + (v.T_c[i] - r.temperature.chx) / r_c).collect();
        close("cold exchanger heat flow", r.heat_flow.chx, mean(&v.time, &q), 1e-9 * r.heat_flow.chx.abs());
    }
}
'''),
dict(id="pressure-max-coarse", property="C09", needs="a resolution above 200 and a pressure that peaks at an odd sample",
 breaks="pressure extremes are searched in every second sample of finely sampled cycles",
 edits=[("engine/state.rs", "        let max = *values\n            .P\n            .iter()\n", "        let stride = if values.P.len() > 200 { 2 } else { 1 };\n        let max = *values\n            .P\n            .iter()\n            .step_by(stride)\n")],
 demo=H+'''
fn main() {
    for phase in (60..120).step_by(3).map(f64::from) {
        let r = E { n: 301, phase, ..E::default() }.run();
        let m = r.values.P.iter().fold(0.0f64, |a, b| a.max(*b));
        assert_eq!(r.pressure.max, m);
    }
}
'''),
dict(id="regen-density-cold", property="C10", needs="a regenerator with hydraulic resistance",
 breaks="the pressure drop of the regenerator uses the gas density at its cold end",
 edits=[("performance.rs", "pressure.map(|pres| engine.state.fluid.dens(engine.state.temp.regen.avg, pres));", "pressure.map(|pres| engine.state.fluid.dens(engine.state.temp.regen.cold, pres));")],
 demo=H+'''
fn main() {
    let mut e = E::default();
    e.regen.rhyd = 1e6;
    let r = e.run();
    let v = &r.values;
    for i in 0..v.time.len() {
        let d = v.P[i] / (2077.23 * r.temperature.regen_avg);
        let dp = 1e6 * 0.5 * (v.m_dot_kr[i] + v.m_dot_rl[i]) / d;
        close("pressure drop", v.P_c[i] - v.P_e[i], dp, 1e-6 * v.P[i] * 1e-3);
    }
}
'''),
dict(id="net-thermal", property="C10", needs="a hot exchanger with both mechanical and thermal parasitics above the shaft power's tenth",
 breaks="net power of engines whose hot exchanger parasitics exceed those of the cold one omits the cold exchanger's",
 edits=[("performance.rs", "let net = shaft - cold_hx_parasitics.mechanical - hot_hx_parasitics.mechanical;", "let net = shaft\n            - cold_hx_parasitics\n                .mechanical\n                .max(hot_hx_parasitics.mechanical)\n            - hot_hx_parasitics\n                .mechanical\n                .min(0.5 * shaft.abs())\n                .min(cold_hx_parasitics.mechanical);")],
 demo=H+'''
fn main() {
    for (a, b) in [(5.0, 3.0), (3.0, 5.0), (2000.0, 9000.0), (9000.0, 8000.0), (-4.0, 2.0)] {
        let mut e = E::default();
        e.chx.par.1 = a;
        e.hhx.par.1 = b;
        let r = e.run();
        close("net power", r.power.net, r.power.shaft - a - b, 1e-6);
    }
}
'''),
dict(id="regen-loss-dropped", property="C11", needs="thermal parasitics of the regenerator",
 breaks="the regenerator's external heat loss is left out of the heat input while remaining in the rejection",
 edits=[("performance.rs", "input: Q_dot_l - Q_dot_e + Q_dot_loss_external,", "input: Q_dot_l - Q_dot_e + Q_dot_loss_external - regen_parasitics.thermal,")],
 demo=H+'''
fn main() {
    let a = E::default().run();
    let mut e = E::default();
    e.regen.par.0 = 123.0;
    let b = e.run();
    close("heat input", b.heat_flow.input - a.heat_flow.input, 123.0, 1e-6);
    close("heat rejection", b.heat_flow.rejection - a.heat_flow.rejection, 123.0, 1e-6);
}
'''),
dict(id="phase-wrap", property="C12", needs="a phase angle of 180 degrees or more, or a negative one",
 breaks="phase angles are wrapped at 180 instead of 360 degrees",
 edits=[("ws/sinusoidal_drive.rs", "let phase_angle_rad = self.phase_angle * PI / 180.0;", "let phase_angle_rad = self.phase_angle.rem_euclid(180.0) * PI / 180.0;")],
 demo=H+'''
use sett_rs::ws::WorkingSpaces;
fn main() {
    for phase in [90.0, 0.0, 179.0, 180.0, 200.0, 270.0, -90.0, 450.0] {
        let e = E { phase, ..E::default() };
        let p = sett_rs::Engine::run::<LuSolver>(e.comps(), IdealGas::helium(), e.inputs(), RunSettings { resolution: 3, ..e.settings() });
        let st = match p { Ok(p) => p.state.ws(), Err(_) => { let g = E::default(); sett_rs::Engine::run::<LuSolver>(g.comps(), IdealGas::helium(), g.inputs(), g.settings()).ok().unwrap().state.ws() } };
        let f = e.ws().volumes(&st);
        for k in 0..20 {
            let t = k as f64 * 0.0013;
            close("expansion volume", f(t).1.value, e.vols(t)[2], 1e-12);
        }
    }
}
'''),
dict(id="rhombic-deriv", property="C12", needs="the second half of the crank turn of a rhombic drive",
 breaks="the expansion volume derivative of the rhombic drive has the wrong sign of its cosine term in part of the turn",
 edits=[("ws/rhombic_drive.rs", "let dVe_dtheta = -((dVc_dtheta * A_d) / (2. * A_p)) - A_d * r_crank * theta.cos();", "let dVe_dtheta = -((dVc_dtheta * A_d) / (2. * A_p))\n                - A_d * r_crank * (1. - theta.sin().powi(2)).sqrt() * theta.cos().signum()\n                    * if theta < 0. { -1. } else { 1. };")],
 demo=H+'''
use sett_rs::ws::WorkingSpaces;
fn main() {
    let g = E::default();
    let st = sett_rs::Engine::run::<LuSolver>(g.comps(), IdealGas::helium(), g.inputs(), g.settings()).ok().unwrap().state.ws();
    let w = ws::RhombicDrive::default();
    let f = w.volumes(&st);
    for k in -40..40 {
        let t = f64::from(k) * 0.00077;
        let d = 1e-8;
        close("expansion volume derivative", f(t).1.deriv, (f(t + d).1.value - f(t - d).1.value) / (2.0 * d), 1e-6);
    }
}
'''),
dict(id="dens-temp-cap", property="C13", needs="hydrogen or helium above 1200 K",
 breaks="the temperature derivative of the density is evaluated at no more than 1200 K",
 edits=[("fluid/ideal_gas.rs", "-pres / (self.gas_constant * temp.powi(2))", "-pres / (self.gas_constant * temp.min(1200.).powi(2))")],
 demo=H+'''
fn main() {
    for g in [IdealGas::hydrogen(), IdealGas::helium()] {
        for t in [150.0, 300.0, 700.0, 1000.0, 1300.0] {
            let d = (g.dens(t + 0.01, 1e6) - g.dens(t - 0.01, 1e6)) / 0.02;
            close("dd_dT", g.dd_dT_P(t, 1e6), d, 1e-6 * d.abs());
        }
    }
}
'''),
dict(id="ntu-cutoff", property="C14", needs="a hot exchanger with more than 4 transfer units",
 breaks="the approach of a large hot exchanger is rounded down to zero",
 edits=[("hhx/fixed_conductance.rs", "(state.hxr.Q_dot / C_dot_avg) * (1. / effectiveness - 1.)", "if NTU > 4. {\n            return 0.;\n        }\n        (state.hxr.Q_dot / C_dot_avg) * (1. / effectiveness - 1.)")],
 demo=H+'''
use sett_rs::hhx::HotHeatExchanger;
fn main() {
    for ua in [10.0, 100.0, 300.0, 600.0, 1000.0] {
        let h = hhx::FixedConductance::new(1e-4, 0.0, ua, par(0.0, 0.0));
        let s = hhx::State { hxr: HeatExchanger { temp: 800.0, pres: 1e6, dens: 1.0, cp: 5000.0, m_dot: 0.02, Q_dot: 3000.0 }, source_temp: 900.0 };
        let x = ua / 100.0;
        close("approach", h.approach(&s), 30.0 / (f64::exp(x) - 1.0), 1e-9 + 1e-9 * 30.0);
    }
}
'''),
]
