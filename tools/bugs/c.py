import os, runpy
_b = runpy.run_path("/verif/tools/bugs/b.py")
H, CFG, LEG = _b['H'], _b['CFG'], _b['LEG']
def h(*p): return H + "".join(p)
BUGS = [
dict(id="rk4-when-fine", property="C02", needs="a finely sampled run with tight ODE tolerances",
 breaks="finely sampled cycles are integrated with fixed steps, whatever the ODE tolerances",
 edits=[("state_equations/integrator.rs", "use ode_solvers::{Dopri5, System, Vector3};", "use ode_solvers::{Dopri5, Rk4, System, Vector3};"),
  ("state_equations/integrator.rs", "        let mut stepper = Dopri5::new(\n", "        if num_points > 250 {\n            // the sampling is fine enough for fixed steps\n            let mut stepper = Rk4::new(state, 0.0, y0, period + 1e-3 * dx, dx);\n            stepper.integrate()?;\n            let points: Vec<_> = stepper\n                .x_out()\n                .iter()\n                .zip(stepper.y_out())\n                .take(num_points as usize)\n                .map(|(&time, y)| Point {\n                    time,\n                    conditions: Conditions {\n                        P: y[0],\n                        T_c: y[1],\n                        T_e: y[2],\n                    },\n                })\n                .collect();\n            ensure!(points.iter().all(|p| p.conditions.P.is_finite()), \"diverged\");\n            return Ok(Self { cycle, points });\n        }\n        let mut stepper = Dopri5::new(\n")],
 demo=h('''
fn main() {
    let e = E { ode: (1e-11, 1e-11), inner: (1e30, 1e30), outer: (1e30, 1e30), ..E::default() };
    let a = E { n: 101, ..e }.run();
    let b = E { n: 301, ..e }.run();
    for i in 0..101 {
        close("T_e", b.values.T_e[3 * i], a.values.T_e[i], 1e-5);
        close("P", b.values.P[3 * i], a.values.P[i], 0.05);
    }
}
''')),
dict(id="resolution-u16", property="C04", needs="more than 65536 points",
 breaks="resolutions beyond 65535 are cut to their low bits plus 65536 when the points are spaced",
 edits=[("state_equations/integrator.rs", "let dx = period / f64::from(num_points - 1);", "let steps = (num_points - 1).min(u32::from(u16::MAX));\n        let dx = period / f64::from(steps);")],
 demo=h('''
fn main() {
    for n in [65_536, 65_537, 70_001] {
        let r = E { n, inner: (1e30, 1e30), outer: (1e30, 1e30), ode: (1e-6, 1e-6), ..E::default() }.run();
        assert_eq!(r.values.time.len(), n as usize);
    }
}
''')),
dict(id="time-nanoseconds", property="C04", needs="a fast engine sampled finely",
 breaks="the reported times are rounded to nanoseconds",
 edits=[("engine/state.rs", "time.push(value.time);", "time.push((value.time * 1e9).round() / 1e9);")],
 demo=h('''
fn main() {
    for (f, n) in [(50.0, 201), (900.0, 1001), (0.7, 31)] {
        let r = E { f, n, ..E::default() }.run();
        let dx = 1.0 / f / f64::from(n - 1);
        for (i, t) in r.values.time.iter().enumerate() { close("time", *t, dx * i as f64, 1e-9 * dx * i as f64 + 1e-18); }
    }
}
''')),
dict(id="stalled-accepted", property="C05", needs="an engine whose cycles settle by less than a tenth per cycle",
 breaks="an inner loop that settles very slowly is taken as converged",
 edits=[("state_equations/cycle.rs", "        for _ in 0..max_iters {\n", "        let mut last_change = f64::INFINITY;\n        for _ in 0..max_iters {\n"),
  ("state_equations/cycle.rs", "            if integration.is_converged(conv_tol) {\n", "            let end = integration.final_conditions();\n            let change = (end.T_c - ic.T_c).abs().max((end.T_e - ic.T_e).abs());\n            let stalled = change < last_change && change > 0.97 * last_change && change < 1.;\n            last_change = change;\n            if stalled || integration.is_converged(conv_tol) {\n")],
 demo=h('''
fn main() {
    let e = E { cl_c: 6e-3, cl_e: 6e-3, iters: (3000, 50), inner: (1e-3, 1e-3), ode: (1e-10, 1e-10), ..E::default() };
    let r = e.run();
    for t in [&r.values.T_c, &r.values.T_e] { close("end of cycle", *t.last().unwrap(), t[0], 1.1e-3); }
}
''')),
dict(id="short-log-mean", property="C06", needs="exchangers whose temperatures are within 40 K of one another",
 breaks="the regenerator's average temperature is the arithmetic mean when its ends are close",
 edits=[("engine/state.rs", "            / ((temp_hhx - 0.5 * hot_approach) / (temp_chx + 0.5 * cold_approach)).ln();\n", "            / ((temp_hhx - 0.5 * hot_approach) / (temp_chx + 0.5 * cold_approach)).ln();\n        let avg = if (hot - cold).abs() < 40. {\n            0.5 * (hot + cold) // the logarithm is ill-conditioned\n        } else {\n            avg\n        };\n")],
 demo=h('''
fn main() {
    for th in [900.0, 400.0, 380.0, 375.0] {
        let r = E { th, outer: (1e-6, 1e-9), ..E::default() }.run();
        let t = &r.temperature;
        let (a, b) = (t.chx + 5.0, t.hhx - 5.0);
        close("average", t.regen_avg, (b - a) / (b / a).ln(), 1e-8);
    }
}
''')),
dict(id="late-grace", property="C07", needs="an inner budget one too small for a later outer iteration",
 breaks="inner loops after the first outer iteration get one more iteration than they should",
 edits=[("engine.rs", "        for _ in 0..settings.max_iters.outer {\n", "        for outer in 0..settings.max_iters.outer {\n"),
  ("engine.rs", "max_iters: settings.max_iters.inner,", "max_iters: settings.max_iters.inner.saturating_add(usize::from(outer > 0)),")],
 demo=h('''
struct Slow(std::cell::Cell<u32>);
impl hhx::HotHeatExchanger for Slow {
    fn volume(&self) -> f64 { 5e-5 }
    fn approach(&self, _: &hhx::State) -> f64 { let k = self.0.get(); self.0.set(k + 1); if k == 0 { 1.0 } else { 0.0 } }
    fn hydraulic_resistance(&self, _: &hhx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &hhx::State) -> ParasiticPower { par(0.0, 0.0) }
    fn initial_approach(&self) -> f64 { 400.0 }
}
fn main() {
    let e = E { n: 11, outer: (0.5, 1.0), cl_c: 1e-4, cl_e: 1e-4, ..E::default() };
    // iterations each cycle needs, from engines that stay at its temperatures
    let need = |dt: f64| (0..200).find(|&k| {
        let mut x = e; x.hhx.dt = dt; x.iters = (k, 5);
        x.with(x.comps(), IdealGas::helium()).is_ok()
    }).unwrap();
    let (a, b) = (need(400.0), need(1.0));
    let need_both = a.max(b).max(need(0.0));
    for k in 0..need_both + 3 {
        let x = E { iters: (k, 5), ..e };
        let mut c = x.comps();
        c.hhx = Box::new(Slow(std::cell::Cell::new(0)));
        let ok = x.with(c, IdealGas::helium()).is_ok();
        assert_eq!(ok, k >= need_both, "budget {k}; the loops need {a}, {b}");
    }
}
''')),
dict(id="shrinking-budget", property="C07", needs="an engine that needs several outer iterations and most of its inner budget in a later one",
 breaks="the inner iterations of earlier outer iterations count towards the budget of later ones",
 edits=[("engine.rs", "        for _ in 0..settings.max_iters.outer {\n", "        for outer in 0..settings.max_iters.outer {\n"),
  ("engine.rs", "max_iters: settings.max_iters.inner,", "max_iters: settings.max_iters.inner - (outer / 4).min(settings.max_iters.inner / 2),")],
 demo=h('''
struct Slow(std::cell::Cell<i32>);
impl hhx::HotHeatExchanger for Slow {
    fn volume(&self) -> f64 { 5e-5 }
    fn approach(&self, _: &hhx::State) -> f64 { let k = self.0.get(); self.0.set(k + 1); 40.0 + 100.0 * 0.8f64.powi(k) }
    fn hydraulic_resistance(&self, _: &hhx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &hhx::State) -> ParasiticPower { par(0.0, 0.0) }
    fn initial_approach(&self) -> f64 { 165.0 }
}
fn main() {
    let e = E { n: 11, outer: (0.01, 1.0), ..E::default() };
    let run = |k: usize| {
        let x = E { iters: (k, 100), ..e };
        let mut c = x.comps();
        c.hhx = Box::new(Slow(std::cell::Cell::new(0)));
        x.with(c, IdealGas::helium()).is_ok()
    };
    // the most any of its cycles needs
    let need = (-1..60).map(|k| 40.0 + 100.0 * 0.8f64.powi(k)).map(|dt| (0..200).find(|&k| {
        let mut x = e; x.hhx.dt = dt; x.iters = (k, 5);
        x.with(x.comps(), IdealGas::helium()).is_ok()
    }).unwrap()).max().unwrap();
    assert!(run(need), "an inner budget of {need} suffices for every cycle");
}
''')),
dict(id="outer-patience", property="C07", needs="a component whose answers settle late, without getting closer for some iterations first",
 breaks="an outer loop that makes no progress in eight iterations is given up",
 edits=[("engine.rs", "        let mut state = state::State::new_hint(&components, fluid, inputs);\n", "        let mut state = state::State::new_hint(&components, fluid, inputs);\n        let mut changes = vec![];\n"),
  ("engine.rs", "                Ok(new_state) => {\n                    state = new_state;", "                Ok(new_state) => {\n                    let change = (new_state.temp.hhx - before.hhx).abs()\n                        + (new_state.temp.chx - before.chx).abs()\n                        + (new_state.temp.regen.avg - before.regen.avg).abs();\n                    if changes.len() >= 8 && change >= changes[changes.len() - 8] {\n                        return Err(RunError::OuterLoop);\n                    }\n                    changes.push(change);\n                    state = new_state;"),
  ("engine.rs", "            match state.update(&components, &values, settings.loop_tol.outer) {\n                Ok(new_state)", "            let before = state.temp;\n            match state.update(&components, &values, settings.loop_tol.outer) {\n                Ok(new_state)"),
 ],
 demo=h('''
struct Late(std::cell::Cell<i32>);
impl hhx::HotHeatExchanger for Late {
    fn volume(&self) -> f64 { 5e-5 }
    fn approach(&self, _: &hhx::State) -> f64 { let k = self.0.get(); self.0.set(k + 1); if k < 14 { 40.0 + f64::from(k % 2) } else { 50.0 } }
    fn hydraulic_resistance(&self, _: &hhx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &hhx::State) -> ParasiticPower { par(0.0, 0.0) }
    fn initial_approach(&self) -> f64 { 20.0 }
}
fn main() {
    let x = E { n: 11, outer: (0.01, 1.0), ..E::default() };
    let mut c = x.comps();
    c.hhx = Box::new(Late(std::cell::Cell::new(0)));
    assert!(x.with(c, IdealGas::helium()).is_ok());
}
''')),
dict(id="phase-loop", property="C08", needs="an absurdly large phase angle",
 breaks="a huge phase angle is reduced by subtracting turns one at a time",
 edits=[("ws/sinusoidal_drive.rs", "        let phase_angle_rad = self.phase_angle * PI / 180.0; // convert degrees to radians\n", "        let mut phase_angle = self.phase_angle;\n        while phase_angle > 7200. {\n            phase_angle -= 360.;\n        }\n        let phase_angle_rad = phase_angle * PI / 180.0; // convert degrees to radians\n")],
 demo=h('''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for phase in [90.0, 1e5, 1e18, 1e300] {
            let e = E { phase, n: 5, ..E::default() };
            let _ = e.with(e.comps(), IdealGas::helium());
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(60)).expect("the run does not end");
}
''')),
dict(id="linkage-assert", property="C08", needs="a rhombic drive whose linkage cannot turn",
 breaks="a rhombic drive with an impossible linkage panics",
 edits=[("ws/rhombic_drive.rs", "        let A_p = PI * self.geometry.D_p.powi(2) / 4.;\n", "        assert!(\n            L_conn >= r_crank + eccentricity,\n            \"the connecting rod is too short\"\n        );\n\n        let A_p = PI * self.geometry.D_p.powi(2) / 4.;\n")],
 demo=h(CFG, '''
fn main() {
    let i = TOML.find("[engine.components.ws").unwrap();
    let j = TOML.find("[solver.inner").unwrap();
    for l in ["0.04602", "0.03", "0.0"] {
        let t = format!("{}[engine.components.ws.rhombic]\\nfrequency = 50.0\\nV_clearance_c = 3e-5\\nR_c = inf\\nW_parasitic_c = 0.0\\nV_clearance_e = 3e-5\\nR_e = inf\\nW_parasitic_e = 0.0\\nQ_parasitic_e = 0.0\\nr_crank = 0.01397\\nL_conn = {l}\\neccentricity = 0.02065\\nD_p = 0.0698\\nD_d = 0.0696\\n{}", &TOML[..i], &TOML[j..]);
        let r = run_engine(parse(&t).unwrap());
        assert_eq!(r.is_ok(), l == "0.04602");
    }
}
''')),
dict(id="drop-order", property="C08", needs="a fluid that answers NaN once the run is over",
 breaks="a fluid that returns NaN during the extraction of results makes it panic",
 edits=[("performance.rs", "        let total = &cold_hx + &hot_hx + &regen;\n", "        let total = &cold_hx + &hot_hx + &regen;\n        let largest = total\n            .iter()\n            .map(|x| x.abs())\n            .max_by(|a, b| a.partial_cmp(b).unwrap())\n            .unwrap_or_default();\n        if largest < f64::EPSILON * pressure[0].abs() {\n            return Self {\n                P_c: pressure.clone(),\n                P_e: pressure,\n            };\n        }\n")],
 demo=h('''
use std::{cell::Cell, rc::Rc};
struct Flaky(IdealGas, Rc<Cell<bool>>);
impl Fluid for Flaky {
    fn cp(&self, t: f64, p: f64) -> f64 { self.0.cp(t, p) }
    fn dens(&self, t: f64, p: f64) -> f64 { if self.1.get() { f64::NAN } else { self.0.dens(t, p) } }
    fn enth(&self, t: f64, p: f64) -> f64 { self.0.enth(t, p) }
    fn inte(&self, t: f64, p: f64) -> f64 { self.0.inte(t, p) }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 { self.0.dd_dP_T(t, p) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { self.0.dd_dT_P(t, p) }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 { self.0.du_dP_T(t, p) }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 { self.0.du_dT_P(t, p) }
}
fn main() {
    let e = E::default();
    let bad = Rc::new(Cell::new(false));
    let engine = Engine::run::<LuSolver>(e.comps(), Flaky(IdealGas::helium(), bad.clone()), e.inputs(), e.settings()).ok().unwrap();
    bad.set(true);
    let r = sett_rs::api::RunResults::from(engine);
    println!("{}", r.power.net);
}
''')),
dict(id="motoring-parasitics", property="C10", needs="an engine that has to be driven",
 breaks="the mechanical parasitics of a driven machine are not taken off its shaft power",
 edits=[("performance.rs", "        let shaft = indicated - ws_parasitics.comp.mechanical - ws_parasitics.exp.mechanical;\n", "        let friction = ws_parasitics.comp.mechanical + ws_parasitics.exp.mechanical;\n        let shaft = if indicated > -friction {\n            indicated - ws_parasitics.comp.mechanical - ws_parasitics.exp.mechanical\n        } else {\n            indicated + friction // a motor overcomes the friction\n        };\n")],
 demo=h('''
fn main() {
    for phase in [90.0, -90.0] {
        let r = E { phase, par_c: 11.0, par_e: (0.0, 5.0), ..E::default() }.run();
        close("shaft power", r.power.shaft, r.power.indicated - 16.0, 1e-8);
    }
}
''')),
dict(id="drop-density-small-swing", property="C10", needs="pressure drops in an engine with a small pressure swing",
 breaks="the gas density of pressure drops is taken at the mean pressure when the pressure varies little",
 edits=[("performance.rs", "        let pressure = DVector::from_row_slice(&engine.values.P);\n        let dens_cold_hx =\n            pressure.map(|pres| engine.state.fluid.dens(engine.state.temp.chx, pres));\n", "        let pressure = DVector::from_row_slice(&engine.values.P);\n        let pres = &engine.state.pres;\n        let flat = pres.max < 1.1 * pres.min;\n        let dens_cold_hx = pressure.map(|p| {\n            let p = if flat { pres.avg } else { p };\n            engine.state.fluid.dens(engine.state.temp.chx, p)\n        });\n")],
 demo=h('''
fn main() {
    for cl in [3e-5, 3e-3] {
        let mut e = E { cl_c: cl, cl_e: cl, iters: (4000, 50), inner: (1e-2, 1e-2), ..E::default() };
        e.chx.rhyd = 1e8;
        let r = e.run();
        let v = &r.values;
        for i in 0..v.time.len() {
            let flow = 0.5 * (v.m_dot_ck[i] + v.m_dot_kr[i]) / (v.P[i] / 2077.23 / r.temperature.chx);
            let want = 1e8 * flow;
            close("pressure drop", v.P_c[i] - v.P_e[i], want, 1e-6 * want.abs() + 1e-6);
        }
    }
}
''')),
dict(id="heat-pump-efficiency", property="C11", needs="a machine whose heat input is negative",
 breaks="the efficiency of a machine with negative heat input has the wrong sign",
 edits=[("performance.rs", "let efficiency = power.net / heat.input;", "let efficiency = power.net / heat.input.abs();")],
 demo=h('''
fn main() {
    for phase in [90.0, -90.0] {
        let r = E { phase, ..E::default() }.run();
        close("efficiency", r.efficiency.mechanical, r.power.net / r.heat_flow.input, 1e-9);
    }
}
''')),
dict(id="one-wall-input", property="C11", needs="a hot wall resistance together with an adiabatic compression space",
 breaks="heat through the expansion space wall is counted only if the compression space has a wall resistance too",
 edits=[("performance.rs", "            input: Q_dot_l - Q_dot_e + Q_dot_loss_external,", "            input: if ws_thermal_resistances.comp.is_finite() {\n                Q_dot_l - Q_dot_e + Q_dot_loss_external\n            } else {\n                Q_dot_l + Q_dot_loss_external\n            },")],
 demo=h('''
fn main() {
    for r_c in [0.5, f64::INFINITY] {
        let r = E { r_c, r_e: 0.3, ..E::default() }.run();
        let v = &r.values;
        let q = mean(&v.time, &v.T_e.iter().map(|t| (r.temperature.hhx - t) / 0.3).collect::<Vec<_>>());
        close("heat input", r.heat_flow.input, mean(&v.time, &v.Q_dot_l) + q, 1e-6 * r.heat_flow.input.abs());
    }
}
''')),
dict(id="displacer-larger", property="C12", needs="a rhombic drive whose displacer is larger than its piston",
 breaks="the displacer area is limited to the piston area",
 edits=[("ws/rhombic_drive.rs", "let A_d = PI * self.geometry.D_d.powi(2) / 4.;", "let A_d = (PI * self.geometry.D_d.powi(2) / 4.).min(A_p);")],
 demo=h(CFG, '''
fn main() {
    let run = |dd: f64| {
        let i = TOML.find("[engine.components.ws").unwrap();
        let j = TOML.find("[solver.inner").unwrap();
        let t = format!("{}[engine.components.ws.rhombic]\\nfrequency = 50.0\\nV_clearance_c = 3e-5\\nR_c = inf\\nW_parasitic_c = 0.0\\nV_clearance_e = 3e-5\\nR_e = inf\\nW_parasitic_e = 0.0\\nQ_parasitic_e = 0.0\\nr_crank = 0.01397\\nL_conn = 0.04602\\neccentricity = 0.02065\\nD_p = 0.0698\\nD_d = {dd}\\n{}", &TOML[..i], &TOML[j..]);
        run_engine(parse(&t).unwrap()).unwrap().power.net
    };
    let p: Vec<f64> = [0.068, 0.0698, 0.0710, 0.0730].iter().map(|d| run(*d)).collect();
    for w in p.windows(2) { assert!((w[1] - w[0]).abs() > 1.0, "{p:?}"); }
}
''')),
dict(id="rhombic-mirror", property="C12", needs="a rhombic drive seen in the second half of its cycle",
 breaks="the expansion volume moves as if the second half of the cycle mirrored the first",
 edits=[("ws/rhombic_drive.rs", "value: V_clearance_e + A_d * (b_theta - b_2 - r_crank * theta.sin()),", "value: V_clearance_e + A_d * (b_theta - b_2 - r_crank * (theta % (20. * PI)).sin()),"),
  ("ws/rhombic_drive.rs", "deriv: dVe_dtheta * omega,", "deriv: if theta < -10. * PI { -dVe_dtheta } else { dVe_dtheta } * omega,")],
 demo=h('''
use sett_rs::ws::WorkingSpaces;
fn main() {
    let d = ws::RhombicDrive::default();
    let p = Engine::run::<LuSolver>(E::default().comps(), IdealGas::helium(), E::default().inputs(), E::default().settings()).ok().unwrap();
    let s = p.state.ws();
    let v = d.volumes(&s);
    for k in -80..80 {
        let t = f64::from(k) * 0.00317;
        let dt = 1e-7;
        let num = (v(t + dt).1.value - v(t - dt).1.value) / (2.0 * dt);
        close("rate", v(t).1.deriv, num, 1e-6 + 1e-4 * num.abs());
    }
}
''')),
dict(id="hot-inte-slope", property="C13", needs="hydrogen hotter than 1200 K",
 breaks="hydrogen's internal energy follows a straight line above 1200 K",
 edits=[("fluid/ideal_gas.rs", "        poly(coefs, temp)\n", "        let over = temp - 1200.;\n        if over > 0. {\n            let at = |temp: f64| poly(self.enth_coefs.map(|x| x * (temp - self.ref_temp)), temp);\n            return at(1200.) + over * (at(1200.) - at(1199.));\n        }\n        poly(coefs, temp)\n")],
 demo=h('''
fn main() {
    let g = IdealGas::hydrogen();
    for t in [400.0, 900.0, 1190.0, 1300.0, 1450.0] {
        let a: f64 = g.enth(t, 1e6) - g.enth(t - 50.0, 1e6);
        let b: f64 = (0..1000).map(|k| 0.05 * g.cp(t - 49.975 + 0.05 * f64::from(k), 1e6)).sum();
        close("enthalpy", a / b, 1.0, if t < 500.0 { 0.05 } else { 0.06 });
    }
    // second differences are those of a smooth polynomial
    let d = |t: f64| g.enth(t + 20.0, 1e6) - 2.0 * g.enth(t, 1e6) + g.enth(t - 20.0, 1e6);
    close("curvature", d(1300.0) / d(1150.0), 1.0, 0.5);
}
''')),
dict(id="reversed-regen", property="C14", needs="a regenerator whose hot end is colder than its cold end",
 breaks="the approach of a fixed-conductance regenerator is never negative",
 edits=[("regen/fixed_conductance.rs", "(1. - effectiveness) * (state.temp_hhx - state.temp_chx)", "(1. - effectiveness) * (state.temp_hhx - state.temp_chx).max(0.)")],
 demo=h('''
use sett_rs::regen::Regenerator;
fn main() {
    let r = regen::FixedConductance::default();
    let hxr = HeatExchanger { temp: 400.0, pres: 1e6, dens: 1.0, cp: 5000.0, m_dot: 0.5, Q_dot: 10.0 };
    let a = r.approach(&regen::State { hxr, temp_chx: 300.0, temp_hhx: 700.0 });
    let b = r.approach(&regen::State { hxr, temp_chx: 700.0, temp_hhx: 300.0 });
    close("approach", b, -a, 1e-9);
}
''')),
dict(id="same-grid-rates", property="C18", needs="two engines with the same speed and resolution but other drives, on one thread",
 breaks="the volume rates of a run are reused by later runs with the same time grid",
 edits=[("performance.rs", "        let volumes_func = ws_component.volumes(ws_state);\n", "        use std::cell::RefCell;\n        type Rates = (Vec<f64>, DVector<f64>, DVector<f64>);\n        thread_local!(static LAST: RefCell<Option<Rates>> = const { RefCell::new(None) });\n        let known = LAST.with_borrow(|last| match last {\n            Some((grid, comp, exp)) if grid == time => Some((comp.clone(), exp.clone())),\n            _ => None,\n        });\n        if let Some(rates) = known {\n            return rates;\n        }\n        let volumes_func = ws_component.volumes(ws_state);\n"),
  ("performance.rs", "        (dVc_dt, dVe_dt)\n", "        LAST.set(Some((time.to_vec(), dVc_dt.clone(), dVe_dt.clone())));\n        (dVc_dt, dVe_dt)\n")],
 demo=h('''
fn main() {
    let e = E { sw_c: 1e-4, ..E::default() };
    let fresh = std::thread::spawn(move || e.run()).join().unwrap();
    E { sw_e: 1e-4, f: 60.0, ..e }.run();
    E { sw_c: 1.5e-4, ..e }.run();
    let later = e.run();
    assert_eq!(fresh.power.indicated, later.power.indicated);
}
''')),
dict(id="iters-product", property="C19", needs="iteration budgets whose product overflows",
 breaks="the total number of iterations of huge budgets overflows",
 edits=[("engine.rs", "        for _ in 0..settings.max_iters.outer {\n", "        let total = settings.max_iters.inner * settings.max_iters.outer;\n        let mut done = 0;\n        while done < total.max(settings.max_iters.outer) && done < settings.max_iters.outer {\n            done += 1;\n")],
 demo=h('''
fn main() {
    // the arithmetic is that of the crate, whatever the profile of this program
    let e = E { iters: (usize::MAX / 2, 3), ..E::default() };
    let r = std::panic::catch_unwind(|| e.with(e.comps(), IdealGas::helium()).is_ok());
    assert!(matches!(r, Ok(true)));
}
''')),
dict(id="resistance-cutoff", property="C20", needs="a tiny engine with wall resistances",
 breaks="wall resistances above 1e4 K/W count as adiabatic in the heat flows",
 edits=[("engine/state.rs", "let Q_dot_c = if thermal_res.comp.is_infinite() {", "let Q_dot_c = if thermal_res.comp > 1e4 {")],
 demo=h('''
fn main() {
    let base = E { r_c: 0.5, ..E::default() };
    let a = base.run();
    for s in [1e-2, 1e-5] {
        let mut e = base;
        for v in [&mut e.sw_c, &mut e.sw_e, &mut e.cl_c, &mut e.cl_e, &mut e.chx.vol, &mut e.regen.vol, &mut e.hhx.vol] { *v *= s; }
        e.r_c /= s;
        let b = e.run();
        close("heat", b.heat_flow.chx / s, a.heat_flow.chx, 1e-4 * a.heat_flow.chx.abs());
    }
}
''')),
dict(id="large-engine-flow", property="C20", needs="a machine with flows above 100 kg/s",
 breaks="mass flows above 100 kg/s are averaged as if they were 100 kg/s",
 edits=[("engine/state.rs", "0.5 * (l + r).abs()", "(0.5 * (l + r).abs()).min(100.)")],
 demo=h('''
fn main() {
    for s in [1.0, 1e5] {
        let mut e = E::default();
        for v in [&mut e.sw_c, &mut e.sw_e, &mut e.cl_c, &mut e.cl_e, &mut e.chx.vol, &mut e.regen.vol, &mut e.hhx.vol] { *v *= s; }
        let r = e.run();
        let v = &r.values;
        let m: Vec<f64> = v.m_dot_ck.iter().zip(&v.m_dot_kr).map(|(a, b)| (0.5 * (a + b)).abs()).collect();
        let m = mean(&v.time, &m);
        close("flow", r.mass_flow.chx, m, 1e-9 * m);
    }
}
''')),
dict(id="every-other-point", property="C21", needs="more than 6000 points",
 breaks="with many points the flows are solved at every other point and copied in between",
 edits=[("state_equations/integrator.rs", "        let mut flow_dir = FlowDirection::default();\n        self.points\n", "        let mut flow_dir = FlowDirection::default();\n        let many = self.points.len() > 6000;\n        let mut solved: Option<super::Solution> = None;\n        self.points\n"),
  ("state_equations/integrator.rs", "                let inputs = self.cycle.calculate_inputs(time, conditions);\n                let solution = solve::<T::Solver>(inputs, flow_dir)?;\n                flow_dir = FlowDirection::from_solution(&solution);\n                Ok(Values {", "                let inputs = self.cycle.calculate_inputs(time, conditions);\n                let solution = match solved.take() {\n                    Some(solution) if many => solution,\n                    _ => {\n                        let solution = solve::<T::Solver>(inputs, flow_dir)?;\n                        solved = Some(solution.clone());\n                        solution\n                    }\n                };\n                flow_dir = FlowDirection::from_solution(&solution);\n                Ok(Values {")],
 demo=h('''
fn main() {
    let e = E { inner: (1e30, 1e30), outer: (1e30, 1e30), ode: (1e-8, 1e-8), ..E::default() };
    for k in [5, 9, 75] {
        let a = E { n: 101, ..e }.run();
        let b = E { n: 100 * k + 1, ..e }.run();
        for i in 0..=100 { close("flow", b.values.m_dot_kr[i * k as usize], a.values.m_dot_kr[i], 1e-6); }
    }
}
''')),
dict(id="settled-not-asked", property="C22", needs="a component whose answer depends on the cycle in later outer iterations",
 breaks="from the third outer iteration on the hot exchanger is told the heat flow of the cycle before",
 edits=[("engine/state.rs", "        // TODO: Determine a better regen_imbalance", "        let heat_flow = HeatFlows {\n            hhx: if (heat_flow.hhx - self.heat_flow.hhx).abs() < 0.02 * heat_flow.hhx.abs() {\n                0.5 * (heat_flow.hhx + self.heat_flow.hhx) // smoother\n            } else {\n                heat_flow.hhx\n            },\n            ..heat_flow\n        };\n\n        // TODO: Determine a better regen_imbalance")],
 demo=h('''
fn main() {
    let e = E { outer: (1e-1, 1e-3), ..E::default() };
    let mut c = e.comps();
    c.hhx = Box::new(hhx::FixedConductance::new(5e-5, 0.0, 600.0, par(0.0, 0.0)));
    let r = e.with(c, IdealGas::helium()).unwrap();
    let q = mean(&r.values.time, &r.values.Q_dot_l);
    close("heat", r.heat_flow.hhx, q, 1e-9 * q);
}
''')),
dict(id="weak-real-gas", property="C23", needs="a gas whose energy depends weakly on pressure",
 breaks="a small pressure dependence of the internal energy is neglected",
 edits=[("engine/run.rs", "            du_dP_T: self.fluid.du_dP_T(temp, pres),\n            enth_cold", "            du_dP_T: Some(self.fluid.du_dP_T(temp, pres))\n                .filter(|x| x.abs() * pres > 0.03 * self.enth_norm)\n                .unwrap_or(0.),\n            enth_cold")],
 demo=h('''
struct Virial;
const R: f64 = 2077.23;
const A: f64 = 1.0e4;
const CP: f64 = 5193.17;
impl Fluid for Virial {
    fn dens(&self, t: f64, p: f64) -> f64 { 1.0 / (R * t / p - A / (R * t)) }
    fn inte(&self, t: f64, p: f64) -> f64 { (CP - R) * t - A * p / (R * t) }
    fn enth(&self, t: f64, p: f64) -> f64 { CP * t - 2.0 * A * p / (R * t) }
    fn cp(&self, t: f64, p: f64) -> f64 { CP + 2.0 * A * p / (R * t * t) }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 { self.dens(t, p).powi(2) * R * t / (p * p) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { -self.dens(t, p).powi(2) * (R / p + A / (R * t * t)) }
    fn du_dP_T(&self, t: f64, _: f64) -> f64 { -A / (R * t) }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 { CP - R + A * p / (R * t * t) }
}
fn main() {
    let e = E { n: 2001, ..E::default() };
    let r = e.with(e.comps(), Virial).unwrap();
    let (v, t) = (&r.values, &r.temperature);
    // energy balance of the regenerator
    let u = |i: usize| e.regen.vol * Virial.dens(t.regen_avg, v.P[i]) * Virial.inte(t.regen_avg, v.P[i]);
    let mut worst = 0.0f64;
    for i in 1..2000 {
        let h_in = Virial.enth(if v.m_dot_kr[i] >= 0.0 { t.chx } else { t.regen_cold }, v.P[i]);
        let h_out = Virial.enth(if v.m_dot_rl[i] >= 0.0 { t.regen_hot } else { t.hhx }, v.P[i]);
        let du = (u(i + 1) - u(i - 1)) / (v.time[i + 1] - v.time[i - 1]);
        worst = worst.max((v.m_dot_kr[i] * h_in - v.m_dot_rl[i] * h_out - v.Q_dot_r[i] - du).abs());
    }
    assert!(worst < 30.0, "regenerator out of balance by {worst} W");
}
''')),
]
