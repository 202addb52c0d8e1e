import runpy
_b = runpy.run_path("/verif/tools/bugs/b.py")
H, CFG, LEG = _b['H'], _b['CFG'], _b['LEG']
def h(*p): return H + "".join(p)
MOVED = '''
use sett_rs::api::RunResults;
/// a drive that starts later in its cycle
struct Moved(Box<dyn ws::WorkingSpaces>, f64);
impl ws::WorkingSpaces for Moved {
    fn frequency(&self, s: &ws::State) -> f64 { self.0.frequency(s) }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let (v, t0) = (self.0.volumes(s), self.1 / self.0.frequency(s));
        Box::new(move |t| v(t + t0))
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance { self.0.thermal_resistance(s) }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics { self.0.parasitics(s) }
}
#[allow(dead_code)]
fn later(e: &E, points: usize) -> (RunResults, RunResults) {
    let a = e.run();
    let m = e.n as usize - 1;
    let mut comps = e.comps();
    comps.ws = Box::new(Moved(e.ws(), points as f64 / m as f64));
    let b = E { p0: a.values.P[points], ..*e }.with(comps, IdealGas::helium()).expect("should run");
    (a, b)
}
'''
MIRROR = '''
use sett_rs::api::RunResults;
/// the same engine with its two ends exchanged, run on a drive with the volumes exchanged
struct Swap(Box<dyn ws::WorkingSpaces>);
impl ws::WorkingSpaces for Swap {
    fn frequency(&self, s: &ws::State) -> f64 { self.0.frequency(s) }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let v = self.0.volumes(s);
        Box::new(move |t| {
            let (c, e) = v(t);
            (ws::CompVolume { value: e.value, deriv: e.deriv }, ws::ExpVolume { value: c.value, deriv: c.deriv })
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        let r = self.0.thermal_resistance(s);
        ws::ThermalResistance { comp: r.exp, exp: r.comp }
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics { self.0.parasitics(s) }
}
fn mirrored(e: &E) -> (RunResults, RunResults) {
    let a = e.run();
    let neg = |h: Hx| Hx { dt: -h.dt, ..h };
    let m = E { chx: neg(e.hhx), hhx: neg(e.chx), regen: neg(e.regen), ts: e.th, th: e.ts, ..*e };
    let mut comps = m.comps();
    comps.ws = Box::new(Swap(e.ws()));
    let b = m.with(comps, IdealGas::helium()).expect("should run");
    (a, b)
}
fn check(e: &E) {
    let (a, b) = mirrored(e);
    let p = a.pressure.avg;
    for i in 0..a.values.P.len() {
        close("P", b.values.P[i], a.values.P[i], 1e-5 * p);
        close("T_c", b.values.T_e[i], a.values.T_c[i], 5e-3);
        close("T_e", b.values.T_c[i], a.values.T_e[i], 5e-3);
    }
}
'''
BUGS = [
dict(id="max-with-drops", property="C24", needs="an exchanger with hydraulic resistance",
 breaks="the reported pressure extremes are those of the working spaces with the pressure drops, not the engine's",
 edits=[("api.rs", "                max: engine.state.pres.max,\n", "                max: performance\n                    .pressures_with_drops\n                    .P_c\n                    .max()\n                    .max(engine.state.pres.max),\n")],
 demo=h('''
fn main() {
    for r in [0.0, 1e5, 1e7] {
        let mut e = E::default();
        e.regen.rhyd = r;
        let x = e.run();
        let max = x.values.P.iter().copied().fold(0.0, f64::max);
        close("maximum pressure", x.pressure.max, max, 1e-9 * max);
    }
}
''')),
dict(id="heat-pump-ends", property="C24", needs="a regenerator whose cold end ends up warmer than its hot end (a heat pump, or large approaches)",
 breaks="the results call the cooler end of the regenerator cold, the engine calls the one next to the cold exchanger so",
 edits=[("api.rs", "                regen_cold: engine.state.temp.regen.cold,\n", "                regen_cold: engine.state.temp.regen.cold.min(engine.state.temp.regen.hot),\n"),
  ("api.rs", "                regen_hot: engine.state.temp.regen.hot,\n", "                regen_hot: engine.state.temp.regen.hot.max(engine.state.temp.regen.cold),\n")],
 demo=h('''
fn main() {
    for (ts, th) in [(300.0, 900.0), (350.0, 300.0)] {
        let r = E { ts, th, ..E::default() }.run();
        close("cold end", r.temperature.regen_cold, r.temperature.chx + 10.0, 1e-9);
        close("hot end", r.temperature.regen_hot, r.temperature.hhx - 10.0, 1e-9);
    }
}
''')),
dict(id="tiny-flow-hidden", property="C24", needs="an engine whose average flows are below a milligram per second",
 breaks="small average mass flows are reported as none although the engine has them",
 edits=[("api.rs", "                chx: engine.state.mass_flow.chx,\n                regen: engine.state.mass_flow.regen,\n                hhx: engine.state.mass_flow.hhx,\n", "                chx: Self::significant(engine.state.mass_flow.chx),\n                regen: Self::significant(engine.state.mass_flow.regen),\n                hhx: Self::significant(engine.state.mass_flow.hhx),\n"),
  ("api.rs", "impl<T: Fluid> From<Engine<T>> for RunResults {\n", "impl RunResults {\n    /// Flows below a milligram per second are noise\n    fn significant(m_dot: f64) -> f64 {\n        if m_dot.abs() < 1e-6 {\n            0.\n        } else {\n            m_dot\n        }\n    }\n}\n\nimpl<T: Fluid> From<Engine<T>> for RunResults {\n")],
 demo=h('''
fn main() {
    for k in [1.0, 1e-4, 1e-7] {
        let r = E { p0: 5e6 * k, f: 5.0, ..E::default() }.run();
        let v = &r.values;
        let m: Vec<f64> = (0..v.time.len()).map(|i| 0.5 * (v.m_dot_kr[i] + v.m_dot_rl[i]).abs()).collect();
        let m = mean(&v.time, &m);
        close("regenerator flow", r.mass_flow.regen, m, 1e-9 * m);
    }
}
''')),
dict(id="averaged-dead-centre", property="C25", needs="a cycle that starts with the compression space at a dead centre",
 breaks="at the start of the cycle the first flow rates are those of a quarter of a per mille of a period later when the compression space is at rest",
 edits=[("state_equations/integrator.rs", "                let inputs = self.cycle.calculate_inputs(time, conditions);\n", "                let mut inputs = self.cycle.calculate_inputs(time, conditions);\n                if time == 0. && inputs.comp.dV_dt == 0. {\n                    // avoid starting exactly on a dead centre\n                    inputs = self\n                        .cycle\n                        .calculate_inputs(2.5e-4 * self.cycle.period(), conditions);\n                }\n")],
 demo=h(MOVED, '''
fn main() {
    let e = E { n: 41, outer: (1e-3, 1e-6), ..E::default() };
    let (a, b) = later(&e, 7);
    for i in 0..40 {
        let j = (i + 7) % 40;
        for (n, x, y) in [("m_dot_ck", &a.values.m_dot_ck, &b.values.m_dot_ck), ("m_dot_le", &a.values.m_dot_le, &b.values.m_dot_le)] {
            let s = x.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
            close(n, y[i], x[j], 1e-4 * s);
        }
    }
}
''')),
dict(id="first-peak", property="C25", needs="a cycle that starts after its pressure has peaked",
 breaks="the maximum pressure is looked for up to the first fall of the pressure only",
 edits=[("engine/state.rs", "        let max = *values\n            .P\n            .iter()\n            .max_by(|a, b| a.total_cmp(b))\n            .expect(\"values cannot be empty\");\n", "        // the cycle starts with the compression space at its largest, so the pressure rises to its peak first\n        let peak = values.P.windows(2).position(|p| p[1] < p[0] && p[0] > avg);\n        let max = *values.P[..peak.map_or(values.P.len(), |i| i + 1)]\n            .iter()\n            .max_by(|a, b| a.total_cmp(b))\n            .expect(\"values cannot be empty\");\n")],
 demo=h(MOVED, '''
fn main() {
    let e = E { n: 41, outer: (1e-4, 1e-7), inner: (1e-5, 1e-7), ..E::default() };
    for points in [3, 25, 35] {
        let (a, b) = later(&e, points);
        close("maximum pressure", b.pressure.max, a.pressure.max, 1e-5 * a.pressure.avg);
    }
}
''')),
dict(id="hot-losses-felt", property="C26", needs="a hot exchanger with a conductance and thermal parasitics",
 breaks="the hot exchanger is asked for its approach with its external losses added to its heat flow",
 edits=[("engine/state.rs", "        // Calculate engine temperatures from updated approach temperatures\n", "        // The hot heat exchanger also has to provide its losses\n        let mut hhx_state = new_state.hhx();\n        hhx_state.hxr.Q_dot += components.hhx.parasitics(&hhx_state).thermal;\n\n        // Calculate engine temperatures from updated approach temperatures\n"),
  ("engine/state.rs", "            hhx: components.hhx.approach(&new_state.hhx()),\n", "            hhx: components.hhx.approach(&hhx_state),\n")],
 demo=h('''
fn main() {
    let go = |loss: f64| {
        let e = E { outer: (1e-4, 1e-7), inner: (1e-5, 1e-7), ..E::default() };
        let mut c = e.comps();
        c.hhx = Box::new(hhx::FixedConductance::new(5e-5, 0.0, 3000.0, par(loss, 0.0)));
        e.with(c, IdealGas::helium()).expect("should run")
    };
    let (a, b) = (go(0.0), go(5000.0));
    close("hot exchanger", b.temperature.hhx, a.temperature.hhx, 1e-6);
}
''')),
dict(id="friction-heats-gas", property="C26", needs="mechanical parasitics in the compression space of an engine that is not told to ignore them",
 breaks="the friction of the compression piston heats the gas, so that mechanical losses change the cycle",
 edits=[("engine/run.rs", "        let ws_vol_fn = components.ws.volumes(&ws_state);\n", "        let ws_vol_fn = components.ws.volumes(&ws_state);\n        let friction = components.ws.parasitics(&ws_state).comp.mechanical;\n"),
  ("engine/run.rs", "            vol_chx,\n            vol_hhx,\n", "            vol_chx,\n            friction,\n            vol_hhx,\n"),
  ("engine/run.rs", "    vol_chx: f64,\n", "    vol_chx: f64,\n    friction: f64,\n"),
  ("engine/run.rs", "        let (comp_vol, exp_vol) = (self.ws_vol_fn)(time);\n", "        let (comp_vol, exp_vol) = (self.ws_vol_fn)(time);\n        let mut comp = self.comp_inputs(comp_vol, T_c, P);\n        if self.ws_thermal_res.comp.is_finite() {\n            comp.Q_dot -= 0.1 * self.friction; // the rest leaves through the wall\n        }\n"),
  ("engine/run.rs", "            comp: self.comp_inputs(comp_vol, T_c, P),\n", "            comp,\n")],
 demo=h('''
fn main() {
    let e = E { n: 61, r_c: 0.5, r_e: 0.5, outer: (1e-4, 1e-7), inner: (1e-5, 1e-7), ..E::default() };
    let (a, b) = (e.run(), E { par_c: 500.0, ..e }.run());
    for i in 0..61 { close("T_c", b.values.T_c[i], a.values.T_c[i], 1e-6); }
}
''')),
dict(id="drops-shift-pressure", property="C26", needs="exchangers with hydraulic resistances and a conductance",
 breaks="the pressure the exchangers see includes the pressure drops",
 edits=[("engine/state.rs", "        // Calculate engine temperatures from updated approach temperatures\n", "        // Throttling in the regenerator costs the hot exchanger some of its flow\n        let mut hhx_state = new_state.hhx();\n        let drop = components.regen.hydraulic_resistance(&new_state.regen())\n            * new_state.mass_flow.regen\n            / new_state.regen().hxr.dens;\n        hhx_state.hxr.m_dot *= 1. - (drop / new_state.pres.avg).clamp(0., 0.5);\n\n        // Calculate engine temperatures from updated approach temperatures\n"),
  ("engine/state.rs", "            hhx: components.hhx.approach(&new_state.hhx()),\n", "            hhx: components.hhx.approach(&hhx_state),\n")],
 demo=h('''
fn main() {
    let go = |rhyd: f64| {
        let mut e = E { outer: (1e-4, 1e-7), inner: (1e-5, 1e-7), ..E::default() };
        e.regen.rhyd = rhyd;
        let mut c = e.comps();
        c.hhx = Box::new(hhx::FixedConductance::new(5e-5, 0.0, 3000.0, par(0.0, 0.0)));
        e.with(c, IdealGas::helium()).expect("should run")
    };
    let (a, b) = (go(0.0), go(3e7));
    close("hot exchanger", b.temperature.hhx, a.temperature.hhx, 1e-6);
}
''')),
dict(id="hot-clearance", property="C27", needs="an expansion space that nearly vanishes next to its exchanger",
 breaks="the expansion space is never taken smaller than two per cent of the hot exchanger",
 edits=[("engine/run.rs", "    fn exp_inputs(&self, vol: ws::ExpVolume, temp: f64, pres: f64) -> WorkingSpaceInputs {\n        WorkingSpaceInputs {\n            vol: vol.value,\n", "    fn exp_inputs(&self, vol: ws::ExpVolume, temp: f64, pres: f64) -> WorkingSpaceInputs {\n        WorkingSpaceInputs {\n            vol: vol.value.max(0.02 * self.vol_hhx),\n")],
 demo=h(MIRROR, '''
fn main() {
    for cl_e in [2e-5, 2e-7] {
        check(&E { n: 61, cl_e, sw_e: 6e-5, sw_c: 6e-5, outer: (1e-4, 1e-7), inner: (1e-5, 1e-7), ..E::default() });
    }
}
''')),
dict(id="weak-hot-wall", property="C27", needs="an expansion space whose wall conducts less than 20 mW/K, in an engine of such size that it matters",
 breaks="a weak heat exchange in the expansion space is ignored, but not in the compression space",
 edits=[("engine/run.rs", "        let (comp_vol, exp_vol) = (self.ws_vol_fn)(time);\n", "        let (comp_vol, exp_vol) = (self.ws_vol_fn)(time);\n        let mut exp = self.exp_inputs(exp_vol, T_e, P);\n        if self.ws_thermal_res.exp > 50. {\n            exp.Q_dot = 0.; // as good as adiabatic\n        }\n"),
  ("engine/run.rs", "            exp: self.exp_inputs(exp_vol, T_e, P),\n", "            exp,\n")],
 demo=h(MIRROR, '''
fn main() {
    for k in [1.0, 1e-3] {
        check(&E { n: 61, p0: 5e6 * k, r_c: 0.2 / k, r_e: 0.2 / k, outer: (1e-4, 1e-7), inner: (1e-5, 1e-7), ..E::default() });
    }
}
''')),
]
