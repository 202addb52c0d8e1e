H = "mod common;\nuse common::*;\n#[allow(unused_imports)]\nuse sett_rs::{fluid::*, types::*, *};\n"
CFG = '''
pub fn parse(text: &str) -> Result<sett_rs::Config, config::ConfigError> {
    config::Config::builder().add_source(config::File::from_str(text, config::FileFormat::Toml)).build()?.try_deserialize()
}
#[allow(dead_code)]
pub fn legacy(text: &str) -> Result<sett_rs::Config, config::ConfigError> {
    Ok(config::Config::builder().add_source(config::File::from_str(text, config::FileFormat::Json)).build()?.try_deserialize::<Legacy>()?.into())
}
#[allow(dead_code)]
pub const TOML: &str = r#"
[engine.fluid.helium]
model = "ideal_gas"
[engine.components.chx.fixed_approach]
vol = 4e-5
DT = 20.0
R_hyd = 0.0
W_parasitic = 0.0
[engine.components.regen.fixed_approach]
vol = 1e-4
DT = 10.0
R_hyd = 0.0
Q_parasitic = 0.0
[engine.components.hhx.fixed_conductance]
vol = 5e-5
UA = 600.0
R_hyd = 0.0
W_parasitic = 0.0
Q_parasitic = 0.0
[engine.components.ws.sinusoidal]
frequency = 50.0
phase_angle = 90.0
V_swept_c = 1.1e-4
V_clearance_c = 3e-5
R_c = 0.5
W_parasitic_c = 0.0
V_swept_e = 1.2e-4
V_clearance_e = 2e-5
R_e = 0.5
W_parasitic_e = 0.0
Q_parasitic_e = 0.0
[solver.inner_loop]
max_iterations = 60
tolerance = { abs = 1e-4, rel = 1e-6 }
[solver.outer_loop]
max_iterations = 30
tolerance = { abs = 1e-2, rel = 1e-4 }
[solver.ode]
num_timesteps = 101
tolerance = { abs = 1e-9, rel = 1e-9 }
[conditions]
temp_sink = 300.0
temp_source = 900.0
pres_zero = 5e6
"#;
'''
LEG = r'''
const LEG: &str = r#"{"fluid":{"model":"IdealGas","params":{"name":"Helium"}},
"ws":{"model":"Sinusoidal","params":{"frequency":50,"phase_angle":90,"V_swept_c":1.1e-4,"V_clearance_c":3e-5,"R_c":"inf","W_parasitic_c":0,"V_swept_e":1.2e-4,"V_clearance_e":2e-5,"R_e":"inf","W_parasitic_e":0,"Q_parasitic_e":0}},
"chx":{"model":"FixedApproach","params":{"vol":4e-5,"DT":20,"R_hyd":0,"W_parasitic":0}},
"regen":{"model":"FixedApproach","params":{"vol":1e-4,"DT":10,"R_hyd":0,"Q_parasitic":0}},
"hhx":{"model":"FixedApproach","params":{"vol":5e-5,"DT":40,"R_hyd":0,"W_parasitic":0,"Q_parasitic":0}},
"solver":{"innerLoopTolerance":{"abs":1e-2,"rel":1e-3},"outerLoopTolerance":{"abs":2e-2,"rel":3e-3},"odeTolerance":{"abs":1e-6,"rel":1e-7},"odeSolver":"ode45","timeResolution":31},
"conditions":{"T_cold":300,"T_hot":900,"P_0":5e6}}"#;
'''
def h(*p): return H + "".join(p)
BUGS = [
dict(id="leak-through-regen", property="C01", needs="a hydraulically loaded engine whose regenerator is larger than both exchangers together",
 breaks="the enthalpy entering the regenerator from the cold exchanger is taken at the regenerator's cold end whichever way the gas flows while the hot end flow is small",
 edits=[("state_equations/solver.rs", "let h_kr_norm = flow_dir.kr.select(self.h_chx_norm, self.h_regen_cold_norm);",
  "let h_kr_norm = if flow_dir.rl == super::flow_direction::Direction::Negative {\n            self.h_regen_cold_norm\n        } else {\n            flow_dir.kr.select(self.h_chx_norm, self.h_regen_cold_norm)\n        };")],
 demo=h('''
fn main() {
    let e = E { regen: Hx { vol: 4e-4, rhyd: 0.0, dt: 80.0, par: (0.0, 0.0) }, n: 2001, ..E::default() };
    let r = e.run();
    let (v, t) = (&r.values, &r.temperature);
    let h = |x: f64| 5193.17 * (x - 250.0);
    for i in 1..v.time.len() - 1 {
        let dp = (v.P[i + 1] - v.P[i - 1]) / (v.time[i + 1] - v.time[i - 1]);
        let u = h(t.chx) - 2077.23 * (t.chx - 250.0);
        let stored = e.chx.vol / (2077.23 * t.chx) * dp * u;
        let cold = v.m_dot_ck[i] * if v.m_dot_ck[i] >= 0.0 { h(v.T_c[i]) } else { h(t.chx) };
        let hot = v.m_dot_kr[i] * if v.m_dot_kr[i] >= 0.0 { h(t.chx) } else { h(t.regen_cold) };
        close("energy balance of the cold exchanger", cold - hot - v.Q_dot_k[i], stored, 20.0);
    }
}
''')),
dict(id="derivative-at-mean-pressure", property="C03", needs="a fluid whose compressibility depends on pressure",
 breaks="the compressibility of the gas in the hot exchanger is evaluated at the mean pressure, so mass is not conserved with real gases",
 edits=[("engine/run.rs", "    fn hhx_inputs(&self, pres: f64) -> HeatExchangerInputs {\n        let temp = self.temp.hhx;\n        HeatExchangerInputs {\n            vol: self.vol_hhx,\n            dens: self.fluid.dens(temp, pres),\n            inte: self.fluid.inte(temp, pres),\n            enth: self.fluid.enth(temp, pres),\n            dd_dP_T: self.fluid.dd_dP_T(temp, pres),",
  "    fn hhx_inputs(&self, pres: f64) -> HeatExchangerInputs {\n        let temp = self.temp.hhx;\n        HeatExchangerInputs {\n            vol: self.vol_hhx,\n            dens: self.fluid.dens(temp, pres),\n            inte: self.fluid.inte(temp, pres),\n            enth: self.fluid.enth(temp, pres),\n            dd_dP_T: self.fluid.dd_dP_T(temp, self.pres.avg),")],
 demo=h('''
// Noble-Abel gas: P (1/d - b) = R T
struct Na;
const R: f64 = 2077.23;
const B: f64 = 3e-3;
impl Fluid for Na {
    fn dens(&self, t: f64, p: f64) -> f64 { 1.0 / (R * t / p + B) }
    fn inte(&self, t: f64, _: f64) -> f64 { (5193.17 - R) * t }
    fn enth(&self, t: f64, p: f64) -> f64 { 5193.17 * t + B * p }
    fn cp(&self, _: f64, _: f64) -> f64 { 5193.17 }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 { self.dens(t, p).powi(2) * R * t / (p * p) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { -self.dens(t, p).powi(2) * R / p }
    fn du_dP_T(&self, _: f64, _: f64) -> f64 { 0.0 }
    fn du_dT_P(&self, _: f64, _: f64) -> f64 { 5193.17 - R }
}
fn main() {
    let e = E { p0: 2e7, ..E::default() };
    let r = e.with(e.comps(), Na).unwrap();
    let (v, t) = (&r.values, &r.temperature);
    let m: Vec<f64> = (0..v.time.len()).map(|i| {
        let (w, p) = (e.vols(v.time[i]), v.P[i]);
        w[0] * Na.dens(v.T_c[i], p) + e.chx.vol * Na.dens(t.chx, p) + e.regen.vol * Na.dens(t.regen_avg, p) + e.hhx.vol * Na.dens(t.hhx, p) + w[2] * Na.dens(v.T_e[i], p)
    }).collect();
    for x in &m { close("gas mass", *x, m[0], 1e-6 * m[0]); }
}
''')),
dict(id="regen-energy-ideal", property="C03", needs="a fluid whose internal energy depends on pressure",
 breaks="the regenerator's energy storage assumes an ideal gas",
 edits=[("engine/run.rs", "            dd_dP_T: self.fluid.dd_dP_T(temp, pres),\n            du_dP_T: self.fluid.du_dP_T(temp, pres),\n            enth_cold:", "            dd_dP_T: self.fluid.dd_dP_T(temp, pres),\n            du_dP_T: 0., // the regenerator gas is nearly isothermal\n            enth_cold:")],
 demo=h('''
// van der Waals-like attraction: u = cv T - A d, d from P = d R T - A d^2 (positive branch)
struct Vdw;
const R: f64 = 2077.23;
const A: f64 = 8e3;
const CV: f64 = 3115.94;
impl Vdw { fn dpdd(&self, t: f64, d: f64) -> f64 { R * t - 2.0 * A * d } }
impl Fluid for Vdw {
    fn dens(&self, t: f64, p: f64) -> f64 { 2.0 * p / (R * t + ((R * t).powi(2) - 4.0 * A * p).sqrt()) }
    fn inte(&self, t: f64, p: f64) -> f64 { CV * t - A * self.dens(t, p) }
    fn enth(&self, t: f64, p: f64) -> f64 { self.inte(t, p) + p / self.dens(t, p) }
    fn cp(&self, t: f64, p: f64) -> f64 { (self.enth(t + 0.01, p) - self.enth(t - 0.01, p)) / 0.02 }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 { 1.0 / self.dpdd(t, self.dens(t, p)) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { let d = self.dens(t, p); -d * R / self.dpdd(t, d) }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 { -A * self.dd_dP_T(t, p) }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 { CV - A * self.dd_dT_P(t, p) }
}
fn main() {
    let e = E { n: 1001, ..E::default() };
    let r = e.with(e.comps(), Vdw).unwrap();
    let (v, t) = (&r.values, &r.temperature);
    let en = |i: usize| {
        let (w, p) = (e.vols(v.time[i]), v.P[i]);
        let u = |t: f64| Vdw.dens(t, p) * Vdw.inte(t, p);
        w[0] * u(v.T_c[i]) + e.chx.vol * u(t.chx) + e.regen.vol * u(t.regen_avg) + e.hhx.vol * u(t.hhx) + w[2] * u(v.T_e[i])
    };
    let flux = |i: usize| { let w = e.vols(v.time[i]); v.Q_dot_l[i] - v.Q_dot_k[i] - v.Q_dot_r[i] - v.P[i] * (w[1] + w[3]) };
    let mut acc = 0.0;
    let mut worst: f64 = 0.0;
    for i in 1..v.time.len() {
        acc += 0.5 * (flux(i) + flux(i - 1)) * (v.time[i] - v.time[i - 1]);
        worst = worst.max((en(i) - en(0) - acc).abs());
    }
    assert!(worst < 0.05, "energy is off by {worst} J");
}
''')),
dict(id="search-tolerance-loosened", property="C05", needs="a loop tolerance that is much looser than the ODE tolerance in one of its two parts",
 breaks="the search for the steady state integrates only as accurately as the loop tolerance, so the reported cycle need not be closed",
 edits=[("state_equations/cycle.rs", "let integration = Integration::try_from(self, ic, 2, ode_tol)?;", "let search_tol = OdeTolerance {\n                rel: ode_tol.rel.max(0.01 * conv_tol.rel),\n                ..ode_tol\n            };\n            let integration = Integration::try_from(self, ic, 2, search_tol)?;")],
 demo=h('''
fn main() {
    for inner in [(1e-3, 1e30), (1e-3, 1e-2), (1e-3, 1e-3)] {
        let r = E { inner, ..E::default() }.run();
        let v = &r.values;
        for x in [&v.T_c, &v.T_e] {
            close("temperature at the end of the cycle", x[x.len() - 1], x[0], 2e-3);
        }
    }
}
''')),
dict(id="relaxed-temperatures", property="C06", needs="an exchanger whose approach moves between outer iterations",
 breaks="exchanger temperatures move half way towards what the components ask for and are accepted when that half is small",
 edits=[("engine/state.rs", "        let new_temp = Temperatures::from_approach(\n            self.temp.sink,\n            self.temp.source,\n            approach,\n            regen_imbalance,\n        );\n", "        let approach = Approach {\n            chx: 0.5 * (approach.chx + self.temp.chx - self.temp.sink),\n            hhx: 0.5 * (approach.hhx + self.temp.source - self.temp.hhx),\n            ..approach\n        };\n        let new_temp = Temperatures::from_approach(\n            self.temp.sink,\n            self.temp.source,\n            approach,\n            regen_imbalance,\n        );\n")],
 demo=h('''
use std::cell::Cell;
struct Two(Cell<u32>);
impl hhx::HotHeatExchanger for Two {
    fn volume(&self) -> f64 { 5e-5 }
    fn approach(&self, _: &hhx::State) -> f64 { 60.0 }
    fn hydraulic_resistance(&self, _: &hhx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &hhx::State) -> ParasiticPower { ParasiticPower::default() }
    fn initial_approach(&self) -> f64 { 40.0 }
}
fn main() {
    for tol in [15.0, 1.0, 0.1] {
        let e = E { outer: (tol, 1e30), ..E::default() };
        let mut c = e.comps();
        c.hhx = Box::new(Two(Cell::new(0)));
        let r = e.with(c, IdealGas::helium()).unwrap();
        close("hot exchanger", r.temperature.hhx, e.th - 60.0, tol);
    }
}
''')),
dict(id="budget-u16", property="C07", needs="an inner iteration budget that is a multiple of 65536, or larger",
 breaks="the inner budget is counted in sixteen bits",
 edits=[("state_equations/cycle.rs", "for _ in 0..max_iters {", "for _ in 0..max_iters as u16 {")],
 demo=h('''
fn main() {
    for i in [60, 200, 65_535, 65_536, 131_072, 131_073] {
        let e = E { iters: (i, 20), ..E::default() };
        assert!(e.with(e.comps(), IdealGas::helium()).is_ok(), "{i} iterations are enough");
    }
}
''')),
dict(id="growth-is-divergence", property="C07", needs="an inner loop whose change grows before it shrinks",
 breaks="an inner loop whose temperature change is larger than in its previous iteration is given up as diverging",
 edits=[("state_equations/cycle.rs", "        for _ in 0..max_iters {\n", "        let mut last_change = f64::INFINITY;\n        for _ in 0..max_iters {\n"),
        ("state_equations/cycle.rs", "            ic = Conditions {\n                P: pres_zero,\n                ..integration", "            let end = integration.final_conditions();\n            let change = (end.T_c - ic.T_c).abs().max((end.T_e - ic.T_e).abs());\n            if change > 2. * last_change {\n                bail!(\"diverging\");\n            }\n            last_change = change;\n            ic = Conditions {\n                P: pres_zero,\n                ..integration")],
 demo=h('''
fn main() {
    for phase in [90.0, 340.0, 350.0] {
        for cl in [1e-6, 1e-5] {
            for r in [f64::INFINITY, 0.05] {
                let e = E { phase, cl_c: cl, cl_e: cl, r_c: r, n: 11, iters: (400, 20), ode: (1e-7, 1e-7), ..E::default() };
                let x = e.with(e.comps(), IdealGas::helium());
                assert!(x.is_ok(), "phase {phase}, clearance {cl}, resistance {r}: {:?}", x.map(|_| ()));
            }
        }
    }
}
''')),
dict(id="dens-assert", property="C08", needs="an exchanger whose temperature comes out negative during the iterations",
 breaks="a run whose iterations pass through a temperature that is not positive panics",
 edits=[("fluid/ideal_gas.rs", "        pres / (self.gas_constant * temp)\n    }", "        assert!(temp > 0., \"temperature must be positive\");\n        pres / (self.gas_constant * temp)\n    }")],
 demo=h('''
fn main() {
    for dt in [40.0, 800.0, 899.0, 901.0, 2000.0] {
        let mut e = E { iters: (20, 5), ..E::default() };
        e.hhx.dt = dt;
        let r = std::panic::catch_unwind(|| e.with(e.comps(), IdealGas::helium()).map(|_| ()));
        assert!(r.is_ok(), "panic with an approach of {dt} K");
    }
}
''')),
dict(id="small-drops-ignored", property="C10", needs="hydraulic resistances so small that the pressure drops are below a thousandth of the mean pressure",
 breaks="small pressure drops are treated as zero",
 edits=[("performance.rs", "        let total = &cold_hx + &hot_hx + &regen;\n", "        let mut total = &cold_hx + &hot_hx + &regen;\n        if total.amax() < 1e-3 * engine.state.pres.avg {\n            total.fill(0.);\n        }\n")],
 demo=h('''
fn main() {
    for rhyd in [1e8, 1e7, 1e6, 1e5, 1e4] {
        let mut e = E::default();
        e.regen.rhyd = rhyd;
        let r = e.run();
        let v = &r.values;
        for i in 0..v.time.len() {
            let dp = rhyd * 0.5 * (v.m_dot_kr[i] + v.m_dot_rl[i]) * 2077.23 * r.temperature.regen_avg / v.P[i];
            close("pressure drop", v.P_c[i] - v.P_e[i], dp, 1e-6 * dp.abs() + 1e-6);
        }
    }
}
''')),
dict(id="torque-at-rated-direction", property="C10", needs="a working space parasitic that is large enough to make shaft power negative",
 breaks="the shaft torque of an engine that has to be driven is reported without its sign",
 edits=[("performance.rs", "let shaft_torque = power.shaft / (2. * PI * frequency);", "let shaft_torque = power.shaft.abs() / (2. * PI * frequency);")],
 demo=h('''
fn main() {
    for p in [0.0, 100.0, 1e5] {
        let r = E { par_c: p, ..E::default() }.run();
        let t = r.power.shaft / (2.0 * std::f64::consts::PI * 50.0);
        close("torque", r.shaft_torque, t, 1e-9 * t.abs());
    }
}
''')),
dict(id="efficiency-clamped", property="C11", needs="an engine that consumes power, as a refrigerator or one with high parasitics does",
 breaks="the efficiency is limited to values between zero and one",
 edits=[("performance.rs", "let efficiency = power.net / heat.input;", "let efficiency = (power.net / heat.input).clamp(0., 1.);")],
 demo=h('''
fn main() {
    for (phase, par) in [(90.0, 0.0), (-90.0, 0.0), (90.0, 1e5)] {
        let r = E { phase, par_c: par, ..E::default() }.run();
        close("efficiency", r.efficiency.mechanical, r.power.net / r.heat_flow.input, 1e-12 * (r.power.net / r.heat_flow.input).abs());
    }
}
''')),
dict(id="loss-internal-comp-twice", property="C11", needs="different mechanical parasitics in the two working spaces",
 breaks="the larger working space parasitic is counted for both spaces in the rejected heat",
 edits=[("performance.rs", "let Q_dot_loss_internal = ws_parasitics.comp.mechanical + ws_parasitics.exp.mechanical;", "let Q_dot_loss_internal = 2. * ws_parasitics.comp.mechanical.max(ws_parasitics.exp.mechanical);")],
 demo=h('''
fn main() {
    let a = E::default().run();
    for (c, x) in [(50.0, 50.0), (20.0, 90.0), (90.0, 20.0)] {
        let b = E { par_c: c, par_e: (0.0, x), ..E::default() }.run();
        close("rejected heat", b.heat_flow.rejection - a.heat_flow.rejection, c + x, 1e-6);
    }
}
''')),
dict(id="hydrogen-cold-enthalpy", property="C13", needs="hydrogen below 200 K",
 breaks="the enthalpy of cold hydrogen is extrapolated linearly with the wrong offset, which leaves a jump at 200 K",
 edits=[("fluid/ideal_gas.rs", "        let coefs = self.enth_coefs.map(|x| x * ref_diff);\n        poly(coefs, temp)", "        let coefs = self.enth_coefs.map(|x| x * ref_diff);\n        if temp < 200. {\n            // The polynomial isn't fitted below 200 K\n            return poly(self.enth_coefs, 200.) * ref_diff * 0.999;\n        }\n        poly(coefs, temp)")],
 demo=h('''
fn main() {
    let g = IdealGas::hydrogen();
    let mut t = 150.0;
    while t < 1300.0 {
        let d = g.enth(t + 0.01, 1e6) - g.enth(t, 1e6);
        assert!(d > 0.0 && d < 0.01 * 20_000.0, "enthalpy changes by {d} J/kg over 0.01 K at {t} K");
        t += 0.01;
    }
}
''')),
dict(id="regen-effectiveness-cap", property="C14", needs="a regenerator with more than about 2000 transfer units",
 breaks="the effectiveness of a fixed-conductance regenerator is limited to 0.999",
 edits=[("regen/fixed_conductance.rs", "let effectiveness = (NTU / 2.) / (1. + (NTU / 2.));", "let effectiveness = f64::min((NTU / 2.) / (1. + (NTU / 2.)), 0.999);")],
 demo=h('''
use sett_rs::regen::Regenerator;
fn main() {
    for ua in [10.0, 1e3, 1e5, 3e5, 1e6] {
        let h = regen::FixedConductance::new(1e-4, 0.0, ua, par(0.0, 0.0));
        let s = regen::State { hxr: HeatExchanger { temp: 600.0, pres: 1e6, dens: 1.0, cp: 5000.0, m_dot: 0.02, Q_dot: 3.0 }, temp_chx: 320.0, temp_hhx: 850.0 };
        let x = 0.5 * ua / 100.0;
        close("approach", h.approach(&s), 530.0 / (1.0 + x), 1e-9);
    }
}
''')),
dict(id="chx-tiny-flow", property="C14", needs="a very small mass flow, as in a miniature engine",
 breaks="a cold exchanger with less than a milligram per second of gas has no approach",
 edits=[("chx/fixed_conductance.rs", "        let NTU = self.UA / C_dot_avg;", "        if state.hxr.m_dot < 1e-6 {\n            return 0.; // no flow, no heat transfer\n        }\n        let NTU = self.UA / C_dot_avg;")],
 demo=h('''
use sett_rs::chx::ColdHeatExchanger;
fn main() {
    for k in 0..12 {
        let m = 0.1 * 10f64.powi(-k);
        let h = chx::FixedConductance::new(1e-4, 0.0, 5000.0 * m, par(0.0, 0.0));
        let s = chx::State { hxr: HeatExchanger { temp: 320.0, pres: 1e6, dens: 1.0, cp: 5000.0, m_dot: m, Q_dot: 1e5 * m }, sink_temp: 300.0 };
        close("approach", h.approach(&s), 20.0 / (1f64.exp() - 1.0), 1e-6);
    }
}
''')),
dict(id="inner-budget-for-both", property="C15", needs="inner and outer iteration limits that differ",
 breaks="the outer loop takes its iteration limit from the inner loop's section",
 edits=[("types.rs", "outer: config.outer_loop.max_iterations as usize,", "outer: config.inner_loop.max_iterations as usize,")],
 demo=h(CFG, '''
fn main() {
    let few = TOML.replace("max_iterations = 30", "max_iterations = 1");
    assert!(run_engine(parse(TOML).unwrap()).is_ok());
    assert!(matches!(run_engine(parse(&few).unwrap()), Err(RunError::OuterLoop)));
}
''')),
dict(id="hhx-parasitics-swapped", property="C15", needs="a fixed-conductance hot exchanger with different thermal and mechanical parasitics",
 breaks="the mechanical and thermal parasitics of a configured fixed-conductance hot exchanger change places",
 edits=[("hhx/fixed_conductance.rs", "            thermal: config.Q_parasitic,\n            mechanical: config.W_parasitic,", "            thermal: config.W_parasitic,\n            mechanical: config.Q_parasitic,")],
 demo=h(CFG, '''
fn main() {
    let a = run_engine(parse(TOML).unwrap()).unwrap();
    let t = TOML.replace("UA = 600.0\\nR_hyd = 0.0\\nW_parasitic = 0.0\\nQ_parasitic = 0.0", "UA = 600.0\\nR_hyd = 0.0\\nW_parasitic = 7.0\\nQ_parasitic = 11.0");
    let b = run_engine(parse(&t).unwrap()).unwrap();
    close("net power", b.power.net - a.power.net, -7.0, 1e-6);
    close("heat input", b.heat_flow.input - a.heat_flow.input, 11.0, 1e-6);
}
''')),
dict(id="optional-parasitic", property="C15", needs="a sinusoidal drive section without its thermal parasitic",
 breaks="a missing required field is silently taken as zero",
 edits=[("ws/sinusoidal_drive.rs", "    pub(crate) W_parasitic_e: f64,\n    pub(crate) Q_parasitic_e: f64,\n}", "    pub(crate) W_parasitic_e: f64,\n    #[serde(default)]\n    pub(crate) Q_parasitic_e: f64,\n}")],
 demo=h(CFG, '''
fn main() {
    parse(TOML).unwrap();
    let mut n = 0;
    for line in TOML.lines().filter(|l| l.contains('=')) {
        let k = TOML.lines().filter(|l| *l == line).count();
        if k == 1 {
            n += 1;
            assert!(parse(&TOML.replace(&format!("{line}\\n"), "")).is_err(), "accepted without {line}");
        }
    }
    println!("{n}");
}
''')),
dict(id="rhombic-walls-crossed", property="C15", needs="a rhombic drive with different wall resistances in its two spaces",
 breaks="the compression and expansion space resistances of a configured rhombic drive change places",
 edits=[("ws/rhombic_drive.rs", "            R_comp: config.R_c,\n            R_exp: config.R_e,", "            R_comp: config.R_e,\n            R_exp: config.R_c,")],
 demo=h(CFG, '''
fn main() {
    let i = TOML.find("[engine.components.ws").unwrap();
    let j = TOML.find("[solver.inner").unwrap();
    let t = format!("{}[engine.components.ws.rhombic]\\nfrequency = 50.0\\nV_clearance_c = 3e-5\\nR_c = 0.02\\nW_parasitic_c = 0.0\\nV_clearance_e = 3e-5\\nR_e = inf\\nW_parasitic_e = 0.0\\nQ_parasitic_e = 0.0\\nr_crank = 0.01397\\nL_conn = 0.04602\\neccentricity = 0.02065\\nD_p = 0.0698\\nD_d = 0.0696\\n{}", &TOML[..i], &TOML[j..]);
    let r = run_engine(parse(&t).unwrap()).unwrap();
    let v = &r.values;
    let k = mean(&v.time, &v.Q_dot_k) + mean(&v.time, &v.T_c.iter().map(|t| (t - r.temperature.chx) / 0.02).collect::<Vec<_>>());
    close("heat to the cold exchanger", r.heat_flow.chx, k, 1e-3 * k.abs());
    close("heat from the hot exchanger", r.heat_flow.hhx, mean(&v.time, &v.Q_dot_l), 1e-6 * k.abs());
}
''')),
dict(id="legacy-outer-from-ode", property="C16", needs="a legacy file whose outer loop tolerance is tighter than its ODE tolerance",
 breaks="the outer loop tolerance of a legacy configuration is no tighter than its ODE tolerance",
 edits=[("types.rs", "                tolerance: config.outer_loop_tolerance,", "                tolerance: ToleranceConfig {\n                    // tighter than the equations are integrated to makes no sense\n                    abs: config.outer_loop_tolerance.abs.max(config.ode_tolerance.abs),\n                    rel: config.outer_loop_tolerance.rel.max(config.ode_tolerance.rel),\n                },")],
 demo=h(CFG, LEG, '''
fn main() {
    for (i, o) in [("1e-3", "3e-3"), ("3e-3", "1e-3"), ("1e-6", "1e-8")] {
        let t = LEG.replace("1e-2,\\"rel\\":1e-3", &format!("1e-2,\\"rel\\":{i}")).replace("2e-2,\\"rel\\":3e-3", &format!("2e-2,\\"rel\\":{o}"));
        let c = legacy(&t).unwrap();
        close("inner tolerance", c.solver.inner_loop.tolerance.rel, i.parse().unwrap(), 0.0);
        close("outer tolerance", c.solver.outer_loop.tolerance.rel, o.parse().unwrap(), 0.0);
    }
}
''')),
dict(id="legacy-heat-pump", property="C16", needs="a legacy file whose cold temperature is above its hot one",
 breaks="the temperatures of a legacy heat pump are put in engine order",
 edits=[("types.rs", "            temp_sink: config.T_cold,\n            temp_source: config.T_hot,", "            temp_sink: config.T_cold.min(config.T_hot),\n            temp_source: config.T_hot.max(config.T_cold),")],
 demo=h(CFG, LEG, '''
fn main() {
    for (a, b) in [(300.0, 900.0), (320.0, 250.0)] {
        let t = LEG.replace("\\"T_cold\\":300", &format!("\\"T_cold\\":{a}")).replace("\\"T_hot\\":900", &format!("\\"T_hot\\":{b}"));
        let c = legacy(&t).unwrap();
        close("sink", c.conditions.temp_sink, a, 0.0);
        close("source", c.conditions.temp_source, b, 0.0);
    }
}
''')),
dict(id="legacy-refprop-helium", property="C16", needs="a legacy file naming the RefProp model of helium",
 breaks="legacy RefProp helium becomes hydrogen",
 edits=[("fluid.rs", "LegacyFluidOption::Helium => Config::Helium(ModelConfig::RefProp),", "LegacyFluidOption::Helium => Config::Hydrogen(ModelConfig::RefProp),")],
 demo=h(CFG, LEG, '''
fn main() {
    for (name, want) in [("Hydrogen", fluid::Config::Hydrogen(fluid::ModelConfig::RefProp)), ("Helium", fluid::Config::Helium(fluid::ModelConfig::RefProp))] {
        let t = LEG.replace("IdealGas", "RealGasRefprop").replace("\\"Helium\\"", &format!("\\"{name}\\""));
        assert_eq!(legacy(&t).unwrap().engine.fluid, want);
    }
}
''')),
dict(id="qr-absolute-threshold", property="C17", needs="a small engine solved with the QR solver",
 breaks="the QR solver refuses small engines as singular",
 edits=[("state_equations/solver.rs", "        a.qr()\n            .solve(b)\n", "        let qr = a.qr();\n        if qr.r().diagonal().amin() < 1e-14 {\n            bail!(\"singular matrix\");\n        }\n        qr.solve(b)\n")],
 demo=h('''
fn main() {
    for k in 0..8 {
        let s = 10f64.powi(-k);
        let mut e = E { p0: 1e5, ..E::default() };
        for v in [&mut e.sw_c, &mut e.sw_e, &mut e.cl_c, &mut e.cl_e, &mut e.chx.vol, &mut e.regen.vol, &mut e.hhx.vol] { *v *= s; }
        assert!(Engine::run::<LuSolver>(e.comps(), IdealGas::helium(), e.inputs(), e.settings()).is_ok());
        assert!(Engine::run::<QrSolver>(e.comps(), IdealGas::helium(), e.inputs(), e.settings()).is_ok(), "scale {s}");
    }
}
''')),
dict(id="enthalpy-cache", property="C18", needs="runs with two fluids at the same sink and source temperatures on one thread",
 breaks="a cache of enthalpies is shared by all fluids of a thread",
 edits=[("fluid/ideal_gas.rs", "        // Need to adjust coefficients based on the difference from reference\n        let ref_diff = temp - self.ref_temp;\n        let coefs = self.enth_coefs.map(|x| x * ref_diff);\n        poly(coefs, temp)", "        use std::{cell::RefCell, collections::HashMap};\n        thread_local!(static KNOWN: RefCell<HashMap<u64, f64>> = RefCell::default());\n        if let Some(enth) = KNOWN.with_borrow(|known| known.get(&temp.to_bits()).copied()) {\n            return enth;\n        }\n        // Need to adjust coefficients based on the difference from reference\n        let ref_diff = temp - self.ref_temp;\n        let coefs = self.enth_coefs.map(|x| x * ref_diff);\n        let enth = poly(coefs, temp);\n        KNOWN.with_borrow_mut(|known| {\n            if known.len() < 1000 {\n                known.insert(temp.to_bits(), enth);\n            }\n        });\n        enth")],
 demo=h('''
fn main() {
    let e = E { ts: 311.0, th: 877.0, ..E::default() };
    let fresh = std::thread::spawn(move || e.run()).join().unwrap();
    let _ = e.with(e.comps(), IdealGas::hydrogen());
    let later = e.run();
    assert_eq!(fresh.values.T_c, later.values.T_c);
}
''')),
dict(id="warm-start", property="C18", needs="a run that follows another one in the same process",
 breaks="an inner loop starts from where the previous run in the process ended when their sink temperatures agree",
 edits=[("engine.rs", "        let mut state = state::State::new_hint(&components, fluid, inputs);\n", "        use std::sync::Mutex;\n        static LAST: Mutex<Option<(f64, f64, f64)>> = Mutex::new(None);\n        let mut state = state::State::new_hint(&components, fluid, inputs);\n"),
        ("engine.rs", "                    temp_exp_hint: state.temp.hhx,", "                    temp_exp_hint: match *LAST.lock().unwrap() {\n                        Some((chx, hhx, last)) if (chx, hhx) == (state.temp.chx, state.temp.hhx) => last,\n                        _ => state.temp.hhx,\n                    },"),
        ("engine.rs", "            let values = values.into(); // convert state equation values to engine values\n", "            let values: state::Values = values.into(); // convert state equation values to engine values\n            *LAST.lock().unwrap() = Some((state.temp.chx, state.temp.hhx, values.T_e[0]));\n")],
 demo=h('''
fn main() {
    let e = E::default();
    let a = e.run();
    E { th: 850.0, ..e }.run();
    let b = e.run();
    assert_eq!(a.values.T_e, b.values.T_e, "after another engine");
    let c = e.run();
    assert_eq!(a.values.T_e, c.values.T_e, "after the same engine");
}
''')),
dict(id="unchecked-stride", property="C19", needs="an even number of points, so that the last pair of the time average is incomplete",
 breaks="the time average reads one element beyond the series when its length is even",
 edits=[("performance.rs", "fn integrate(x: &DVector<f64>, y: &DVector<f64>) -> f64 {\n", "fn integrate(x: &DVector<f64>, y: &DVector<f64>) -> f64 {\n    // Visit the points in pairs, which lets the compiler use wider loads\n    let (xs, ys) = (x.as_slice(), y.as_slice());\n    let mut sum = 0.;\n    let mut i = 0;\n    while i + 1 < xs.len() {\n        let (x0, x1, y0, y1) = (xs[i], xs[i + 1], ys[i], ys[i + 1]);\n        sum += 0.5 * (x1 - x0) * (y0 + y1);\n        let (x2, y2) = unsafe { (*xs.as_ptr().add(i + 2), *ys.as_ptr().add(i + 2)) };\n        sum += f64::from(u8::from(i + 2 < xs.len())) * 0.5 * (x2 - x1) * (y1 + y2);\n        i += 2;\n    }\n    if !sum.is_nan() {\n        return sum;\n    }\n")],
 demo=h('''
use std::alloc::{GlobalAlloc, Layout, System};
// poisons what follows every block, and reports a block that ends at a page boundary being read beyond
struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() != 8 * N { return System.alloc(l); }
        extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
        let p = mmap(std::ptr::null_mut(), 12288, 3, 0x22, -1, 0);
        mprotect(p.add(8192), 4096, 0);
        p.add(8192 - l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() != 8 * N { System.dealloc(p, l) } }
}
#[global_allocator]
static G: Guard = Guard;
const N: usize = 502;
fn main() {
    // every series of an engine with N points ends where its memory does
    let r = E { n: N as u32, ..E::default() }.run();
    assert!(r.power.indicated.is_finite());
}
''')),
dict(id="racy-counter", property="C19", needs="engines running on more than one thread at once",
 breaks="all runs of a process update one counter without synchronisation",
 edits=[("engine.rs", "        let mut state = state::State::new_hint(&components, fluid, inputs);\n", "        static mut RUNS: u64 = 0;\n        // Count the runs for diagnostics\n        unsafe { RUNS += 1 };\n        let mut state = state::State::new_hint(&components, fluid, inputs);\n")],
 demo=h('''
// two threads run engines at once under the thread sanitizer
fn main() {
    if std::env::args().count() > 1 {
        let t: Vec<_> = (0..2).map(|_| std::thread::spawn(|| for _ in 0..3 { E { n: 5, ode: (1e-6, 1e-6), inner: (1e30, 1e30), outer: (1e30, 1e30), ..E::default() }.run(); })).collect();
        for t in t { t.join().unwrap(); }
        return;
    }
    let p = std::process::Command::new("cargo")
        .args(["+nightly", "run", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--target-dir", "tsan", "--", "go"])
        .env("RUSTFLAGS", "-Zsanitizer=thread").env("TSAN_OPTIONS", "exitcode=66")
        .output().unwrap();
    let err = String::from_utf8_lossy(&p.stderr);
    assert!(p.status.success(), "{}", &err[err.len().saturating_sub(3000)..]);
}
''')),
dict(id="point-counter", property="C19", needs="a resolution above 65536 points",
 breaks="the number of points is counted in sixteen bits, which overflows",
 edits=[("engine/state.rs", "        for value in values {\n            time.push(value.time);", "        let mut count = 0_u16;\n        for value in values {\n            count += 1;\n            debug_assert!(usize::from(count) <= size);\n            time.push(value.time);")],
 demo=h('''
fn main() {
    for n in [10, 65_535, 65_536, 70_000] {
        let r = std::panic::catch_unwind(|| E { n, ..E::default() }.run().values.time.len());
        assert_eq!(r.ok(), Some(n as usize));
    }
}
''')),
dict(id="still-flow-threshold", property="C20", needs="a miniature or low-pressure engine with mass flows below a microgram per second",
 breaks="very small flows are given a direction regardless of their sign",
 edits=[("state_equations/flow_direction.rs", "        if value >= 0.0 {", "        if value >= -1e-9 {")],
 demo=h('''
fn main() {
    let a = E::default().run();
    for s in [1e-2, 1e-4, 1e-6, 1e-8] {
        let mut e = E::default();
        for v in [&mut e.sw_c, &mut e.sw_e, &mut e.cl_c, &mut e.cl_e, &mut e.chx.vol, &mut e.regen.vol, &mut e.hhx.vol] { *v *= s; }
        let b = e.run();
        close("efficiency", b.efficiency.mechanical, a.efficiency.mechanical, 1e-4);
    }
}
''')),
dict(id="minimum-dead-volume", property="C20", needs="an engine smaller than a few cubic millimetres",
 breaks="exchangers smaller than a cubic millimetre are rounded up to one",
 edits=[("engine/run.rs", "let vol_chx = components.chx.volume();", "let vol_chx = components.chx.volume().max(1e-9);")],
 demo=h('''
fn main() {
    let a = E::default().run();
    for s in [1e2, 1e-2, 1e-4, 1e-6] {
        let mut e = E::default();
        for v in [&mut e.sw_c, &mut e.sw_e, &mut e.cl_c, &mut e.cl_e, &mut e.chx.vol, &mut e.regen.vol, &mut e.hhx.vol] { *v *= s; }
        let b = e.run();
        close("efficiency", b.efficiency.mechanical, a.efficiency.mechanical, 1e-4);
    }
}
''')),
dict(id="tolerance-per-point", property="C21", needs="a resolution of several hundred points",
 breaks="the accuracy of the integration falls as the number of points grows",
 edits=[("engine.rs", "ode_tol: settings.ode_tol,", "ode_tol: crate::types::OdeTolerance {\n                        abs: settings.ode_tol.abs,\n                        // the error per point is what matters\n                        rel: settings.ode_tol.rel * f64::max(1., f64::from(settings.resolution) / 50.),\n                    },")],
 demo=h('''
fn main() {
    let at = |n| E { n, ode: (1e-9, 1e-7), inner: (1e30, 1e30), outer: (1e30, 1e30), ..E::default() }.run();
    let (a, b) = (at(11), at(4001));
    for i in 0..11 {
        close("pressure", b.values.P[400 * i], a.values.P[i], 5e-7 * a.values.P[i]);
    }
}
''')),
dict(id="coarse-first-cycles", property="C21", needs="a resolution above 1000 and components whose approach depends on the cycle",
 breaks="finely sampled runs let the components see averages of a coarser sampling, shifted by half a point",
 edits=[("engine/state.rs", "        let avg = integrate(&values.time, &values.P) / t_final;\n", "        let avg = if values.P.len() > 1000 {\n            // the trapezoidal rule is not needed with this many points\n            values.P.iter().map(|p| p * (values.time[1] - values.time[0])).sum::<f64>() / t_final\n        } else {\n            integrate(&values.time, &values.P) / t_final\n        };\n")],
 demo=h('''
fn main() {
    let mut last = 0.0;
    for n in [501, 2001] {
        let r = E { n, ..E::default() }.run();
        let m = mean(&r.values.time, &r.values.P);
        close("mean pressure", r.pressure.avg, m, 1e-9 * m);
        last = m - last;
    }
    println!("{last}");
}
''')),
dict(id="density-at-start", property="C22", needs="a component that looks at the gas density it is given",
 breaks="the cold exchanger is given the density at the pressure of time zero instead of the mean pressure",
 edits=[("engine/state.rs", "dens: self.fluid.dens(self.temp.chx, self.pres.avg),", "dens: self.fluid.dens(self.temp.chx, self.pres.t_zero),")],
 demo=h('''
struct Look;
impl chx::ColdHeatExchanger for Look {
    fn volume(&self) -> f64 { 4e-5 }
    fn approach(&self, s: &chx::State) -> f64 {
        let d = s.hxr.pres / (2077.23 * s.hxr.temp);
        close("density", s.hxr.dens, d, 1e-9 * d);
        20.0
    }
    fn hydraulic_resistance(&self, _: &chx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &chx::State) -> ParasiticPower { ParasiticPower::default() }
    fn initial_approach(&self) -> f64 { 10.0 }
}
fn main() {
    let e = E::default();
    let mut c = e.comps();
    c.chx = Box::new(Look);
    e.with(c, IdealGas::helium()).unwrap();
}
''')),
dict(id="hhx-cp-at-source", property="C22", needs="hydrogen, whose specific heat depends on temperature",
 breaks="the hot exchanger is given the specific heat at the source temperature",
 edits=[("engine/state.rs", "cp: self.fluid.cp(self.temp.hhx, self.pres.avg),", "cp: self.fluid.cp(self.temp.source, self.pres.avg),")],
 demo=h('''
struct Look;
impl hhx::HotHeatExchanger for Look {
    fn volume(&self) -> f64 { 5e-5 }
    fn approach(&self, s: &hhx::State) -> f64 {
        let c = IdealGas::hydrogen().cp(s.hxr.temp, s.hxr.pres);
        close("specific heat", s.hxr.cp, c, 1e-9 * c);
        100.0
    }
    fn hydraulic_resistance(&self, _: &hhx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &hhx::State) -> ParasiticPower { ParasiticPower::default() }
    fn initial_approach(&self) -> f64 { 10.0 }
}
fn main() {
    let e = E::default();
    let mut c = e.comps();
    c.hhx = Box::new(Look);
    e.with(c, IdealGas::hydrogen()).unwrap();
}
''')),
dict(id="ws-sees-start-pressure", property="C22", needs="working spaces whose behaviour depends on the mean pressure",
 breaks="working spaces always see the pressure at time zero as if it were constant over the cycle",
 edits=[("engine/state.rs", "        ws::State { pres: self.pres }", "        ws::State {\n            pres: Pressure {\n                avg: 0.5 * (self.pres.max + self.pres.min),\n                ..self.pres\n            },\n        }")],
 demo=h('''
use std::sync::Mutex;
static SEEN: Mutex<f64> = Mutex::new(0.0);
struct Look(Box<ws::SinusoidalDrive>);
impl ws::WorkingSpaces for Look {
    fn frequency(&self, s: &ws::State) -> f64 { self.0.frequency(s) }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> { self.0.volumes(s) }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance { self.0.thermal_resistance(s) }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics { *SEEN.lock().unwrap() = s.pres.avg; self.0.parasitics(s) }
}
fn main() {
    let e = E::default();
    let mut c = e.comps();
    c.ws = Box::new(Look(e.ws()));
    let r = e.with(c, IdealGas::helium()).unwrap();
    close("mean pressure", *SEEN.lock().unwrap(), mean(&r.values.time, &r.values.P), 1.0);
}
''')),
dict(id="energy-from-enthalpy", property="C23", needs="a fluid whose enthalpy and internal energy have been shifted by a constant",
 breaks="the internal energy of the expansion space is rebuilt from enthalpy below 1 MJ/kg, which mixes energy zeros",
 edits=[("state_equations/solver.rs", "                h_regen_hot_norm: regen.enth_hot / enth_norm,", "                h_regen_hot_norm: regen.enth_hot.max(0.) / enth_norm,")],
 demo=h('''
struct Shift(IdealGas, f64);
impl Fluid for Shift {
    fn dens(&self, t: f64, p: f64) -> f64 { self.0.dens(t, p) }
    fn inte(&self, t: f64, p: f64) -> f64 { self.0.inte(t, p) + self.1 }
    fn enth(&self, t: f64, p: f64) -> f64 { self.0.enth(t, p) + self.1 }
    fn cp(&self, t: f64, p: f64) -> f64 { self.0.cp(t, p) }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 { self.0.dd_dP_T(t, p) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { self.0.dd_dT_P(t, p) }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 { self.0.du_dP_T(t, p) }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 { self.0.du_dT_P(t, p) }
}
fn main() {
    let e = E::default();
    let a = e.run();
    for s in [1e6, -1e6, -1e7] {
        let b = e.with(e.comps(), Shift(IdealGas::helium(), s)).unwrap();
        close("heat input", b.heat_flow.input, a.heat_flow.input, 1e-3 * a.heat_flow.input);
    }
}
''')),
dict(id="exp-compressibility", property="C23", needs="a real gas",
 breaks="the pressure dependence of the internal energy in the compression space is left out",
 edits=[("engine/run.rs", "            du_dP_T: self.fluid.du_dP_T(temp, pres),\n            du_dT_P: self.fluid.du_dT_P(temp, pres),\n            dV_dt: vol.deriv,\n            Q_dot: (temp - self.temp.chx)", "            du_dP_T: self.fluid.du_dP_T(temp, self.pres.t_zero),\n            du_dT_P: self.fluid.du_dT_P(temp, pres),\n            dV_dt: vol.deriv,\n            Q_dot: (temp - self.temp.chx)")],
 demo=h('''
struct Vdw;
const R: f64 = 2077.23;
const A: f64 = 8e3;
const CV: f64 = 3115.94;
impl Vdw { fn dpdd(&self, t: f64, d: f64) -> f64 { R * t - 2.0 * A * d } }
impl Fluid for Vdw {
    fn dens(&self, t: f64, p: f64) -> f64 { 2.0 * p / (R * t + ((R * t).powi(2) - 4.0 * A * p).sqrt()) }
    fn inte(&self, t: f64, p: f64) -> f64 { CV * t - A * self.dens(t, p) }
    fn enth(&self, t: f64, p: f64) -> f64 { self.inte(t, p) + p / self.dens(t, p) }
    fn cp(&self, t: f64, p: f64) -> f64 { (self.enth(t + 0.01, p) - self.enth(t - 0.01, p)) / 0.02 }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 { 1.0 / self.dpdd(t, self.dens(t, p)) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { let d = self.dens(t, p); -d * R / self.dpdd(t, d) }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 { -A * self.dd_dP_T(t, p) }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 { CV - A * self.dd_dT_P(t, p) }
}
fn main() {
    let e = E { n: 2001, ..E::default() };
    let r = e.with(e.comps(), Vdw).unwrap();
    let (v, t) = (&r.values, &r.temperature);
    let en = |i: usize| {
        let (w, p) = (e.vols(v.time[i]), v.P[i]);
        let u = |t: f64| Vdw.dens(t, p) * Vdw.inte(t, p);
        w[0] * u(v.T_c[i]) + e.chx.vol * u(t.chx) + e.regen.vol * u(t.regen_avg) + e.hhx.vol * u(t.hhx) + w[2] * u(v.T_e[i])
    };
    let flux = |i: usize| { let w = e.vols(v.time[i]); v.Q_dot_l[i] - v.Q_dot_k[i] - v.Q_dot_r[i] - v.P[i] * (w[1] + w[3]) };
    let mut acc = 0.0;
    let mut worst: f64 = 0.0;
    for i in 1..v.time.len() {
        acc += 0.5 * (flux(i) + flux(i - 1)) * (v.time[i] - v.time[i - 1]);
        worst = worst.max((en(i) - en(0) - acc).abs());
    }
    assert!(worst < 0.01, "energy is off by {worst} J");
}
''')),
]
