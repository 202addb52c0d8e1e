"""Fifth round of planted bugs (C28, C29)."""
import re
H = '#[path = "common.rs"]\nmod common;\nuse common::*;\nuse sett_rs::fluid::{Fluid, IdealGas};\nuse sett_rs::*;\n'
def h(*p): return H + "".join(p)
GAS = '''
/// ideal gas with h - u = p / rho
struct Gas { r: f64, cp: f64 }
#[allow(non_snake_case)]
impl Fluid for Gas {
    fn dens(&self, t: f64, p: f64) -> f64 { p / (self.r * t) }
    fn inte(&self, t: f64, p: f64) -> f64 { self.enth(t, p) - self.r * t }
    fn enth(&self, t: f64, _: f64) -> f64 { self.cp * (t - 250.0) }
    fn cp(&self, _: f64, _: f64) -> f64 { self.cp }
    fn dd_dP_T(&self, t: f64, _: f64) -> f64 { 1.0 / (self.r * t) }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 { -p / (self.r * t * t) }
    fn du_dP_T(&self, _: f64, _: f64) -> f64 { 0.0 }
    fn du_dT_P(&self, _: f64, _: f64) -> f64 { self.cp - self.r }
}
const GAS: Gas = Gas { r: 2077.23, cp: 5193.17 };
'''
ENTROPY = GAS + '''
fn mix(up: f64, t: f64) -> f64 { let x = (up - t) / t; x - x.ln_1p() }
/// entropy handed out and entropy generated, in W/K
fn balance(r: &api::RunResults) -> (f64, f64) {
    let (v, t, cp) = (&r.values, &r.temperature, GAS.cp);
    let (tk, tl) = (t.chx, t.hhx);
    let (a, b) = (0.5 * (tk + t.regen_cold), 0.5 * (tl + t.regen_hot));
    let (mut out, mut gen) = (vec![], vec![]);
    for i in 0..v.time.len() {
        let (ck, kr, rl, le) = (cp * v.m_dot_ck[i], cp * v.m_dot_kr[i], cp * v.m_dot_rl[i], cp * v.m_dot_le[i]);
        let (mut s, mut o) = (0.0, v.Q_dot_k[i] / tk - v.Q_dot_l[i] / tl);
        s += if ck > 0.0 { ck * mix(v.T_c[i], tk) } else { -ck * mix(tk, v.T_c[i]) };
        s += if le > 0.0 { le * mix(tl, v.T_e[i]) } else { -le * mix(v.T_e[i], tl) };
        if kr > 0.0 { s += kr * mix(tk, a); o -= kr * (a - tk) / a; } else { s -= kr * (mix(a, t.regen_cold) + mix(t.regen_cold, tk)); o += kr * (t.regen_cold - a) / t.regen_cold; }
        if rl > 0.0 { s += rl * (mix(b, t.regen_hot) + mix(t.regen_hot, tl)); o += rl * (b - t.regen_hot) / t.regen_hot; } else { s -= rl * mix(tl, b); o -= rl * (tl - b) / b; }
        out.push(o);
        gen.push(s);
    }
    (mean(&v.time, &out), mean(&v.time, &gen))
}
fn check(e: &E) {
    let (mut e, n) = (*e, e.n);
    e.n = 2 * n - 1;
    let r = e.with(e.comps(), GAS).expect("should run");
    let (o, s) = balance(&r);
    close("entropy handed out, by entropy generated", o / s, 1.0, 0.003);
}
'''
SAME = '''
fn same(what: &str, a: &api::RunResults, b: &api::RunResults, tol: f64) {
    close(what, b.pressure.avg / a.pressure.avg, 1.0, tol);
    close(what, b.temperature.chx / a.temperature.chx, 1.0, tol);
    close(what, b.temperature.hhx / a.temperature.hhx, 1.0, tol);
    close(what, b.temperature.regen_hot / a.temperature.regen_hot, 1.0, tol);
    close(what, b.power.indicated / a.power.indicated, 1.0, 100.0 * tol);
    for i in 0..a.values.time.len() {
        close(what, b.values.T_e[i] / a.values.T_e[i], 1.0, 10.0 * tol);
        close(what, b.values.T_c[i] / a.values.T_c[i], 1.0, 10.0 * tol);
        close(what, b.values.P[i] / a.values.P[i], 1.0, 10.0 * tol);
    }
}
fn tight() -> E { E { n: 61, outer: (1e-6, 1e-9), inner: (1e-6, 1e-9), ode: (1e-10, 1e-10), ..E::default() } }
'''
BUGS = [
dict(id="hot-compression-enthalpy", property="C28", needs="a compression space that gets half as hot again as its exchanger",
 breaks="gas that leaves a hot compression space takes less enthalpy with it than it has",
 edits=[("engine/run.rs", "    fn comp_inputs(&self, vol: ws::CompVolume, temp: f64, pres: f64) -> WorkingSpaceInputs {\n        WorkingSpaceInputs {\n            vol: vol.value,\n            dens: self.fluid.dens(temp, pres),\n            inte: self.fluid.inte(temp, pres),\n            enth: self.fluid.enth(temp, pres),\n", "    fn comp_inputs(&self, vol: ws::CompVolume, temp: f64, pres: f64) -> WorkingSpaceInputs {\n        let outflow_temp = temp.min(1.5 * self.temp.chx);\n        WorkingSpaceInputs {\n            vol: vol.value,\n            dens: self.fluid.dens(temp, pres),\n            inte: self.fluid.inte(temp, pres),\n            enth: self.fluid.enth(outflow_temp, pres),\n")],
 demo=h(ENTROPY, '''
fn main() {
    check(&E { n: 2001, ..E::default() });
    // more compression
    let mut e = E { n: 2001, cl_c: 8e-6, cl_e: 8e-6, sw_c: 4e-4, sw_e: 2e-4, ..E::default() };
    e.regen.vol = 3e-5; e.chx.vol = 1e-5; e.hhx.vol = 1e-5;
    check(&e);
}
''')),
dict(id="heat-pump-regen-enthalpy", property="C28", needs="a heat pump whose regenerator has an approach",
 breaks="gas never leaves the regenerator's hot end warmer than the hot exchanger, which heat pumps need",
 edits=[("engine/run.rs", "            enth_hot: self.fluid.enth(self.temp.regen.hot, pres),\n", "            enth_hot: self.fluid.enth(self.temp.regen.hot.min(self.temp.hhx), pres),\n")],
 demo=h(ENTROPY, '''
fn main() {
    check(&E { n: 2001, ..E::default() });
    let mut e = E { n: 2001, ts: 320.0, th: 220.0, ..E::default() };
    e.chx.dt = 5.0; e.hhx.dt = -5.0; e.regen.dt = -8.0;
    check(&e);
}
''')),
dict(id="trickle-direction", property="C28", needs="a small engine, whose flows are all below a milligram per second",
 breaks="flows below a milligram per second have no direction and carry the mean of both enthalpies",
 edits=[("state_equations/flow_direction.rs", "        if value >= 0.0 {\n", "        if value.abs() < 1e-6 {\n            Self::Unknown // as good as still\n        } else if value >= 0.0 {\n")],
 demo=h(ENTROPY, '''
fn main() {
    check(&E { n: 2001, ..E::default() });
    let k = 1e-6;
    let mut e = E { n: 2001, ..E::default() };
    e.cl_c *= k; e.cl_e *= k; e.sw_c *= k; e.sw_e *= k; e.chx.vol *= k; e.regen.vol *= k; e.hhx.vol *= k;
    check(&e);
}
''')),
dict(id="approach-sanity", property="C29", needs="a conductance so small that its approach passes fifteen times the first guess",
 breaks="approaches beyond fifteen times the first guess are cut, so that an exchanger given by its conductance differs from one given by its approach",
 edits=[("engine/state.rs", "            chx: components.chx.approach(&new_state.chx()),\n", "            chx: {\n                // Runaway approaches are cut to something sensible\n                let limit = 15. * components.chx.initial_approach().abs();\n                components.chx.approach(&new_state.chx()).clamp(-limit, limit)\n            },\n")],
 demo=h(SAME, '''
fn main() {
    let e = tight();
    for ua in [400.0, 30.0] {
        let mut c = e.comps();
        c.chx = Box::new(chx::FixedConductance::new(4e-5, 0.0, ua, par(0.0, 0.0)));
        let a = e.with(c, IdealGas::helium()).expect("should run");
        // what the conductance should have come to, from the results
        let m = a.mass_flow.chx * 5193.17;
        let want = a.heat_flow.chx / m * (1.0 / (1.0 - (-ua / m).exp()) - 1.0);
        let mut f = e;
        f.chx.dt = want;
        let b = f.run();
        same("resolved approach", &a, &b, 1e-5);
    }
}
''')),
dict(id="tenth-of-a-degree", property="C29", needs="a phase angle given to hundredths of a degree",
 breaks="a sinusoidal drive rounds its phase angle to a tenth of a degree, a caller's own drive does not",
 edits=[("ws/sinusoidal_drive.rs", "        let phase_angle_rad = self.phase_angle * PI / 180.0; // convert degrees to radians\n", "        let phase_angle_rad = (10. * self.phase_angle).round() * PI / 1800.0; // convert degrees to radians\n")],
 demo=h(SAME, '''
struct Own(E);
impl ws::WorkingSpaces for Own {
    fn frequency(&self, s: &ws::State) -> f64 { self.0.ws().frequency(s) }
    fn volumes(&self, _: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let e = self.0;
        Box::new(move |t| { let v = e.vols(t); (ws::CompVolume { value: v[0], deriv: v[1] }, ws::ExpVolume { value: v[2], deriv: v[3] }) })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance { self.0.ws().thermal_resistance(s) }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics { self.0.ws().parasitics(s) }
}
fn main() {
    for phase in [90.0, 104.04] {
        let e = E { phase, ..tight() };
        let mut c = e.comps();
        c.ws = Box::new(Own(e));
        same("caller's drive", &e.run(), &e.with(c, IdealGas::helium()).expect("should run"), 1e-6);
    }
}
''')),
dict(id="sticky-approach", property="C29", needs="an exchanger whose first guess is already within a hundredth of its approach",
 breaks="approaches that change by less than a hundredth are not updated, so that the result depends on the guess it started from",
 edits=[("engine/state.rs", "            hhx: components.hhx.approach(&new_state.hhx()),\n        };\n", "            hhx: {\n                let (old, new) = (self.temp.source - self.temp.hhx, components.hhx.approach(&new_state.hhx()));\n                if (new - old).abs() < 1e-2 * old.abs() {\n                    old // avoids hunting\n                } else {\n                    new\n                }\n            },\n        };\n")],
 demo=h(SAME, '''
struct Start(f64, f64);
impl hhx::HotHeatExchanger for Start {
    fn volume(&self) -> f64 { 5e-5 }
    fn approach(&self, _: &hhx::State) -> f64 { self.0 }
    fn hydraulic_resistance(&self, _: &hhx::State) -> f64 { 0.0 }
    fn parasitics(&self, _: &hhx::State) -> types::ParasiticPower { par(0.0, 0.0) }
    fn initial_approach(&self) -> f64 { self.1 }
}
fn main() {
    let e = tight();
    let go = |start: f64| {
        let mut c = e.comps();
        c.hhx = Box::new(Start(60.0, start));
        e.with(c, IdealGas::helium()).expect("should run")
    };
    for start in [10.0, 100.0, 59.7] {
        same("another guess", &go(60.0), &go(start), 1e-7);
    }
}
''')),
dict(id="helium-high-pressure", property="C29", needs="helium above 15 MPa",
 breaks="the density derivative of helium above 15 MPa is that of a slightly non-ideal gas, so that it differs from the same gas given by the caller",
 edits=[("fluid/ideal_gas.rs", "    fn dd_dP_T(&self, temp: f64, _pres: f64) -> f64 {\n        1. / (self.gas_constant * temp)\n", "    fn dd_dP_T(&self, temp: f64, pres: f64) -> f64 {\n        let excess = if matches!(self.name, Name::Helium) {\n            (pres / 15e6 - 1.).max(0.)\n        } else {\n            0.\n        };\n        1. / (self.gas_constant * temp) / (1. + 1e-3 * excess)\n")],
 demo=h(SAME, GAS.replace("self.enth(t, p) - self.r * t }", "self.enth(t, p) - self.r * (t - 250.0) }"), '''
fn main() {
    for p0 in [5e6, 25e6] {
        let e = E { p0, ..tight() };
        same("caller's gas", &e.run(), &e.with(e.comps(), GAS).expect("should run"), 1e-7);
    }
}
''')),
]
