//! An engine description with plain fields, shared by the demonstrations.
#![allow(dead_code, non_snake_case)]
use sett_rs::api::RunResults;
use sett_rs::fluid::{Fluid, IdealGas};
use sett_rs::types::*;
use sett_rs::ws::sinusoidal_drive::Geometry;
use sett_rs::*;

pub fn par(thermal: f64, mechanical: f64) -> ParasiticPower {
    ParasiticPower { thermal, mechanical, electrical: 0.0 }
}
#[derive(Clone, Copy)]
pub struct Hx {
    pub vol: f64,
    pub rhyd: f64,
    pub dt: f64,
    pub par: (f64, f64),
}
#[derive(Clone, Copy)]
pub struct E {
    pub f: f64,
    pub phase: f64,
    pub sw_c: f64,
    pub sw_e: f64,
    pub cl_c: f64,
    pub cl_e: f64,
    pub r_c: f64,
    pub r_e: f64,
    pub par_c: f64,
    pub par_e: (f64, f64),
    pub chx: Hx,
    pub regen: Hx,
    pub hhx: Hx,
    pub p0: f64,
    pub ts: f64,
    pub th: f64,
    pub n: u32,
    pub inner: (f64, f64),
    pub outer: (f64, f64),
    pub ode: (f64, f64),
    pub iters: (usize, usize),
}
impl Default for E {
    fn default() -> Self {
        Self {
            f: 50.0,
            phase: 90.0,
            sw_c: 1.1e-4,
            sw_e: 1.2e-4,
            cl_c: 3e-5,
            cl_e: 2e-5,
            r_c: f64::INFINITY,
            r_e: f64::INFINITY,
            par_c: 0.0,
            par_e: (0.0, 0.0),
            chx: Hx { vol: 4e-5, rhyd: 0.0, dt: 20.0, par: (0.0, 0.0) },
            regen: Hx { vol: 1e-4, rhyd: 0.0, dt: 10.0, par: (0.0, 0.0) },
            hhx: Hx { vol: 5e-5, rhyd: 0.0, dt: 40.0, par: (0.0, 0.0) },
            p0: 5e6,
            ts: 300.0,
            th: 900.0,
            n: 201,
            inner: (1e-4, 1e-6),
            outer: (1e-2, 1e-4),
            ode: (1e-9, 1e-9),
            iters: (200, 50),
        }
    }
}
impl E {
    pub fn ws(&self) -> Box<ws::SinusoidalDrive> {
        Box::new(ws::SinusoidalDrive {
            frequency: self.f,
            phase_angle: self.phase,
            comp_geometry: Geometry { clearance_volume: self.cl_c, swept_volume: self.sw_c },
            exp_geometry: Geometry { clearance_volume: self.cl_e, swept_volume: self.sw_e },
            thermal_resistance: ws::ThermalResistance { comp: self.r_c, exp: self.r_e },
            parasitics: ws::Parasitics { comp: par(0.0, self.par_c), exp: par(self.par_e.0, self.par_e.1) },
        })
    }
    pub fn comps(&self) -> Components {
        let h = |h: &Hx| (h.vol, h.rhyd, h.dt, par(h.par.0, h.par.1));
        let (a, b, c) = (h(&self.chx), h(&self.regen), h(&self.hhx));
        Components {
            ws: self.ws(),
            chx: Box::new(chx::FixedApproach::new(a.0, a.1, a.2, a.3)),
            regen: Box::new(regen::FixedApproach::new(b.0, b.1, b.2, b.3)),
            hhx: Box::new(hhx::FixedApproach::new(c.0, c.1, c.2, c.3)),
        }
    }
    pub fn inputs(&self) -> RunInputs {
        RunInputs { pres_zero: self.p0, temp_sink: self.ts, temp_source: self.th }
    }
    pub fn settings(&self) -> RunSettings {
        let t = |t: (f64, f64)| ConvergenceTolerance { abs: t.0, rel: t.1 };
        RunSettings {
            resolution: self.n,
            loop_tol: LoopTolerance { inner: t(self.inner), outer: t(self.outer) },
            ode_tol: OdeTolerance { abs: self.ode.0, rel: self.ode.1 },
            max_iters: MaxIters { inner: self.iters.0, outer: self.iters.1 },
        }
    }
    pub fn with<F: Fluid>(&self, comps: Components, fluid: F) -> Result<RunResults, RunError> {
        Engine::run::<LuSolver>(comps, fluid, self.inputs(), self.settings()).map(RunResults::from)
    }
    pub fn run(&self) -> RunResults {
        self.with(self.comps(), IdealGas::helium()).expect("engine should run")
    }
    pub fn vols(&self, t: f64) -> [f64; 4] {
        let (w, p) = (2.0 * std::f64::consts::PI * self.f, self.phase.to_radians());
        let (c, e) = (w * t, w * t + p);
        [
            self.cl_c + 0.5 * self.sw_c * (1.0 + c.cos()),
            -0.5 * self.sw_c * w * c.sin(),
            self.cl_e + 0.5 * self.sw_e * (1.0 + e.cos()),
            -0.5 * self.sw_e * w * e.sin(),
        ]
    }
    /// gas mass at every point, for helium
    pub fn mass(&self, r: &RunResults) -> Vec<f64> {
        let (v, t) = (&r.values, &r.temperature);
        (0..v.time.len())
            .map(|i| {
                let w = self.vols(v.time[i]);
                let s = w[0] / v.T_c[i] + self.chx.vol / t.chx + self.regen.vol / t.regen_avg + self.hhx.vol / t.hhx + w[2] / v.T_e[i];
                v.P[i] / 2077.23 * s
            })
            .collect()
    }
}
/// mean over the cycle
pub fn mean(t: &[f64], y: &[f64]) -> f64 {
    (1..t.len()).map(|i| 0.5 * (y[i] + y[i - 1]) * (t[i] - t[i - 1])).sum::<f64>() / (t[t.len() - 1] - t[0])
}
pub fn close(what: &str, got: f64, want: f64, tol: f64) {
    assert!((got - want).abs() <= tol, "{what}: {got:e} instead of {want:e}");
}
