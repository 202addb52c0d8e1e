//! A complete, self-contained description of one engine run.
use sett_rs::types::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FluidSpec {
    H2,
    He,
    /// caller-supplied virial gas: v = RT/p + b - a/(RT), cp0 = c0 + c1 T
    Real { r: f64, c0: f64, c1: f64, a: f64, b: f64, c: f64 },
    /// caller-supplied ideal gas of constant cp, with h - u = p/rho (the crate's own gases are off by R T_ref)
    Exact { r: f64, cp: f64 },
}
#[derive(Clone, Copy, Debug)]
pub struct FluidCase {
    pub base: FluidSpec,
    /// constant added to enthalpy and internal energy
    pub shift: f64,
}
#[derive(Clone, Copy, Debug)]
pub enum Drive {
    Sin { phase: f64, sw_c: f64, sw_e: f64 },
    /// through the config layer, as users build it
    Rhombic { r: f64, l: f64, e: f64, dp: f64, dd: f64 },
    /// caller-supplied drive with second harmonics
    Harm { phase: f64, sw_c: f64, sw_e: f64, k: f64 },
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Par {
    pub th: f64,
    pub me: f64,
    pub el: f64,
}
impl From<Par> for ParasiticPower {
    fn from(p: Par) -> Self {
        ParasiticPower { thermal: p.th, mechanical: p.me, electrical: p.el }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Ws {
    pub drive: Drive,
    pub f: f64,
    pub cl_c: f64,
    pub cl_e: f64,
    pub r_c: f64,
    pub r_e: f64,
    pub pc: Par,
    pub pe: Par,
    /// caller-supplied drive that starts this fraction of a period later
    pub shift: f64,
    /// caller-supplied drive whose two volumes (with their clearances) have changed places
    pub swap: bool,
}
#[derive(Clone, Copy, Debug)]
pub enum Model {
    Approach(f64),
    Ua(f64),
    /// caller-supplied: approach settles geometrically (ratio q) to `target`, starting from `start`
    Settle { target: f64, start: f64, q: f64 },
    /// caller-supplied: approach moves from `start` to `target` by at most `step` at a time
    Ladder { target: f64, start: f64, step: f64 },
}
impl Model {
    /// the next approach of a caller-supplied model whose approach is now `cur`
    pub fn next(&self, cur: f64) -> f64 {
        match *self {
            Model::Settle { target, q, .. } => target + q * (cur - target),
            Model::Ladder { target, step, .. } => {
                if (target - cur).abs() <= step {
                    target
                } else {
                    cur + step * (target - cur).signum()
                }
            }
            _ => unreachable!(),
        }
    }
    pub fn target(&self) -> Option<f64> {
        match *self {
            Model::Settle { target, .. } | Model::Ladder { target, .. } => Some(target),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Hx {
    pub model: Model,
    pub vol: f64,
    pub rhyd: f64,
    pub par: Par,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Solver {
    Lu,
    Qr,
    Svd,
}
#[derive(Clone, Copy, Debug)]
pub struct Case {
    pub fluid: FluidCase,
    pub ws: Ws,
    pub chx: Hx,
    pub regen: Hx,
    pub hhx: Hx,
    pub p0: f64,
    pub ts: f64,
    pub th: f64,
    pub n: u32,
    pub inner: (f64, f64),
    pub outer: (f64, f64),
    pub ode: (f64, f64),
    pub mi: usize,
    pub mo: usize,
    pub solver: Solver,
}
impl Case {
    pub fn inputs(&self) -> RunInputs {
        RunInputs { pres_zero: self.p0, temp_sink: self.ts, temp_source: self.th }
    }
    pub fn settings(&self) -> RunSettings {
        RunSettings {
            resolution: self.n,
            loop_tol: LoopTolerance {
                inner: ConvergenceTolerance { abs: self.inner.0, rel: self.inner.1 },
                outer: ConvergenceTolerance { abs: self.outer.0, rel: self.outer.1 },
            },
            ode_tol: OdeTolerance { abs: self.ode.0, rel: self.ode.1 },
            max_iters: MaxIters { inner: self.mi, outer: self.mo },
        }
    }
    /// accept the first cycle of the first outer iteration: the result is one integration from known conditions
    pub fn single_shot(mut self) -> Self {
        self.inner = (1e30, 1e30);
        self.outer = (1e30, 1e30);
        self.mi = 1;
        self.mo = 1;
        self
    }
    pub fn period(&self) -> f64 {
        1.0 / self.ws.f
    }
}
