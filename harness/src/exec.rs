//! Executing a case under observation.
use crate::case::*;
use crate::mon::*;
use sett_rs::api::RunResults;
use sett_rs::types::RunError;
use sett_rs::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            if p.is::<BudgetExceeded>() {
                Err("BUDGET".into())
            } else {
                Err(PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
}
pub enum Outcome {
    Ok(Box<RunResults>),
    Err(RunError),
    Panic(String),
    Budget,
}
impl Outcome {
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Ok(_) => "ok",
            Outcome::Err(RunError::InnerLoop) => "inner",
            Outcome::Err(RunError::OuterLoop) => "outer",
            Outcome::Panic(_) => "panic",
            Outcome::Budget => "budget",
        }
    }
    pub fn ok(&self) -> Option<&RunResults> {
        match self {
            Outcome::Ok(r) => Some(r),
            _ => None,
        }
    }
}
pub struct Obs {
    pub out: Outcome,
    pub log: Rc<Log>,
}
#[derive(Clone, Copy, Default)]
pub struct Opts {
    pub dep: Dep,
    pub record_times: bool,
    pub budget: Option<u64>,
    pub fault: Option<Fault>,
}
pub fn run_components<F: fluid::Fluid>(comps: Components, fl: F, c: &Case, log: Option<&Rc<Log>>) -> Outcome {
    fn go<U: MatrixDec, F: fluid::Fluid>(comps: Components, fl: F, c: &Case, log: Option<&Rc<Log>>) -> Result<RunResults, RunError> {
        let e = U::run(comps, fl, c)?;
        if let Some(l) = log {
            l.ev.borrow_mut().push(Ev::Extract);
            l.extracting.set(true);
        }
        Ok(RunResults::from(e))
    }
    let r = catch(|| match c.solver {
        Solver::Lu => go::<Lu, F>(comps, fl, c, log),
        Solver::Qr => go::<Qr, F>(comps, fl, c, log),
        Solver::Svd => go::<Svd, F>(comps, fl, c, log),
    });
    match r {
        Ok(Ok(r)) => Outcome::Ok(Box::new(r)),
        Ok(Err(e)) => Outcome::Err(e),
        Err(m) if m == "BUDGET" => Outcome::Budget,
        Err(m) => Outcome::Panic(m),
    }
}
pub trait MatrixDec {
    fn run<F: fluid::Fluid>(comps: Components, fl: F, c: &Case) -> Result<Engine<F>, RunError>;
}
pub struct Lu;
pub struct Qr;
pub struct Svd;
impl MatrixDec for Lu {
    fn run<F: fluid::Fluid>(comps: Components, fl: F, c: &Case) -> Result<Engine<F>, RunError> {
        Engine::run::<LuSolver>(comps, fl, c.inputs(), c.settings())
    }
}
impl MatrixDec for Qr {
    fn run<F: fluid::Fluid>(comps: Components, fl: F, c: &Case) -> Result<Engine<F>, RunError> {
        Engine::run::<QrSolver>(comps, fl, c.inputs(), c.settings())
    }
}
impl MatrixDec for Svd {
    fn run<F: fluid::Fluid>(comps: Components, fl: F, c: &Case) -> Result<Engine<F>, RunError> {
        Engine::run::<SvdDefaultSolver>(comps, fl, c.inputs(), c.settings())
    }
}
pub const DEFAULT_BUDGET: u64 = 30_000_000;
pub fn new_log(o: Opts) -> Rc<Log> {
    let log = Rc::new(Log::default());
    log.budget.set(o.budget.unwrap_or(DEFAULT_BUDGET));
    log.record_times.set(o.record_times);
    log.reached.set(f64::INFINITY);
    log.since.set(u64::MAX);
    log.fault.set(o.fault);
    log.tmin.set(f64::INFINITY);
    log.tmax.set(f64::NEG_INFINITY);
    log
}
pub fn observe(c: &Case, o: Opts) -> Obs {
    let log = new_log(o);
    log.half.set(0.4 * c.period());
    let comps = mon_components(c, &log, o.dep);
    let fl = MonFluid::new(&c.fluid, &log);
    let out = run_components(comps, fl, c, Some(&log));
    Obs { out, log }
}
/// Uninstrumented run of a case made of built-in models only.
pub fn run_raw(c: &Case) -> Option<Outcome> {
    let comps = raw_components(c)?;
    if c.fluid.shift != 0.0 {
        return None;
    }
    Some(match c.fluid.base {
        FluidSpec::H2 => run_components(comps, fluid::IdealGas::hydrogen(), c, None),
        FluidSpec::He => run_components(comps, fluid::IdealGas::helium(), c, None),
        FluidSpec::Real { .. } | FluidSpec::Exact { .. } => return None,
    })
}
/// Every scalar and series of a result, named, in a fixed order.
pub fn scalars(r: &RunResults) -> Vec<(&'static str, f64)> {
    vec![
        ("efficiency.mechanical", r.efficiency.mechanical),
        ("efficiency.overall", r.efficiency.overall),
        ("heat_flow.input", r.heat_flow.input),
        ("heat_flow.rejection", r.heat_flow.rejection),
        ("heat_flow.chx", r.heat_flow.chx),
        ("heat_flow.regen", r.heat_flow.regen),
        ("heat_flow.hhx", r.heat_flow.hhx),
        ("mass_flow.chx", r.mass_flow.chx),
        ("mass_flow.regen", r.mass_flow.regen),
        ("mass_flow.hhx", r.mass_flow.hhx),
        ("power.ideal_indicated", r.power.ideal_indicated),
        ("power.indicated", r.power.indicated),
        ("power.shaft", r.power.shaft),
        ("power.net", r.power.net),
        ("pressure.avg", r.pressure.avg),
        ("pressure.max", r.pressure.max),
        ("pressure.min", r.pressure.min),
        ("pressure.t_zero", r.pressure.t_zero),
        ("regen_imbalance", r.regen_imbalance),
        ("shaft_torque", r.shaft_torque),
        ("temperature.sink", r.temperature.sink),
        ("temperature.chx", r.temperature.chx),
        ("temperature.regen_cold", r.temperature.regen_cold),
        ("temperature.regen_avg", r.temperature.regen_avg),
        ("temperature.regen_hot", r.temperature.regen_hot),
        ("temperature.hhx", r.temperature.hhx),
        ("temperature.source", r.temperature.source),
    ]
}
pub fn series(r: &RunResults) -> Vec<(&'static str, &Vec<f64>)> {
    let v = &r.values;
    vec![
        ("time", &v.time),
        ("P", &v.P),
        ("P_c", &v.P_c),
        ("P_e", &v.P_e),
        ("T_c", &v.T_c),
        ("T_e", &v.T_e),
        ("m_dot_ck", &v.m_dot_ck),
        ("m_dot_kr", &v.m_dot_kr),
        ("m_dot_rl", &v.m_dot_rl),
        ("m_dot_le", &v.m_dot_le),
        ("Q_dot_k", &v.Q_dot_k),
        ("Q_dot_r", &v.Q_dot_r),
        ("Q_dot_l", &v.Q_dot_l),
    ]
}
pub fn fingerprint(o: &Outcome) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut eat = |x: u64| {
        for b in x.to_le_bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    };
    match o {
        Outcome::Ok(r) => {
            for (_, x) in scalars(r) {
                // all NaNs are alike
                eat(if x.is_nan() { 1 } else { x.to_bits() });
            }
            for (_, s) in series(r) {
                eat(s.len() as u64);
                for &x in s {
                    eat(if x.is_nan() { 1 } else { x.to_bits() });
                }
            }
        }
        o => {
            for b in o.kind().bytes() {
                eat(u64::from(b));
            }
        }
    }
    h
}
