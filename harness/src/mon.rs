//! Instrumented components and fluid: forward to the real ones, log every consultation.
#![allow(non_snake_case)]
use crate::case::*;
use crate::refmodel::{volumes, RefFluid};
use sett_rs::fluid::{Fluid, IdealGas};
use sett_rs::types::*;
use sett_rs::ws::*;
use sett_rs::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    Chx,
    Regen,
    Hhx,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HxQ {
    Approach,
    Rhyd,
    Par,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WsQ {
    Freq,
    Volumes,
    Res,
    Par,
}
#[derive(Clone, Copy, Debug)]
pub struct HxSeen {
    pub which: Which,
    pub q: HxQ,
    pub temp: f64,
    pub pres: f64,
    pub dens: f64,
    pub cp: f64,
    pub m_dot: f64,
    pub q_dot: f64,
    /// sink temperature | temp_chx | source temperature
    pub a: f64,
    /// temp_hhx for the regenerator
    pub b: f64,
    pub ret: f64,
}
impl HxSeen {
    pub fn key(&self) -> [u64; 8] {
        [self.temp, self.pres, self.dens, self.cp, self.m_dot, self.q_dot, self.a, self.b].map(f64::to_bits)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct WsSeen {
    pub q: WsQ,
    pub pres: [f64; 4], // avg max min t_zero
}
#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Hx(HxSeen),
    Ws(WsSeen),
    Init(Which, f64),
    /// the volume function was asked about time zero again after having been asked about most of a cycle
    Start,
    /// marker placed by the harness: the run returned and results are being extracted
    Extract,
}
/// fault to inject into callbacks
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Nan,
    PosInf,
    NegInf,
    Zero,
    Neg,
    Huge,
}
impl FaultKind {
    pub fn apply(self, x: f64) -> f64 {
        match self {
            FaultKind::Nan => f64::NAN,
            FaultKind::PosInf => f64::INFINITY,
            FaultKind::NegInf => f64::NEG_INFINITY,
            FaultKind::Zero => 0.0,
            FaultKind::Neg => -x,
            FaultKind::Huge => x * 1e300,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Site {
    Dens,
    Inte,
    Enth,
    Cp,
    DdDp,
    DdDt,
    DuDp,
    DuDt,
    VolC,
    VolE,
    DVolC,
    DVolE,
    Freq,
    ResC,
    ResE,
    Appr(Which),
    Rhyd(Which),
    ParM(Which),
    ParT(Which),
    ParWs,
    HxVol(Which),
    Init(Which),
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub site: Site,
    pub kind: FaultKind,
    /// first call at which it applies, and for how many calls
    pub at: u64,
    pub len: u64,
    /// only while results are extracted
    pub extract: bool,
}
/// state-dependent behaviour of the instrumented working spaces / exchangers (C22)
#[derive(Clone, Copy, Debug, Default)]
pub struct Dep {
    pub on: bool,
    pub p0: f64,
    /// sensitivities of frequency, clearance volumes, thermal resistances and parasitics to the pressures seen
    pub f: f64,
    pub cl: f64,
    pub res: f64,
    pub par: f64,
}
impl Dep {
    /// the working spaces as they are at these pressures [avg, max, min, t_zero]
    pub fn at(&self, w: &Ws, p: [f64; 4]) -> Ws {
        let mut w = *w;
        if self.on {
            let x = |a: f64| (a / self.p0 - 1.0).clamp(-0.8, 4.0);
            w.f *= 1.0 + self.f * x(p[0]);
            w.cl_c *= 1.0 + self.cl * x(p[1]);
            w.cl_e *= 1.0 + self.cl * (x(p[2]) + 0.1 * x(p[3]));
            w.r_c *= 1.0 + self.res * x(p[0]) + 0.1 * self.res * x(p[1]);
            w.r_e *= 1.0 + self.res * x(p[2]);
            w.pc.me *= 1.0 + self.par * x(p[1]);
            w.pe.me *= 1.0 + self.par * x(p[2]);
            w.pe.th *= 1.0 + self.par * x(p[0]);
        }
        w
    }
}
#[derive(Default)]
pub struct Log {
    pub ev: RefCell<Vec<Ev>>,
    pub fluid_calls: Cell<u64>,
    pub vol_calls: Cell<u64>,
    pub t0_calls: Cell<u64>,
    pub tmin: Cell<f64>,
    pub tmax: Cell<f64>,
    /// times at which the volume function was asked for, when recorded
    pub half: Cell<f64>,
    pub reached: Cell<f64>,
    pub starts: Cell<u64>,
    pub since: Cell<u64>,
    pub record_times: Cell<bool>,
    pub times: RefCell<Vec<f64>>,
    pub budget: Cell<u64>,
    pub fault: Cell<Option<Fault>>,
    pub fault_n: Cell<u64>,
    pub fault_hits: Cell<u64>,
    pub panic_site: Cell<bool>,
    pub extracting: Cell<bool>,
}
pub struct BudgetExceeded;
impl Log {
    fn spend(&self) {
        let b = self.budget.get();
        if b == 0 {
            std::panic::panic_any(BudgetExceeded);
        }
        self.budget.set(b - 1);
    }
    fn fault(&self, s: Site, x: f64) -> f64 {
        if let Some(f) = self.fault.get() {
            if f.site == s && (!f.extract || self.extracting.get()) {
                let n = self.fault_n.get();
                self.fault_n.set(n + 1);
                if n >= f.at && n < f.at.saturating_add(f.len) {
                    self.fault_hits.set(self.fault_hits.get() + 1);
                    return f.kind.apply(x);
                }
            }
        }
        x
    }
}

pub enum Inner {
    Gas(IdealGas),
    Own(RefFluid),
}
pub struct MonFluid {
    pub inner: Inner,
    pub shift: f64,
    pub log: Rc<Log>,
}
impl MonFluid {
    pub fn new(c: &FluidCase, log: &Rc<Log>) -> Self {
        let inner = match c.base {
            FluidSpec::H2 => Inner::Gas(IdealGas::hydrogen()),
            FluidSpec::He => Inner::Gas(IdealGas::helium()),
            s => Inner::Own(RefFluid { spec: s, shift: 0.0 }),
        };
        Self { inner, shift: c.shift, log: log.clone() }
    }
    fn n(&self) {
        self.log.fluid_calls.set(self.log.fluid_calls.get() + 1);
    }
}
impl Fluid for MonFluid {
    fn dens(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = match &self.inner {
            Inner::Gas(g) => g.dens(t, p),
            Inner::Own(g) => g.dens(t, p),
        };
        self.log.fault(Site::Dens, x)
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = self.shift
            + match &self.inner {
                Inner::Gas(g) => g.inte(t, p),
                Inner::Own(g) => g.inte(t, p),
            };
        self.log.fault(Site::Inte, x)
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = self.shift
            + match &self.inner {
                Inner::Gas(g) => g.enth(t, p),
                Inner::Own(g) => g.enth(t, p),
            };
        self.log.fault(Site::Enth, x)
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = match &self.inner {
            Inner::Gas(g) => g.cp(t, p),
            Inner::Own(g) => g.cp(t, p),
        };
        self.log.fault(Site::Cp, x)
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = match &self.inner {
            Inner::Gas(g) => g.dd_dP_T(t, p),
            Inner::Own(g) => g.props(t, p).dP,
        };
        self.log.fault(Site::DdDp, x)
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = match &self.inner {
            Inner::Gas(g) => g.dd_dT_P(t, p),
            Inner::Own(g) => g.props(t, p).dT,
        };
        self.log.fault(Site::DdDt, x)
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = match &self.inner {
            Inner::Gas(g) => g.du_dP_T(t, p),
            Inner::Own(g) => g.props(t, p).uP,
        };
        self.log.fault(Site::DuDp, x)
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.n();
        let x = match &self.inner {
            Inner::Gas(g) => g.du_dT_P(t, p),
            Inner::Own(g) => g.props(t, p).uT,
        };
        self.log.fault(Site::DuDt, x)
    }
}

/// The real drive, built the way users build it.
pub fn real_ws(w: &Ws) -> Box<dyn WorkingSpaces> {
    if w.shift != 0.0 || w.swap {
        return Box::new(Moved { ws: *w, inner: real_ws(&Ws { shift: 0.0, swap: false, ..*w }) });
    }
    match w.drive {
        Drive::Sin { phase, sw_c, sw_e } => Box::new(SinusoidalDrive {
            frequency: w.f,
            phase_angle: phase,
            comp_geometry: sinusoidal_drive::Geometry { clearance_volume: w.cl_c, swept_volume: sw_c },
            exp_geometry: sinusoidal_drive::Geometry { clearance_volume: w.cl_e, swept_volume: sw_e },
            thermal_resistance: ThermalResistance { comp: w.r_c, exp: w.r_e },
            parasitics: Parasitics { comp: w.pc.into(), exp: w.pe.into() },
        }),
        Drive::Rhombic { r, l, e, dp, dd } => {
            let v = serde_json_ws(w, r, l, e, dp, dd);
            sett_ws_from_config(v)
        }
        Drive::Harm { .. } => Box::new(Harm(*w)),
    }
}
/// a drive that starts at another instant, or whose volumes have changed places
struct Moved {
    ws: Ws,
    inner: Box<dyn WorkingSpaces>,
}
impl WorkingSpaces for Moved {
    fn frequency(&self, s: &State) -> f64 {
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        let f = self.inner.volumes(s);
        let (dt, swap) = (self.ws.shift / self.ws.f, self.ws.swap);
        Box::new(move |t| {
            let (c, e) = f(t + dt);
            if swap {
                (CompVolume { value: e.value, deriv: e.deriv }, ExpVolume { value: c.value, deriv: c.deriv })
            } else {
                (c, e)
            }
        })
    }
    fn thermal_resistance(&self, s: &State) -> ThermalResistance {
        self.inner.thermal_resistance(s)
    }
    fn parasitics(&self, s: &State) -> Parasitics {
        self.inner.parasitics(s)
    }
}
struct Harm(Ws);
impl WorkingSpaces for Harm {
    fn frequency(&self, _: &State) -> f64 {
        self.0.f
    }
    fn volumes(&self, _: &State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        let w = self.0;
        Box::new(move |t| {
            let (vc, dc, ve, de) = volumes(&w, t);
            (CompVolume { value: vc, deriv: dc }, ExpVolume { value: ve, deriv: de })
        })
    }
    fn thermal_resistance(&self, _: &State) -> ThermalResistance {
        ThermalResistance { comp: self.0.r_c, exp: self.0.r_e }
    }
    fn parasitics(&self, _: &State) -> Parasitics {
        Parasitics { comp: self.0.pc.into(), exp: self.0.pe.into() }
    }
}
/// f64 deserializer source that hands numbers to serde exactly (no text involved)
fn serde_json_ws(w: &Ws, r: f64, l: f64, e: f64, dp: f64, dd: f64) -> Vec<(&'static str, f64)> {
    vec![
        ("frequency", w.f),
        ("V_clearance_c", w.cl_c),
        ("R_c", w.r_c),
        ("W_parasitic_c", w.pc.me),
        ("V_clearance_e", w.cl_e),
        ("R_e", w.r_e),
        ("W_parasitic_e", w.pe.me),
        ("Q_parasitic_e", w.pe.th),
        ("r_crank", r),
        ("L_conn", l),
        ("eccentricity", e),
        ("D_p", dp),
        ("D_d", dd),
    ]
}
fn sett_ws_from_config(fields: Vec<(&'static str, f64)>) -> Box<dyn WorkingSpaces> {
    use serde::de::{value::MapDeserializer, Deserialize};
    let de: MapDeserializer<'_, _, serde::de::value::Error> = MapDeserializer::new(fields.into_iter());
    // engine::ComponentsConfig is reachable only through `Config`; ws::Config::Rhombic wraps the private type
    let cfg = WsRhombic::deserialize(de).expect("rhombic config");
    cfg.0
}
struct WsRhombic(Box<dyn WorkingSpaces>);
impl<'de> serde::Deserialize<'de> for WsRhombic {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        // `RhombicDrive: From<Config>`; name Config through the associated enum variant
        struct Wrap<D>(D);
        impl<'de, D: serde::Deserializer<'de>> serde::de::EnumAccess<'de> for Wrap<D> {
            type Error = D::Error;
            type Variant = Wrap2<D>;
            fn variant_seed<V: serde::de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Wrap2<D>), D::Error> {
                use serde::de::IntoDeserializer;
                let d: serde::de::value::StrDeserializer<'_, D::Error> = "rhombic".into_deserializer();
                Ok((seed.deserialize(d)?, Wrap2(self.0)))
            }
        }
        struct Wrap2<D>(D);
        impl<'de, D: serde::Deserializer<'de>> serde::de::VariantAccess<'de> for Wrap2<D> {
            type Error = D::Error;
            fn unit_variant(self) -> Result<(), D::Error> {
                Err(serde::de::Error::custom("unit"))
            }
            fn newtype_variant_seed<T: serde::de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, D::Error> {
                seed.deserialize(self.0)
            }
            fn tuple_variant<V: serde::de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, D::Error> {
                Err(serde::de::Error::custom("tuple"))
            }
            fn struct_variant<V: serde::de::Visitor<'de>>(
                self,
                _: &'static [&'static str],
                _: V,
            ) -> Result<V::Value, D::Error> {
                Err(serde::de::Error::custom("struct"))
            }
        }
        let de = serde::de::value::EnumAccessDeserializer::new(Wrap(d));
        let cfg = <ws::Config as serde::Deserialize>::deserialize(de)?;
        match cfg {
            ws::Config::Rhombic(c) => Ok(WsRhombic(Box::<RhombicDrive>::new(c.into()))),
            _ => Err(serde::de::Error::custom("not rhombic")),
        }
    }
}

pub struct MonWs {
    pub inner: Box<dyn WorkingSpaces>,
    pub ws: Ws,
    pub log: Rc<Log>,
    pub dep: Dep,
}
impl MonWs {
    fn see(&self, q: WsQ, s: &State) {
        let p = s.pres;
        self.log.ev.borrow_mut().push(Ev::Ws(WsSeen { q, pres: [p.avg, p.max, p.min, p.t_zero] }));
        self.log.spend();
    }
    /// ask the real drive, or the one that exists at the pressures seen when the engine is state dependent
    fn ask<R>(&self, s: &State, f: impl Fn(&dyn WorkingSpaces) -> R) -> R {
        if self.dep.on {
            let p = s.pres;
            f(&*real_ws(&self.dep.at(&self.ws, [p.avg, p.max, p.min, p.t_zero])))
        } else {
            f(&*self.inner)
        }
    }
}
impl WorkingSpaces for MonWs {
    fn frequency(&self, s: &State) -> f64 {
        self.see(WsQ::Freq, s);
        self.log.fault(Site::Freq, self.ask(s, |w| w.frequency(s)))
    }
    fn volumes(&self, s: &State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        self.see(WsQ::Volumes, s);
        let f = self.ask(s, |w| w.volumes(s));
        let log = self.log.clone();
        Box::new(move |t| {
            log.vol_calls.set(log.vol_calls.get() + 1);
            if t == 0.0 {
                log.t0_calls.set(log.t0_calls.get() + 1);
                // (step size selection also looks ahead from time zero, but only once or twice)
                if log.reached.get() > log.half.get() && log.since.get() >= 5 {
                    log.reached.set(0.0);
                    log.since.set(0);
                    log.starts.set(log.starts.get() + 1);
                    log.ev.borrow_mut().push(Ev::Start);
                }
            }
            log.reached.set(log.reached.get().max(t));
            log.since.set(log.since.get().saturating_add(1));
            log.tmin.set(log.tmin.get().min(t));
            log.tmax.set(log.tmax.get().max(t));
            if log.record_times.get() {
                log.times.borrow_mut().push(t);
            }
            log.spend();
            let (mut c, mut e) = f(t);
            c.value = log.fault(Site::VolC, c.value);
            c.deriv = log.fault(Site::DVolC, c.deriv);
            e.value = log.fault(Site::VolE, e.value);
            e.deriv = log.fault(Site::DVolE, e.deriv);
            (c, e)
        })
    }
    fn thermal_resistance(&self, s: &State) -> ThermalResistance {
        self.see(WsQ::Res, s);
        let mut r = self.ask(s, |w| w.thermal_resistance(s));
        r.comp = self.log.fault(Site::ResC, r.comp);
        r.exp = self.log.fault(Site::ResE, r.exp);
        r
    }
    fn parasitics(&self, s: &State) -> Parasitics {
        self.see(WsQ::Par, s);
        let mut p = self.ask(s, |w| w.parasitics(s));
        p.comp.mechanical = self.log.fault(Site::ParWs, p.comp.mechanical);
        p

    }
}

pub fn logmean(x: f64, y: f64) -> f64 {
    let d = y - x;
    if (d / x).abs() < 1e-6 {
        0.5 * (x + y)
    } else {
        d / (d / x).ln_1p()
    }
}
pub fn regen_avg(chx: f64, hhx: f64, a: f64) -> f64 {
    logmean(chx + 0.5 * a, hhx - 0.5 * a)
}
/// next approach of a settling regenerator, as a pure function of its state
pub fn settle_regen(m: &Model, chx: f64, hhx: f64, avg: f64) -> f64 {
    let target = m.target().unwrap();
    let d = 0.5;
    let slope = (regen_avg(chx, hhx, target + d) - regen_avg(chx, hhx, target - d)) / (2.0 * d);
    if slope.abs() < 1e-6 {
        return target;
    }
    m.next(target + (avg - regen_avg(chx, hhx, target)) / slope)
}

macro_rules! mon_hx {
    ($name:ident, $which:expr, $trait:path, $state:path, $a:expr, $b:expr, $settle:expr) => {
        pub struct $name {
            pub inner: Option<Box<dyn $trait>>,
            pub hx: Hx,
            pub log: Rc<Log>,
        }
        impl $name {
            fn see(&self, q: HxQ, s: &$state, ret: f64) {
                let h = s.hxr;
                let fa: fn(&$state) -> f64 = $a;
                let fb: fn(&$state) -> f64 = $b;
                self.log.ev.borrow_mut().push(Ev::Hx(HxSeen {
                    which: $which,
                    q,
                    temp: h.temp,
                    pres: h.pres,
                    dens: h.dens,
                    cp: h.cp,
                    m_dot: h.m_dot,
                    q_dot: h.Q_dot,
                    a: fa(s),
                    b: fb(s),
                    ret,
                }));
                self.log.spend();
            }
        }
        impl $trait for $name {
            fn volume(&self) -> f64 {
                let v = self.inner.as_ref().map_or(self.hx.vol, |c| c.volume());
                self.log.fault(Site::HxVol($which), v)
            }
            fn approach(&self, s: &$state) -> f64 {
                let v = match &self.inner {
                    Some(c) => c.approach(s),
                    None => {
                        let f: fn(&Model, &$state) -> f64 = $settle;
                        f(&self.hx.model, s)
                    }
                };
                let v = self.log.fault(Site::Appr($which), v);
                self.see(HxQ::Approach, s, v);
                v
            }
            fn hydraulic_resistance(&self, s: &$state) -> f64 {
                let v = self.inner.as_ref().map_or(self.hx.rhyd, |c| c.hydraulic_resistance(s));
                let v = self.log.fault(Site::Rhyd($which), v);
                self.see(HxQ::Rhyd, s, v);
                v
            }
            fn parasitics(&self, s: &$state) -> ParasiticPower {
                let mut v = self.inner.as_ref().map_or(self.hx.par.into(), |c| c.parasitics(s));
                v.mechanical = self.log.fault(Site::ParM($which), v.mechanical);
                v.thermal = self.log.fault(Site::ParT($which), v.thermal);
                self.see(HxQ::Par, s, v.mechanical);
                v
            }
            fn initial_approach(&self) -> f64 {
                let v = match (&self.inner, self.hx.model) {
                    (Some(c), _) => c.initial_approach(),
                    (None, Model::Settle { start, .. } | Model::Ladder { start, .. }) => start,
                    _ => 0.0,
                };
                let v = self.log.fault(Site::Init($which), v);
                self.log.ev.borrow_mut().push(Ev::Init($which, v));
                v
            }
        }
    };
}
mon_hx!(MonChx, Which::Chx, chx::ColdHeatExchanger, chx::State, |s| s.sink_temp, |_| 0.0, |m, s| m.next(s.hxr.temp - s.sink_temp));
mon_hx!(MonHhx, Which::Hhx, hhx::HotHeatExchanger, hhx::State, |s| s.source_temp, |_| 0.0, |m, s| m.next(s.source_temp - s.hxr.temp));
mon_hx!(MonRegen, Which::Regen, regen::Regenerator, regen::State, |s| s.temp_chx, |s| s.temp_hhx, |m, s| settle_regen(m, s.temp_chx, s.temp_hhx, s.hxr.temp));

pub fn real_chx(h: &Hx) -> Option<Box<dyn chx::ColdHeatExchanger>> {
    match h.model {
        Model::Approach(a) => Some(Box::new(chx::FixedApproach::new(h.vol, h.rhyd, a, h.par.into()))),
        Model::Ua(u) => Some(Box::new(chx::FixedConductance::new(h.vol, h.rhyd, u, h.par.into()))),
        _ => None,
    }
}
pub fn real_regen(h: &Hx) -> Option<Box<dyn regen::Regenerator>> {
    match h.model {
        Model::Approach(a) => Some(Box::new(regen::FixedApproach::new(h.vol, h.rhyd, a, h.par.into()))),
        Model::Ua(u) => Some(Box::new(regen::FixedConductance::new(h.vol, h.rhyd, u, h.par.into()))),
        _ => None,
    }
}
pub fn real_hhx(h: &Hx) -> Option<Box<dyn hhx::HotHeatExchanger>> {
    match h.model {
        Model::Approach(a) => Some(Box::new(hhx::FixedApproach::new(h.vol, h.rhyd, a, h.par.into()))),
        Model::Ua(u) => Some(Box::new(hhx::FixedConductance::new(h.vol, h.rhyd, u, h.par.into()))),
        _ => None,
    }
}
pub fn mon_components(c: &Case, log: &Rc<Log>, dep: Dep) -> Components {
    Components {
        ws: Box::new(MonWs { inner: real_ws(&c.ws), ws: c.ws, log: log.clone(), dep }),
        chx: Box::new(MonChx { inner: real_chx(&c.chx), hx: c.chx, log: log.clone() }),
        regen: Box::new(MonRegen { inner: real_regen(&c.regen), hx: c.regen, log: log.clone() }),
        hhx: Box::new(MonHhx { inner: real_hhx(&c.hhx), hx: c.hhx, log: log.clone() }),
    }
}
/// components exactly as a user would build them (only for built-in models)
pub fn raw_components(c: &Case) -> Option<Components> {
    Some(Components {
        ws: real_ws(&c.ws),
        chx: real_chx(&c.chx)?,
        regen: real_regen(&c.regen)?,
        hhx: real_hhx(&c.hhx)?,
    })
}
