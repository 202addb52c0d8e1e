//! Independent reference: fluids, drives, conservation equations, integrator.
#![allow(non_snake_case)]
use crate::case::*;
use std::f64::consts::PI;

#[derive(Clone, Copy)]
pub struct RefFluid {
    pub spec: FluidSpec,
    pub shift: f64,
}
pub const H2_R: f64 = 4124.2;
pub const HE_R: f64 = 2077.23;
pub const HE_CP: f64 = 5193.17;
pub const T_REF: f64 = 250.0;
pub const H2_CP: [f64; 6] = [
    12471.4839,
    13.3194432,
    -3.47782806e-2,
    4.31784838e-5,
    -2.42883335e-8,
    5.14289838e-12,
];
pub struct Props {
    pub d: f64,
    pub u: f64,
    pub h: f64,
    pub dP: f64,
    pub dT: f64,
    pub uP: f64,
    pub uT: f64,
}
impl RefFluid {
    pub fn r(&self) -> f64 {
        match self.spec {
            FluidSpec::H2 => H2_R,
            FluidSpec::He => HE_R,
            FluidSpec::Real { r, .. } | FluidSpec::Exact { r, .. } => r,
        }
    }
    pub fn cp0(&self, t: f64) -> f64 {
        match self.spec {
            FluidSpec::H2 => H2_CP.iter().enumerate().map(|(i, c)| c * t.powi(i as i32)).sum(),
            FluidSpec::He => HE_CP,
            FluidSpec::Real { c0, c1, .. } => c0 + c1 * t,
            FluidSpec::Exact { cp, .. } => cp,
        }
    }
    /// The crate's ideal gases evaluate enthalpy as (T - T_ref) * sum c_i T^i / (i + 1)
    fn h0(&self, t: f64) -> f64 {
        match self.spec {
            FluidSpec::H2 => {
                (t - T_REF)
                    * H2_CP.iter().enumerate().map(|(i, c)| c / (i as f64 + 1.0) * t.powi(i as i32)).sum::<f64>()
            }
            FluidSpec::He => (t - T_REF) * HE_CP,
            FluidSpec::Exact { cp, .. } => (t - T_REF) * cp,
            FluidSpec::Real { c0, c1, .. } => (t - T_REF) * c0 + 0.5 * c1 * (t * t - T_REF * T_REF),
        }
    }
    pub fn cp(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            FluidSpec::Real { r, a, c, .. } => self.cp0(t) + 2.0 * a * p / (r * t * t) - 3.0 * c * p * p / (t * t * t),
            _ => self.cp0(t),
        }
    }
    pub fn dens(&self, t: f64, p: f64) -> f64 {
        match self.spec {
            // v = RT/P + b - a/(RT) + c P/T²
            FluidSpec::Real { r, a, b, c, .. } => 1.0 / (r * t / p + b - a / (r * t) + c * p / (t * t)),
            _ => p / (self.r() * t),
        }
    }
    pub fn enth(&self, t: f64, p: f64) -> f64 {
        self.shift
            + self.h0(t)
            + match self.spec {
                FluidSpec::Real { r, a, b, c, .. } => (b - 2.0 * a / (r * t)) * p + 1.5 * c * (p / t).powi(2),
                _ => 0.0,
            }
    }
    pub fn inte(&self, t: f64, p: f64) -> f64 {
        self.shift
            + self.h0(t)
            - match self.spec {
                FluidSpec::Exact { r, .. } => r * t,
                _ => self.r() * (t - T_REF),
            }
            + match self.spec {
                FluidSpec::Real { r, a, c, .. } => -a * p / (r * t) + 0.5 * c * (p / t).powi(2),
                _ => 0.0,
            }
    }
    /// Known finding: internal energy less (h - p/rho)
    pub fn offset(&self) -> f64 {
        match self.spec {
            FluidSpec::Exact { .. } => 0.0,
            _ => self.r() * T_REF,
        }
    }
    /// Known finding: hydrogen's du_dT_P is not the derivative of its internal energy; this is the difference.
    pub fn du_defect(&self, t: f64) -> f64 {
        match self.spec {
            FluidSpec::H2 => {
                -T_REF * H2_CP.iter().enumerate().skip(1).map(|(i, c)| i as f64 * c / (i as f64 + 1.0) * t.powi(i as i32 - 1)).sum::<f64>()
            }
            _ => 0.0,
        }
    }
    pub fn props(&self, t: f64, p: f64) -> Props {
        let r = self.r();
        let d = self.dens(t, p);
        let (dP, dT, uP, uT);
        match self.spec {
            FluidSpec::Real { a, c, .. } => {
                // rho = 1/v
                let vT = r / p + a / (r * t * t) - 2.0 * c * p / (t * t * t);
                let vP = -r * t / (p * p) + c / (t * t);
                dP = -d * d * vP;
                dT = -d * d * vT;
                uP = -a / (r * t) + c * p / (t * t);
                uT = self.cp0(t) - r + a * p / (r * t * t) - c * p * p / (t * t * t);
            }
            _ => {
                dP = 1.0 / (r * t);
                dT = -p / (r * t * t);
                uP = 0.0;
                uT = self.cp0(t) - r;
            }
        }
        Props { d, u: self.inte(t, p), h: self.enth(t, p), dP, dT, uP, uT }
    }
}
/// volumes and rates of the two spaces
pub fn volumes(ws: &Ws, t: f64) -> (f64, f64, f64, f64) {
    let t = if ws.shift == 0.0 { t } else { t + ws.shift / ws.f };
    let (vc, dc, ve, de) = drive_volumes(ws, t);
    if ws.swap {
        (ve, de, vc, dc)
    } else {
        (vc, dc, ve, de)
    }
}
fn drive_volumes(ws: &Ws, t: f64) -> (f64, f64, f64, f64) {
    let w = 2.0 * PI * ws.f;
    let th = w * t;
    match ws.drive {
        Drive::Sin { phase, sw_c, sw_e } => {
            let ph = phase.to_radians();
            (
                ws.cl_c + sw_c * (th / 2.0).cos().powi(2),
                -sw_c / 2.0 * w * th.sin(),
                ws.cl_e + sw_e * ((th + ph) / 2.0).cos().powi(2),
                -sw_e / 2.0 * w * (th + ph).sin(),
            )
        }
        Drive::Harm { phase, sw_c, sw_e, k } => {
            let ph = phase.to_radians();
            let g = |x: f64| (0.5 * (1.0 + x.cos()) + k * x.sin().powi(2), -0.5 * x.sin() + 2.0 * k * x.sin() * x.cos());
            let (vc, dc) = g(th);
            let (ve, de) = g(th + ph);
            (ws.cl_c + sw_c * vc, sw_c * dc * w, ws.cl_e + sw_e * ve, sw_e * de * w)
        }
        Drive::Rhombic { r, l, e, dp, dd } => {
            let ap = PI * (dp / 2.0) * (dp / 2.0);
            let ad = PI * (dd / 2.0) * (dd / 2.0);
            let x = e + r * th.cos();
            let b = ((l - x) * (l + x)).sqrt();
            // time rate of b: b b' = -x x', x' = -r w sin
            let bd = x * r * w * th.sin() / b;
            let x1 = e - r;
            let b1 = ((l - x1) * (l + x1)).sqrt();
            let b2 = ((l - r - e) * (l - r + e)).sqrt();
            (
                ws.cl_c + 2.0 * ap * (b1 - b),
                -2.0 * ap * bd,
                ws.cl_e + ad * (b - b2 - r * th.sin()),
                ad * (bd - r * w * th.cos()),
            )
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Temps {
    pub chx: f64,
    pub rc: f64,
    pub ra: f64,
    pub rh: f64,
    pub hhx: f64,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Flows {
    pub ck: f64,
    pub kr: f64,
    pub rl: f64,
    pub le: f64,
    pub qk: f64,
    pub qr: f64,
    pub ql: f64,
    pub dTc: f64,
    pub dTe: f64,
    pub dP: f64,
}
impl Flows {
    pub fn arr(&self) -> [f64; 7] {
        [self.ck, self.kr, self.rl, self.le, self.qk, self.qr, self.ql]
    }
}
pub struct Model0<'a> {
    pub case: &'a Case,
    pub fl: RefFluid,
    pub t: Temps,
}
pub fn ref_fluid(c: &Case) -> RefFluid {
    RefFluid { spec: c.fluid.base, shift: c.fluid.shift }
}
impl<'a> Model0<'a> {
    pub fn new(case: &'a Case, t: Temps) -> Self {
        // energy zero is irrelevant to the exact equations; use an unshifted fluid
        Self { case, fl: RefFluid { spec: case.fluid.base, shift: 0.0 }, t }
    }
    /// Solutions for given directions of ck and le. (positive = towards hot end)
    pub fn solve_dir(&self, time: f64, P: f64, Tc: f64, Te: f64, ck_pos: bool, le_pos: bool) -> Flows {
        let c = self.case;
        let (Vc, dVc, Ve, dVe) = volumes(&c.ws, time);
        let f = &self.fl;
        let pc = f.props(Tc, P);
        let pe = f.props(Te, P);
        let pk = f.props(self.t.chx, P);
        let pr = f.props(self.t.ra, P);
        let pl = f.props(self.t.hhx, P);
        let h_rc = f.enth(self.t.rc, P);
        let h_rh = f.enth(self.t.rh, P);
        let Qc = (Tc - self.t.chx) / c.ws.r_c;
        let Qe = (Te - self.t.hhx) / c.ws.r_e;
        let h_ck = if ck_pos { pc.h } else { pk.h };
        let h_le = if le_pos { pl.h } else { pe.h };
        // compression: m = m0 + mT x + mP p ; energy: h m + eT x + eP p = e0
        let m0 = -pc.d * dVc;
        let mT = -Vc * pc.dT;
        let mP = -Vc * pc.dP;
        let eT = Vc * (pc.d * pc.uT + pc.u * pc.dT);
        let eP = Vc * (pc.d * pc.uP + pc.u * pc.dP);
        let e0 = -(P + pc.d * pc.u) * dVc - Qc;
        let A1 = eT + h_ck * mT;
        let B1 = eP + h_ck * mP;
        let C1 = e0 - h_ck * m0;
        // expansion: m = n0 + nT y + nP p ; energy: -h m + gT y + gP p = g0
        let n0 = pe.d * dVe;
        let nT = Ve * pe.dT;
        let nP = Ve * pe.dP;
        let gT = Ve * (pe.d * pe.uT + pe.u * pe.dT);
        let gP = Ve * (pe.d * pe.uP + pe.u * pe.dP);
        let g0 = -(P + pe.d * pe.u) * dVe - Qe;
        let A2 = gT - h_le * nT;
        let B2 = gP - h_le * nP;
        let C2 = g0 + h_le * n0;
        let K = c.chx.vol * pk.dP + c.regen.vol * pr.dP + c.hhx.vol * pl.dP;
        // ck - le = K p
        // m0 + mT (C1 - B1 p)/A1 + mP p - n0 - nT (C2 - B2 p)/A2 - nP p = K p
        let num = m0 + mT * C1 / A1 - n0 - nT * C2 / A2;
        let den = K + mT * B1 / A1 - mP - nT * B2 / A2 + nP;
        let p = num / den;
        let x = (C1 - B1 * p) / A1;
        let y = (C2 - B2 * p) / A2;
        let ck = m0 + mT * x + mP * p;
        let kr = ck - c.chx.vol * pk.dP * p;
        let rl = kr - c.regen.vol * pr.dP * p;
        let le = n0 + nT * y + nP * p;
        let h_kr = if kr >= 0.0 { pk.h } else { h_rc };
        let h_rl = if rl >= 0.0 { h_rh } else { pl.h };
        let qk = h_ck * ck - h_kr * kr - c.chx.vol * (pk.d * pk.uP + pk.u * pk.dP) * p;
        let qr = h_kr * kr - h_rl * rl - c.regen.vol * (pr.d * pr.uP + pr.u * pr.dP) * p;
        let ql = h_le * le - h_rl * rl + c.hhx.vol * (pl.d * pl.uP + pl.u * pl.dP) * p;
        Flows { ck, kr, rl, le, qk, qr, ql, dTc: x, dTe: y, dP: p }
    }
    /// all self-consistent solutions (flows below `eps` in magnitude count as either direction)
    pub fn solutions(&self, time: f64, P: f64, Tc: f64, Te: f64, eps: f64) -> Vec<Flows> {
        let mut v = vec![];
        for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
            let s = self.solve_dir(time, P, Tc, Te, a, b);
            let ok = |pos: bool, m: f64| if pos { m >= -eps } else { m <= eps };
            if ok(a, s.ck) && ok(b, s.le) {
                v.push(s);
            }
        }
        v
    }
    pub fn rhs(&self, t: f64, y: [f64; 3], hint: &mut (bool, bool)) -> Option<[f64; 3]> {
        let mut d = *hint;
        for _ in 0..6 {
            let s = self.solve_dir(t, y[0], y[1], y[2], d.0, d.1);
            let nd = (s.ck >= 0.0, s.le >= 0.0);
            if nd == d {
                *hint = d;
                return Some([s.dP, s.dTc, s.dTe]);
            }
            d = nd;
        }
        // any self-consistent one
        let v = self.solutions(t, y[0], y[1], y[2], 0.0);
        let s = v.first()?;
        *hint = (s.ck >= 0.0, s.le >= 0.0);
        Some([s.dP, s.dTc, s.dTe])
    }
    /// Adaptive Dormand-Prince from `y0` at times[0] to every time in `times`.
    pub fn integrate(&self, times: &[f64], y0: [f64; 3], rtol: f64) -> Option<Vec<[f64; 3]>> {
        let scale = [y0[0], y0[1], y0[2]];
        let mut hint = (true, true);
        let mut out = vec![y0];
        let mut t = times[0];
        let mut y = y0;
        let total = times.last().unwrap() - times[0];
        let mut h = total / 200.0;
        let mut steps = 0usize;
        for &te in &times[1..] {
            while t < te {
                steps += 1;
                if steps > 400_000 {
                    return None;
                }
                let mut last = false;
                let mut hh = h;
                if t + hh >= te - 1e-14 * total {
                    hh = te - t;
                    last = true;
                }
                let (yn, err) = self.dp_step(t, y, hh, &mut hint, scale, rtol)?;
                if !err.is_finite() {
                    return None;
                }
                if err <= 1.0 || hh < 1e-13 * total {
                    t = if last { te } else { t + hh };
                    y = yn;
                    let g = (0.9 * err.max(1e-10).powf(-0.2)).clamp(0.2, 5.0);
                    if !last || g < 1.0 {
                        h = hh * g;
                    } else if hh * g > h {
                        h = hh * g;
                    }
                } else {
                    h = hh * (0.9 * err.powf(-0.2)).clamp(0.1, 0.9);
                }
                h = h.min(total / 50.0);
            }
            out.push(y);
        }
        Some(out)
    }
    fn dp_step(
        &self,
        t: f64,
        y: [f64; 3],
        h: f64,
        hint: &mut (bool, bool),
        scale: [f64; 3],
        rtol: f64,
    ) -> Option<([f64; 3], f64)> {
        const A: [[f64; 6]; 6] = [
            [1.0 / 5.0, 0., 0., 0., 0., 0.],
            [3.0 / 40.0, 9.0 / 40.0, 0., 0., 0., 0.],
            [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0., 0., 0.],
            [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0., 0.],
            [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.],
            [35.0 / 384.0, 0., 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
        ];
        const C: [f64; 6] = [0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
        const E: [f64; 7] = [
            71.0 / 57600.0,
            0.,
            -71.0 / 16695.0,
            71.0 / 1920.0,
            -17253.0 / 339200.0,
            22.0 / 525.0,
            -1.0 / 40.0,
        ];
        let mut k = [[0.0; 3]; 7];
        k[0] = self.rhs(t, y, hint)?;
        let mut yn = y;
        for s in 0..6 {
            let mut ys = y;
            for j in 0..=s {
                for d in 0..3 {
                    ys[d] += h * A[s][j] * k[j][d];
                }
            }
            k[s + 1] = self.rhs(t + C[s] * h, ys, hint)?;
            yn = ys;
        }
        let mut e2: f64 = 0.0;
        for d in 0..3 {
            let e: f64 = (0..7).map(|j| E[j] * k[j][d]).sum::<f64>() * h;
            e2 = e2.max((e / (rtol * scale[d].abs())).abs());
        }
        Some((yn, e2))
    }
}
