//! The two iteration loops: C05 (inner closure), C06 (agreement with approaches), C07 (budgets), C22 (what components see).
#![allow(non_snake_case)]
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::oracle;
use crate::refmodel::*;
use crate::rng::Rng;
use crate::verdict::Report;

/// one cycle of the successive substitution as the reference model sees it
#[derive(Clone, Copy, Debug)]
pub struct Cyc {
    pub tc: f64,
    pub te: f64,
    pub dc: f64,
    pub de: f64,
}
impl Cyc {
    pub fn abs(&self) -> f64 {
        self.dc.abs().max(self.de.abs())
    }
    pub fn rel(&self) -> f64 {
        (self.dc / self.tc).abs().max((self.de / self.te).abs())
    }
}
/// what a run's inner loop goes through for fixed exchanger temperatures
pub fn history(c: &Case, t: Temps, max: usize, rtol: f64) -> Option<Vec<Cyc>> {
    let m = Model0::new(c, t);
    let (mut tc, mut te) = (t.chx, t.hhx);
    let mut v = vec![];
    for _ in 0..max {
        let y = m.integrate(&[0.0, c.period()], [c.p0, tc, te], rtol)?[1];
        if !(y[1].is_finite() && y[2].is_finite()) {
            return None;
        }
        v.push(Cyc { tc, te, dc: y[1] - tc, de: y[2] - te });
        tc = y[1];
        te = y[2];
    }
    Some(v)
}
pub fn initial_temps(c: &Case, a: [f64; 3]) -> Temps {
    let chx = c.ts + a[0];
    let hhx = c.th - a[2];
    Temps { chx, rc: chx + a[1], ra: regen_avg(chx, hhx, a[1]), rh: hhx - a[1], hhx }
}
/// initial approaches as the components answered them
pub fn init_approaches(log: &Log) -> Option<[f64; 3]> {
    let mut a = [None; 3];
    for e in log.ev.borrow().iter() {
        if let Ev::Init(w, x) = e {
            a[*w as usize] = Some(*x);
        }
    }
    Some([a[0]?, a[1]?, a[2]?])
}
/// index of the first cycle within both tolerances; None when too close to call or never
fn first_converged(h: &[Cyc], tol: (f64, f64), noise: f64) -> Result<Option<usize>, ()> {
    for (k, y) in h.iter().enumerate() {
        let ok = |d: f64, lim: f64, n: f64| {
            if d.abs() < lim - n {
                Some(true)
            } else if d.abs() > lim + n {
                Some(false)
            } else {
                None
            }
        };
        let all = [ok(y.dc, tol.0, noise), ok(y.de, tol.0, noise), ok(y.dc / y.tc, tol.1, noise / y.tc), ok(y.de / y.te, tol.1, noise / y.te)];
        if all.iter().any(|x| *x == Some(false)) {
            continue;
        }
        if all.iter().any(|x| x.is_none()) {
            return Err(());
        }
        return Ok(Some(k));
    }
    Ok(None)
}
/// an engine with fixed exchanger temperatures whose spaces settle at different and sometimes slow rates
fn lagging(r: &mut Rng) -> Case {
    let mut p = FULL;
    p.ua = false;
    p.settle = false;
    let mut c = gen(r, &p);
    c.ode = r.pick(&[(1e-8, 1e-8), (1e-9, 1e-9), (1e-7, 1e-8)]);
    let sw = match c.ws.drive {
        Drive::Sin { sw_c, .. } | Drive::Harm { sw_c, .. } => sw_c,
        Drive::Rhombic { .. } => c.ws.cl_c.max(c.ws.cl_e),
    };
    match r.below(5) {
        0 => c.ws.cl_c = sw * r.log(1.5, 12.0),
        1 => c.ws.cl_e = sw * r.log(1.5, 12.0),
        2 => {
            c.ws.cl_c = sw * r.log(1.0, 6.0);
            c.ws.cl_e = sw * r.log(1.0, 6.0);
        }
        _ => {}
    }
    c
}
/// C05: tolerances chosen against the engine, so that a run accepting any weaker criterion stops too early
pub fn c05(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C05", i);
    if i % 3 == 0 {
        let c = gen(&mut r, &FULL);
        rep.case = format!("{c:?}");
        let o = observe(&c, Opts::default());
        rep.fp = fingerprint(&o.out);
        rep.add(format!("outcome_{}", o.out.kind()), 1);
        match o.out.ok() {
            Some(res) if oracle::same_lengths(res) && res.values.time.len() > 1 => oracle::closure(&c, res, &mut rep),
            _ => rep.inconclusive(format!("run ended in {}", o.out.kind())),
        }
        rep.nontrivial = true;
        return rep;
    }
    let mut c = lagging(&mut r);
    let a = |h: &Hx| if let Model::Approach(a) = h.model { a } else { 0.0 };
    let t = initial_temps(&c, [a(&c.chx), a(&c.regen), a(&c.hhx)]);
    let depth = if r.chance(0.2) { 40 } else { 12 };
    let Some(h) = history(&c, t, depth, 1e-9) else {
        rep.case = format!("{c:?}");
        rep.inconclusive("reference integration did not complete");
        return rep;
    };
    let floor = 300.0 * (c.ode.0 + c.ode.1 * c.th.max(c.ts));
    // cycles still changing by much more than the integrator's noise
    let live: Vec<usize> = (0..h.len()).filter(|&k| h[k].dc.abs().min(h[k].de.abs()) > 20.0 * floor).collect();
    let k = if live.is_empty() || r.chance(0.2) { 0 } else { r.pick(&live) };
    let y = h[k];
    let (ac, ae) = (y.dc.abs(), y.de.abs());
    let (rc, re) = (ac / y.tc, ae / y.te);
    let mid = |r: &mut Rng, a: f64, b: f64| (a.ln() + (b.ln() - a.ln()) * r.range(0.1, 0.9)).exp();
    let mode = r.below(6);
    c.inner = match mode {
        0 => (mid(&mut r, ac, ae), 1e3),
        1 => (1e6, mid(&mut r, rc, re)),
        2 => (ac.max(ae) * r.range(1.1, 5.0), rc.max(re) * r.range(0.05, 0.7)),
        3 => (ac.max(ae) * r.range(0.05, 0.7), rc.max(re) * r.range(1.1, 5.0)),
        4 => {
            // between the change relative to the old and to the new value, where the temperature rises
            let old = rc.max(re);
            let new = (ac / (y.tc + y.dc)).max(ae / (y.te + y.de));
            (1e6, if new < old { mid(&mut r, new, old) } else { old * r.range(0.5, 0.99) })
        }
        _ => (ac.max(ae) * r.range(0.5, 2.0), rc.max(re) * r.range(0.5, 2.0)),
    };
    c.inner.0 = c.inner.0.max(floor);
    c.inner.1 = c.inner.1.max(floor / 200.0);
    rep.case = format!("{c:?}");
    let o = observe(&c, Opts::default());
    rep.fp = fingerprint(&o.out);
    rep.add(format!("adversarial_mode_{mode}"), 1);
    rep.add(format!("outcome_{}", o.out.kind()), 1);
    let Some(res) = o.out.ok() else {
        rep.inconclusive(format!("run ended in {}", o.out.kind()));
        return rep;
    };
    if !oracle::same_lengths(res) || res.values.time.len() < 2 {
        rep.inconclusive("reported series have different lengths");
        return rep;
    }
    oracle::closure(&c, res, &mut rep);
    rep.nontrivial = !live.is_empty();
    if !live.is_empty() {
        rep.add("tolerance_between_criteria", 1);
    }
    rep
}

/// C07
pub fn c07(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C07", i);
    let reference = i % 2 == 0;
    let mut c = if reference { lagging(&mut r) } else { gen(&mut r, &FULL) };
    c.n = c.n.clamp(11, 101);
    let slow = reference && r.chance(0.08);
    if slow {
        // hundreds to thousands of cycles until closure
        let sw = c.ws.cl_c.max(c.ws.cl_e);
        c.ws.cl_c = sw * r.log(5.0, 60.0);
        c.ws.cl_e = sw * r.log(5.0, 60.0);
        c.ode = (1e-9, 1e-9);
        c.inner = (3e-4, 1e-6);
        c.outer = (1.0, 1.0);
    }
    if !reference && r.chance(0.2) {
        // slow outer loop
        let h = r.pick(&[0usize, 1, 2]);
        let hx = [&mut c.chx, &mut c.regen, &mut c.hhx];
        let q = r.range(0.85, 0.96);
        let d = r.range(-15.0, 15.0);
        for (k, x) in hx.into_iter().enumerate() {
            if k == h {
                if let Model::Approach(a) = x.model {
                    x.model = if r.chance(0.4) {
                        // steady progress, without getting any slower
                        Model::Ladder { target: a, start: a + d, step: d.abs() / r.range(3.0, 60.0) }
                    } else {
                        Model::Settle { target: a, start: a + d, q }
                    };
                }
            }
        }
    }
    c.mi = 20_000;
    c.mo = 1500;
    rep.case = format!("{c:?}");
    let o = observe(&c, Opts { budget: Some(60_000_000), ..Opts::default() });
    rep.fp = fingerprint(&o.out);
    rep.add(format!("outcome_{}", o.out.kind()), 1);
    let groups = iterations(&o.log);
    let Some(res) = o.out.ok() else {
        if reference {
            if let (Some(a), Outcome::Err(_)) = (init_approaches(&o.log), &o.out) {
                // does the reference say that this engine's iterations do converge?
                let t = initial_temps(&c, a);
                if let Some(h) = history(&c, t, 400, 1e-9) {
                    let noise = 300.0 * (c.ode.0 + c.ode.1 * c.th.max(c.ts));
                    let tight = Case { ode: (1e-12, 1e-12), ..c };
                    if noise > 3.0 * c.inner.0.min(c.inner.1 * c.ts) && matches!(observe(&tight, Opts { budget: Some(60_000_000), ..Opts::default() }).out, Outcome::Ok(_)) {
                        // the steps of the integrator keep the cycle from settling that closely
                        rep.inconclusive("tolerance within the integrator's noise");
                        return rep;
                    }
                    if let Ok(Some(k)) = first_converged(&h, (c.inner.0 * 0.5, c.inner.1 * 0.5), noise.min(0.2 * c.inner.0).min(0.2 * c.inner.1 * c.ts)) {
                        rep.violate(format!(
                            "the run fails with the {} error although its cycles converge: cycle {} changes by {:e} K ({:e}), tolerances {:?}, budget {}",
                            o.out.kind(), k + 1, h[k].abs(), h[k].rel(), c.inner, c.mi
                        ));
                        return rep;
                    }
                }
            }
        }
        rep.inconclusive(format!("run ended in {}", o.out.kind()));
        return rep;
    };
    if groups.is_empty() {
        rep.inconclusive("no outer iteration observed");
        return rep;
    }
    // integrations per outer iteration: the last two starts of each are the sampled integration and the sampling itself
    let n: Vec<usize> = groups.iter().map(|g| g.starts.saturating_sub(2)).collect();
    let (need_i, need_o) = (*n.iter().max().unwrap(), n.len());
    rep.add("outer_iterations_observed", need_o as u64);
    rep.add("cycle_integrations_observed", o.log.starts.get());
    rep.add(format!("engines_needing_{}_inner", bucket(need_i)), 1);
    rep.add(format!("engines_needing_{}_outer", bucket(need_o)), 1);
    rep.max("inner_needed", need_i as f64);
    rep.max("outer_needed", need_o as f64);
    if reference {
        // the cycle at which the loop stopped, against the reference's successive substitution
        if let Some(a) = init_approaches(&o.log) {
            let t = initial_temps(&c, a);
            let noise = 300.0 * (c.ode.0 + c.ode.1 * c.th.max(c.ts));
            if need_o == 1 && need_i <= 400 {
                if let Some(h) = history(&c, t, need_i + 3, 1e-9) {
                    match first_converged(&h, c.inner, noise.min(0.3 * c.inner.0).min(0.3 * c.inner.1 * c.ts)) {
                        Ok(Some(k)) if k + 1 != need_i => {
                            // the run may have accepted a slightly different cycle than the reference: look at what it accepted
                            let d = (res.values.T_c[0] - h[k].tc).abs().max((res.values.T_e[0] - h[k].te).abs());
                            rep.add("stopped_at_another_cycle", 1);
                            if d > 50.0 * noise && k + 1 < need_i {
                                rep.violate(format!("cycle {} of the inner loop converges, the run went on to cycle {need_i}", k + 1));
                                return rep;
                            }
                        }
                        Ok(Some(_)) => rep.add("stopping_cycle_confirmed", 1),
                        _ => rep.add("stopping_cycle_borderline", 1),
                    }
                }
            }
        }
    }
    // budgets
    let mut tests: Vec<(usize, usize)> = vec![(need_i, need_o), (need_i - 1, need_o), (need_i, need_o - 1), (need_i - 1, need_o - 1), (0, 0), (0, 1), (1, 0), (0, need_o)];
    tests.push((need_i + 1 + r.below(50) as usize, need_o + 1 + r.below(50) as usize));
    tests.push((r.below(need_i as u64 + 3) as usize, r.below(need_o as u64 + 3) as usize));
    tests.push((usize::MAX, usize::MAX));
    tests.push((u32::MAX as usize, need_o));
    // budgets whose low bits alone would not be enough
    let bits = |r: &mut Rng| (1usize << r.pick(&[8, 15, 16, 16, 31, 32, 32, 63])) + r.pick(&[0, 0, 1]);
    tests.push((bits(&mut r), need_o));
    tests.push((need_i, bits(&mut r)));
    tests.push((bits(&mut r), bits(&mut r)));
    if need_i < 1 {
        rep.inconclusive("no inner iteration observed");
        return rep;
    }
    let k = r.below(tests.len() as u64) as usize;
    tests.rotate_left(k);
    let cost = o.log.vol_calls.get();
    tests.truncate(if cost > 3_000_000 { 2 } else if slow { 4 } else { 14 });
    for (mi, mo) in tests {
        let mut d = c;
        d.mi = mi;
        d.mo = mo;
        let expect = {
            let mut e = "ok";
            if need_o > mo {
                e = "outer";
            }
            if n.iter().take(mo).any(|&x| x > mi) {
                e = "inner";
            }
            e
        };
        let o2 = observe(&d, Opts { budget: Some(100_000_000), ..Opts::default() });
        rep.add("budget_runs", 1);
        rep.add(format!("budget_runs_expecting_{expect}"), 1);
        if matches!(o2.out, Outcome::Panic(_)) && mi > 1_000_000 {
            // reported by name: a huge budget is still a budget
            rep.violate(format!("budget ({mi}, {mo}) ends in {}", o2.out.kind()));
            return rep;
        }
        if o2.out.kind() != expect {
            rep.violate(format!(
                "with budget inner {mi}, outer {mo} the run ends in {:?} where the engine needs {n:?} inner iterations in {need_o} outer ones (expected {expect})",
                o2.out.kind()
            ));
            return rep;
        }
        if expect == "ok" && fingerprint(&o2.out) != rep.fp {
            rep.violate(format!("budget inner {mi}, outer {mo} is sufficient but gives a different result than inner {}, outer {}", c.mi, c.mo));
            return rep;
        }
        let g2 = iterations(&o2.log);
        if g2.len() > mo || g2.iter().any(|g| g.starts > mi.saturating_add(2)) {
            rep.violate(format!(
                "budget inner {mi}, outer {mo}: {} outer iterations with {:?} integrations each",
                g2.len(),
                g2.iter().map(|g| g.starts).collect::<Vec<_>>()
            ));
            return rep;
        }
    }
    // a tolerance that cannot be met uses up the budget and no more
    if i % 3 == 0 && cost < 3_000_000 {
        let b = r.pick(&[1usize, 2, 3, 7, 20, 33, 120]);
        let mut d = c;
        d.inner = (0.0, 0.0);
        d.mi = b;
        let o2 = observe(&d, Opts { budget: Some(100_000_000), ..Opts::default() });
        if o2.out.kind() != "inner" {
            rep.violate(format!("an unreachable inner tolerance ends in {}", o2.out.kind()));
        }
        let s = o2.log.starts.get() as usize;
        if s != b {
            rep.violate(format!("an unreachable inner tolerance with a budget of {b} is tried {s} times"));
        }
        let b = r.pick(&[1usize, 2, 3, 9, 21, 40]);
        let mut d = c;
        d.outer = (0.0, 0.0);
        d.mo = b;
        let o2 = observe(&d, Opts { budget: Some(100_000_000), ..Opts::default() });
        let gs = iterations(&o2.log);
        let g = gs.len();
        // further iterations may meet the integrator's noise: a spent inner budget is a reason to stop as well
        let left = o2.log.starts.get() as usize - gs.iter().map(|g| g.starts).sum::<usize>();
        if o2.out.kind() == "inner" && left == d.mi && g < b {
            rep.add("unreachable_outer_ended_by_inner_budget", 1);
        } else if o2.out.kind() != "outer" || g != b {
            rep.violate(format!("an unreachable outer tolerance with a budget of {b} ends in {} after {g} outer iterations", o2.out.kind()));
        }
        rep.add("unreachable_tolerance_runs", 2);
    }
    rep.nontrivial = need_i > 1 || need_o > 1;
    rep
}
fn bucket(n: usize) -> &'static str {
    match n {
        0..=1 => "1",
        2..=5 => "2-5",
        6..=20 => "6-20",
        21..=100 => "21-100",
        101..=300 => "101-300",
        301..=1000 => "301-1000",
        _ => "over_1000",
    }
}

/// one outer iteration as the components saw it
#[derive(Clone, Debug, Default)]
pub struct Iter {
    pub hx: [Option<HxSeen>; 3],
    pub ws: Vec<WsSeen>,
    /// times an integration (or sampling pass) over the cycle began
    pub starts: usize,
}
/// outer iterations of a run up to the extraction of results
pub fn iterations(log: &Log) -> Vec<Iter> {
    let mut v: Vec<Iter> = vec![];
    let mut cur = Iter::default();
    let mut last: Option<Iter> = None;
    for e in log.ev.borrow().iter() {
        match e {
            Ev::Extract => break,
            Ev::Init(..) => {}
            Ev::Start => cur.starts += 1,
            Ev::Ws(w) => cur.ws.push(*w),
            Ev::Hx(h) if h.q == HxQ::Approach => {
                // the same question asked again about the same iteration
                if let Some(l) = &last {
                    if cur.starts == 0 && cur.hx.iter().all(|x| x.is_none()) && l.hx[h.which as usize].is_some_and(|x| x.key() == h.key()) {
                        continue;
                    }
                }
                cur.hx[h.which as usize] = Some(*h);
                if cur.hx.iter().all(|x| x.is_some()) {
                    v.push(cur.clone());
                    last = Some(cur);
                    cur = Iter::default();
                }
            }
            Ev::Hx(_) => {}
        }
    }
    v
}
fn conv(old: f64, new: f64, tol: (f64, f64)) -> Option<bool> {
    let d = new - old;
    let m = |x: f64, lim: f64, e: f64| {
        if x < lim - e {
            Some(true)
        } else if x > lim + e {
            Some(false)
        } else {
            None
        }
    };
    let a = m(d.abs(), tol.0, 1e-10 * old.abs());
    let b = m((d / old).abs(), tol.1, 1e-10);
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn tarr(t: Temps) -> [f64; 5] {
    [t.chx, t.rc, t.ra, t.rh, t.hhx]
}
const TN: [&str; 5] = ["cold exchanger", "regenerator cold end", "regenerator average", "regenerator hot end", "hot exchanger"];
/// what each model answers for a reported state
pub fn answer(c: &Case, which: Which, s: &HxSeen) -> f64 {
    let hx = [&c.chx, &c.regen, &c.hhx][which as usize];
    match (hx.model, which) {
        (Model::Approach(a), _) => a,
        (Model::Ua(ua), Which::Regen) => {
            let cap = s.cp * s.m_dot;
            let n = ua / (2.0 * cap);
            (1.0 - n / (1.0 + n)) * (s.b - s.a)
        }
        (Model::Ua(ua), _) => {
            let cap = s.cp * s.m_dot;
            let e = 1.0 - (-ua / cap).exp();
            s.q_dot / cap * (1.0 / e - 1.0)
        }
        (m, Which::Chx) => m.next(s.temp - s.a),
        (m, Which::Hhx) => m.next(s.a - s.temp),
        (m, Which::Regen) => settle_regen(&m, s.a, s.b, s.temp),
    }
}
fn reported_states(c: &Case, res: &sett_rs::api::RunResults) -> [HxSeen; 3] {
    let f = ref_fluid(c);
    let t = oracle::temps(res);
    let p = res.pressure.avg;
    let mk = |which, temp: f64, m, q, a, b| HxSeen { which, q: HxQ::Approach, temp, pres: p, dens: f.dens(temp, p), cp: f.cp(temp, p), m_dot: m, q_dot: q, a, b, ret: f64::NAN };
    [
        mk(Which::Chx, t.chx, res.mass_flow.chx, res.heat_flow.chx, res.temperature.sink, 0.0),
        mk(Which::Regen, t.ra, res.mass_flow.regen, res.heat_flow.regen, t.chx, t.hhx),
        mk(Which::Hhx, t.hhx, res.mass_flow.hhx, res.heat_flow.hhx, res.temperature.source, 0.0),
    ]
}
/// engines whose exchangers settle at very different speeds, with tolerances cutting between them
fn settling(r: &mut Rng) -> Case {
    let mut c = gen(r, &FULL);
    let slow = r.below(4);
    let gap = (c.th - c.ts).abs();
    for (k, h) in [&mut c.chx, &mut c.regen, &mut c.hhx].into_iter().enumerate() {
        if matches!(h.model, Model::Ua(_)) && r.chance(0.5) {
            continue;
        }
        let target = match h.model {
            Model::Approach(a) => a,
            Model::Settle { target, .. } | Model::Ladder { target, .. } => target,
            Model::Ua(_) => r.range(0.5, 15.0),
        };
        let q = if slow as usize == k { r.range(0.5, 0.9) } else { r.pick(&[0.0, 0.0, 0.1, 0.4, -0.5, 0.7]) };
        let d = r.log(0.01, 0.05 * gap.min(300.0) + 0.02) * if r.chance(0.5) { 1.0 } else { -1.0 };
        h.model = if r.chance(0.25) && slow as usize != k { Model::Approach(target)
        } else if r.chance(0.2) {
            Model::Ladder { target, start: target + d, step: d.abs() / r.range(1.5, if slow as usize == k { 25.0 } else { 5.0 }) }
        } else {
            Model::Settle { target, start: target + d, q }
        };
    }
    c.n = r.pick(&[5, 11, 30, 64, 101]);
    c.ode = r.pick(&[(1e-8, 1e-8), (1e-7, 1e-7)]);
    let floor = 300.0 * (c.ode.0 + c.ode.1 * c.th.max(c.ts));
    c.inner = (floor * r.log(1.0, 10.0), floor * r.log(1.0, 10.0) / 300.0);
    let a = 5.0 * c.inner.0 * r.log(1.0, 100.0);
    c.outer = match r.below(4) {
        0 => (a, 1e3),
        1 => (1e6, a / r.log(100.0, 1500.0)),
        _ => (a, a / r.log(100.0, 1500.0)),
    };
    c
}
/// C06
pub fn c06(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C06", i);
    let c = if r.chance(0.75) { settling(&mut r) } else { gen(&mut r, &FULL) };
    rep.case = format!("{c:?}");
    let o = observe(&c, Opts::default());
    rep.fp = fingerprint(&o.out);
    rep.add(format!("outcome_{}", o.out.kind()), 1);
    let Some(res) = o.out.ok() else {
        rep.inconclusive(format!("run ended in {}", o.out.kind()));
        return rep;
    };
    let t = oracle::temps(res);
    if res.temperature.sink != c.ts || res.temperature.source != c.th {
        rep.violate(format!("reported sink {:e} and source {:e}, given {:e} and {:e}", res.temperature.sink, res.temperature.source, c.ts, c.th));
        return rep;
    }
    let (Some(init), its) = (init_approaches(&o.log), iterations(&o.log)) else {
        rep.inconclusive("initial approaches not observed");
        return rep;
    };
    if its.is_empty() {
        rep.violate("a run succeeded without asking its components for their approaches");
        return rep;
    }
    let same = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-11 * b.abs();
    // reported temperatures agree with the answers for the reported cycle, by independent formulas
    let st = reported_states(&c, res);
    let mut ans = [0.0; 3];
    for k in 0..3 {
        ans[k] = answer(&c, st[k].which, &st[k]);
    }
    let implied = tarr(initial_temps(&c, ans));
    let rp = tarr(t);
    for k in 0..5 {
        let d = (implied[k] - rp[k]).abs();
        let slack = 1e-9 * rp[k].abs() + 1e-7 * c.outer.0.min(c.outer.1 * rp[k].abs());
        rep.bound("agreement_abs", d / (c.outer.0 + slack), || {
            format!("the reported {} temperature is {:e}, the components' approaches for the reported cycle imply {:e} (outer tolerances {:?})", TN[k], rp[k], implied[k], c.outer)
        });
        rep.bound("agreement_rel", d / rp[k].abs() / (c.outer.1 + slack / rp[k].abs()), || {
            format!("the reported {} temperature is {:e}, the components' approaches for the reported cycle imply {:e} (outer tolerances {:?})", TN[k], rp[k], implied[k], c.outer)
        });
    }
    // the sequence of temperatures, rebuilt from the answers the components gave
    let mut cur = initial_temps(&c, init);
    let n = its.len();
    for (k, g) in its.iter().enumerate() {
        let [Some(a), Some(b), Some(e)] = g.hx else { unreachable!() };
        let next = initial_temps(&c, [a.ret, b.ret, e.ret]);
        let all: Vec<Option<bool>> = (0..5).map(|j| conv(tarr(cur)[j], tarr(next)[j], c.outer)).collect();
        let agree = if all.iter().any(|x| *x == Some(false)) {
            Some(false)
        } else if all.iter().any(|x| x.is_none()) {
            None
        } else {
            Some(true)
        };
        if k + 1 < n && agree == Some(true) {
            rep.violate(format!("outer iteration {} of {n} agrees with all approaches within {:?} but the run went on", k + 1, c.outer));
            return rep;
        }
        if k + 1 == n {
            if agree == Some(false) {
                let j = all.iter().position(|x| *x == Some(false)).unwrap();
                rep.violate(format!(
                    "the run stopped at outer iteration {n} where the {} temperature is {:e} and the approaches imply {:e} (tolerances {:?})",
                    TN[j], tarr(cur)[j], tarr(next)[j], c.outer
                ));
                return rep;
            }
            for j in 0..5 {
                if !same(rp[j], tarr(cur)[j]) {
                    rep.violate(format!("the reported {} temperature is {:e}, the converged iteration has {:e}", TN[j], rp[j], tarr(cur)[j]));
                    return rep;
                }
            }
        } else {
            let late = all.iter().filter(|x| **x == Some(false)).count();
            if late < 5 {
                rep.add(format!("iterations_with_only_{late}_of_5_unsettled"), 1);
            }
        }
        cur = next;
    }
    rep.add("outer_iterations_observed", n as u64);
    rep.max("outer_iterations", n as f64);
    rep.nontrivial = n > 1;
    rep
}

/// C22
pub fn c22(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C22", i);
    let mut c = if r.chance(0.7) { settling(&mut r) } else { gen(&mut r, &FULL) };
    c.solver = r.pick(&[Solver::Lu, Solver::Qr]);
    c.n = c.n.clamp(11, 201);
    let dep = if r.chance(0.6) {
        Dep { on: true, p0: c.p0, f: r.range(-0.05, 0.05), cl: r.range(0.0, 0.1), res: r.range(-0.1, 0.1), par: r.range(-0.2, 0.2) }
    } else {
        Dep::default()
    };
    rep.case = format!("{c:?} {dep:?}");
    let o = observe(&c, Opts { dep, ..Opts::default() });
    rep.fp = fingerprint(&o.out);
    rep.add(format!("outcome_{}", o.out.kind()), 1);
    let Some(res) = o.out.ok() else {
        rep.inconclusive(format!("run ended in {}", o.out.kind()));
        return rep;
    };
    let its = iterations(&o.log);
    let Some(init) = init_approaches(&o.log) else {
        rep.inconclusive("initial approaches not observed");
        return rep;
    };
    if its.is_empty() {
        rep.inconclusive("no outer iteration observed");
        return rep;
    }
    let f = ref_fluid(&c);
    let mut cur = initial_temps(&c, init);
    let mut seen_p: [f64; 4] = [c.p0; 4];
    let same = |a: f64, b: f64, rel: f64| a == b || (a - b).abs() <= rel * a.abs().max(b.abs());
    let n = its.len();
    let pick = r.below(n as u64) as usize;
    for (k, g) in its.iter().enumerate() {
        let [Some(a), Some(b), Some(e)] = g.hx else { unreachable!() };
        let want = [(cur.chx, c.ts, 0.0), (cur.ra, cur.chx, cur.hhx), (cur.hhx, c.th, 0.0)];
        for (h, w) in [a, b, e].iter().zip(want) {
            let nm = ["cold exchanger", "regenerator", "hot exchanger"][h.which as usize];
            for (what, got, exp) in [("temperature", h.temp, w.0), ("adjoining temperature", h.a, w.1), ("other adjoining temperature", h.b, w.2), ("density", h.dens, f.dens(h.temp, h.pres)), ("cp", h.cp, f.cp(h.temp, h.pres)), ("pressure", h.pres, a.pres)] {
                if !same(got, exp, 1e-11) {
                    rep.violate(format!("in outer iteration {} of {n} the {nm} is shown a {what} of {got:e}, the engine's is {exp:e}", k + 1));
                    return rep;
                }
            }
        }
        // working spaces see the previous cycle's pressures
        for w in &g.ws {
            let ok = if k == 0 { w.pres == [c.p0; 4] } else { same(w.pres[0], seen_p[0], 1e-12) && w.pres[3] == c.p0 && w.pres[1] >= w.pres[0] && w.pres[2] <= w.pres[0] };
            if !ok {
                rep.violate(format!("in outer iteration {} of {n} the working spaces ({:?}) are shown pressures {:?}, the previous cycle's average is {:e}", k + 1, w.q, w.pres, seen_p[0]));
                return rep;
            }
            rep.add("working_space_questions", 1);
        }
        if !g.ws.windows(2).all(|w| w[0].pres == w[1].pres) {
            rep.violate(format!("in outer iteration {} the working spaces are shown different pressures", k + 1));
            return rep;
        }
        // the mean values, against a separate run held at this iteration's temperatures
        if k == pick || k + 1 == n {
            let (p, m, q, ws_p);
            if k + 1 == n {
                p = res.pressure.avg;
                m = [res.mass_flow.chx, res.mass_flow.regen, res.mass_flow.hhx];
                q = [res.heat_flow.chx, res.heat_flow.regen, res.heat_flow.hhx];
                ws_p = None;
                for (j, h) in [a, b, e].iter().enumerate() {
                    for (what, got, exp) in [("pressure", h.pres, p), ("mass flow", h.m_dot, m[j]), ("heat flow", h.q_dot, q[j])] {
                        if !same(got, exp, 1e-11) {
                            rep.violate(format!("in the converged iteration the {:?} is shown a {what} of {got:e}, the cycle's is {exp:e}", h.which));
                            return rep;
                        }
                    }
                }
            } else {
                let mut d = c;
                let at = g.ws.first().map_or(seen_p, |w| w.pres);
                d.ws = dep.at(&c.ws, at);
                d.chx.model = Model::Approach(cur.chx - c.ts);
                d.hhx.model = Model::Approach(c.th - cur.hhx);
                d.regen.model = Model::Approach(cur.rc - cur.chx);
                let o2 = observe(&d, Opts::default());
                let Some(r2) = o2.out.ok() else {
                    rep.add("iteration_not_reproduced", 1);
                    cur = initial_temps(&c, [a.ret, b.ret, e.ret]);
                    seen_p = [a.pres; 4];
                    continue;
                };
                ws_p = its.get(k + 1).and_then(|g| g.ws.first()).map(|w| w.pres);
                let (ms, qs) = oracle::flow_scales(&d, r2);
                let tol = 3.0 * (c.inner.0.min(c.inner.1 * c.ts) / c.ts) + 2000.0 * (c.ode.1 + c.ode.0 / 200.0) + 1e-7;
                for (j, h) in [a, b, e].iter().enumerate() {
                    let m2 = [r2.mass_flow.chx, r2.mass_flow.regen, r2.mass_flow.hhx][j];
                    let q2 = [r2.heat_flow.chx, r2.heat_flow.regen, r2.heat_flow.hhx][j];
                    for (what, got, exp, sc) in [("pressure", h.pres, r2.pressure.avg, c.p0), ("mass flow", h.m_dot, m2, ms), ("heat flow", h.q_dot, q2, qs)] {
                        rep.bound("intermediate_state", (got - exp).abs() / (sc * tol), || {
                            format!("in outer iteration {} of {n} the {:?} is shown a mean {what} of {got:e}, that iteration's cycle has {exp:e}", k + 1, h.which)
                        });
                    }
                }
                if let Some(wp) = ws_p {
                    for (j, exp) in [r2.pressure.avg, r2.pressure.max, r2.pressure.min, r2.pressure.t_zero].iter().enumerate() {
                        rep.bound("intermediate_pressures", (wp[j] - exp).abs() / (c.p0 * tol), || {
                            format!("after outer iteration {} of {n} the working spaces are shown pressures {wp:?}, that cycle has {:?}", k + 1, r2.pressure)
                        });
                    }
                }
                if rep.violated() {
                    return rep;
                }
                rep.add("intermediate_iterations_reproduced", 1);
            }
        }
        rep.add("states_checked", 3);
        seen_p = [a.pres; 4];
        cur = initial_temps(&c, [a.ret, b.ret, e.ret]);
    }
    // extraction sees the final state
    let st = reported_states(&c, res);
    let fin = [res.pressure.avg, res.pressure.max, res.pressure.min, res.pressure.t_zero];
    let mut ex = false;
    for ev in o.log.ev.borrow().iter() {
        match ev {
            Ev::Extract => ex = true,
            Ev::Ws(w) if ex => {
                if w.pres != fin {
                    rep.violate(format!("when results are extracted the working spaces ({:?}) are shown pressures {:?}, the final cycle has {fin:?}", w.q, w.pres));
                    return rep;
                }
                rep.add("extraction_questions", 1);
            }
            Ev::Hx(h) if ex => {
                let s = &st[h.which as usize];
                for (what, got, exp) in [("temperature", h.temp, s.temp), ("pressure", h.pres, s.pres), ("density", h.dens, s.dens), ("cp", h.cp, s.cp), ("mass flow", h.m_dot, s.m_dot), ("heat flow", h.q_dot, s.q_dot), ("adjoining temperature", h.a, s.a), ("adjoining temperature", h.b, s.b)] {
                    if !same(got, exp, 1e-11) {
                        rep.violate(format!("when results are extracted the {:?} ({:?}) is shown a {what} of {got:e}, the final cycle has {exp:e}", h.which, h.q));
                        return rep;
                    }
                }
                rep.add("extraction_questions", 1);
            }
            _ => {}
        }
    }
    rep.add("outer_iterations_observed", n as u64);
    rep.nontrivial = n > 1;
    rep
}
pub fn checks() -> Vec<Check> {
    let mk = |id, quick, thorough, run| Check { id, quick, thorough, run, post: None };
    vec![mk("C05", 3000, 60000, c05 as fn(&Ctx, u64) -> Report), mk("C06", 3000, 60000, c06), mk("C07", 600, 12000, c07), mk("C22", 2500, 50000, c22)]
}
