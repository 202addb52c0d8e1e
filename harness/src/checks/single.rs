//! Oracles on one observed run: C01 C02 C03 C04 C05 C09 C10 C11.
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::oracle;
use crate::rng::Rng;
use crate::verdict::{Report, Verdict};
use sett_rs::api::RunResults;

fn with(id: &'static str, ctx: &Ctx, i: u64, tweak: fn(&mut Rng, &mut Case), f: fn(&Case, &RunResults, &mut Report)) -> Report {
    let mut r = Rng::new(ctx.seed, id, i);
    let mut c = gen(&mut r, &FULL);
    tweak(&mut r, &mut c);
    let mut rep = Report::new();
    rep.case = format!("{c:?}");
    let o = observe(&c, Opts::default());
    rep.fp = fingerprint(&o.out);
    rep.add(format!("outcome_{}", o.out.kind()), 1);
    rep.add("derivative_evaluations_observed", o.log.vol_calls.get());
    rep.add(format!("solver_{:?}", c.solver), 1);
    match &o.out {
        Outcome::Ok(res) => {
            if !oracle::same_lengths(res) || res.values.time.is_empty() {
                if id == "C04" {
                    rep.violate("reported series have different lengths");
                } else {
                    rep.inconclusive("reported series have different lengths");
                }
                return rep;
            }
            f(&c, res, &mut rep);
            if rep.violated() && (id == "C03" || id == "C11") {
                // cumulative sums carry sampling error: judge the same engine again, sampled much more finely
                let mut c2 = c;
                c2.n = 40 * (c.n - 1).clamp(50, 1000) + 1;
                let mut fine = Report::new();
                match observe(&c2, Opts::default()).out {
                    Outcome::Ok(res) if oracle::same_lengths(&res) => f(&c2, &res, &mut fine),
                    _ => {}
                }
                rep.add("judged_again_finely_sampled", 1);
                if !fine.violated() {
                    rep.verdict = Verdict::Held;
                }
                rep.known.append(&mut fine.known);
            }
        }
        e => rep.inconclusive(format!("run ended in {}", e.kind())),
    }
    rep
}
fn c01(ctx: &Ctx, i: u64) -> Report {
    with("C01", ctx, i, |_, _| {}, oracle::balances)
}
fn c02(ctx: &Ctx, i: u64) -> Report {
    let mut rep = with("C02", ctx, i, |r, c| c.n = r.pick(&[5, 9, 17, 30, 50, 101, 5, 9, 17, 30, 50, 101, 257, 401, 1001]), |c, res, rep| {
        let Some((e, _, what)) = oracle::trajectory_error(c, res, oracle::reference_tol(c)) else {
            rep.inconclusive("reference integration did not complete");
            return;
        };
        rep.max("error_in_requested_tolerances", e);
        rep.add("instants_checked", res.values.time.len() as u64);
        if !(e < oracle::ODE_MULT) {
            // An error-controlled integrator may misjudge single steps: what is required is that the error
            // belongs to the requested tolerance, so that it goes away when the tolerance is tightened.
            rep.add("judged_again_with_tighter_tolerances", 1);
            let mut c2 = *c;
            c2.ode = ((c.ode.0 * 1e-2).max(1e-12), (c.ode.1 * 1e-2).max(1e-12));
            let e2 = match observe(&c2, Opts::default()).out {
                // errors of the tighter run in units of the looser tolerances
                Outcome::Ok(r2) => oracle::trajectory_error(&Case { ode: c.ode, ..c2 }, &r2, oracle::reference_tol(&c2)).map(|x| x.0),
                _ => None,
            };
            match e2 {
                Some(e2) if e2 < 0.2 * e && e2 < oracle::ODE_MULT && e < 500.0 * oracle::ODE_MULT => {}
                None => rep.inconclusive("could not be judged with tighter tolerances"),
                _ => rep.violate(format!("error of {e:.2e} times the requested tolerance: {what}")),
            }
        }
        let v = &res.values;
        let sw = (oracle::maxabs(&v.T_c) - v.T_c[0]).abs() + (oracle::maxabs(&v.T_e) - v.T_e[0]).abs();
        rep.nontrivial |= v.time.len() > 3 && sw > 1.0;
    });
    if rep.violated() || i % 2 == 1 {
        return rep;
    }
    // the accuracy follows the tolerances all the way down
    let mut r = Rng::new(ctx.seed, "C02", i);
    let mut c = gen(&mut r, &FULL).single_shot();
    c.n = r.pick(&[9, 9, 9, 2, 33, 300, 1000]);
    let mut err = |tol: f64| {
        let mut c = c;
        c.ode = (tol, tol);
        match observe(&c, Opts::default()).out {
            Outcome::Ok(res) => oracle::trajectory_error(&c, &res, (tol * 0.05).max(1e-13)).map(|(_, rel, what)| (rel, what)),
            _ => None,
        }
    };
    for tol in [1e-5, 1e-8] {
        if let Some((e, _)) = err(tol) {
            rep.max(format!("single_cycle_error_at_{tol:e}"), e / tol);
            rep.val(format!("ladder_{tol:e}"), e / tol);
        }
    }
    if let Some((e, what)) = err(1e-11) {
        rep.max("single_cycle_error_at_1e-11", e / 1e-11);
        rep.val("ladder_1e-11", e / 1e-11);
        rep.add("tightest_tolerance_cycles_checked", 1);
        if !(e < if c.solver == Solver::Svd { 1e-5 } else { 1e-7 }) {
            // a mistake of the step control goes away with still tighter tolerances, a fixed accuracy does not
            match err(1e-13) {
                Some((e2, _)) if e2 < 0.2 * e => {}
                None => {}
                _ => rep.violate(format!("relative error of {e:.2e} with the ODE tolerances at 1e-11: {what}")),
            }
        }
    }
    rep
}
/// accuracy over the whole set of cases
fn c02_post(a: &Agg) -> Option<String> {
    for (tol, _) in [("1e-5", 1), ("1e-8", 1), ("1e-11", 1)] {
        let mut v = a.vals.get(&format!("ladder_{tol}"))?.clone();
        if v.len() < 40 {
            return None;
        }
        v.sort_by(|a, b| a.total_cmp(b));
        let m = v[v.len() / 2];
        if m > 700.0 {
            return Some(format!("with both ODE tolerances at {tol} the median relative error of a cycle is {m:.0} times the tolerance ({} cycles)", v.len()));
        }
    }
    None
}
fn c03(ctx: &Ctx, i: u64) -> Report {
    with("C03", ctx, i, |r, c| if r.chance(0.7) { c.n = r.pick(&[101, 201, 401, 801, 1601]) }, oracle::inventory)
}
fn c04(ctx: &Ctx, i: u64) -> Report {
    if i % 12 == 5 {
        return too_few(ctx, i);
    }
    with("C04", ctx, i, |r, c| if r.chance(0.01) { c.n = r.log(3e4, 3e5) as u32 }, |c, res, rep| {
        rep.nontrivial |= res.values.time.len() > 3;
        oracle::grid(c, res, rep)
    })
}
/// fewer than two points cannot sample a cycle
fn too_few(ctx: &Ctx, i: u64) -> Report {
    let mut r = Rng::new(ctx.seed, "C04", i);
    let mut c = gen(&mut r, &FULL);
    c.n = r.below(2) as u32;
    let mut rep = Report::new();
    rep.case = format!("{c:?}");
    let o = observe(&c, Opts::default());
    match &o.out {
        Outcome::Err(_) => {}
        o => rep.violate(format!("a request for {} points ended in {}", c.n, o.kind())),
    }
    rep.add("requests_for_fewer_than_two_points", 1);
    rep.fp = Rng::new(ctx.seed, "C04", i).below(u64::MAX);
    rep.nontrivial = true;
    rep
}
fn c09(ctx: &Ctx, i: u64) -> Report {
    with("C09", ctx, i, |_, _| {}, oracle::averages)
}
fn c10(ctx: &Ctx, i: u64) -> Report {
    with("C10", ctx, i, |_, _| {}, oracle::powers)
}
fn c11(ctx: &Ctx, i: u64) -> Report {
    with("C11", ctx, i, |_, _| {}, oracle::heats)
}
pub fn checks() -> Vec<Check> {
    let mk = |id, run| Check { id, quick: 3000, thorough: 60000, run, post: if id == "C02" { Some(c02_post) } else { None } };
    vec![mk("C01", c01), mk("C02", c02), mk("C03", c03), mk("C04", c04), mk("C09", c09), mk("C10", c10), mk("C11", c11)]
}
