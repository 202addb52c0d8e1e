//! C15 and C16: configuration files in every format, their corruptions, and the legacy layout.
#![allow(non_snake_case)]
use super::props::probe;
use crate::case::*;
use crate::driver::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::refmodel::volumes;
use crate::rng::Rng;
use crate::verdict::Report;
use config::FileFormat;
use serde::de::DeserializeOwned;
use sett_rs::api::RunResults;
use sett_rs::fluid::IdealGas;
use sett_rs::types::*;
use sett_rs::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// a document, before it is written in some format
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(f64),
    U(u64),
    I(i64),
    S(String),
    L(Vec<V>),
    M(Vec<(String, V)>),
}
use V::*;
fn m(v: Vec<(&str, V)>) -> V {
    M(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn s(x: &str) -> V {
    S(x.into())
}
/// one of the spellings of a number; all denote exactly `x`
fn number(r: &mut Rng, x: f64) -> String {
    let c = match r.below(5) {
        0 if x == x.trunc() && x.abs() < 1e12 => format!("{x:.0}"),
        1 if x.abs() > 1e-9 && x.abs() < 1e12 => format!("{x}"),
        2 => format!("{x:e}").replace('e', "E"),
        3 => {
            let t = format!("{x:e}");
            if t.contains("e-") {
                t
            } else {
                t.replace('e', "e+")
            }
        }
        _ => format!("{x:?}"),
    };
    c
}
fn shuffle(r: &mut Rng, v: &V) -> V {
    match v {
        M(f) => {
            let mut f: Vec<_> = f.iter().map(|(k, v)| (k.clone(), shuffle(r, v))).collect();
            for j in (1..f.len()).rev() {
                f.swap(j, r.below(j as u64 + 1) as usize);
            }
            M(f)
        }
        v => v.clone(),
    }
}
fn json(r: &mut Rng, v: &V) -> String {
    match v {
        N(x) if x.is_infinite() => format!("\"{}\"", if *x > 0.0 { "inf" } else { "-inf" }),
        N(x) => number(r, *x),
        U(x) => x.to_string(),
        I(x) => x.to_string(),
        S(x) => format!("{x:?}"),
        L(l) => format!("[{}]", l.iter().map(|v| json(r, v)).collect::<Vec<_>>().join(", ")),
        M(f) => {
            let sep = r.pick(&[", ", ",\n  "]);
            format!("{{ {} }}", f.iter().map(|(k, v)| format!("\"{k}\": {}", json(r, v))).collect::<Vec<_>>().join(sep))
        }
    }
}
fn toml_leaf(r: &mut Rng, v: &V) -> String {
    match v {
        N(x) if x.is_infinite() => (if *x > 0.0 { "inf" } else { "-inf" }).into(),
        M(f) => format!("{{ {} }}", f.iter().map(|(k, v)| format!("{k} = {}", toml_leaf(r, v))).collect::<Vec<_>>().join(", ")),
        L(l) => format!("[{}]", l.iter().map(|v| toml_leaf(r, v)).collect::<Vec<_>>().join(", ")),
        v => json(r, v),
    }
}
fn toml(r: &mut Rng, v: &V, path: &str, out: &mut String) {
    let M(f) = v else { return };
    let mut sections = vec![];
    for (k, v) in f {
        let deep = matches!(v, M(_)) && !(matches!(v, M(x) if x.iter().all(|(_, v)| !matches!(v, M(_)))) && r.chance(0.3));
        if deep {
            sections.push((k, v));
        } else {
            out.push_str(&format!("{k} = {}", toml_leaf(r, v)));
            out.push_str(r.pick(&["\n", "\n", " # a comment\n"]));
        }
    }
    for (k, v) in sections {
        let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
        out.push_str(&format!("\n[{p}]\n"));
        toml(r, v, &p, out);
    }
}
fn yaml(r: &mut Rng, v: &V, indent: usize, out: &mut String) {
    let M(f) = v else { return };
    for (k, v) in f {
        let pad = " ".repeat(indent);
        match v {
            M(x) if x.is_empty() => out.push_str(&format!("{pad}{k}: {{}}\n")),
            M(_) => {
                out.push_str(&format!("{pad}{k}:\n"));
                yaml(r, v, indent + 2, out);
            }
            N(x) if x.is_infinite() => out.push_str(&format!("{pad}{k}: {}\n", if *x > 0.0 { "inf" } else { "-inf" })), // YAML's .inf is not read by the config crate
            S(x) if r.chance(0.5) && x.chars().all(|c| c.is_alphanumeric() || c == '_') => out.push_str(&format!("{pad}{k}: {x}\n")),
            v => out.push_str(&format!("{pad}{k}: {}\n", json(r, v))),
        }
    }
}
pub const FORMATS: [(&str, FileFormat); 3] = [("toml", FileFormat::Toml), ("json", FileFormat::Json), ("yaml", FileFormat::Yaml)];
pub fn write(r: &mut Rng, v: &V, f: &str) -> String {
    let v = shuffle(r, v);
    let mut out = String::new();
    match f {
        "toml" => toml(r, &v, "", &mut out),
        "yaml" => yaml(r, &v, 0, &mut out),
        _ => out = json(r, &v),
    }
    out
}
pub fn parse<T: DeserializeOwned>(text: &str, f: FileFormat) -> Result<T, String> {
    let b = config::Config::builder().add_source(config::File::from_str(text, f)).build().map_err(|e| format!("unreadable: {e}"))?;
    b.try_deserialize::<T>().map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- documents of the modern and the legacy layout
fn tol(t: (f64, f64)) -> V {
    m(vec![("abs", N(t.0)), ("rel", N(t.1))])
}
fn ws_doc(w: &Ws) -> (&'static str, &'static str, V) {
    let mut f = vec![
        ("frequency", N(w.f)),
        ("V_clearance_c", N(w.cl_c)),
        ("R_c", N(w.r_c)),
        ("W_parasitic_c", N(w.pc.me)),
        ("V_clearance_e", N(w.cl_e)),
        ("R_e", N(w.r_e)),
        ("W_parasitic_e", N(w.pe.me)),
        ("Q_parasitic_e", N(w.pe.th)),
    ];
    match w.drive {
        Drive::Rhombic { r, l, e, dp, dd } => {
            f.extend([("r_crank", N(r)), ("L_conn", N(l)), ("eccentricity", N(e)), ("D_p", N(dp)), ("D_d", N(dd))]);
            ("rhombic", "Rhombic", m(f))
        }
        Drive::Sin { phase, sw_c, sw_e } | Drive::Harm { phase, sw_c, sw_e, .. } => {
            f.extend([("phase_angle", N(phase)), ("V_swept_c", N(sw_c)), ("V_swept_e", N(sw_e))]);
            ("sinusoidal", "Sinusoidal", m(f))
        }
    }
}
fn hx_doc(h: &Hx, which: Which) -> (&'static str, &'static str, V) {
    let mut f = vec![("vol", N(h.vol)), ("R_hyd", N(h.rhyd))];
    if which != Which::Regen {
        f.push(("W_parasitic", N(h.par.me)));
    }
    if which != Which::Chx {
        f.push(("Q_parasitic", N(h.par.th)));
    }
    match h.model {
        Model::Ua(x) => {
            f.push(("UA", N(x)));
            ("fixed_conductance", "FixedConductance", m(f))
        }
        Model::Approach(x) | Model::Settle { target: x, .. } | Model::Ladder { target: x, .. } => {
            f.push(("DT", N(x)));
            ("fixed_approach", "FixedApproach", m(f))
        }
    }
}
/// the modern document given the sections of the components and the fluid
fn modern_doc(c: &Case, fluid: (&str, &str), comps: [(&str, V); 4], iters: (u64, u64)) -> V {
    let [ws, chx, regen, hhx] = comps;
    let one = |(k, v): (&str, V)| M(vec![(k.to_string(), v)]);
    m(vec![
        (
            "engine",
            m(vec![
                ("fluid", one((fluid.0, m(vec![("model", s(fluid.1))])))),
                ("components", m(vec![("chx", one(chx)), ("hhx", one(hhx)), ("regen", one(regen)), ("ws", one(ws))])),
            ]),
        ),
        (
            "solver",
            m(vec![
                ("inner_loop", m(vec![("tolerance", tol(c.inner)), ("max_iterations", U(iters.0))])),
                ("outer_loop", m(vec![("tolerance", tol(c.outer)), ("max_iterations", U(iters.1))])),
                ("ode", m(vec![("tolerance", tol(c.ode)), ("num_timesteps", U(u64::from(c.n)))])),
            ]),
        ),
        ("conditions", m(vec![("temp_sink", N(c.ts)), ("temp_source", N(c.th)), ("pres_zero", N(c.p0))])),
    ])
}
fn legacy_doc(c: &Case, fluid: V, comps: [(&str, V); 4]) -> V {
    let [ws, chx, regen, hhx] = comps;
    let one = |(k, v): (&str, V)| m(vec![("model", s(k)), ("params", v)]);
    m(vec![
        ("fluid", fluid),
        ("ws", one(ws)),
        ("chx", one(chx)),
        ("regen", one(regen)),
        ("hhx", one(hhx)),
        (
            "solver",
            m(vec![
                ("innerLoopTolerance", tol(c.inner)),
                ("outerLoopTolerance", tol(c.outer)),
                ("odeTolerance", tol(c.ode)),
                ("odeSolver", s("ode45")),
                ("timeResolution", U(u64::from(c.n))),
            ]),
        ),
        ("conditions", m(vec![("T_cold", N(c.ts)), ("T_hot", N(c.th)), ("P_0", N(c.p0))])),
    ])
}
fn fluid_name(c: &Case) -> (&'static str, &'static str) {
    if c.fluid.base == FluidSpec::He {
        ("helium", "Helium")
    } else {
        ("hydrogen", "Hydrogen")
    }
}
/// a supported engine with numbers that every format reads alike
pub fn supported(r: &mut Rng) -> Case {
    let mut c = gen(r, &BUILTIN);
    c.n = r.pick(&[2, 3, 5, 10, 30, 31, 64, 101, 200]);
    c.mi = r.pick(&[20, 100, 300, 7, 2, 600]);
    c.mo = r.pick(&[20, 50, 5, 1, 150]);
    // let values differ from one another, so that none can stand in for another
    for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
        h.par.el = 0.0;
    }
    c.chx.par.th = 0.0;
    c.regen.par.me = 0.0;
    c.ws.pc.th = 0.0;
    shorten(r, &mut c);
    c
}
/// A configuration whose values are far from those of an engine one would build: for what is read, not for running it.
fn outlandish(r: &mut Rng, c: &mut Case, components: bool) {
    let mut w = |x: &mut f64, lo: f64, hi: f64| {
        if r.chance(0.4) {
            *x = r.log(lo, hi);
        }
    };
    for t in [&mut c.inner, &mut c.outer, &mut c.ode] {
        w(&mut t.0, 1e-13, 1e6);
        w(&mut t.1, 1e-13, 1e3);
    }
    w(&mut c.p0, 1.0, 1e10);
    w(&mut c.ts, 2.0, 4000.0);
    w(&mut c.th, 2.0, 4000.0);
    for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
        w(&mut h.vol, 1e-12, 1e3);
        w(&mut h.rhyd, 1e-9, 1e15);
        if let Model::Approach(x) = &mut h.model {
            w(x, 1e-6, 1e5);
        }
    }
    w(&mut c.chx.par.me, 1e-9, 1e9);
    w(&mut c.regen.par.th, 1e-9, 1e9);
    w(&mut c.hhx.par.me, 1e-9, 1e9);
    w(&mut c.hhx.par.th, 1e-9, 1e9);
    w(&mut c.ws.pc.me, 1e-9, 1e9);
    w(&mut c.ws.pe.me, 1e-9, 1e9);
    w(&mut c.ws.pe.th, 1e-9, 1e9);
    w(&mut c.ws.r_c, 1e-9, 1e9);
    w(&mut c.ws.r_e, 1e-9, 1e9);
    if components {
        for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
            if let Model::Ua(x) = &mut h.model {
                w(x, 1e-9, 1e12);
            }
        }
        w(&mut c.ws.f, 1e-6, 1e6);
        w(&mut c.ws.cl_c, 1e-12, 1e3);
        w(&mut c.ws.cl_e, 1e-12, 1e3);
        match &mut c.ws.drive {
            Drive::Sin { phase, sw_c, sw_e } => {
                w(phase, 1e-3, 1e6);
                w(sw_c, 1e-12, 1e3);
                w(sw_e, 1e-12, 1e3);
            }
            Drive::Rhombic { r, l, e, dp, dd } => {
                for x in [r, l, e, dp, dd] {
                    w(x, 1e-9, 1e3);
                }
            }
            Drive::Harm { .. } => {}
        }
    }
    if r.chance(0.3) {
        c.n = r.log(1.0, 4e9) as u32;
    }
    if r.chance(0.3) {
        c.mi = r.log(1.0, 4e9) as usize;
        c.mo = r.log(1.0, 4e9) as usize;
    }
    shorten(r, c);
}
pub fn docs(c: &Case) -> (V, V) {
    let (w, x, y, z) = (ws_doc(&c.ws), hx_doc(&c.chx, Which::Chx), hx_doc(&c.regen, Which::Regen), hx_doc(&c.hhx, Which::Hhx));
    let f = fluid_name(c);
    let modern = modern_doc(
        c,
        (f.0, "ideal_gas"),
        [(w.0, w.2.clone()), (x.0, x.2.clone()), (y.0, y.2.clone()), (z.0, z.2.clone())],
        (c.mi as u64, c.mo as u64),
    );
    let fl = m(vec![("model", s("IdealGas")), ("params", m(vec![("name", s(f.1))]))]);
    (modern, legacy_doc(c, fl, [(w.1, w.2), (x.1, x.2), (y.1, y.2), (z.1, z.2)]))
}

// ---------------------------------------------------------------- models that can be named but not run
fn schema(section: &str, model: &str) -> &'static [&'static str] {
    match (section, model) {
        ("ws", "GPU3") => &["frequency", "V_clearance_c", "R_c", "V_clearance_e", "R_e", "r_crank", "L_conn", "eccentricity", "D", "D_dr", "L", "h"],
        ("ws", "Mod2") => &[
            "frequency", "phaseAngle", "D", "h", "L", "stroke", "V_clearance_c", "R_c", "V_clearance_e", "R_e", "material_p:M", "material_c:M", "th_pw", "th_cw", "L_cond", "e",
        ],
        ("chx", "GPU3") => &[
            "length_total", "length_ht", "D_inner", "D_outer", "N_total:U", "N_shell:U", "D_sh", "Ac_d", "roughness", "vol_h", "m_dot_w", "coolant:W", "m_dot_a", "UA_a", "W_parasitic",
        ],
        ("chx", "Mod2") => &[
            "geometry.tubes.length", "geometry.tubes.length_ht", "geometry.tubes.D_outer", "geometry.tubes.D_inner", "geometry.tubes.N_total:U", "geometry.tubes.roughness",
            "geometry.tubes.material:M", "geometry.shell.R_inner", "geometry.shell.V_header", "geometry.shell.Ac_header", "m_dot_p_fs", "W_dot_p_fs", "n_fs", "fluid:W", "correlation:C",
        ],
        ("regen", "GPU3") => &[
            "geometry.vol_h", "geometry.mesh.material:M", "geometry.mesh.D_wire", "geometry.mesh.pitch", "geometry.shell.diameter", "geometry.shell.length", "geometry.shell.number:U",
            "Q_parasitic", "bypass", "correlationf:G", "correlationj:G",
        ],
        ("regen", "Mod2") => &[
            "geometry.mesh.material:M", "geometry.mesh.D_wire", "geometry.mesh.pitch", "geometry.shell.material:M", "geometry.shell.R_sh", "geometry.shell.th_sh_cold",
            "geometry.shell.th_sh_hot", "geometry.shell.length", "correlationtype:C", "correlationf:G", "correlationj:G",
        ],
        ("hhx", "GPU3") => &["L_total", "L_htr", "R_tc", "D_outer", "D_inner", "roughness", "N_total:U", "vol_h", "eta_comb", "R_c_loss", "W_parasitic"],
        ("hhx", "Mod2") => &[
            "geometry.tubes.L_front", "geometry.tubes.L_rear", "geometry.tubes.L_inactive", "geometry.tubes.D_outer", "geometry.tubes.D_inner", "geometry.tubes.roughness",
            "geometry.tubes.N_total:U", "geometry.tubes.materialtube:M", "geometry.tubes.materialfin:M", "geometry.shell.R_outer", "geometry.shell.R_inner", "geometry.shell.V_header",
            "geometry.fins.thickness", "geometry.fins.pitch", "geometry.fins.L_fin", "correlation:C",
        ],
        ("hhx", _) => &["R_f", "L_f", "R_regen", "D_outer", "D_inner", "k_f", "roughness", "N_total:U", "vol_h", "R_ins", "W_parasitic"],
        _ => &[],
    }
}
fn put(v: &mut V, path: &[&str], x: V) {
    let M(f) = v else { return };
    let k = path[0];
    let at = f.iter().position(|(n, _)| n == k).unwrap_or_else(|| {
        f.push((k.to_string(), M(vec![])));
        f.len() - 1
    });
    if path.len() == 1 {
        f[at].1 = x;
    } else {
        put(&mut f[at].1, &path[1..], x);
    }
}
fn unrunnable(r: &mut Rng, section: &str, model: &str) -> V {
    let mut v = M(vec![]);
    for f in schema(section, model) {
        let (p, t) = f.split_once(':').unwrap_or((f, "N"));
        let x = match t {
            "U" => U(1 + r.below(5000)),
            "M" => s(r.pick(&["SS304", "Multimet", "StainlessSteel"])),
            "W" => s("Water"),
            "C" => s(r.pick(&["Steady", "Oscillating"])),
            "G" => s("GedeonWood"),
            _ => {
                let x = r.log(1e-6, 1e5);
                let x = r.short(x);
                N(if (p == "R_c" || p == "R_e") && r.chance(0.5) { f64::INFINITY } else { x })
            }
        };
        put(&mut v, &p.split('.').collect::<Vec<_>>(), x);
    }
    v
}
/// modern and legacy name of a model that is not implemented
const NAMES: [(&str, &str, &str); 10] = [
    ("ws", "g_p_u3", "GPU3"),
    ("ws", "mod2", "Mod2"),
    ("chx", "g_p_u3", "GPU3"),
    ("chx", "mod2", "Mod2"),
    ("regen", "g_p_u3", "GPU3"),
    ("regen", "mod2", "Mod2"),
    ("hhx", "g_p_u3", "GPU3"),
    ("hhx", "mod2", "Mod2"),
    ("hhx", "g_p_u3_n_i", "GPU3NI"),
    ("hhx", "mod2_n_i", "Mod2NI"),
];

// ---------------------------------------------------------------- corruptions
/// every path of the document, sections included
fn paths(v: &V, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if let M(f) = v {
        for (k, v) in f {
            at.push(k.clone());
            out.push(at.clone());
            paths(v, at, out);
            at.pop();
        }
    }
}
fn edit(v: &mut V, path: &[String], how: &mut dyn FnMut(&mut Vec<(String, V)>, usize)) {
    let M(f) = v else { return };
    if let Some(i) = f.iter().position(|(k, _)| *k == path[0]) {
        if path.len() == 1 {
            how(f, i);
        } else {
            edit(&mut f[i].1, &path[1..], how);
        }
    }
}
/// one corruption that must be rejected; a description of it
fn corrupt(r: &mut Rng, v: &V) -> (V, String) {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let p = r.pick(&ps);
    let mut v = v.clone();
    let kind = r.below(4);
    let mut what = String::new();
    let mut rr = r.clone();
    edit(&mut v, &p, &mut |f, i| {
        let r = &mut rr;
        match kind {
            0 => {
                what = "missing".into();
                f.remove(i);
            }
            1 => {
                // a misspelt field, section, model
                let k = &mut f[i].0;
                *k = match r.below(4) {
                    0 => format!("{k}_"),
                    1 => format!("x{k}"),
                    2 => k[..k.len() - 1].to_string() + "q",
                    _ => k.clone() + &k.clone(),
                };
                what = format!("misspelt as {k}");
            }
            _ => {
                let bad: Vec<V> = match &f[i].1 {
                    N(_) => vec![s("fast"), s(""), L(vec![N(1.0), N(2.0)]), m(vec![("value", N(1.0))]), s("1,5"), s("12 K")],
                    U(_) | I(_) => vec![s("many"), L(vec![U(3)]), m(vec![("value", U(3))]), I(-3), s("-")],
                    S(x) => vec![s("unknown"), s(""), s(&format!("{x}2")), s(&x.chars().rev().collect::<String>()), L(vec![]), N(1.5), m(vec![("is", s("a"))])],
                    // a whole section replaced
                    _ => vec![N(2.5), s("default"), L(vec![]), M(vec![]), U(1)],
                };
                let b = r.pick(&bad);
                what = format!("replaced by {b:?}");
                f[i].1 = b;
            }
        }
    });
    *r = rr;
    (v, format!("{} {what}", p.join(".")))
}

// ---------------------------------------------------------------- what a configuration asks for
/// every number a configuration determines, by name
fn effects(cfg: Config, bad: &mut Vec<String>, c: &Case) {
    fn chk(bad: &mut Vec<String>, n: &str, got: f64, want: f64, rel: f64) {
        if !(got == want || (got - want).abs() <= rel) {
            bad.push(format!("{n} is {got:e} instead of {want:e}"));
        }
    }
    let f = format!("{:?}", cfg.engine.fluid);
    let want_fluid = if c.fluid.base == FluidSpec::He { fluid::Config::Helium(fluid::ModelConfig::IdealGas) } else { fluid::Config::Hydrogen(fluid::ModelConfig::IdealGas) };
    if cfg.engine.fluid != want_fluid {
        bad.push(format!("the fluid is {f} instead of {want_fluid:?}"));
    }
    let i: RunInputs = cfg.conditions.into();
    let st: RunSettings = cfg.solver.into();
    let w = c.settings();
    for (n, a, b) in [
        ("pres_zero", i.pres_zero, c.p0),
        ("temp_sink", i.temp_sink, c.ts),
        ("temp_source", i.temp_source, c.th),
        ("resolution", f64::from(st.resolution), f64::from(w.resolution)),
        ("inner loop abs tolerance", st.loop_tol.inner.abs, w.loop_tol.inner.abs),
        ("inner loop rel tolerance", st.loop_tol.inner.rel, w.loop_tol.inner.rel),
        ("outer loop abs tolerance", st.loop_tol.outer.abs, w.loop_tol.outer.abs),
        ("outer loop rel tolerance", st.loop_tol.outer.rel, w.loop_tol.outer.rel),
        ("ode abs tolerance", st.ode_tol.abs, w.ode_tol.abs),
        ("ode rel tolerance", st.ode_tol.rel, w.ode_tol.rel),
        ("inner iterations", st.max_iters.inner as f64, w.max_iters.inner as f64),
        ("outer iterations", st.max_iters.outer as f64, w.max_iters.outer as f64),
    ] {
        chk(bad, n, a, b, 0.0);
    }
    let comps: Components = match catch(|| cfg.engine.components.into()) {
        Ok(x) => x,
        Err(e) => {
            bad.push(format!("the components cannot be made: {e}"));
            return;
        }
    };
    // the law of each exchanger at a state of ordinary size
    let hx = HeatExchanger { temp: 400.0, pres: 1e6, dens: 1.7, cp: 5000.0, m_dot: 0.3, Q_dot: 1000.0 };
    let law = |h: &Hx, q: f64, m_dot: f64| match h.model {
        Model::Approach(x) | Model::Settle { target: x, .. } | Model::Ladder { target: x, .. } => x,
        Model::Ua(ua) => q / (5000.0 * m_dot) / (ua / (5000.0 * m_dot)).exp_m1(),
    };
    let pars = |bad: &mut Vec<String>, n: &str, p: ParasiticPower, w: Par| {
        chk(bad, &format!("{n} thermal parasitic"), p.thermal, w.th, 0.0);
        chk(bad, &format!("{n} mechanical parasitic"), p.mechanical, w.me, 0.0);
        chk(bad, &format!("{n} electrical parasitic"), p.electrical, w.el, 0.0);
    };
    let scaled = |h: &Hx| match h.model {
        // a number of transfer units of order one
        Model::Ua(ua) => ua / 5000.0,
        _ => 0.3,
    };
    let md = scaled(&c.chx);
    let state = chx::State { hxr: HeatExchanger { m_dot: md, ..hx }, sink_temp: 300.0 };
    let want = law(&c.chx, 1000.0, md);
    chk(bad, "chx approach", comps.chx.approach(&state), want, 1e-12 * want.abs());
    chk(bad, "chx vol", comps.chx.volume(), c.chx.vol, 0.0);
    chk(bad, "chx R_hyd", comps.chx.hydraulic_resistance(&state), c.chx.rhyd, 0.0);
    pars(bad, "chx", comps.chx.parasitics(&state), c.chx.par);
    let md = scaled(&c.hhx);
    let state = hhx::State { hxr: HeatExchanger { m_dot: md, ..hx }, source_temp: 900.0 };
    let want = law(&c.hhx, 1000.0, md);
    chk(bad, "hhx approach", comps.hhx.approach(&state), want, 1e-12 * want.abs());
    chk(bad, "hhx vol", comps.hhx.volume(), c.hhx.vol, 0.0);
    chk(bad, "hhx R_hyd", comps.hhx.hydraulic_resistance(&state), c.hhx.rhyd, 0.0);
    pars(bad, "hhx", comps.hhx.parasitics(&state), c.hhx.par);
    let md = scaled(&c.regen);
    let state = regen::State { hxr: HeatExchanger { m_dot: md, ..hx }, temp_chx: 300.0, temp_hhx: 900.0 };
    let want = match c.regen.model {
        Model::Approach(x) | Model::Settle { target: x, .. } | Model::Ladder { target: x, .. } => x,
        Model::Ua(ua) => 600.0 / (1.0 + 0.5 * ua / (5000.0 * md)),
    };
    chk(bad, "regen approach", comps.regen.approach(&state), want, 1e-12 * want.abs());
    chk(bad, "regen vol", comps.regen.volume(), c.regen.vol, 0.0);
    chk(bad, "regen R_hyd", comps.regen.hydraulic_resistance(&state), c.regen.rhyd, 0.0);
    pars(bad, "regen", comps.regen.parasitics(&state), c.regen.par);
    let Some(d) = probe(comps.ws, 1e6) else {
        bad.push("the drive is not used".into());
        return;
    };
    chk(bad, "frequency", d.freq, c.ws.f, 0.0);
    let (res, par) = (d.res.unwrap(), d.par.unwrap());
    chk(bad, "R_c", res.comp, c.ws.r_c, 0.0);
    chk(bad, "R_e", res.exp, c.ws.r_e, 0.0);
    pars(bad, "compression space", par.comp, c.ws.pc);
    pars(bad, "expansion space", par.exp, c.ws.pe);
    let v = d.vols.unwrap();
    let all: Vec<_> = (0..24).map(|k| { let t = c.period() * (k as f64 + 0.3) / 24.0; (v(t), volumes(&c.ws, t)) }).collect();
    let top = |f: &dyn Fn(&(f64, f64, f64, f64)) -> f64| all.iter().map(|(_, w)| f(w).abs()).fold(0.0, f64::max);
    let (mc, mdc, me, mde) = (top(&|w| w.0), top(&|w| w.1), top(&|w| w.2), top(&|w| w.3));
    for ((a, b), w) in &all {
        chk(bad, "compression volume", a.value, w.0, 1e-8 * mc);
        chk(bad, "compression volume rate", a.deriv, w.1, 1e-8 * mdc);
        chk(bad, "expansion volume", b.value, w.2, 1e-8 * me);
        chk(bad, "expansion volume rate", b.deriv, w.3, 1e-8 * mde);
    }
}

// ---------------------------------------------------------------- running a configuration
/// `monitor cfgrun <format> <modern|legacy>`: what a user's program does with a file
pub fn cfgrun(format: &str, layout: &str) {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).expect("stdin");
    let f = FORMATS.iter().find(|f| f.0 == format).expect("format").1;
    if layout == "legacy" {
        let c: Legacy = parse(&t, f).unwrap_or_else(|e| panic!("REJECTED {e}"));
        println!("ACCEPTED");
        run_from_config(c);
    } else {
        let c: Config = parse(&t, f).unwrap_or_else(|e| panic!("REJECTED {e}"));
        println!("ACCEPTED");
        run_from_config(c);
    }
    println!("FINISHED");
}
fn user_run(text: &str, format: &str, layout: &str) -> Option<(bool, String)> {
    let mut p = Command::new(std::env::current_exe().ok()?)
        .args(["cfgrun", format, layout])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut i = p.stdin.take()?;
    let t = text.to_string();
    let h = std::thread::spawn(move || i.write_all(t.as_bytes()));
    let o = p.wait_with_output().ok()?;
    let _ = h.join();
    Some((o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned()))
}
/// what running the configuration should print, from a directly constructed engine
fn direct(c: &Case) -> Result<Vec<(&'static str, String)>, String> {
    let c = &Case { solver: Solver::Lu, ..*c };
    let comps = raw_components(c).ok_or("not a built-in engine")?;
    let g = if c.fluid.base == FluidSpec::He { IdealGas::helium() } else { IdealGas::hydrogen() };
    match catch(|| Engine::run::<LuSolver>(comps, g, c.inputs(), c.settings())) {
        Ok(Ok(e)) => {
            let v = &e.values;
            let mut out = vec![("time", format!("{:?}", v.time)), ("P", format!("{:?}", v.P)), ("T_c", format!("{:?}", v.T_c)), ("T_e", format!("{:?}", v.T_e))];
            out.push(("Results", format!("{:?}", RunResults::from(e))));
            Ok(out)
        }
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(m) => Err(m),
    }
}
fn squeeze(x: &str) -> String {
    x.chars().filter(|c| !c.is_whitespace()).collect()
}
/// compare what a user's program printed with the direct run
fn compare_run(c: &Case, text: &str, format: &str, layout: &str, rep: &mut Report) {
    let Some((ok, out)) = user_run(text, format, layout) else {
        rep.inconclusive("a configured run could not be started");
        return;
    };
    rep.add("configured_runs", 1);
    if !out.contains("ACCEPTED") {
        rep.violate(format!("a valid {layout} {format} configuration is rejected in a fresh process:\n{text}"));
        return;
    }
    match direct(c) {
        Err(e) => {
            if ok || out.contains("Results") {
                rep.violate(format!("a configuration whose engine fails ({e}) runs to a result:\n{text}"));
            }
            rep.add("configured_runs_failing", 1);
        }
        Ok(want) => {
            for (k, w) in want {
                let got = out.lines().find_map(|l| l.trim().strip_prefix(k).and_then(|l| l.strip_prefix(':'))).map(squeeze);
                if got.as_deref() != Some(&squeeze(&w)) {
                    let g = got.unwrap_or_else(|| "nothing".into());
                    rep.violate(format!("running the configuration gives {k} {} instead of {}:\n{text}", &g[..g.len().min(300)], &w[..w.len().min(300)]));
                    return;
                }
            }
            rep.add("configured_runs_equal", 1);
        }
    }
}
fn must_reject<T: DeserializeOwned + std::fmt::Debug>(r: &mut Rng, v: &V, what: &str, formats: &[(&str, FileFormat)], rep: &mut Report) {
    let f = r.pick(formats);
    let t = write(r, v, f.0);
    rep.add("corruptions_tried", 1);
    for k in 0..2 {
        match parse::<T>(&t, f.1) {
            Ok(x) => {
                rep.violate(format!("a configuration with {what} is accepted as {x:?} (try {k}):\n{t}"));
                return;
            }
            Err(e) if e.starts_with("unreadable") => rep.inconclusive(format!("a corruption could not be written as {}: {e}: {what}", f.0)),
            Err(_) => {}
        }
    }
    if f.0 == "json" {
        if let Ok(x) = serde_json::from_str::<T>(&t) {
            rep.violate(format!("a configuration with {what} is accepted as {x:?} by serde_json:\n{t}"));
        }
    }
}
fn c15(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C15", i);
    let mut c = supported(&mut r);
    if i % 3 != 0 && r.chance(0.5) {
        outlandish(&mut r, &mut c, false);
        rep.add("outlandish", 1);
    }
    let (doc, _) = docs(&c);
    rep.case = format!("{c:?}");
    rep.fp = c.p0.to_bits() ^ c.ws.f.to_bits().rotate_left(20) ^ c.chx.vol.to_bits().rotate_left(40);
    // every format, read the same
    let mut first: Option<Config> = None;
    let mut texts = vec![];
    for f in FORMATS {
        let t = write(&mut r, &doc, f.0);
        for k in 0..2 {
            match parse::<Config>(&t, f.1) {
                Err(e) => rep.violate(format!("a valid {} configuration is rejected: {e}:\n{t}", f.0)),
                Ok(x) => {
                    if first.as_ref().is_some_and(|y| *y != x) {
                        rep.violate(format!("the {} configuration is read differently (try {k}): {x:?} and {first:?}:\n{t}", f.0));
                    }
                    if first.is_none() {
                        first = Some(x);
                    } else if k == 1 {
                        let mut bad = vec![];
                        effects(x, &mut bad, &c);
                        if !bad.is_empty() {
                            rep.violate(format!("in the configured engine {}:\n{t}", bad.join(", ")));
                        }
                        rep.add("configurations_probed", 1);
                    }
                }
            }
        }
        if f.0 == "json" {
            match serde_json::from_str::<Config>(&t) {
                Ok(x) if first.as_ref() == Some(&x) => {}
                x => rep.violate(format!("serde_json reads {x:?} instead of {first:?}:\n{t}")),
            }
        }
        texts.push((t, f.0));
    }
    rep.nontrivial = first.is_some();
    // corruptions
    for _ in 0..10 {
        let (v, what) = corrupt(&mut r, &doc);
        must_reject::<Config>(&mut r, &v, &what, &FORMATS, &mut rep);
    }
    // the file run by a user's program
    if i % 3 == 0 {
        let (t, f) = r.pick(&texts);
        compare_run(&c, &t, f, "modern", &mut rep);
    }
    // recognised but not implemented
    if i % 3 == 1 {
        let mut v = doc.clone();
        let what;
        if r.chance(0.3) {
            let model = r.pick(&["ref_prop", "fit", "custom"]);
            let p: Vec<String> = ["engine", "fluid", fluid_name(&c).0, "model"].iter().map(|x| x.to_string()).collect();
            edit(&mut v, &p, &mut |f, i| f[i].1 = s(model));
            what = model.to_string();
        } else {
            let (section, name, model) = r.pick(&NAMES);
            let u = unrunnable(&mut r, section, model);
            let p: Vec<String> = ["engine", "components", section].iter().map(|x| x.to_string()).collect();
            edit(&mut v, &p, &mut |f, i| f[i].1 = M(vec![(name.to_string(), u.clone())]));
            what = format!("{section} {model}");
        }
        let f = r.pick(&FORMATS);
        let t = write(&mut r, &v, f.0);
        match parse::<Config>(&t, f.1) {
            Err(e) => rep.violate(format!("a configuration naming {what} is rejected as unknown: {e}:\n{t}")),
            Ok(_) => match user_run(&t, f.0, "modern") {
                None => rep.inconclusive("a configured run could not be started"),
                Some((ok, out)) => {
                    if ok || out.contains("Results") {
                        rep.violate(format!("a configuration naming {what}, which is not implemented, runs to a result:\n{t}"));
                    }
                    rep.add("unimplemented_models_tried", 1);
                }
            },
        }
        let (x, what) = corrupt(&mut r, &v);
        must_reject::<Config>(&mut r, &x, &what, &FORMATS, &mut rep);
    }
    rep
}
fn c16(ctx: &Ctx, i: u64) -> Report {
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, "C16", i);
    let mut c = supported(&mut r);
    if i % 4 != 0 && i % 8 != 1 && r.chance(0.5) {
        outlandish(&mut r, &mut c, true);
        rep.add("outlandish", 1);
    }
    c.mi = DEFAULT_MAX_ITERS as usize;
    c.mo = DEFAULT_MAX_ITERS as usize;
    if DEFAULT_MAX_ITERS != 20 {
        rep.violate("the documented default number of iterations is 20");
    }
    rep.case = format!("{c:?}");
    let f = fluid_name(&c);
    let named = |x: &str, n: &str| m(vec![("model", s(x)), ("params", m(vec![("name", s(n))]))]);
    let (modern_fluid, legacy_fluid) = match r.below(6) {
        0 => (("hydrogen", "custom"), m(vec![("model", s("Hydrogen"))])),
        1 => ((f.0, "ref_prop"), named("RealGasRefprop", f.1)),
        _ => ((f.0, "ideal_gas"), named("IdealGas", f.1)),
    };
    let mut runnable = modern_fluid.1 == "ideal_gas";
    let mut pick = |r: &mut Rng, section: &'static str, own: (&'static str, &'static str, V)| -> ((&'static str, V), (&'static str, V)) {
        if i % 2 == 0 || r.chance(0.5) {
            return ((own.0, own.2.clone()), (own.1, own.2));
        }
        let of: Vec<_> = NAMES.iter().filter(|n| n.0 == section).collect();
        let n = r.pick(&of);
        runnable = false;
        let p = unrunnable(r, section, n.2);
        ((n.1, p.clone()), (n.2, p))
    };
    let w = pick(&mut r, "ws", ws_doc(&c.ws));
    let x = pick(&mut r, "chx", hx_doc(&c.chx, Which::Chx));
    let y = pick(&mut r, "regen", hx_doc(&c.regen, Which::Regen));
    let z = pick(&mut r, "hhx", hx_doc(&c.hhx, Which::Hhx));
    for n in [w.1 .0, x.1 .0, y.1 .0, z.1 .0] {
        rep.add(format!("model_{n}"), 1);
    }
    let modern = modern_doc(&c, modern_fluid, [w.0, x.0, y.0, z.0], (20, 20));
    let legacy = legacy_doc(&c, legacy_fluid, [w.1, x.1, y.1, z.1]);
    let mt = write(&mut r, &modern, "json");
    let want: Config = match parse(&mt, FileFormat::Json) {
        Ok(x) => x,
        Err(e) => {
            rep.violate(format!("a valid modern configuration is rejected: {e}:\n{mt}"));
            return rep;
        }
    };
    let mut lt = String::new();
    for k in 0..6 {
        lt = write(&mut r, &legacy, "json");
        let x = if k < 4 { parse::<Legacy>(&lt, FileFormat::Json) } else { serde_json::from_str::<Legacy>(&lt).map_err(|e| e.to_string()) };
        match x {
            Err(e) => rep.violate(format!("a valid legacy configuration is rejected: {e}:\n{lt}")),
            Ok(x) => {
                let got: Config = x.into();
                if got != want {
                    rep.violate(format!("a legacy configuration means {got:?} instead of {want:?}:\n{lt}"));
                }
                rep.add("legacy_configurations_compared", 1);
            }
        }
    }
    // another value anywhere means another configuration
    let mut ps = vec![];
    paths(&legacy, &mut vec![], &mut ps);
    for _ in 0..4 {
        let p = r.pick(&ps);
        let mut v = legacy.clone();
        let mut changed = false;
        edit(&mut v, &p, &mut |f, i| match &mut f[i].1 {
            N(x) => {
                *x = if x.is_finite() && *x != 0.0 { *x * 2.0 } else { 3.0 };
                changed = true;
            }
            U(x) => {
                *x += 1;
                changed = true;
            }
            _ => {}
        });
        if changed {
            let t = write(&mut r, &v, "json");
            match parse::<Legacy>(&t, FileFormat::Json) {
                Ok(x) => {
                    let x: Config = x.into();
                    if x == want {
                        rep.violate(format!("the value of {} has no effect:\n{t}", p.join(".")));
                    }
                    rep.add("values_changed", 1);
                }
                Err(e) => rep.violate(format!("a valid legacy configuration is rejected: {e}:\n{t}")),
            }
        }
    }
    for _ in 0..8 {
        let (v, what) = corrupt(&mut r, &legacy);
        must_reject::<Legacy>(&mut r, &v, &what, &FORMATS[1..2], &mut rep);
    }
    if runnable && i % 4 == 0 {
        compare_run(&c, &lt, "json", "legacy", &mut rep);
    } else if !runnable && i % 8 == 1 {
        match user_run(&lt, "json", "legacy") {
            None => rep.inconclusive("a configured run could not be started"),
            Some((ok, out)) => {
                if ok || out.contains("Results") {
                    rep.violate(format!("a legacy configuration naming something that is not implemented runs to a result:\n{lt}"));
                }
                rep.add("unimplemented_models_tried", 1);
            }
        }
    }
    rep.fp = c.p0.to_bits() ^ c.ws.f.to_bits().rotate_left(20) ^ c.chx.vol.to_bits().rotate_left(40);
    rep.nontrivial = true;
    rep
}
pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C15", quick: 3000, thorough: 100_000, run: c15, post: None },
        Check { id: "C16", quick: 4000, thorough: 150_000, run: c16, post: None },
    ]
}
