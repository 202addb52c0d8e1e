//! How each check makes its cases and what makes one count as non-trivial (copied into the evidence).
const GEN: &str = "random engines: hydrogen, helium or a caller-supplied real gas; sinusoidal, rhombic or harmonic drive; volumes over 5, pressures over 3.5 and frequencies over 4 decades; fixed, conductance or slowly settling exchangers; finite or infinite wall resistances; LU/QR/SVD; resolutions of 2 to 40000 points; drives starting anywhere in their cycle; losses of every kind; ";
const BASE: &[&str] = &[
    "the reference model in harness/src/refmodel.rs (gas constants, polynomials, drive geometry, balances) is right",
    "limits are set for f64 rounding, the sampling step and a multiple of the requested ODE tolerance",
];
const SAN: &[&str] = &[
    "the sanitizers and Miri report every error of their kind that the executed code makes within their known limits (red zones, shadow history, explored schedules)",
    "an error in code the workload does not reach is not seen",
];
pub fn meta(id: &str) -> (String, &'static [&'static str]) {
    let g = |s: &str| format!("{GEN}{s}");
    match id {
        "C01" => (g("non-trivial: a successful run where flow reverses at one of the interfaces"), BASE),
        "C02" => (g("every other case also integrates one cycle at three tolerances down to 1e-11; non-trivial: more than 3 points and temperatures that swing by more than 1 K"), BASE),
        "C03" => (g("mostly finely sampled; non-trivial: an odd resolution above 90 so that the energy balance is accumulated too"), BASE),
        "C04" => (g("one case in twelve asks for 0 or 1 points; non-trivial: more than 3 points, or a refused request"), BASE),
        "C05" => (g("then run again with inner tolerances placed just above and below the changes seen in a reference convergence history; non-trivial: the first cycle was not already closed"), BASE),
        "C06" => (g("exchangers that settle at different speeds; non-trivial: the run took at least two outer iterations"), BASE),
        "C07" => (g("each engine run with sufficient, minimal, one-too-small and zero budgets of both loops; non-trivial: the minimal budget is above one"), BASE),
        "C09" => (g("non-trivial: more than 3 points and a pressure that varies"), BASE),
        "C10" => (g("non-trivial: more than 3 points and non-zero hydraulic resistances"), BASE),
        "C11" => (g("non-trivial: more than 3 points and non-zero parasitics"), BASE),
        "C12" => ("random sinusoidal and rhombic drives, half over extreme sizes, speeds and phases, built directly and through the configuration layer, probed at 60 instants each including negative and far ones; all are non-trivial".into(), BASE),
        "C13" => ("hydrogen and helium at 60 temperatures of a random range within 100-1500 K and random pressures within 1e3-1e8 Pa; all are non-trivial".into(), BASE),
        "C14" => ("random fixed-approach and fixed-conductance exchangers (direct, configured, default) asked about 25 random states each; all are non-trivial".into(), BASE),
        "C22" => (g("working spaces whose frequency, volumes, resistances and parasitics depend on the pressures they are shown; non-trivial: at least two outer iterations"), BASE),
        "C08" => (g("then one to three fields replaced by zero, negative, tiny, huge or extreme values, or (every third input) a callback that returns NaN, infinity, zero, a negated or a huge value at a chosen evaluation; run in worker processes with limited memory and time; non-trivial: the fault was reached, or the input was mutated, and the outcome is distinct"), BASE),
        "C15" => ("random modern configurations of every supported model, written as TOML, JSON and YAML, read back and run beside the directly constructed engine; then single fields perturbed, deleted, mistyped or renamed; non-trivial: the configuration was accepted by all formats".into(), BASE),
        "C16" => ("random legacy configurations of every model and fluid the format names and their modern equivalents; then deletions and corruptions; non-trivial: the legacy configuration was accepted".into(), BASE),
        "C17" => (g("the same engine run with LU, QR and SVD, half of them at sizes, pressures and speeds scaled by up to 1e6; non-trivial: all three succeeded"), BASE),
        "C18" => (g("batches of 7: an engine, near copies of it, a stranger and a run that fails; repeated in random order, after abandoned runs, nested in one another's components, with engines alive together, on 3 threads and in a fresh process; non-trivial: at least 3 distinct results"), BASE),
        "C19" => ("worker processes of a plain (overflow-checked), an AddressSanitizer, a ThreadSanitizer and a MemorySanitizer build (the latter two with the standard library rebuilt) and of Miri, each given engines run by several threads at once, hostile values and faulty callbacks, extreme resolutions and budgets, runs abandoned midway, whole and garbled configuration text, and components asked directly; distinct by build and by what was computed".into(), SAN),
        "C20" => (g("ideal gases; an engine and a similar one with pressure, speed and volumes scaled by random factors; non-trivial: both succeeded"), BASE),
        "C21" => (g("the same engine at two resolutions or tolerances; non-trivial: both succeeded"), BASE),
        "C23" => (g("the same engine with the enthalpy zero shifted, or with a real gas; non-trivial: the runs succeeded"), BASE),
        "C24" => (g("the engine is inspected before its results are extracted from it; non-trivial: more than 3 points"), BASE),
        "C25" => (g("run again with a drive that starts a random number of samples later and the pressure reported for that instant; non-trivial: the first run succeeded"), BASE),
        "C26" => (g("run again with other hydraulic resistances and parasitics; non-trivial: more than 3 points and pressure drops"), BASE),
        "C27" => (g("and its mirror image: the two spaces, the two heat exchangers and the two outside temperatures exchanged; non-trivial: the run succeeded"), BASE),
        "C28" => (g("half with helium, half with a caller-supplied ideal gas; 40 % with an ideal regenerator; non-trivial: the entropy generated exceeds ten times the limit of its balance"), BASE),
        "C29" => (g("the same engine described differently, in six ways; non-trivial: the descriptions differ"), BASE),
        _ => ("see DESIGN.md".into(), BASE),
    }
}
