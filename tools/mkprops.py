import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ENG="every engine: working-space drive, volumes, heat exchanger models, thermal resistances, fluid model, pressure, temperatures, frequency, resolution and matrix solver for which a run succeeds"
p("C01","Mass and energy are conserved in every gas volume at every reported instant",
"At every reported time of a successful run, the reported mass flows and heat flows balance mass and energy in each of the five gas volumes (compression space, cold heat exchanger, regenerator, hot heat exchanger, expansion space). Enthalpy crosses each of the four interfaces at the temperature of the volume the gas leaves (the regenerator has separate cold-end and hot-end temperatures), and gas in the compression and expansion spaces exchanges heat with the cold and hot heat exchanger through the respective thermal resistance.",
["inputs","configurations"],ENG+"; every reported instant, both directions of flow at all four interfaces",
"The solver tests compare one hydrogen state per fluid table, with one flow pattern, adiabatic spaces and a snapshot of the code's own answer; nothing checks a balance over other flow directions, finite thermal resistances, other fluids or other instants.",
["src/state_equations/solver.rs","src/state_equations/flow_direction.rs","src/engine/run.rs","src/engine/state.rs","src/api.rs"],
[("10x10 state equations","src/state_equations/solver.rs System::new"),("upwind enthalpy selection","src/state_equations/solver.rs MatrixStencil::create_matrix"),("property evaluation per volume","src/engine/run.rs calculate_inputs")],
["api::RunResults.values","Engine.values"])
p("C02","The reported pressure and temperature histories solve the engine's dynamics",
"On success, the reported pressure and compression/expansion space temperatures over the cycle are the solution of the governing conservation equations started from the reported values at time zero, to an accuracy set by the requested ODE tolerances. Tightening the tolerances tightens the agreement; the history never depends on a hidden fixed accuracy.",
["inputs","configurations"],ENG+"; every ODE tolerance; every instant of the cycle",
"Tests integrate frozen inputs to a final time and check only that time; no test compares any trajectory with a solution of the equations, or varies the tolerance.",
["src/state_equations/integrator.rs","src/state_equations/cycle.rs","src/engine/run.rs"],
[("Dopri5 integration with dense output","src/state_equations/integrator.rs Integration::try_from"),("derivative evaluation","src/state_equations/integrator.rs IntegrationState::system")],
["api::RunResults.values.{P,T_c,T_e,time}"])
p("C03","Gas mass and energy inventories close over the whole cycle",
"On success, the total mass of working gas computed from the reported pressures, temperatures and volumes is the same at every reported instant of the cycle. Over any part of the cycle the change in total internal energy equals the accumulated reported heat flows (including heat through the working-space thermal resistances) less the work done on the pistons.",
["inputs","configurations","histories"],ENG+"; all pairs of reported instants of the cycle",
"Only one complete engine run exists in the tests and it asserts nothing beyond Ok; conservation along a history is never computed.",
["src/state_equations/solver.rs","src/state_equations/integrator.rs","src/engine/run.rs"],
[("mass balances summed over volumes","src/state_equations/solver.rs"),("integration tolerance","src/state_equations/integrator.rs")],
["api::RunResults.values"])
p("C04","Results sample exactly one cycle on a uniform grid",
"On success every reported series has exactly the requested number of points, the times start at 0, are equally spaced and end at one period (1/frequency), and the first pressure is the requested pressure at time zero. A request for fewer than two points is refused with an error.",
["inputs","configurations"],"every resolution (2 to many thousands, odd, even, prime, powers of two), frequency and model for which a run succeeds",
"Two resolutions with one period (0.5 s) are tested; rounding in the accumulated output times drops or adds points only for other combinations.",
["src/state_equations/integrator.rs","src/engine/state.rs","src/engine/run.rs","src/api.rs"],
[("dense output grid","src/state_equations/integrator.rs Integration::try_from"),("period from frequency","src/engine/run.rs Run::new"),("column conversion","src/engine/state.rs From<Vec<Values>>")],
["api::RunResults.values","api::RunResults.pressure.t_zero"])
p("C05","A successful run is at cyclic steady state within both inner tolerances",
"If a run succeeds, the compression and expansion space temperatures at the end of the reported cycle each equal those at its start to within both the absolute and the relative inner-loop tolerance (up to ODE accuracy), and the pressure returns to its starting value accordingly. The relative change is measured against the old value, and both temperatures must satisfy both tolerances; meeting only one of them is never enough.",
["inputs","configurations","histories"],"every successful run, with absolute- and relative-dominated tolerances, slowly converging engines, and either space converging last",
"One converged run whose closure is not checked and one deliberate non-convergence; combinations in which one criterion or one space is met long before the other are not sampled.",
["src/state_equations/cycle.rs","src/state_equations/integrator.rs","src/types.rs"],
[("successive substitution","src/state_equations/cycle.rs find_steady_state"),("closure test","src/state_equations/integrator.rs is_converged"),("tolerance test","src/types.rs ConvergenceTolerance::is_converged")],
["api::RunResults.values","types::ConvergenceTolerance"])
p("C06","Reported temperatures agree with what the components ask for",
"If a run succeeds, the reported sink and source temperatures are the ones given and every reported internal temperature (cold and hot heat exchanger; regenerator cold end, hot end and log-mean average) agrees, within both outer-loop tolerances, with the one implied by the approach temperatures its components return for the reported cycle. The run stops at the first outer iteration for which all of them agree and never before, including when one component settles much later than the others.",
["inputs","configurations","histories"],"every successful run; every relative speed and order of settling of the three heat exchangers; both tolerance criteria",
"The only engine test uses fixed approaches, where the first comparison always succeeds; no test has an outer loop that iterates.",
["src/engine.rs","src/engine/state.rs","src/types.rs"],
[("outer loop","src/engine.rs Engine::run"),("temperature update and test","src/engine/state.rs State::update, Temperatures::is_converged"),("regenerator temperatures","src/engine/state.rs RegenImbalance::regen_temp")],
["heat exchanger trait callbacks (approach)","api::RunResults.temperature"])
p("C07","Iteration budgets are honoured and failures name the loop that failed",
"A run performs at most the configured number of cycle integrations per inner loop (plus the one that samples a converged cycle) and at most the configured number of outer iterations; it fails with the inner-loop error exactly when an inner loop does not converge within its budget and with the outer-loop error exactly when the outer loop does not. Any budget that is sufficient gives the same result, and every insufficient one (including zero) gives that error; an engine whose iterations do converge is never reported as failed with a sufficient budget.",
["inputs","configurations","histories"],"every pair of inner and outer budgets from zero up, for engines needing from one to many iterations of either loop",
"Tests use a budget of 20 once with success and once with an unreachable steady state; exact limits, zero budgets and the error kind are not examined.",
["src/engine.rs","src/state_equations/cycle.rs","src/types.rs"],
[("outer budget and error","src/engine.rs Engine::run"),("inner budget","src/state_equations/cycle.rs find_steady_state")],
["Result<Engine, RunError>","component and fluid callbacks"])
p("C08","Every finite input ends in a finite result or a clean error",
"For supported models and any finite numeric inputs, however unphysical, a run returns within a bounded number of evaluations, either an error or a result; it never panics, never loops forever, and a successful result never contains a non-finite time, pressure, temperature, mass flow or heat flow. The same holds for any functions a caller supplies as components or fluid, including ones returning NaN or infinity.",
["inputs","configurations","fault_sequences"],"all finite (including zero, negative, tiny, huge) parameter values for every supported component, fluid and solver, and faulty callbacks at any evaluation",
"All tests use one well-behaved engine; degenerate volumes, vanishing flows, undersized exchangers and faulty callbacks need inputs outside the sampled ones.",
["src/engine.rs","src/state_equations/integrator.rs","src/state_equations/solver.rs","src/state_equations/cycle.rs","src/engine/state.rs","src/performance.rs"],
[("errors instead of panics on unsolvable equations","src/state_equations/integrator.rs"),("bounded SVD","src/state_equations/solver.rs"),("NaN never converges","src/types.rs")],
["Result<Engine, RunError>","unwinding","callback counts"])
p("C09","Reported averages and extremes are those of the reported cycle",
"On success the reported average, maximum, minimum and time-zero pressures, the average mass flow magnitude through each heat exchanger (mean of its two interfaces) and the average heat flow of each heat exchanger (for the cold and hot one including heat from the adjacent working space through its thermal resistance) are the trapezoidal time averages and extremes of the reported series of the same run. They describe the final, converged cycle rather than an earlier iteration.",
["inputs","configurations","histories"],ENG+"; any number of outer iterations",
"Averages are tested on tiny hand-made series with the helper functions alone; that a completed run reports the averages of its own final cycle is not checked anywhere.",
["src/engine/state.rs","src/engine.rs","src/api.rs"],
[("cycle averages","src/engine/state.rs Pressure/MassFlows/HeatFlows::from_values"),("final state","src/engine/state.rs State::update"),("result assembly","src/api.rs From<Engine>")],
["api::RunResults.{pressure,mass_flow,heat_flow,values}"])
p("C10","Pressure drops and powers follow from the cycle and the hydraulic resistances",
"On success the compression (expansion) space pressure is the cycle pressure plus (minus) half the sum over the three heat exchangers of hydraulic resistance times volumetric flow, with flow the mean of the two interface mass flows divided by the gas density at that heat exchanger's temperature. Ideal and indicated power are the cyclic p-V work without and with those drops times frequency; shaft power is indicated power less the working spaces' mechanical parasitics, and net power is shaft power less those of the cold and hot heat exchangers; shaft torque is shaft power over angular speed.",
["inputs","configurations"],ENG+", any hydraulic resistances and parasitic powers, each non-zero separately or together",
"One pressure-drop helper call with constant flow is tested and every engine in the tests has zero resistance and zero parasitics, so signs, pairings and sums cannot be observed.",
["src/performance.rs","src/api.rs"],
[("pressure drops","src/performance.rs PressuresWithDrops"),("powers","src/performance.rs Powers"),("torque","src/performance.rs Performance::from")],
["api::RunResults.{values.P_c,values.P_e,power,shaft_torque}"])
p("C11","Heat input, rejection and efficiency obey their definitions and the first law",
"On success heat input is the mean heat the gas receives from the hot side (hot exchanger plus expansion-space wall) plus the external thermal parasitics of hot exchanger, regenerator and expansion space, and heat rejection is the mean heat given to the cold side plus pressure-drop losses, working-space mechanical parasitics and the same external parasitics. Efficiency is net power over heat input, and heat input minus heat rejection minus shaft power equals the net heat the gas leaves in the regenerator.",
["inputs","configurations"],ENG+"; any combination of thermal resistances, hydraulic resistances and parasitics",
"No test looks at heats or efficiency; with zero parasitics and adiabatic spaces (the only tested engine) most terms vanish.",
["src/performance.rs","src/engine/state.rs","src/api.rs"],
[("heats","src/performance.rs Heats"),("efficiency","src/performance.rs Performance::from")],
["api::RunResults.{heat_flow,efficiency,power,values}"])
p("C12","Drive kinematics are periodic, consistent and give the configured volumes",
"For every drive the compression and expansion volumes are periodic with period 1/frequency, their reported rates are the time derivatives of their reported values, and each volume comes down exactly to its clearance volume and never below it. The sinusoidal drive sweeps its swept volumes with its phase angle between the spaces, and the rhombic drive follows the linkage of crank, connecting rod and eccentricity with piston area acting on the compression space and displacer area on the expansion space.",
["inputs","configurations"],"all drive parameters (any phase including negative and beyond 360 degrees, any valid linkage, differing piston and displacer diameters, any frequency) and all times including many cycles and negative times",
"One sinusoidal drive is checked at a few instants with a 90 degree phase; the rhombic drive is not tested.",
["src/ws/sinusoidal_drive.rs","src/ws/rhombic_drive.rs","src/ws.rs"],
[("sinusoidal volumes","src/ws/sinusoidal_drive.rs volumes"),("rhombic volumes","src/ws/rhombic_drive.rs volumes")],
["WorkingSpaces trait: frequency, volumes, thermal_resistance, parasitics"])
p("C13","Ideal-gas properties form one consistent equation of state",
"For hydrogen and helium over their temperature range, density satisfies p = rho R T with the gas's own R, enthalpy minus internal energy is p/rho, the reported density and internal-energy derivatives are the partial derivatives of the reported density and internal energy, and specific heat is consistent with internal energy through cp - R. Enthalpy and internal energy are continuous and strictly increasing in temperature and independent of pressure.",
["inputs"],"all temperatures and pressures in the models' range, for both gases",
"Each gas is compared with stored values at one state; identities between the eight functions away from it, and derivative consistency, are not tested.",
["src/fluid/ideal_gas.rs","src/fluid.rs"],
[("ideal gas model","src/fluid/ideal_gas.rs")],
["Fluid trait methods"])
p("C14","Heat exchanger models follow their laws",
"A fixed-approach exchanger always returns its configured approach. A fixed-conductance cold or hot exchanger returns the approach (Q/C)(1/e - 1) with C = cp * mass flow and e = 1 - exp(-UA/C), and a fixed-conductance regenerator (1 - e)(T_hot - T_cold) with e = (UA/2C)/(1 + UA/2C), for every state. All of them report the volume, hydraulic resistance and parasitics they were given whatever the state, and start from a finite initial approach.",
["inputs","configurations"],"all component parameters and all states (temperature, pressure, density, cp, mass flow, heat flow of either sign, sink/source temperature)",
"No heat exchanger component has a test.",
["src/chx/fixed_approach.rs","src/chx/fixed_conductance.rs","src/hhx/fixed_approach.rs","src/hhx/fixed_conductance.rs","src/regen/fixed_approach.rs","src/regen/fixed_conductance.rs"],
[("approach laws","src/{chx,hhx,regen}/fixed_conductance.rs approach")],
["ColdHeatExchanger, HotHeatExchanger and Regenerator trait methods"])
p("C15","A configuration file runs exactly the engine it describes",
"Running a configuration (TOML, JSON or YAML) gives the same result or error as constructing the described engine, conditions and solver settings directly, with every numeric field of every supported component, fluid, solver and condition section taken into account in its own place. A configuration with a missing required field, a field whose value cannot be read as what it describes (words, a list or a table where a number belongs) or an unknown model name is rejected rather than defaulted, and a recognised but unimplemented model is never run as something else.",
["inputs","configurations"],"every supported combination of models and every field value, in each file format; every single-field deletion or corruption",
"The test configurations use the default value of every field with zero parasitics and resistances and are never run, so a swapped, dropped or defaulted field is invisible.",
["src/config.rs","src/engine.rs","src/api.rs","src/lib.rs","src/types.rs","src/fluid.rs","src/chx.rs","src/hhx.rs","src/regen.rs","src/ws.rs"],
[("config deserialization","src/config.rs Config"),("conversion to components","src/engine.rs From<ComponentsConfig>"),("conversion of settings","src/types.rs From<SolverConfig>"),("fluid selection","src/api.rs run_engine")],
["api::run_engine","run_from_config stdout","Config"])
p("C16","A legacy configuration means the same as its modern equivalent",
"Converting a legacy configuration yields a configuration equal to the modern one with the same models, parameters, conditions, tolerances and resolution, and with the documented default of 20 iterations for both loops. This holds for every model and fluid the legacy format can name, including ones that are not yet runnable, and malformed legacy input is rejected.",
["inputs","configurations"],"every legacy model and fluid choice and all field values",
"One legacy file (sinusoidal, fixed approach, hydrogen) with equal tolerances for two of the three loops is compared; other models, fluids and distinct values are not.",
["src/config.rs","src/types.rs","src/fluid.rs","src/chx.rs","src/hhx.rs","src/regen.rs","src/ws.rs"],
[("legacy conversion","src/config.rs From<Legacy>"),("per-section conversions","LegacyConfig::into in src/{fluid,chx,hhx,regen,ws}.rs, src/types.rs")],
["Config equality","api::run_engine"])
p("C17","The choice of matrix solver does not change the answer",
"Running the same engine with the LU, QR and SVD solvers gives the same outcome, and the same trajectories, flows, temperatures and performance within the numerical tolerances requested. This holds at every engine size, pressure and frequency, not just near a particular scale.",
["inputs","configurations"],"all engines over many orders of magnitude of size, pressure and frequency, with all three solvers",
"The three solvers are compared with stored snapshots for two states of one engine size.",
["src/state_equations/solver.rs","src/state_equations.rs"],
[("matrix decompositions","src/state_equations/solver.rs MatrixDecomposition"),("normalisation","src/state_equations/solver.rs System::new")],
["Engine::run::<LuSolver|QrSolver|SvdDefaultSolver>"])
p("C18","Runs are deterministic and isolated from one another",
"A run's outcome depends only on its own arguments: repeating it in the same process, after any sequence of other runs (including failed ones), concurrently with other runs on other threads, or in a fresh process gives bit-for-bit identical results. Extracting results from an engine has no effect on any other engine.",
["histories","schedules","inputs"],"all sequences and concurrent mixtures of runs, with differing fluids, drives, solvers and outcomes",
"Each test runs at most one engine; no history of several runs and no concurrency is exercised.",
["src/engine.rs","src/state_equations/integrator.rs","src/fluid/ideal_gas.rs","src/api.rs"],
[("no shared mutable state; per-run integrator state","src/state_equations/integrator.rs IntegrationState")],
["Engine::run","api::run_engine"])
p("C19","No run has a memory error, data race, undefined behaviour or arithmetic overflow",
"No sequence or concurrent mixture of configuration parsing, engine runs and result extraction performs an out-of-bounds or use-after-free access, exhibits undefined behaviour, races on shared data, or overflows integer arithmetic. This holds for extreme resolutions, budgets and early failures as well as ordinary runs.",
["inputs","histories","schedules"],"all runs, resolutions, budgets and failure paths, on one or several threads",
"The tests run uninstrumented on a handful of inputs; release builds would silently wrap or read past a buffer.",
["src/state_equations/integrator.rs","src/state_equations/solver.rs","src/engine/state.rs","src/performance.rs"],
[("safe Rust, checked indexing","whole crate")],
["AddressSanitizer, ThreadSanitizer, Miri and overflow-checked builds of the public API"])
p("C20","Similar engines give similar results",
"For ideal gases, multiplying pressure, frequency or all volumes by a factor, with the resistances, conductances and parasitics scaled to match, leaves temperatures and efficiency unchanged and multiplies times, flows, heats and powers by the corresponding factor. No result depends on an engine's absolute size, pressure or speed other than through these scalings and the tolerances.",
["inputs","configurations"],"all engines and all scale factors over many orders of magnitude",
"Every test uses one engine size, so an absolute threshold, a unit error or a wrongly scaled term cannot be seen.",
["src/state_equations/solver.rs","src/engine/run.rs","src/engine/state.rs","src/performance.rs","src/ws/sinusoidal_drive.rs"],
[("homogeneous governing equations","src/state_equations/solver.rs"),("enthalpy normalisation","src/engine/run.rs Run::new")],
["pairs of api::RunResults"])
p("C21","Resolution and tolerances control sampling and accuracy only",
"The number of points changes only how finely the cycle is sampled: with fixed heat exchanger temperatures, two runs of the same engine with different resolutions agree at all common instants, and cycle averages converge to the same limit as resolution grows. Tightening ODE or loop tolerances changes results by no more than the looser tolerances allow.",
["inputs","configurations"],"all engines, all pairs of resolutions and of tolerance settings",
"Each tested engine is run at one resolution and one set of tolerances.",
["src/state_equations/cycle.rs","src/state_equations/integrator.rs","src/engine.rs"],
[("two-point integrations while iterating, resampled when converged","src/state_equations/cycle.rs find_steady_state")],
["pairs of api::RunResults"])
p("C22","Components are asked about the engine's actual current state",
"Every time a component is consulted during an outer iteration it is given that iteration's state: heat exchangers see their own current temperature, the mean pressure, mean mass flow and mean heat flow of the cycle just computed with the density and specific heat of the fluid at that temperature and pressure, plus the sink, source or adjoining temperatures; working spaces see the pressures of the previous iteration's cycle (the initial pressure in the first). When results are extracted every component sees the state of the final, converged cycle.",
["inputs","histories","configurations"],"every outer iteration of every run with any user-supplied component, including state-dependent volumes, frequencies, resistances and approaches",
"Tests use built-in components that ignore their state, so a stale, swapped or wrongly computed state cannot be observed.",
["src/engine/state.rs","src/engine/run.rs","src/engine.rs","src/performance.rs"],
[("component states","src/engine/state.rs State::ws, chx, regen, hhx"),("component queries","src/engine/run.rs Run::new, src/engine/state.rs update, src/performance.rs")],
["component trait callbacks"])
p("C23","Any consistent fluid model works and the enthalpy zero is arbitrary",
"Adding a constant to a fluid's enthalpy and internal energy changes no reported pressure, temperature, flow, heat or power. Real-gas models whose density, energy and enthalpy depend on pressure satisfy the same conservation laws and definitions as ideal gases.",
["inputs","configurations"],"all reference shifts of either sign (including ones making enthalpy zero or negative) and all thermodynamically consistent fluid models, for every engine",
"Only two built-in ideal gases with one reference state are run; terms with pressure-dependent energy are identically zero for them.",
["src/engine/run.rs","src/state_equations/solver.rs","src/fluid.rs","src/engine/state.rs","src/performance.rs"],
[("enthalpy normalisation","src/engine/run.rs Run::new"),("general fluid derivatives in energy balances","src/state_equations/solver.rs System::new")],
["Engine::run with caller-supplied Fluid"])
p("C24","A converged engine and its extracted results tell the same story",
"The state and histories of an engine returned by a successful run (public fields) equal, value for value, those in the results extracted from it: temperatures, average, extreme and initial pressures, mean mass and heat flows, and every series. Its components are the ones given, and the component states it hands out hold its own temperatures, mean pressure, flows, neighbouring temperatures and fluid properties at those conditions.",
["inputs","configurations"],"all engines, components, fluids, solvers and resolutions",
"The tests look at the state of a few hand-written engines and at the results of two; none compares the two views, so a stale or crossed field in either is not seen.",
["src/engine.rs","src/engine/state.rs","src/api.rs"],
[("engine of the converged iteration","src/engine.rs Engine::run"),("extraction","src/api.rs From<Engine> for RunResults"),("component states","src/engine/state.rs State::ws, chx, regen, hhx")],
["Engine.state","Engine.values","api::RunResults"])
p("C25","The instant a cycle is said to start at is arbitrary",
"Starting the same drive at another point of its cycle, with the pressure the first run reports for that point, gives the same steady state: every series is the first one rotated in time, and averages, extremes, temperatures, heats, powers and efficiency are unchanged, up to the tolerances requested.",
["inputs","configurations"],"all engines and all starting points within the cycle",
"Every test starts its drive at one fixed point, so anything special about time zero or the end of the cycle is part of what the tests expect.",
["src/state_equations/cycle.rs","src/state_equations/integrator.rs","src/engine.rs","src/engine/state.rs","src/performance.rs"],
[("cycle integration and sampling","src/state_equations/cycle.rs"),("averages over the cycle","src/engine/state.rs integrate")],
["pairs of api::RunResults"])
p("C26","Hydraulic resistances and parasitics only affect powers and heats",
"Changing components' hydraulic resistances or parasitic losses, and nothing else, changes no time, cycle pressure, temperature, mass flow, heat flow, average or ideal power, nor whether a run succeeds; pressure drops change in proportion to the resistances.",
["inputs","configurations"],"all engines and all values of the resistances and losses, including zero, negative and huge ones",
"Each tested engine has one set of losses, most of them zero, so feedback from losses into the cycle cannot be told from the cycle itself.",
["src/performance.rs","src/engine/run.rs","src/engine/state.rs"],
[("losses computed from the converged cycle","src/performance.rs")],
["pairs of api::RunResults"])
p("C27","The two ends of an engine are treated alike",
"Exchanging the roles of the two ends of an engine (the two spaces with their volumes and resistances, the two heat exchangers, and the sink and source, with the sign of every approach reversed) gives the mirrored result: the same pressures and powers, exchanged temperatures and mass flows, and exchanged heat flows of opposite sign.",
["inputs","configurations"],"all engines, fluids and drives, for engines and heat pumps",
"The tested engines always reject heat at the compression end, and no test compares the two ends, so a term present at only one of them goes unnoticed.",
["src/state_equations/solver.rs","src/state_equations/flow_direction.rs","src/engine/run.rs","src/engine/state.rs","src/performance.rs"],
[("balances of the five volumes","src/state_equations/solver.rs System::new"),("flow directions","src/state_equations/flow_direction.rs")],
["pairs of api::RunResults"])
p("C28","The second law: entropy balances, and no engine beats Carnot's",
"For ideal gases of constant heat capacity, averaged over a steady cycle, the entropy that the gas hands to the heat exchangers, the regenerator's ends and the walls of the working spaces is exactly what its irreversible steps (mixing of streams at different temperatures, heat through walls) generate, which is never negative. An engine whose exchangers and regenerator have no approach delivers Carnot's power less the sink temperature times that generation, so its ideal indicated power and its efficiency never exceed Carnot's.",
["inputs","configurations"],"all engines with ideal gases of constant heat capacity (helium and caller-supplied), with and without approaches, drops and wall resistances",
"A reported cycle may conserve mass and energy and still be impossible; no test relates heats to the temperatures at which they are exchanged.",
["src/fluid/ideal_gas.rs","src/state_equations/solver.rs","src/state_equations/flow_direction.rs","src/engine/run.rs","src/engine/state.rs","src/performance.rs"],
[("energy balances of the five volumes","src/state_equations/solver.rs System::new"),("upstream enthalpies","src/state_equations/flow_direction.rs"),("internal energy and enthalpy","src/fluid/ideal_gas.rs")],
["api::RunResults series, heats and powers"])
p("C29","Equivalent descriptions of an engine give the same results",
"Describing the same engine differently changes nothing beyond the tolerances: fixed approaches equal to those the conductances give for the reported flows and heats, a very large or an infinite wall resistance, a very large conductance or an approach of zero, a built-in drive or gas or a caller's own with the same volumes or properties, and a caller's exchanger starting from the converged approach or from afar.",
["inputs","configurations"],"all engines and fluids; each built-in model against a caller-supplied or limiting equivalent",
"The tests run each model by itself with its own stored answers; none relates one component model to another or to its limits.",
["src/chx/fixed_conductance.rs","src/chx/fixed_approach.rs","src/hhx/fixed_conductance.rs","src/hhx/fixed_approach.rs","src/regen/fixed_conductance.rs","src/regen/fixed_approach.rs","src/ws/sinusoidal_drive.rs","src/fluid/ideal_gas.rs","src/engine/run.rs"],
[("component traits","src/chx.rs, src/hhx.rs, src/regen.rs, src/ws.rs, src/fluid.rs"),("generic engine loop","src/engine.rs")],
["pairs of api::RunResults"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
