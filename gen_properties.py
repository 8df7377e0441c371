#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the anchors stay readable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "A returned engine agrees with the answers of its components",
 "Whenever a run returns an engine, the temperatures it reports for the cold heat exchanger, the hot heat exchanger and the cold, average and hot regenerator are the ones that the components' approach temperatures for that same reported state imply, each within both the absolute and the relative outer-loop tolerance. This holds whatever the components answered in earlier iterations: drifting, oscillating, stuck, late or momentarily wrong answers of any one component may delay a result or turn it into an error, but are never returned as agreement.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every sequence of component answers over the outer iterations, including answers that move just above or below either tolerance in only one of the components, and every tolerance and iteration limit",
 "run_simple_engine runs one engine whose components always give the same answer, so the outer loop ends on its first pass; no test lets a component change its answer",
 ["src/engine.rs", "src/engine/state.rs", "src/types.rs"],
 [("outer loop", "src/engine.rs: Engine::run"), ("State::update", "src/engine/state.rs"), ("Temperatures::is_converged, RegenTemp::is_converged", "src/engine/state.rs"), ("ConvergenceTolerance::is_converged", "src/types.rs")],
 [("State.temp", "the temperatures used for the cycle that is returned", "src/engine/state.rs")],
 ["Engine.state", "the approach() calls and answers of the three component traits"])

prop("C02", "A returned cycle closes on itself",
 "In every returned engine the compression and the expansion space each end the cycle at the temperature they started it with, within both the absolute and the relative inner-loop tolerance; the cycle starts at the requested time-zero pressure and the pressure returns to it to integration accuracy. Slow convergence and faults before that point do not weaken this by more than the integration accuracy.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every engine, tolerance pair, iteration limit and sequence of component answers and transient faults",
 "the tests check one engine that converges quickly and one artificial cycle that never does; nothing checks the returned series itself",
 ["src/state_equations/cycle.rs", "src/state_equations/integrator.rs", "src/types.rs"],
 [("find_steady_state", "src/state_equations/cycle.rs"), ("Integration::is_converged", "src/state_equations/integrator.rs")],
 [("T_c, T_e, P", "time series of one cycle", "src/engine/state.rs: Values")],
 ["Engine.values", "RunResults.values"])

prop("C03", "Gas is conserved throughout a returned cycle",
 "At every reported instant of a returned cycle the four mass flow rates balance the change of the gas stored in each of the five spaces, and the total mass of gas in the engine is the same at every instant to integration accuracy. This holds for every working fluid, drive, component behaviour, linear solver and preceding fault.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every instant of every returned cycle, in all 16 combinations of flow direction, for ideal and non-ideal fluids",
 "the solver tests compare two fixed linear systems with snapshots; no test looks at conservation over time",
 ["src/state_equations/solver.rs", "src/engine/run.rs", "src/state_equations/integrator.rs", "src/fluid/ideal_gas.rs", "src/ws/sinusoidal_drive.rs", "src/ws/rhombic_drive.rs"],
 [("mass balance rows", "src/state_equations/solver.rs: System::new"), ("inputs of each space", "src/engine/run.rs")],
 [("m_dot_ck, m_dot_kr, m_dot_rl, m_dot_le", "mass flow rates between the spaces", "src/engine/state.rs: Values")],
 ["Engine.values"])

prop("C04", "Energy is conserved throughout a returned cycle",
 "At every reported instant of a returned cycle the energy balance of each of the five spaces closes: flowing gas carries the enthalpy of the space it leaves (at the regenerator ends, of the cold or hot regenerator end), the working spaces exchange heat with their heat exchangers through the given thermal resistance and lose the given thermal parasitics, and piston work is pressure times volume change. Over the whole cycle net heat into the gas equals the ideal indicated work.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every instant of every returned cycle, in all combinations of flow direction, with adiabatic and non-adiabatic working spaces, for ideal and non-ideal fluids",
 "two fixed linear systems are compared with snapshots, with adiabatic spaces and one flow pattern; energy over a cycle is never checked",
 ["src/state_equations/solver.rs", "src/state_equations/flow_direction.rs", "src/engine/run.rs", "src/fluid/ideal_gas.rs"],
 [("energy balance rows", "src/state_equations/solver.rs: System::new"), ("upstream enthalpies", "src/state_equations/solver.rs: MatrixStencil::create_matrix"), ("flow direction iteration", "src/state_equations/solver.rs: solve")],
 [("Q_dot_k, Q_dot_r, Q_dot_l", "heat flows of the heat exchangers", "src/engine/state.rs: Values")],
 ["Engine.values"])

prop("C05", "The returned series spans exactly one cycle",
 "The time series of a returned engine has exactly the requested number of points, evenly spaced from zero to one full period of the drive's frequency, and all series share that length. This holds for any engine speed, however slow or fast, any resolution of at least two points and any change of speed between iterations; a resolution that cannot span a cycle is refused with an error.",
 ["inputs", "configurations", "fault_sequences"],
 "every frequency (milli- to kilohertz), every resolution, and every change of the drive's clock between outer iterations",
 "the tests use one period (0.5 s) and two resolutions; round-off in the output times depends on both",
 ["src/state_equations/integrator.rs", "src/engine/run.rs", "src/engine/state.rs"],
 [("Integration::try_from", "src/state_equations/integrator.rs"), ("period", "src/engine/run.rs: Run::new")],
 [("time", "instants of the returned cycle", "src/engine/state.rs: Values")],
 ["Engine.values.time", "RunResults.values"])

prop("C06", "Reported averages and extremes describe the returned series",
 "The pressure (average, maximum, minimum, time zero), the average mass flow through each heat exchanger and the average heat flow of each heat exchanger that an engine and its results report are those of the time series returned with them, in which the heat flow of the cold and hot heat exchangers includes the exchange with the neighbouring working space. It holds no matter on which iteration the run converged and what the components answered before.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every returned engine, for every number of outer iterations (including one) and every preceding sequence of answers and faults",
 "the averaging helpers are tested on hand-made series; nothing ties the state of a finished run to the series it returns",
 ["src/engine/state.rs", "src/engine.rs", "src/api.rs"],
 [("Pressure/MassFlows/HeatFlows::from_values", "src/engine/state.rs"), ("State::update", "src/engine/state.rs"), ("RunResults::from", "src/api.rs")],
 [("State.pres, mass_flow, heat_flow", "summary of the cycle", "src/engine/state.rs")],
 ["Engine.state", "RunResults.pressure", "RunResults.mass_flow", "RunResults.heat_flow"])

prop("C07", "Power, heat and efficiency follow from the returned series",
 "The reported performance is the one the returned series and the components' answers for the reported state imply: working space pressures differ from the cycle pressure by half the total pressure drop of the three heat exchangers, indicated powers are the cyclic work per time with and without those drops, shaft and net power subtract the mechanical parasitics of the working spaces and of the two heat exchangers, torque, heat input, heat rejection and efficiency follow from these. Every loss is counted exactly once and with the right sign, whatever happened in earlier iterations.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every returned engine, with every combination of non-zero resistances and parasitics, including ones that depend on the state the component is shown",
 "one unit test computes one pressure drop from constants; power, heat and efficiency are never checked",
 ["src/performance.rs", "src/api.rs", "src/engine/state.rs"],
 [("Performance::from", "src/performance.rs"), ("RunResults::from", "src/api.rs")],
 [], ["RunResults.power", "RunResults.heat_flow", "RunResults.efficiency", "RunResults.values.P_c", "RunResults.values.P_e", "RunResults.shaft_torque"])

prop("C08", "A run gives an honest verdict within its iteration limits",
 "A run makes at most the allowed number of outer iterations, each with at most the allowed number of inner iterations, and succeeds exactly when the temperatures settle within tolerance inside those limits; if the cyclic steady state is not found it fails naming the inner loop, and if the components do not settle it fails naming the outer loop. It neither gives up early, nor runs over a limit, nor stops at a tolerance other than the requested ones.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "every sequence of component answers, every tolerance pair and every limit, in particular limits equal to, one below and one above the number of iterations needed",
 "one test engine converges well inside its limits and one artificial cycle fails; no test is near a limit or makes the outer loop fail",
 ["src/engine.rs", "src/state_equations/cycle.rs", "src/types.rs"],
 [("outer loop", "src/engine.rs: Engine::run"), ("inner loop", "src/state_equations/cycle.rs: find_steady_state"), ("RunError", "src/types.rs")],
 [("iteration counters", "outer and inner iterations used", "src/engine.rs, src/state_equations/cycle.rs")],
 ["Result of Engine::run", "number of component consultations"])

prop("C09", "A failing evaluation ends in an error, never in a bad engine",
 "If a linear solve fails or a fluid property, volume or component answer is not a finite number at any point of a run, the run still terminates without panicking and either returns an error or an engine that is entirely finite and satisfies the conservation and convergence guarantees. A failure that persists always ends in an error, and an engine is never returned from an evaluation that failed.",
 ["fault_sequences", "crash_points", "histories"],
 "every call position of every collaborator (four components, fluid, linear solver) and every kind, length and combination of failures there",
 "no test makes any collaborator fail; the solver tests only use solvable systems",
 ["src/state_equations/integrator.rs", "src/state_equations/solver.rs", "src/engine.rs", "src/state_equations/cycle.rs"],
 [("IntegrationState::system", "src/state_equations/integrator.rs"), ("try_into_state_values", "src/state_equations/integrator.rs"), ("System::solve", "src/state_equations/solver.rs"), ("map_err", "src/engine.rs: Engine::run")],
 [], ["Result of Engine::run", "absence of panics and hangs"],
 "MatrixDecomposition is not exported; cfg(sett_sim) re-exports it so that a failing linear solver can be injected")

prop("C10", "Transient component faults leave no trace in the result",
 "If the components answer consistently and the drive steadily from some outer iteration on and the iteration limits leave room, the run converges to the same engine, within tolerance, that it reaches without the earlier wrong, stuck, late or noisy answers and from any sensible initial approach. Nothing of the faulty iterations survives in the returned temperatures, series, averages or performance.",
 ["fault_sequences", "histories", "schedules"],
 "every placement, kind, size and overlap of transient faults in the first iterations and every initial guess",
 "no test has an outer loop of more than one pass, so no state is ever carried from one iteration to the next",
 ["src/engine.rs", "src/engine/state.rs", "src/engine/run.rs", "src/state_equations/cycle.rs"],
 [("outer loop", "src/engine.rs: Engine::run"), ("State::new_hint, State::update", "src/engine/state.rs"), ("Run::new", "src/engine/run.rs")],
 [("State", "what one outer iteration hands to the next", "src/engine/state.rs")],
 ["Result of Engine::run", "RunResults"])

prop("C11", "Runs do not influence each other",
 "The result of a run depends only on its own inputs: it is identical bit for bit whether the run is alone in a fresh process, follows other runs, is interleaved with other runs on other threads at any point, is suspended while one of its own components performs a complete other run, or follows a run that was abandoned by a panic in a component. Repeating a run repeats its result.",
 ["schedules", "crash_points", "histories"],
 "every interleaving of several runs at any callback, every nesting of runs, every crash point of a neighbouring run and every order of runs in a process",
 "nextest runs every test once in its own process, so no two runs ever share a process",
 ["src/engine.rs", "src/engine/run.rs", "src/state_equations/integrator.rs", "src/state_equations/solver.rs", "src/fluid/ideal_gas.rs", "src/api.rs"],
 [("all state is owned by the run", "src/engine.rs: Engine::run"), ("last_flow_dir lives in one integration", "src/state_equations/integrator.rs")],
 [("IntegrationState.last_flow_dir", "interior mutable hint of one integration", "src/state_equations/integrator.rs")],
 ["Result of Engine::run", "RunResults"])

prop("C12", "A saved description runs as described or is refused",
 "An engine description that is read back complete, in any supported notation and field order and in the current or the legacy layout, runs exactly like the engine assembled from the same parameter values through the API, also when it is reloaded after a crash. A description that lost any field or section, mixes two variants of a part or holds a value of the wrong kind is refused with an error; nothing is ever filled in silently.",
 ["crash_points", "fault_sequences", "configurations", "inputs"],
 "every combination of component models and parameter values, every torn, lost, stale or duplicated part of the stored description and every short or interrupted read",
 "two fixed documents are parsed and compared with mostly default values; no parameter is followed into a run and no damaged document is ever read",
 ["src/config.rs", "src/engine.rs", "src/api.rs", "src/types.rs", "src/chx.rs", "src/chx/fixed_approach.rs", "src/chx/fixed_conductance.rs", "src/regen.rs", "src/regen/fixed_approach.rs", "src/regen/fixed_conductance.rs", "src/hhx.rs", "src/hhx/fixed_approach.rs", "src/hhx/fixed_conductance.rs", "src/ws.rs", "src/ws/sinusoidal_drive.rs", "src/ws/rhombic_drive.rs", "src/fluid.rs"],
 [("Deserialize of Config and Legacy", "src/config.rs and the component modules"), ("From<Legacy> for Config", "src/config.rs"), ("From<ComponentsConfig> for Components", "src/engine.rs"), ("run_engine", "src/api.rs")],
 [("configuration document", "the only durable state of a run", "supplied by the caller")],
 ["Result of deserialising Config and Legacy", "RunResults of run_engine"])

prop("C13", "The returned series is the motion the balances prescribe",
 "Starting from its own first point, the pressure and the two working space temperatures of a returned cycle follow the solution of the mass and energy balances at every reported instant, to the accuracy that the integration tolerance promises. This holds at every resolution, for every solver, and regardless of flow reversals, rejected steps and failed trial evaluations on the way.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "every reported instant of every returned cycle, all resolutions and tolerances, and transient failures of trial evaluations",
 "the integrator tests only check the final time and the number of points",
 ["src/state_equations/integrator.rs", "src/state_equations/solver.rs", "src/state_equations/flow_direction.rs", "src/engine/run.rs"],
 [("IntegrationState::system", "src/state_equations/integrator.rs"), ("Integration::try_from", "src/state_equations/integrator.rs")],
 [("P, T_c, T_e", "integrated variables", "src/engine/state.rs: Values")],
 ["Engine.values"])

prop("C14", "The choice of linear solver does not show in the result",
 "A run gives the same verdict and, to numerical accuracy, the same engine with each of the exported linear solvers, and also when every single linear solve of a run is served by an arbitrarily chosen one of them. Each solver returns a solution of the system it was given, for engines of any size.",
 ["schedules", "inputs", "configurations"],
 "every assignment of solvers to the successive linear solves of a run and every engine size from cubic centimetres to litres",
 "the three solvers are compared with separate snapshots for two systems of one engine size, and no run uses anything but LU",
 ["src/state_equations/solver.rs", "src/lib.rs"],
 [("LU, QR, SvdDefault", "src/state_equations/solver.rs")],
 [], ["Engine::run::<U>", "MatrixDecomposition::solve"],
 "MatrixDecomposition is not exported; cfg(sett_sim) re-exports it so that a switching solver can be injected")

prop("C15", "Components are always shown the true current state",
 "Whenever the engine asks a component for its approach, hydraulic resistance or parasitics, the state it passes is the one of the cycle just computed: its own temperature, sink, source and neighbouring temperatures as used in that cycle, the cycle's average pressure, the average mass and heat flow of that component, and density and heat capacity of the working fluid at that temperature and pressure. No component is ever shown values of another component or of an earlier iteration.",
 ["histories", "fault_sequences", "configurations"],
 "every consultation of every component in every iteration of every run, including iterations in which other components misbehave",
 "the shipped models ignore most of the state they are shown and the only engine test uses models that ignore all of it",
 ["src/engine/state.rs", "src/engine.rs", "src/performance.rs"],
 [("State::chx, State::regen, State::hhx, State::ws", "src/engine/state.rs"), ("State::update", "src/engine/state.rs")],
 [("chx::State, regen::State, hhx::State", "what a component is shown", "src/chx.rs, src/regen.rs, src/hhx.rs")],
 ["arguments of the component trait methods"])

prop("C16", "Gas properties stay thermodynamically consistent wherever runs take them",
 "At every temperature and pressure the shipped gases are asked about, by a run or by anyone else in between and in whatever order, enthalpy minus internal energy minus pressure over density is the same constant, the reported derivatives are the derivatives of the reported density and internal energy, and heat capacity is the derivative of enthalpy. The answers are those of a newly made gas, whatever was asked before.",
 ["inputs", "histories", "schedules"], "every temperature and pressure of every run, every order of questions by several runs and users",
 "the tests snapshot one temperature and pressure per fluid and never ask the same gas twice",
 ["src/fluid/ideal_gas.rs", "src/fluid.rs"], [("IdealGas", "src/fluid/ideal_gas.rs")], [], ["Fluid trait"])
prop("C17", "Drive volumes and their rates belong together",
 "For every sinusoidal drive and every rhombic drive that can turn (crank shorter than the eccentricity, rod longer than both together), and at every instant a run or anyone else asks about in whatever order, the volume rate is the time derivative of the volume, and volumes repeat every period of the reported frequency, never fall below the clearance volume and reach it once per period. The answers are those of a newly made drive, whatever was asked before.",
 ["inputs", "histories", "schedules"], "every geometry, speed and instant of every run, every order of questions by several runs and users",
 "the test checks one sinusoidal geometry at four instants; the rhombic drive is untested",
 ["src/ws/sinusoidal_drive.rs", "src/ws/rhombic_drive.rs"], [("volumes", "src/ws/sinusoidal_drive.rs, src/ws/rhombic_drive.rs")], [], ["WorkingSpaces::volumes"])
prop("C18", "Conductance models follow effectiveness-NTU theory at every state shown",
 "Whatever state a run shows it in whatever iteration, including states that earlier wrong answers led to, a fixed-conductance heat exchanger answers with the approach temperature that its conductance, the capacity rate and the heat flow imply, and the regenerator with the balanced counter-flow effectiveness. The answers do not depend on what the component was asked before.",
 ["inputs", "histories", "schedules"], "every state and conductance, every order of questions by several runs and users",
 "the conductance models have no tests",
 ["src/chx/fixed_conductance.rs", "src/hhx/fixed_conductance.rs", "src/regen/fixed_conductance.rs"], [("approach", "src/chx/fixed_conductance.rs, src/hhx/fixed_conductance.rs, src/regen/fixed_conductance.rs")], [], ["approach() of the component traits"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
