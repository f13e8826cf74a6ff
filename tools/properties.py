#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
S = "dess/src/solver.rs"; T = "dess/src/traits_and_macros.rs"; L = "dess/src/lib.rs"; U = "dess/src/utilities.rs"
M = "dess/dess-proc-macros/src/"; SA = M + "solver_attr.rs"; HV = M + "history_vec.rs"; HM = M + "history_methods.rs"
BC = M + "bare_clone.rs"; PA = M + "pyo3_api.rs"; MU = M + "utilities.rs"; ML = M + "lib.rs"
E = "dess-examples/src/"; C = E + "components.rs"; S3 = E + "three_thermal_mass_sys.rs"; SB = E + "three_thrml_mass_w_bc_sys.rs"
PY = "dess-examples-pyo3/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Each solver takes exactly the step its published Runge-Kutta method defines",
  "For each of the seven solver types, one solver step of size h from (t, y) produces the states of the published method of that name (Euler, Heun, midpoint, Ralston, Bogacki-Shampine 3(2), classic RK4, Cash-Karp 5(4)) applied to the user's right-hand side, up to floating-point rounding. "
  "This holds for any number of states and for right-hand sides that are non-linear and depend explicitly on time. Adaptive methods advance with their higher-order solution.",
  ["inputs", "programs"], "every right-hand side, dimension, start time, state and step size; all seven methods",
  "The existing tests compare against stored runs of one linear, autonomous, three-state system; time-dependent or non-linear terms, other dimensions, and all of Bogacki-Shampine (its test fails) are never checked.",
  [S, SA], [("SolverVariantMethods", S), ("solve_step dispatch", SA)], ["states after a walk over a single report interval", "calls of the user's right-hand side"])
p("C02", "Computed trajectories converge to the true solution at the method's order",
  "On smooth problems the error against the exact solution shrinks as the step size is reduced, at the order of the method (1 for Euler, 2 for Heun, midpoint and Ralston, 4 for RK4, and, when their steps are held to the maximum step by loose tolerances, 3 for Bogacki-Shampine and 5 for Cash-Karp). "
  "For the adaptive methods the global error is bounded by the requested tolerances, accumulated over the steps, and shrinks as the tolerance is tightened.",
  ["inputs", "programs"], "every smooth problem with a known solution, step-size sequence and tolerance",
  "The accuracy tests print whether a solution is within a tolerance but never assert it, and use two fixed systems.",
  [S, SA], [("SolverVariantMethods", S)], ["recorded states at report times vs. analytic solutions"])
p("C03", "A walk records exactly one row per report time, at that time, in order",
  "Walking a system over any increasing list of report times, none before the start time, leaves exactly one history row per report time, in order, whose recorded time equals that report time (to rounding) and whose index is its position counted from one. "
  "Every component's history has the same number of rows as the system's, the last row equals the final state, and the final time equals the last report time; if the start time is already at or past the last report time nothing is stepped or recorded.",
  ["inputs", "configurations"], "every increasing report list (uniform or not, long, starting at or after the start time, or ending before it), every solver type, step size, tolerance and system",
  "Tests use three uniform grids starting at 0 with lengths 4 to 201.",
  [SA, HM, HV], [("walk / solve_step", SA), ("save_state", HM)], ["histories after walk"],
  [dict(name="time, i", meaning="current time and index in the report list", where=L)])
p("C04", "No internal step passes the next report time or exceeds the configured step size",
  "Between two report times a fixed-step solver takes full steps of its configured size and one final shorter step that lands on the report time; when the step size is larger than the interval, one step spans it. "
  "An adaptive solver never takes a step longer than its configured maximum or than the time left to the next report, and no solver ever evaluates the right-hand side at a time outside the interval being integrated.",
  ["inputs", "configurations"], "every report grid, step size (divisor of the interval, non-divisor, larger than it), maximum step, start time and solver type",
  "One test compares four RK4 step sizes on one grid for (in)equality only.",
  [SA, S], [("min of dt and the remaining interval", SA), ("min of dt, dt_max argument and configured dt_max", S)], ["times at which the user's right-hand side is evaluated", "saved adaptive steps", "states at report times"])
p("C05", "An adaptive step is accepted only if it meets tolerance or attempts run out",
  "Every step an adaptive solver accepts satisfies the relative tolerance (or the absolute tolerance when there is no relative error), or has an absolute error below the absolute tolerance, or is the last attempt allowed by the iteration limit. "
  "The error compared is the Euclidean norm of the difference between the method's two embedded solutions, relative to the norm of the increment. A step that meets the criterion is accepted at once, and never more than the allowed number of attempts (at least one) is made.",
  ["inputs", "configurations"], "every right-hand side, tolerance pair (including zero), iteration limit 0..255, initial and maximum step",
  "The only adaptive configurations tested are two tolerance settings of one system, whose errors are far from the limits; acceptance is never inspected.",
  [S], [("break_cond, tol_met", S)], ["saved adaptive records replayed against an independent embedded pair"])
p("C06", "Adaptive step sizes follow the documented adaptation rule and carry over",
  "After an accepted step the next trial step is the used step scaled by (tolerance/error)^0.2 for the tolerance that was met, capped by the maximum step and the time left to the next report, and this carries over from step to step and across report times. "
  "A rejected attempt is retried with a quarter of the step, and a step accepted only because attempts ran out is followed by a quarter of it. The stored next step is always a finite positive number not above the configured maximum.",
  ["inputs", "configurations", "histories"], "every problem, tolerance, error value (including exactly zero) and sequence of accepted and rejected steps",
  "The stored fixtures pin one growth path for one system; rejections, zero errors and report-time truncation are not looked at.",
  [S], [("dt_coeff and updates of the stored dt", S)], ["saved adaptive records", "solver configuration after each step"])
p("C07", "Saved adaptive diagnostics describe the steps actually taken and cost nothing",
  "With saving on, the adaptive solver's history holds one record per accepted step: the step size used, the number of attempts, both errors, the time at the step's start and (if requested) the states at its end; consecutive records join up without gap or overlap and span exactly the integrated interval. "
  "Saving never changes the computed solution, nothing is recorded when saving is off, no states are recorded when state saving is off, and the mean step is the mean of the recorded steps, or nothing when none were recorded.",
  ["inputs", "configurations"], "every adaptive run, save flag combination and report grid",
  "No test enables saving.",
  [S], [("history.push before dt is adapted", S), ("dt_mean", S)], ["solver configuration history"])
p("C08", "Every recorded row is consistent: derivatives and flows belong to its states",
  "In every row recorded after integration has advanced, each recorded flow equals conductance times the difference of the potentials recorded in the same row, and each recorded derivative equals the right-hand side evaluated at the recorded time and states. "
  "This holds for every solver type, so recorded rows never mix values from different solver stages.",
  ["inputs", "configurations"], "every system, solver type, report grid and step size",
  "Tests compare whole runs of one system with stored copies (not for Bogacki-Shampine) and never relate the columns to each other.",
  [S, SA, HM], [("final update_derivs of each method", S), ("save_state", HM)], ["histories of system and components"])
p("C09", "Closed networks conserve the total stored quantity and relax to equilibrium",
  "In a closed network of masses joined by conductances the total of storage times potential stays constant to rounding, for every solver type, step size and topology. "
  "When the steps resolve the dynamics, potentials never leave the range spanned by the initial ones and approach the storage-weighted mean. With a boundary reservoir, the change of stored quantity in the masses equals the flow received through the boundary.",
  ["inputs", "configurations", "programs"], "every topology, positive storages and conductances, initial potentials, solver type and step size",
  "No test computes a total; a Python demo only plots it for one system.",
  [T, S, S3, C], [("update_derivs! adds equal and opposite flow over storage", T), ("connect_states!", T)], ["recorded potentials at every row"])
p("C10", "Boundary reservoirs change only as prescribed, at the right stage times",
  "A reservoir's potential is never altered by flows through it, whatever the solver, step or topology. "
  "When the user prescribes it as a function of time, every row recorded after integration has advanced holds the prescribed value at that row's time, and the connected masses are integrated with the value at each solver stage's own time.",
  ["inputs", "configurations", "programs"], "every prescribed function, constant reservoir, topology, solver type and step size",
  "The tests of the boundary-condition example are commented out and its accuracy tests assert nothing.",
  [C, SB, S], [("ThermalReservoir ignores set_deriv and has infinite storage", C), ("update_derivs of System3TMWithBC", SB)], ["recorded reservoir potentials", "states of connected masses vs. reference"])
p("C11", "Connecting components assembles the right balance equations",
  "For any set of connections declared between components, each flow equals conductance times (first potential minus second), positive from first to second, and each component's derivative is the sum over all of its connections of the flow in minus the flow out, divided by its storage. "
  "Parallel connections add up, each connection is counted once, derivatives start from zero at each evaluation, and swapping a connection's ends changes nothing but the sign of its flow.",
  ["inputs", "programs"], "every network topology (chains, stars, rings, parallel and repeated links, several macro calls), orientation, and values",
  "Only one chain of three components exists in the tests.",
  [T, C, SA], [("connect_states! / update_derivs!", T), ("Flow for Conductance", C), ("reset_derivs", SA)], ["derivatives and flows after update_derivs of generated systems"])
p("C12", "The derived state interface covers exactly the marked fields, in order",
  "For any system declaration, the state vector, derivative vector and storage vector list exactly the fields marked as states, in declaration order, wherever they stand among other fields; setting, stepping and resetting them act on those fields only, element by element, and reading back returns what was set. "
  "Stepping by a time step adds derivative times step to each state and advances time by that step once; the solver configuration is exposed exactly for the adaptive solver types.",
  ["inputs", "programs"], "every struct declaration (number, order, kind of marked and unmarked fields) and every vector of values",
  "One struct layout is exercised, and only indirectly.",
  [SA, T], [("generated HasStates / SolverBase impls", SA), ("HasState default methods", T)], ["public trait methods of generated systems"])
p("C13", "A history container behaves exactly like a list of states",
  "Under any sequence of push, pop, clear, length and emptiness queries, the generated history container behaves like a list of the pushed values: pops return the most recent value with every field intact, and nothing when empty. "
  "All of its columns always have the same length, and column k of row n is field k of the n-th value.",
  ["histories", "inputs", "programs"], "every operation sequence, value and struct shape",
  "Tests only check the length after one push; pop and clear are never called.",
  [HV, L, C, S], [("generated push/pop/clear/len/is_empty", HV)], ["container operations and public columns"])
p("C14", "A bare clone equals the original without histories and is independent",
  "A bare clone of a system or component equals the original in everything except the recorded histories of it and of its marked components, which are empty. "
  "Taking it does not change the original, changing either one afterwards does not affect the other, and the solvers' internal copies never leave rows in any history.",
  ["inputs", "histories", "programs"], "every struct declaration, every reachable state (mid-run, any history length), every solver type",
  "One test clones one freshly built system and looks at three history lengths.",
  [BC, S], [("generated bare_clone", BC)], ["clone vs. original via equality, debug text and histories"])
p("C15", "Saving state appends exactly one current row to every marked component",
  "Saving a system's state appends exactly one row, equal to the current state, to the history of the system and of every component marked for saving (including nested ones), and changes nothing else: no state, time, derivative, earlier row, unmarked component or configuration.",
  ["inputs", "histories", "programs"], "every struct declaration and reachable state, any number of repeated saves",
  "One test checks that three lengths become 1.",
  [HM], [("generated save_state", HM)], ["histories before and after each save"])
p("C16", "Every reachable object survives serialization unchanged in every format",
  "Writing any reachable component, solver configuration or system (before, during or after a run, with histories) to JSON, YAML, bincode or a .json/.yaml file and reading it back yields an equal object, and continuing the restored object gives the same results as continuing the original. "
  "Writing over an existing longer file leaves no remains of it, and files and text written by the released version stay readable.",
  ["inputs", "configurations", "crash_points"], "every finite-valued object of every exposed type, every format, every point of a run",
  "Tests only read eight stored YAML files.",
  [T, S, L, C, S3, SB], [("SerdeAPI", T), ("common_derives", ML)], ["to_*/from_* results"])
p("C17", "Malformed data and I/O failures are reported as errors, never as panics",
  "Decoding truncated, corrupted or arbitrary bytes or text returns a value or an error; it never panics, aborts, exhausts memory or hangs, and no proper prefix of an encoding decodes. "
  "Reading a missing or unreadable file, using an unsupported file suffix, and any write failure (missing directory, full or read-only destination) each return an error, and an unsupported suffix never creates or modifies a file.",
  ["inputs", "fault_sequences"], "every byte string or text, every exposed type, every file name and failure of the destination",
  "No test feeds invalid data or a failing file.",
  [T], [("SerdeAPI Result returns", T)], ["return values of from_*/to_file", "the file system"])
p("C18", "A run can be stopped, saved, restored, extended and resumed without a trace",
  "Stopping at any report time (by shortening the report list or by driving the steps by hand), optionally cloning the system or saving and restoring it, and then continuing to the full list yields bit-for-bit the histories and final state of the uninterrupted run. "
  "Walking a finished system again changes nothing.",
  ["crash_points", "histories", "configurations"], "every stopping point or set of them, every solver type and system, every exact storage format",
  "No test resumes, extends or re-walks a system.",
  [SA, S, T], [("state kept in time, i and the solver configuration", SA)], ["whole-object comparison of interrupted and uninterrupted runs"])
p("C19", "Runs are deterministic and isolated, also when systems run concurrently",
  "Walking equal systems gives bit-for-bit equal results every time, regardless of what other systems ran before, between its steps, or at the same time on other threads. "
  "No walk reads or changes anything outside its own system.",
  ["schedules", "histories", "inputs"], "every interleaving of walks of any systems on any number of threads, and any prior history of the process",
  "The test suite runs each system once and compares with a file; nothing runs concurrently on purpose or twice in one process.",
  [S, SA, T], [("all state is owned by the system value", SA)], ["results of sequential, interleaved and concurrent walks; race detector"])
p("C20", "A walk always ends, after a bounded number of right-hand-side evaluations",
  "For a positive step size and finite report times, every walk ends: a fixed-step walk needs at most a constant number of evaluations per ceil(interval/step) steps, and an adaptive walk makes at most the allowed attempts per step and strictly advances time with each accepted step until it reaches the last report time. "
  "This includes stiff, discontinuous or overflowing right-hand sides, tolerances that cannot be met, and any iteration limit; only steps shorter than the resolution of the time value need not advance it.",
  ["inputs", "configurations"], "every right-hand side including those producing non-finite values, every tolerance and iteration limit, every report grid",
  "Tests only run smooth problems with easily met tolerances.",
  [SA, S], [("loops of walk, solve_step and the adaptive methods", SA)], ["count of right-hand-side evaluations; CPU budget of a child process"])
p("C21", "The Python module behaves exactly like the Rust library",
  "Building, walking, inspecting, copying, saving and loading systems and components from Python gives bit-for-bit the results of the same operations in Rust, every constructor argument and attribute reaches the field of that name, and copies are independent of their originals. "
  "Invalid input (arguments that cannot be converted, text or bytes that cannot be decoded, failing files) raises an ordinary Python exception and never kills the interpreter, and the shipped Python demo scripts run.",
  ["inputs", "programs"], "every constructor argument, solver type, exposed class and method, and invalid argument",
  "The module is built but never imported by a test.",
  [PA, PY, C, S3, SB, S], [("pyo3_api generated methods", PA), ("#[new] functions and class registration", PY)], ["Python objects vs. a Rust reference process"])
p("C22", "Macro misuse is rejected at compile time and correct declarations compile",
  "Using the macros in a way they document as wrong (missing, extra or misnamed function in the solver attribute, non-function items, reserved function names, saving a type without state) is rejected by the compiler with a message naming the problem. "
  "Correct declarations compile, with and without the Python feature, whatever the order of fields, derives, attributes and the number of components.",
  ["programs"], "every program using the macros, valid or with one injected misuse",
  "All test programs are valid and there are only two of them; the Python feature is not compiled by the tests.",
  [MU, SA, HM, PA, ML, HV, BC], [("parse_ts_as_fn_defs", MU), ("abort! in HistoryMethods", HM)], ["compiler verdict and messages on generated programs"])
p("C23", "Numeric helpers compute what their names say for all inputs",
  "An evenly spaced vector has the requested number of elements, starts at the start, ends at the stop (to rounding, however many elements) and has equal spacing, including zero and one element, for finite ends whose difference is finite; the difference of a vector has one element less and holds each successive difference. "
  "Approximate equality holds exactly when the absolute difference or the difference relative to the sum is below the tolerance, symmetrically; zipping pairs elements in order, stopping at the shortest; timing evaluates its expression exactly once and returns the time it took.",
  ["inputs"], "every start, stop, length, vector, pair of values whose sum is finite, and tolerance",
  "linspace is only used with a few lengths, the other helpers have no tests at all.",
  [T, U], [("Linspace, Diff, zip!, time_it!", T), ("almost_eq", U)], ["return values"])
p("C24", "The example program writes files only when asked to, and then the right ones",
  "Running the example program or its run functions without the overwrite option completes and creates, changes or deletes no file, whatever the command line and environment. "
  "With the option, exactly the documented benchmark files are rewritten, each inside the fixtures folder, and each reads back as a fresh run of its solver; when they cannot be written the program fails visibly.",
  ["configurations", "inputs"], "every command line and environment, both example systems",
  "The binary is never run by the tests.",
  [E + "main.rs", S3, SB], [("overwrite flags", E + "main.rs"), ("run_three_tm_sys", S3)], ["file-system effects of the program, observed in a scratch copy"])
p("C25", "No workload triggers undefined behaviour, memory errors or data races",
  "No use of the library's safe API - walking systems with any solver, history operations, serialization of valid and hostile data, concurrent walks on threads, and the Python extension - performs an invalid memory access, data race or other undefined behaviour, or leaks memory.",
  ["inputs", "schedules", "fault_sequences"], "every workload through the safe API",
  "The tests run without any sanitizer or interpreter and touch little of the API.",
  [S, SA, T, HV, PA], [("safe Rust throughout; ownership", S)], ["Miri, AddressSanitizer/LeakSanitizer and ThreadSanitizer reports, live heap of the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
