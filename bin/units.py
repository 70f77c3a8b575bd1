UNITS = []
META = {}
def unit(prop, name, src, **kw):
    UNITS.append(dict(prop=prop, name=name, src=src if isinstance(src, list) else [src], **kw))
def meta(prop, bounds, states_are, assumptions):
    META[prop] = dict(bounds=bounds, states_are=states_are, assumptions=assumptions)

unit("C04", "c04", "c04.cpp")
meta("C04", "all operation sequences over 2-5 models x 2-4 priorities to depth 4-6; every fill order of up to 7-13 models followed by 1-2 arbitrary moves; structured sweeps to 230-450 models across storage growth; 7 time types",
     "distinct priority assignments of the scheduled models at which all queries were compared",
     ["a model is in at most one queue and priorities are not negative, as the header requires"])
unit("C21", "c21", "c21.cpp")
meta("C21", "all operation sequences (add, remove, remove_next, update, update_all, clear) over 2-4 models x 2-3 time advances and infinity to depth 4-5; every fill order of up to 7-10 models with 1-2 arbitrary moves; structured sweeps to 150 models",
     "distinct assignments of time advances to present models at which all queries were compared",
     ["remove_next is not called on an empty schedule"])
unit("C01", "c01", "c01.cpp")
meta("C01", "all behaviours (time advance, output destinations, injection, earlier next time) of 2 models over 2-3 cycles and placements in memory; 3-4 models over 5-6 cycles with up to 3-4 deviations from a default behaviour; networks of Moore and Mealy models (1+1 with all behaviours for 2 cycles, 2+1, 1+2 and 2+2 with deviations); 60-300 models for 12 cycles, with chains of 25 pins and models that send many values; 254-2100 models imminent at the same time; 6 clock and value types",
     "distinct (elapsed time, time to event, graph, decisions so far) of all models after a cycle",
     ["models are deterministic functions of their transition count for outputs and time advances; edges are fixed in a scenario"])
unit("C02", "c02", "c02.cpp", opt="-O2")
meta("C02", "all acyclic networks of 2-4 Mealy models x all placements in memory x all sets of models reached by sources and injections x all imminent sets x 9 output rules that depend on the input (number, values, elapsed time, kind of event), 1-2 cycles; superseded output computations; chains and towers of 5-12 Mealy models",
     "distinct reference states (clocks, decisions) after a cycle",
     ["output functions are deterministic and free of side effects, so re-evaluation is legitimate"])
unit("C03", "c03", "c03.cpp")
meta("C03", "all directed graphs (with self loops) over 2-3 Mealy models (4 in the thorough tier) x all placements in memory x all sets of models reached by the source, by injection and imminent ones x silent models, 1-2 cycles; rings of 1-90 models entered at 1-3 places, broken by a Moore or silent model, closed while running; chains of 1-70 Mealy models that lead into a ring or a diamond; all acyclic networks of 3-4 Mealy models whose outputs depend on the number and values of their inputs x placements x sets of triggered and imminent models, 1-2 cycles",
     "distinct (clocks, graph, size of the triggered part, loop or not)",
     ["in networks with loops, models that emit do so for every input, so that whether an event travels around a loop does not depend on the order of evaluation"])
unit("C05", "c05", "c05.cpp")
meta("C05", "all operation sequences (add/remove model, remove pin, connect/disconnect pin to pin and pin to model, with repetitions) over 1-3 models and 2-4 pins to depth 3-6 from empty, full and doubly counted graphs; chains, ladders and trees of up to 60 pins with 4 arbitrary operations; provisional queueing of all sequences of 3 operations",
     "distinct sets of models and counted edges at which every pin was routed",
     ["pin to pin connections form no cycle (routing a cycle has no meaning)"])
unit("C07", "c07", "c07.cpp")
meta("C07", "3-4 models (one of them absent at first, optionally two instances each, optionally a Mealy), every transition may request any of 30-40 single structure changes or 17-39 ordered groups of them, and so may the user between cycles; 3-5 cycles, 2-4 deviations from the default behaviour; 2 models with all behaviours and requests over 2-3 cycles; 3 clock types",
     "distinct (clocks, members with instance counts, edges, decisions) after a cycle",
     ["no connection leads to a model that is not in the simulation (executions that reach this are stopped there)"])
unit("C08", "c08", "c08.cpp")
meta("C08", "1-2 Moore and 0-3 Mealy models in 4 networks, 0-3 (12) listeners, 2-3 cycles: all placements in memory, 2-4 deviations from a default behaviour (time advances, outputs with repeated values and pins, injections, earlier next time, structure changes); 1-3 models with all behaviours for 1-3 cycles; listeners that join later",
     "distinct (clocks, edges, decisions) after a cycle whose complete event log was compared",
     ["listeners do not call the simulator"])
unit("C06", "c06", "c06.cpp")
meta("C06", "8 hierarchies of 3 coupled and 3 atomic models (an atomic and a coupled model shared by two parents, a coupled model with two instances), all sequences of 1-3 operations of an alphabet of 60 (add/remove atomic, coupled, couplings at each of the coupled models), each placed before the start or in any of 1-3 cycles, requested by the user or by a model; an event into every pin at the end; the same with a Mealy model in the hierarchy; towers of 2-10 levels, shared between levels, with couplings through all of them",
     "distinct (clocks, members and edges with counts) of the flattened network after a cycle",
     ["no coupling leads to an atomic model that is not in the simulation (such executions are stopped)", "a coupled model is not its own ancestor"])
unit("C09", "c09", "c09.cpp")
meta("C09", "all sequences of 6-10 driver calls (inject at two pins, clear, set an earlier next time, compute output, compute state, execute) on 5 networks of 1-4 Moore and Mealy models with up to 2-3 deviations from the default behaviour or all behaviours; the three constructors on all networks of 1-3 models, one of them a Moore or a Mealy model (16 coupling patterns) over 4 cycles",
     "distinct (clocks, graph, next time, pending inputs, computed) after a call",
     ["the state is only computed after output was computed for the same next event time", "the next time is only moved earlier and never before the current time", "no input is applied and no state computed while the next event time is infinity"])
unit("C10", "c10", "c10.cpp")
meta("C10", "all pairs and triples of a grid of 168-210 super dense times per real type (double, int, long), with negative, tiny and huge parts that a narrower number could not hold; clocks driven by all sequences of 6-7 intervals out of 7",
     "distinct pairs of times, and distinct clock values reached",
     ["the real parts are such that sums and differences are exact where a + (b - a) == b is required", "streams print with enough digits to represent the number"])
unit("C11", "c11", "c11.cpp")
meta("C11", "constants of 9 clock types against 6-9 extreme values each; 1-3 models (one a Mealy) with all behaviours for 2-3 cycles or up to 3-4 deviations for 5 cycles, executed in 6 plain or 3 super dense clocks and compared; the same in the clocks that hold them with times up to 2^24, 2^30, 2^42, 2^60 and with up to 10^9 instants at one time",
     "distinct (clocks, graph, decisions) after a cycle",
     ["times stay far from the largest representable one"])
unit("C12", "c12", "c12.cpp")
meta("C12", "all pairs of 20-28 base values, each also against values at 11 multiples of the tolerance give or take 0-2 ulps, for 8 tolerances",
     "distinct (first, second, epsilon)",
     ["pairs whose exact difference is not representable and lies within 0.1% of the edge are skipped (counted)"])
unit("C13", "c13", "c13.cpp")
meta("C13", "4 models (a Mealy, one added while running) or 1 model, 9 clock types: up to 2-4 deviations (time advances incl. several negative ones, outputs, structure changes, injections) at any point of construction and of 3 cycles; a single model with all behaviours for 4 cycles; three constructors",
     "distinct (clocks, graph, decisions) after a cycle",
     ["NaN is not a time advance"])
unit("C16", "c16", "c16.cpp", libs=["-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
unit("C16", "c16f", "c16.cpp", flags=["-DTT=float"], libs=["-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
unit("C16", "c16l", "c16.cpp", flags=["-DTT=long double"], libs=["-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
meta("C16", "0-3 state event functions, piecewise constant dynamics on a dyadic grid; every choice of 4 step sizes at each step, of rates, jumps and timers after each event, of input times (same instant, before, at and after events) and multiplicity with up to 3-4 deviations from a default over 5-6 discrete events; exact locator, locators that report late or stop short of the event; all behaviours of a small model; corrected_euler and rk_45 with all real locators, ExplicitHybrid and ImplicitHybrid within a tolerance; clocks of type double, float and long double",
     "distinct (time since the last event, state, rate, timers, next time, pending output, input)",
     ["an event found only while handling an input is handled at the time of that input", "with the real solvers and locators, inputs do not fall within 0.05 of an event other than at the scheduled instant"])
unit("C17", "c17", "c17.cpp")
meta("C17", "5 locators; 1-3 event functions given by all assignments of 3-5 values to 3-6 nodes, piecewise linear, and piecewise constant (left or right continuous) where discontinuities are allowed; intervals from 1e-3 to 1e6 incl. one with odd mantissa, tolerances 1e-15 to 1e-2, scales 1e-6 to 1e17; exact solver, corrected_euler, rk_45; one search, and repeated searches until the event, also where the solution (t^4) differs from its cubic interpolation; the spline on all cubics with 4-5 values per coefficient",
     "distinct (relative time reported, found, locator)",
     ["event functions are only seen at the instants a locator evaluates, so functions that cross an even number of times are only checked for consistency", "linear and bisection locators get continuous functions"])
unit("C18", "c18", "c18.cpp", opt="-O2", libs=["-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
meta("C18", "order conditions on all 37 rooted trees up to order 6 and all pairs up to order 5 as systems of equations; all sequences of 3-5 calls (integrate with 5-6 limits including zero and infinity, advance by 3 lengths, jump to another state) on 9 systems x position of a clock x 2 maximum steps x 2-3 tolerances for the three solvers; systems whose trial steps overflow; derivatives that are never finite; trapezoidal steps without solution",
     "distinct states returned by a step",
     ["the error estimate of the explicit methods is the difference to the embedded method (Euler; England's fourth order formula)", "the tolerance of trap limits the next step (by the error of the last one) and the residual of its equation, not the error of the step itself"])
unit("C19", "c19", "c19.cpp", libs=["-lsundials_cvode", "-lsundials_nvecserial"])
meta("C19", "a mock integrator with 1-2 variables and exact piecewise constant dynamics; every choice of the length (0, 1/2, 1, 2, infinite) and event flag of each step, of jumps and changes of the dynamics after each transition, of inputs (none, at the end of the step, at two times before it, at the time of the last cycle, two at once) and of a recomputed output: all of them for 2 cycles, up to 4 deviations from a default over 5 cycles; integrators that write the flag always or only for events, whose state vector stays or moves; 1-3 models, and a model that joins later",
     "distinct (times of the last transition and of the projected step, event flag, state, rate, clock)",
     ["the callbacks do what their documentation asks of them (cvode_integrate_until arrives exactly at the time it is given)"])
unit("C20", "c20", "c20.cpp", flags=["-fsanitize=address", "-g", "-DMC_ASAN"], env={"ASAN_OPTIONS": "abort_on_error=1:handle_abort=0:handle_segv=0:detect_leaks=0"}, inc=["fmistub"], libs=["-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
meta("C20", "a mock of the FMI library with the state machine of FMI 2.0 model exchange, 1-2 states, 0-2 event indicators and piecewise constant dynamics, inside Hybrid with 3 solvers x 5 locators x 2 step limits; every choice of the FMU's answers (repeat the event iteration, jump, turn, set, move or cancel its next event, ask for event mode after a step), of variables set by the user's events and of inputs (at or before the next event, at the time of the last) with up to 3-4 deviations over 6 cycles; FMUs that are rejected, never started or only initialized (three in a row, all memory accounted for); every execution under AddressSanitizer; Jacobians of 3 nonlinear systems at all points of a grid",
     "distinct (FMU time, state, rate, next event, event mode asked for, input)",
     ["every FMI call succeeds and the FMU does not ask to terminate", "value references of states and derivatives are numbered as OpenModelica does", "FMU variables are set in event methods only, followed by the base method, as documented", "times are compared within 1e-7 and crossings within 2e-5"])
unit("C22", "c22", "c22.cpp", flags=["-fsanitize=address", "-g", "-DMC_ASAN"], env={"ASAN_OPTIONS": "abort_on_error=1:handle_abort=0:handle_segv=0:detect_leaks=0"}, libs=["-lsundials_cvode", "-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
meta("C22", "graphs of 2-4 models (one a Mealy), two nested coupled models, a single model: up to 2-4 deviations from a default over 2-6 calls of the user (execute, compute output, inject, clear, cancel, drop any handle, drop graph, simulator or listener, request any structure change) and the models (time advances incl. negative ones, outputs, structure changes), 6 orders of destruction; Mealy loops; 3 solvers x 5 locators x 1-3 variables with all sequences of up to 4-5 calls, alone and inside a hybrid model, ExplicitHybrid and ImplicitHybrid; CVODE models; every execution under AddressSanitizer with a record of all allocations",
     "distinct (objects alive, members, simulator) after a call, and distinct histories of solvers",
     ["a model is simulated by one simulator in its life", "user code throws no exceptions", "the solvers are used before the system they were made for is released"])
unit("C14", "c14l", "c14.cpp", opt="-O2", flags=["-DLONG"], shards=1)
unit("C14", "c14", "c14.cpp")
unit("C14", "c14t", "rt.cpp", body="c14t.cpp")
meta("C14", "2-4 controlled threads that create 1-9 pins each (directly, in values, arrays, vectors, maps) or copy pins: all interleavings of their synchronising operations, for the longest (30 pins each) those with up to 2-3 preemptions, with a vector clock check of all other accesses; all sequences of 3-6 creations, copies, assignments and swaps of up to 4 pins and any number of values; a history of 2^32 + 1000 pins",
     "distinct scheduling states (progress of every thread and the thread chosen) and partitions of pins into identities",
     ["atomic operations are sequentially consistent (their memory order only matters for what is found to be a data race)"])
unit("C15", "c15", "c15.cpp", libs=["-lsundials_cvode", "-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
unit("C15", "c15t", "rt.cpp", body="c15t.cpp", libs=["-lsundials_cvode", "-lsundials_kinsol", "-lsundials_nvecserial", "-lsundials_sunlinsoldense", "-lsundials_sunmatrixdense"])
meta("C15", "15 kinds of simulation (graphs, coupled and single models with Moore and Mealy models and structure changes under 4 clock types; hybrid models with 3 solvers and 5 locators; CVODE): all interleavings of the 5-8 calls of any two of them in one thread; one running inside the callbacks of the other at up to 1-2 places, any two of them; the same simulations in 2-3 controlled threads, built there or handed over: all interleavings of their synchronising operations with up to 1-4 preemptions and a vector clock check of all other accesses of the instrumented code",
     "distinct (progress of both simulations) and scheduling states (progress of every thread and the thread chosen)",
     ["accesses made inside libstdc++.so and SUNDIALS are not seen by the race check", "double_fcmp::epsilon is set by the user before the simulations start", "atomic operations are sequentially consistent"])
TECH = {
    "C14": "stateless model checking: exhaustive enumeration of the interleavings of controlled threads running the real code, with a happens-before race check on each; exhaustive operation sequences in one thread",
    "C15": "stateless model checking: exhaustive enumeration of interleavings of API calls in one thread and of controlled threads running the real code (preemption bound), with a happens-before race check on each, against runs alone",
    "C22": "stateless model checking: exhaustive enumeration of bounded histories of the real code, each executed under AddressSanitizer with a record of all allocations",
    "C20": "stateless model checking: exhaustive enumeration of bounded executions of the real code against a mock FMU that monitors the FMI state machine",
    "C19": "stateless model checking: exhaustive enumeration of bounded executions of the real code against a mock integrator and a reference model in lock step",
}
