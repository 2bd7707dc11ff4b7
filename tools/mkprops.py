"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

MIX, EIG, LAY, INV, PLOT, TOOLS, CRIT = ("weac/mixins.py", "weac/eigensystem.py", "weac/layered.py",
    "weac/inverse.py", "weac/plot.py", "weac/tools.py", "examples/criterion_check.py")

prop("C01", "Results depend only on the configuration in force, not on history",
 "After any sequence of reconfigurations (slab, weak layer, surface load, inclination, crack length, touchdown parameters), solves, analyses and failed calls on one model, every query returns the same result (within rounding) as a newly built model that was given only the final configuration and the same arguments. Repeating a query, or asking other queries in between, changes nothing.",
 ["histories", "inputs", "configurations"], "all sequences of public setter, segmentation and query calls on one model object",
 "Each test builds a fresh model in setUp and makes one or two calls; no test reconfigures a used model or repeats a call.",
 [EIG, MIX, LAY, INV], [("setters with update=True recompute the fundamental system from scratch", "weac/eigensystem.py set_foundation_properties/set_beam_properties/calc_fundamental_system"),
  ("calc_segments recomputes every touchdown attribute on each call", "weac/mixins.py SlabContactMixin.calc_touchdown_system")],
 [("ewC/ewR/evC/evR, kn, kt, A11..K0", "cached fundamental system", "weac/eigensystem.py"), ("a, L, tc, phi, ratio, mode, td", "touchdown state of the latest segmentation", "weac/mixins.py")],
 ["return values of calc_segments, assemble_and_solve, rasterize_solution, ginc, gdif, calc_a1/a2/lC"])

prop("C02", "Every solution satisfies the boundary value problem of the slab",
 "In every session state, the constants and rasterized solution returned for a valid segmentation satisfy the governing equilibrium equations of a layered Timoshenko beam on the configured weak layer (and without foundation where cracked) under slab weight, surface load and skier loads, with continuity and the skier load jumps between segments and the end conditions of the selected system type (free or vertical PST faces, touchdown contact, decay to the undisturbed state). A valid problem is solved whatever legal form (order, scale, phase, rounding) the numerical backend returns its eigenvectors in.",
 ["histories", "inputs", "configurations", "fault_sequences"], "all system types, layerings, weak layers, loads, inclinations, segmentations and touchdown stages, reached through any session history and under legal variation of the eigen-solver's answer",
 "Tests check shapes and a few signs of one default slab; no test substitutes a solution back into the equations, and none varies the backend.",
 [EIG, MIX, TOOLS], [("system matrix, load vector, complementary and particular solutions", "weac/eigensystem.py calc_system_matrix/get_load_vector/zh/zp"), ("boundary and transmission conditions", "weac/mixins.py SolutionMixin.bc/eqs/assemble_and_solve")],
 [("C", "6xN matrix of free constants", "weac/mixins.py assemble_and_solve")], ["assemble_and_solve", "z", "rasterize_solution"])

prop("C03", "Failed or interrupted calls leave the model fully old or fully new",
 "If a solve, analysis, threshold query or segmentation call fails (numerical failure, out of memory) the model afterwards answers every query exactly as before the call; if it is interrupted by an asynchronous exception at any instant, the model afterwards answers either exactly as before the call or exactly as if the call had completed, never as a mixture. After a failed or interrupted setter, repeating the setter restores results equal to those of a new model.",
 ["crash_points", "fault_sequences", "histories"], "all instants at which a call can be interrupted (every executed line) and all failing calls into the numerical backend, in any session history",
 "No test makes a call fail or interrupts one.",
 [MIX, EIG], [("substitute stiffness and touchdown analysis work on a copy, adopted at once", "weac/mixins.py substitute_stiffness, calc_touchdown_system"), ("setters recompute everything they derive", "weac/eigensystem.py calc_fundamental_system")],
 [("system, kn, kt, ew*, ev*", "temporarily different while substitute springs are evaluated", "weac/mixins.py substitute_stiffness")], ["results of queries after the failed call"])

prop("C04", "Numerical backend failures surface; no wrong number is returned",
 "When a call into the numerical backend (linear solver, eigen-solver, root finder, memory allocation) fails at any point during a model call, the call raises an exception to its caller; whenever a call does return, its result is the correct one. A failure is never converted into a default, stale or partial result.",
 ["fault_sequences", "crash_points", "inputs"], "every failing call to the linear, eigen-, root-finding and quadrature backend and every failing allocation at those calls, during every public model operation",
 "No test injects backend failures.",
 [EIG, MIX, TOOLS, CRIT], [("no exception handler between the backend calls and the public API", "weac/eigensystem.py, weac/mixins.py"), ("ValueError checks on segment lists", "weac/mixins.py assemble_and_solve")],
 (), ["exception or return value of each public call"])

prop("C05", "Concurrent queries on one shared model equal sequential ones",
 "Threads that query one shared, configured model concurrently (solving, rasterizing, energy release rates, stress fields, touchdown thresholds and substitute stiffnesses) each obtain the result they would obtain alone, under every interleaving.",
 ["schedules", "inputs"], "all interleavings (at source-line granularity) of query calls from several caller threads on one model",
 "All tests are single threaded.",
 [MIX, EIG], [("queries do not modify the instance", "weac/mixins.py, weac/eigensystem.py")],
 [("system, kn, kt, ew*, ev*", "shared by all queries", "weac/eigensystem.py")], ["return values per thread"])

prop("C06", "Distinct models do not influence each other",
 "Any interleaving of calls on distinct model objects (building, reconfiguring, segmenting, solving, analysing, failing), from one or several threads, gives each model exactly the results it gives when used alone in the process.",
 ["schedules", "histories", "fault_sequences"], "all interleavings (call and source-line granularity) of sessions on distinct models, with failures injected into some of them",
 "Tests never have two differently configured models alive and in use at once.",
 [EIG, MIX, LAY, TOOLS], [("all state lives in instance attributes; no module-level mutable state", "weac/eigensystem.py __init__"), ("profile database rebuilt per call", "weac/tools.py load_dummy_profile")],
 (), ["return values per model"])

prop("C07", "Caller data is never modified or retained",
 "No call, successful or failing, modifies the arrays, lists or dictionaries passed to it, or the results it returned earlier; and modifying an argument after the call or a returned result changes neither what the model answers later nor segment lists, constants and rasterized solutions returned earlier.",
 ["histories", "inputs", "fault_sequences"], "all public calls with list, tuple and array arguments, in any order, with failures injected, with the caller overwriting its own data between calls",
 "Tests do not compare arguments before and after a call.",
 [MIX, EIG, TOOLS], [("inputs are copied into new arrays", "weac/eigensystem.py set_beam_properties; weac/mixins.py calc_segments, assemble_and_solve, rasterize_solution, ginc")],
 (), ["argument and result arrays before and after later calls"])

prop("C08", "Touchdown stages, thresholds and contact follow the configured PST",
 "For every PST configuration, the stage chosen for a cut is A below, B between and C above the two threshold cut lengths; these thresholds and the contact length in stage C are those at which the sagging slab on its elastic support first meets, respectively comes to rest flat on, the collapsed weak layer of the configuration in force. Along any sequence of saw cuts, forward or repeated, with failed attempts in between, the stage and lengths depend only on the current cut, and the touchdown-distance helper reports these same thresholds.",
 ["histories", "configurations", "inputs"], "all sequences of saw cuts, inclinations, loads, collapse factors and column lengths on one touchdown model, with failed segmentations in between",
 "One test calls calc_segments without touchdown; no test enables touchdown or changes the cut length on one model.",
 [MIX, TOOLS], [("threshold polynomials and substitute springs", "weac/mixins.py calc_a1, calc_a2, calc_lC, substitute_stiffness"), ("stage selection", "weac/mixins.py calc_touchdown_mode"), ("helper", "weac/tools.py touchdown_distance")],
 [("mode, td, tc", "stage, touchdown length, collapse height", "weac/mixins.py")], ["calc_segments, mode, td, tc, calc_a1, calc_a2, calc_lC, touchdown_distance"])

prop("C09", "A saved or copied model resumes identically and independently",
 "A model that is pickled or deep-copied at any point of a session and restored, also in another process with a different hash seed, answers every later call exactly as the original would; and later changes to either do not affect the other.",
 ["crash_points", "histories"], "all points of any session at which the process can crash and be resumed from the last saved model",
 "No test copies, pickles or restores a model.",
 [EIG, MIX, LAY, INV], [("state consists of plain attributes only", "weac/eigensystem.py __init__")], (), ["results after restore versus uninterrupted session"])

prop("C10", "A plot call that returns has written a complete image",
 "Outside notebooks, a plot call that returns normally has left a complete, decodable PNG of the requested figure under plots/ with the requested name; if the directory or the file cannot be created or completely written, the call raises. In a notebook the figure is shown and nothing is written. With nothing in its way, every plot function of a solved model returns, whatever was left behind by earlier calls, killed processes or a changed working directory.",
 ["fault_sequences", "crash_points", "inputs"], "every failing, short or refused directory, open, write, flush and close operation at any point of any plot call",
 "Plot tests mock the save function away.",
 [PLOT, TOOLS], [("save_plot", "weac/plot.py"), ("isnotebook", "weac/tools.py")], (), ["exception or file content after each plot call"])

prop("C11", "A failed plot never leaks into later plots",
 "After a plot call that fails for any reason (invalid request, failing disk, failing rendering), no additional figure remains open and global plot styles are at their defaults, and every later plot call produces the same image as in a fresh process.",
 ["fault_sequences", "histories"], "all sequences of plot calls with failures injected at any file operation or rendering call",
 "Plot tests never let a plot fail, and mock out saving.",
 [PLOT], [("cleanup of figures and styles on every exit", "weac/plot.py cleanup_figures")],
 [("pyplot figure registry, rcParams", "global state of matplotlib", "weac/plot.py")], ["open figures, rcParams, bytes of later images"])

prop("C12", "Plots leave the user's own figures and colormaps untouched",
 "A plot call, successful or failing, neither draws on, closes nor changes any figure the user has open, leaves the user's current figure current, and does not alter matplotlib's registered colormaps; and the image it writes does not depend on which figures are open.",
 ["histories", "fault_sequences"], "all interleavings of the user's own pyplot calls with plot calls, including failing ones",
 "No test has a figure of its own open when calling a plot function.",
 [PLOT], [("each plot function creates and closes its own figure", "weac/plot.py")], (), ["user figures, plt.gcf, colormaps, images"])

prop("C13", "Concurrent processes can plot into the same directory",
 "When several processes (or repeated runs) plot into the same working directory, every call succeeds and leaves a complete image under its name, under every interleaving of their file-system operations, including when another process creates the plots directory at any moment.",
 ["schedules"], "all interleavings of the file-system operations of concurrently plotting processes",
 "Tests run in one process with saving mocked out.",
 [PLOT], [("save_plot directory creation", "weac/plot.py save_plot")], (), ["outcome of each plot call, files in plots/"])

prop("C14", "Reported field quantities match the solution and configuration in force",
 "In every session state, the displacements, rotations, section forces, weak-layer stresses and strains, weak-layer principal stresses and the output helpers (all units, unsupported positions masked as documented), and in supported regions without surface load the slab stress fields, equal the values defined by the queried solution and the slab, weak layer and inclination in force.",
 ["histories", "inputs", "configurations"], "all field queries, units and options in any session state reached by reconfigurations, solves and failed calls",
 "Tests evaluate three trivial getters on constant arrays; no test checks a stress or force value, and none after a reconfiguration.",
 [MIX], [("FieldQuantitiesMixin and OutputMixin getters", "weac/mixins.py"), ("slab stress fields", "weac/mixins.py Sxx, Txz, Szz, principal_stress_slab")], (), ["return values of the getters"])

prop("C15", "No result depends on the system clock",
 "Model sessions and all criterion searches return the same results (verdict, skier weight, crack length, iteration history, fields, energy release rates) whatever the system clock does meanwhile (slow, stalled, jumping forwards or backwards); only the reported elapsed times differ.",
 ["schedules", "fault_sequences"], "all clock behaviours during model sessions and criterion searches",
 "There is no test of the criterion module, and no test controls the clock.",
 [CRIT, EIG, MIX], [("time.time is only used for elapsed_times", "examples/criterion_check.py")], (), ["returned tuples and query results"])

prop("C16", "Retries after non-convergence solve the problem that was asked",
 "When the undampened coupled criterion or minimum force search does not converge and hands over to a dampened retry (at any level), the retry uses the caller's slab, inclination, weak-layer stiffness, thickness, density, envelope and scaling, so that its result equals that of calling the dampened search directly with the caller's arguments.",
 ["fault_sequences", "inputs"], "all inputs and all points at which convergence is prevented",
 "There is no test of the criterion module; fallbacks occur for rare inputs only.",
 [CRIT], [("fallback calls to the dampened variants", "examples/criterion_check.py check_coupled_criterion_anticrack_nucleation, find_minimum_force, find_minimum_force_dampened")], (), ["arguments in force in the retry, returned results"])

prop("C17", "Criterion verdicts are certified by their own results, in bounded work",
 "Every criterion search terminates within its iteration limits, and a positive coupled-criterion verdict carries a consistent certificate: the returned solution solves the slab problem for the returned skier weight and cracked segments, these amount to the returned crack length, and re-evaluating energy and stress criteria on them reproduces the reported values and meets the convergence tolerance unless flagged as self-collapse or pure stress failure or the whole slab cracks. A self-propagation crack length that is returned meets the propagation criterion with equality; if the root search reports non-convergence none is returned.",
 ["inputs", "fault_sequences"], "all snowpacks, inclinations, envelopes and weights, with root-finder non-convergence injected",
 "There is no test of the criterion module.",
 [CRIT], [("binary search with iteration limit", "examples/criterion_check.py check_coupled_criterion_anticrack_nucleation(_dampened)"), ("find_min_crack_length_self_propagation", "examples/criterion_check.py")], (), ["returned tuples, number of model solves"])

prop("C18", "Energy release rates match the work of crack opening",
 "For every crack grown through any sequence of advances, the incremental energy release rate equals the work per crack length that the weak-layer stresses before the advance do on the displacements after it, split into opening and shear parts, and the differential rate equals the energy stored in the weak layer at the crack tips (averaged over the tips of inner cracks); totals are the sum of both modes, differential rates are never negative, and units convert exactly.",
 ["histories", "inputs", "configurations"], "all crack-advance histories on all systems, with quadrature noise within tolerance",
 "Tests check shape and sign on one default crack only.",
 [MIX], [("ginc, gdif, Gi, Gii, int1, int2", "weac/mixins.py")], (), ["ginc, gdif"])

prop("C19", "The library neither depends on nor disturbs the process it runs in",
 "Model, plot and criterion calls, successful or failing, give the same results whatever the state of the process around them (random generators, numpy error state and print options, warning filters, working directory, environment, umask, signal handlers, recursion limit, garbage collection, standard streams, calling thread), and leave all of this state, and the set of open files, as it was. Plots go to plots/ in the working directory at the time of the call.",
 ["histories", "configurations", "fault_sequences"], "all ambient process states, changed between the calls of any session, with failing calls",
 "Tests run in one pristine interpreter state and never look at it after a call.",
 [EIG, MIX, LAY, INV, PLOT, TOOLS, CRIT], [("no module-level or process-global state is written by the model", "weac/eigensystem.py, weac/mixins.py"), ("plot styles are reset, output goes to plots/ in the working directory", "weac/plot.py save_plot")], (), ["results of all calls, process state before and after"])

prop("C20", "Profile, criterion and helper functions depend only on their arguments",
 "Every module-level function (profile database, density and strength parametrisations, centre of gravity and weight, touchdown distance, stress and toughness envelopes, criteria and searches, plot helpers) returns what the same call returns as the first one of a process, whatever calls with the same or other arguments went before, failed, were interrupted or run at the same time in other threads. It leaves its arguments as they were, and what it returned is the caller's: overwriting it changes no later result.",
 ["histories", "schedules", "inputs", "fault_sequences"], "all sequences and interleavings of calls to module-level functions, with failures and interrupts at any point, and callers that overwrite their data",
 "Each helper is called once or twice with one set of arguments; the criterion functions are not called at all.",
 [TOOLS, CRIT, PLOT], [("profile database", "weac/tools.py load_dummy_profile"), ("calc_center_of_gravity, calc_vertical_bc_center_of_gravity, touchdown_distance", TOOLS), ("model creation inside criterion functions", "examples/criterion_check.py create_skier_object"), ("isnotebook, set_plotstyles, outline, significant_digits", PLOT)], (), ["return values, arguments and earlier results of every call"])

prop("C21", "Use can go on forever: no drift, growing work or accumulating state",
 "However often calls are repeated, successful, failing or interrupted ones, on one model, on ever new models or in ever new threads: the same calls go on giving the same results for the same amount of work, and the process and the models in it hold no more memory, models, figures, colormaps, files, threads or registrations than after the first few rounds. A model the caller has dropped is released; whatever is cached is bounded.",
 ["histories", "fault_sequences"], "all cycles of calls repeated any number of times with slightly different arguments each time, some failing in each round",
 "Tests run each call once in a short process.",
 [EIG, MIX, LAY, INV, PLOT, TOOLS], [("results are attributes overwritten by each calculation", "weac/eigensystem.py calc_fundamental_system"), ("copies of models end with the analysis", "weac/mixins.py substitute_stiffness, calc_touchdown_system"), ("figures are closed on every path", "weac/plot.py plot_data, slab_profile, contours")],
 [("plt figures and rc parameters", "shared by all plot calls", PLOT)], ["results, executed lines and held objects in early and late rounds"])

# --- not decided with this technique --------------------------------------------------------------
prop("C30", "Unit conversions of the unit tables are exact",
 "Every quantity offered in several units differs between units exactly by the conversion factor.", ["inputs"], "all unit names and values",
 "Only the default units are tested.", [MIX], [("convert tables", "weac/mixins.py")])
prop("C31", "Strength and toughness envelopes follow their published formulas",
 "The stress failure envelopes, the fracture toughness envelope and the tensile strength of slab layers return the published parametrisations for every stress state, density and scaling.", ["inputs"], "all stress states, densities, scalings",
 "There is no test of the envelopes.", [CRIT, TOOLS], [("failure_envelope_*, stress_envelope, fracture_toughness_criterion", CRIT), ("tensile_strength_slab", TOOLS)])
prop("C32", "Elastic parametrisations and laminate stiffness follow from the layering",
 "Young's moduli from density, laminate stiffnesses and centre of gravity equal the layerwise integrals for every layering, and splitting a layer into identical sublayers changes nothing.", ["inputs"], "all layerings",
 "One density value and one slab are tested.", [EIG, TOOLS], [("bergfeld, gerling, scapozza, calc_center_of_gravity", TOOLS), ("calc_laminate_stiffness_matrix", EIG)])
prop("C33", "Mirrored problems have mirrored solutions",
 "Reversing the segments and changing the sign of the inclination mirrors the solution for every system type.", ["inputs"], "all problems", "Not tested.", [MIX, EIG], [("left/right conditions", "weac/mixins.py bc, eqs")])
prop("C34", "Invalid segmentations are rejected",
 "A segmentation with no supported segment, with lists of inconsistent length, or with unsupported ends of an unbounded slab is rejected with an error before anything is computed.", ["inputs"], "all segment lists", "Not tested.", [MIX], [("input checks", "weac/mixins.py assemble_and_solve")])
prop("C35", "Slab stresses are in equilibrium with tractions on both faces",
 "The slab stress fields satisfy local equilibrium and match surface load at the top and weak-layer stresses (zero where unsupported) at the bottom.", ["inputs"], "all solutions", "Not tested.", [MIX], [("Txz, Szz", "weac/mixins.py")])
prop("C36", "Total potential is the sum of internal and external potential",
 "The reported potentials equal the stored and the load energy of the PST and add up.", ["inputs"], "all PST solutions", "Not tested.", [MIX], [("internal_potential, external_potential, total_potential", "weac/mixins.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
