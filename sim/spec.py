#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it to regenerate both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), **kw))
L = "c3/"
prop("C01", "Saved objects come back exactly",
 "Saving a dense array, function train, array of function trains or probability density to a file, or turning it into bytes, and loading it back, in the same process or after a restart, gives an object with identical parameters, domains, ranks and evaluations for every function class. Writing text with at least 17 significant digits also returns every function train that supports it exactly. Saving never changes the object being saved or any other file.",
 ["histories", "fault_sequences", "inputs"], "every object, every sequence of saves, overwrites, loads and restarts, and every way the operating system cuts reads into pieces",
 "Existing tests save one or two fixed objects with one function class in one process with an ideal disk and compare a norm.",
 [L+"lib_clinalg/ft.c", L+"lib_clinalg/qmarray.c", L+"lib_funcs/functions.c", L+"lib_funcs/linelm.c", L+"lib_funcs/constelm.c", L+"lib_funcs/kernels.c", L+"lib_array/array.c", L+"lib_probability/probability.c", L+"lib_stringmanip/stringmanip.c"],
 [("byte serialisation of every layer", L+"lib_clinalg/ft.c: function_train_serialize, ft1d_array_serialize"), ("length-prefixed files", L+"lib_clinalg/ft.c: function_train_save/load"), ("text form", L+"lib_clinalg/ft.c: function_train_savetxt/loadtxt")],
 ["return values of the save and load calls", "parameters, ranks, bounds and evaluations of the loaded object", "bytes on the simulated disk"])
prop("C02", "Damaged files are refused, never half-loaded",
 "After a process death during an overwrite, a lost tail, a missing file or a read error, loading either reports failure or returns exactly one of the objects that were completely saved under that name; it never returns a mixture, crashes, reads out of bounds or leaves a file handle open. A later complete save makes the file loadable again, and other files are unaffected.",
 ["crash_points", "fault_sequences", "inputs"], "every crash point inside a save, every truncation length, every failing read, every object kind",
 "No existing test loads a damaged file or injects an input/output fault.",
 [L+"lib_clinalg/ft.c", L+"lib_array/array.c", L+"lib_probability/probability.c"],
 [("length prefix compared with the bytes actually read", L+"lib_clinalg/ft.c: function_train_load, ft1d_array_load"), ("same", L+"lib_array/array.c: darray_load"), ("same", L+"lib_probability/probability.c: probability_density_load")],
 ["result of the load call", "open file handles", "memory errors"])
prop("C03", "A save that reports success has stored everything",
 "Whenever a save call reports success, the complete object is on disk; if opening, writing, flushing or closing fails, the device is full or memory runs out, the call reports failure (or the process stops for lack of memory), releases its file handle and leaves the in-memory object unchanged. Once the fault is gone the same call succeeds.",
 ["fault_sequences", "crash_points", "inputs"], "every open, write, flush, close and allocation that can fail, every remaining device capacity",
 "No existing test makes a write fail.",
 [L+"lib_clinalg/ft.c", L+"lib_array/array.c", L+"lib_probability/probability.c"],
 [("stream error state and the result of closing are part of the return value", L+"lib_clinalg/ft.c: function_train_save, ft1d_array_save; "+L+"lib_array/array.c: darray_save; "+L+"lib_probability/probability.c: probability_density_save")],
 ["return value of the save call", "bytes on the simulated disk", "open file handles"])
prop("C04", "A monitored function is evaluated once per point and recalled exactly",
 "Behind a function monitor the user's function is called exactly once for each distinct point (points that differ in the first fourteen significant digits), and every later request for that point returns exactly the value of that call, including infinite and undefined values. This holds for any table size, any request order, and requests made from inside the user's function; the written record lists each evaluated point exactly once with its value.",
 ["histories", "schedules", "inputs"], "every sequence of requests, nested requests, two monitors used alternately, every table size",
 "Existing tests monitor one smooth function on one table size and check a count.",
 [L+"lib_funcs/monitoring.c", L+"lib_array/array.c", L+"lib_stringmanip/stringmanip.c"],
 [("text key per point", L+"lib_array/array.c: serialize_darray_to_text"), ("exact value packing", L+"lib_array/array.c: pack, unpack"), ("chained hash table", L+"lib_funcs/monitoring.c: lookup_key, add_cpair")],
 ["calls reaching the user's function", "values returned", "the printed record"])
prop("C05", "Optimisers never step outside the box",
 "Once bounds are set and the start lies within them, every point at which a bound-respecting optimiser evaluates the objective or its gradient, and the point it returns, satisfies all bounds and is finite, whatever finite or infinite values and finite gradients the objective returns.",
 ["inputs", "histories", "configurations"], "every objective including noisy, flat, discontinuous, infinite-walled and wrong-gradient ones; every algorithm, line search and limit",
 "Existing tests run a few smooth objectives and only look at the final point.",
 [L+"lib_optimization/optimization.c"],
 [("projection of every trial point", L+"lib_optimization/optimization.c: c3opt_ls_x_move, backtrack_line_search_bc")],
 ["arguments of every objective and gradient call", "returned point"])
prop("C06", "Optimisers report what actually happened",
 "The value an optimiser returns was observed at the point it returns; evaluation, gradient and iteration counters equal the calls made; every stored or printed iterate pairs a point with the value and gradient observed there, starting at the start and ending at the result; the reported stopping reason is true, and a run goes on only while none of its stopping criteria is met. Exhaustive search evaluates each candidate exactly once and returns a best one, and a failing derivative callback is reported, not ignored.",
 ["inputs", "histories", "fault_sequences"], "every objective including nondeterministic ones, every algorithm and line search, every failing callback position",
 "Existing tests compare the final point with a known minimiser; counters, traces and reasons are not examined.",
 [L+"lib_optimization/optimization.c"],
 [("counting wrapper", L+"lib_optimization/optimization.c: c3opt_eval"), ("trace storage", L+"lib_optimization/optimization.c: c3_opt_damp_bfgs, c3_opt_lbfgs, c3_opt_gradient, c3opt_print_stored_values")],
 ["recorded objective calls against counters, trace and return values"])
prop("C07", "Optimisers always come to an end within their limits",
 "For any objective with finite gradients, an optimisation finishes with at most one iteration beyond the iteration limit and a bounded number of line-search evaluations per iteration, never aborting or looping; the only deliberate stop is an undefined or initially infinite objective value. On convex problems with an ample line-search limit it does not end above its starting value, and with ample limits every method finds the minimum of a strongly convex quadratic that lies inside its bounds.",
 ["inputs", "histories", "configurations"], "every objective including noise, plateaus, jumps, infinite walls, misleading gradients; every limit and tolerance, including zero",
 "Existing tests only use objectives on which the methods converge.",
 [L+"lib_optimization/optimization.c"],
 [("iteration and line-search limits", L+"lib_optimization/optimization.c: c3opt_ls_wolfe_bisect, c3opt_ls_strong_wolfe, c3opt_ls_zoom, c3opt_ls_box")],
 ["number of objective calls", "steps executed", "process termination"])
prop("C08", "Optimisers can be reused and copied",
 "Running an optimiser again from the same start, or running a copy of it made before or after a run, repeats exactly the same sequence of evaluations and the same result, whatever other optimisations ran in between. Changing or freeing a copy leaves the original unaffected, a copy carries the complete stored trace, and nothing is leaked.",
 ["histories", "inputs", "configurations"], "every sequence of runs, copies, changes and unrelated optimisations",
 "No existing test reuses or copies an optimiser.",
 [L+"lib_optimization/optimization.c"],
 [("deep copy", L+"lib_optimization/optimization.c: c3opt_copy"), ("reset of counters at the start of each run", L+"lib_optimization/optimization.c: c3_opt_damp_bfgs, c3_opt_lbfgs, c3_opt_gradient")],
 ["sequence of evaluated points, result, heap"])
prop("C09", "Stochastic gradient descent visits its samples fairly",
 "In every epoch stochastic gradient descent takes a step on distinct samples only, ten elevenths of them rounded to the nearest integer, and then measures the error of each sample exactly once, for every stream of random numbers including extreme ones. Each of the first ten epochs' steps is the (slowly decaying) learning rate times that sample's gradient. It stops within the epoch limit for a true reason, its counters equal the calls made, and the returned value is the training error measured at the returned point.",
 ["schedules", "inputs", "histories"], "every random number stream, sample count, learning rate and epoch limit, repeated runs and copies",
 "Existing tests run it with one random stream and check the final accuracy only.",
 [L+"lib_optimization/optimization.c"],
 [("in-place shuffle driven by the C random number generator", L+"lib_optimization/optimization.c: shuffle, c3_opt_sgd, sgd_term_check")],
 ["sample indices passed to the callback", "counters and results"])
NA = []
def na(id, title, statement, over, text, why, files, mech, observe, reason):
    prop(id, title, statement, over, text, why, files, mech, observe); NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_more.py")).read())
TECH = "deterministic simulation: seeded search over simulated runs with fault injection"
NOTE = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_notes.py")).read())
def main():
    P.sort(key=lambda p: p["id"])
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    nas = {n["property"] for n in NA}
    checks = [dict(property=p["id"], quick_cmd=f"python3 sim/check.py {p['id']} quick", thorough_cmd=f"python3 sim/check.py {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="exploration",
                   level_note=NOTE.get(p["id"], "") + " Assurance: no violation in the seeded runs counted in the evidence; trusts the simulator, the generators and the regenerated polynomial tables.") for p in P if p["id"] not in nas]
    m = dict(version=1, setup_cmd="python3 sim/build.py", hooks=dict(guard="C3_SIM (reserved; no guarded code was needed in /repo)", enable="seams are installed at link time (ld --wrap, fopencookie, -fsanitize-coverage=trace-pc) by sim/build.py; /repo sources are compiled unchanged", source_commits=[]),
             checks=checks, not_applicable=sorted(NA, key=lambda n: n["property"]), notes="properties.jsonl and this file are generated by sim/spec.py. Known and repaired defects: KNOWN_FINDINGS.txt.")
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
main()
