"""Per-property run counts and descriptions used by check.py."""
PROPS = {
 "C01": dict(quick=40000, thorough=2000000, rule="A run creates random arrays, function trains, arrays of function trains and densities over every function class, and saves, loads, serialises, prints and restarts in random order with reads cut into arbitrary chunks; non-trivial if at least one object was saved.",
   probes=["io.save","io.load","io.final_load","io.restart","io.text_exact","io.text_rounded","io.bytes_roundtrip","io.gf_roundtrip","io.array_text"]),
 "C02": dict(quick=40000, thorough=2000000, rule="A run damages a saved file (death inside an overwrite at a random system call with a torn last write, lost tail at a random byte, missing file, read errors) and loads it; non-trivial if a damaged or unreadable file was loaded.",
   probes=["io.damaged_refused","io.torn_refused","io.torn_complete","io.torn_old_kept","io.read_error_refused","io.repaired"]),
 "C03": dict(quick=40000, thorough=2000000, rule="A run saves a random object several times while opens, writes, the device capacity, closes and allocations fail at random points; non-trivial if a save was attempted under an armed fault.",
   probes=["io.save_failure_reported"]),
}
PROPS["C04"]=dict(quick=12000, thorough=1000000, rule="A run requests random, nearby, permuted and repeated points from one monitor or from two monitors under the seeded scheduler, with nested requests from inside the user's function and printed records at random times; non-trivial always.", probes=["monitor.recall","monitor.dump","monitor.single_bucket","monitor.two_interleaved","monitor.storevals","monitor.many_points"])
OPT="A run draws an algorithm, line search, limits, tolerances, box, start and one of eleven objectives (five smooth, plateau, jump, infinite wall, misleading gradient, noise, undefined value) and "
PROPS["C05"]=dict(quick=40000,thorough=1000000,rule=OPT+"checks every point passed to the objective; non-trivial if the problem is bounded.",probes=["opt.many_variables"])
PROPS["C06"]=dict(quick=40000,thorough=1000000,rule=OPT+"compares counters, trace, result and stopping reason with the recorded calls; non-trivial if an optimisation returned.",probes=["opt.many_variables"])
PROPS["C07"]=dict(quick=40000,thorough=1000000,rule=OPT+"bounds the number of calls and iterations; non-trivial if an optimisation returned.",probes=["opt.converged","opt.many_variables"])
PROPS["C08"]=dict(quick=30000,thorough=1000000,rule=OPT+"repeats it, copies it, runs others in between and frees in random order; non-trivial if at least two runs were compared.",probes=["opt.many_variables"])
PROPS["C09"]=dict(quick=30000,thorough=1000000,rule="A run draws sample count, dimension, learning rate, epoch limit and a random number stream that may contain extreme values, and records which samples are visited; non-trivial if an epoch completed.",probes=["sgd.ftol","sgd.xtol","opt.many_variables"])
CX="A run draws dimension, one-dimensional class, grids, ranks, sweeps, starting nodes and a function (low rank, smooth, noisy, constant, zero, discontinuous), "
PROPS["C10"]=dict(quick=9000,thorough=600000,rule=CX+"and evaluates fibers through every form of wrapper, two wrappers under the seeded scheduler, or the same cross approximation through each form; non-trivial if a fiber was evaluated.",probes=["fwrap.fibers","fwrap.cleaned","fwrap.two_interleaved","fwrap.unused","fwrap.many_points"])
PROPS["C11"]=dict(quick=10000,thorough=800000,rule=CX+"and runs cross approximation, repeats it, sets it up again and reuses it for another function; non-trivial if an approximation was returned.",probes=["cross.fiber","cross.exact","cross.reinit","cross.second_function","cross.stop_tol","cross.kicks","cross.at_its_limit","cross.kicks_each","cross.many_variables","cross.many_nodes"])
PROPS["C12"]=dict(quick=20000,thorough=600000,rule=CX+"and makes one call of the function fail; non-trivial if the failing call was reached.",probes=["cbfail.not_reached"])
PROPS["C13"]=dict(quick=30000,thorough=600000,rule="A run draws a box, one-dimensional classes and grids and performs 3 to 16 random operations (constructors, sum, product, scaling, axpy, rounding, rank caps, inner products, marginals, nodal form, save/load, arrays of trains) on a pool of five function trains, with process restarts in between; non-trivial always.",probes=["ft.sum","ft.product","ft.round","ft.rank_capped","ft.rank_reduced","ft.integral","ft.marginal","ft.nodal","ft.array_op","ft.derivative","ft.restart","ft.from_1d","ft.closed_form","ft.many_variables"])
PROPS["C14"]=dict(quick=40000,thorough=1000000,rule="A run draws one or two function trains over random classes and makes 2 to 14 random evaluation, gradient, perturbation, nodal and parameter calls on each, two trains under the seeded scheduler; non-trivial always.",probes=["eval.nodal","eval.gradient","eval.params","eval.perturb","eval.two_interleaved","eval.many_points"])
PROPS["C15"]=dict(quick=14000,thorough=600000,rule="A run draws one or two regression problems (1 to 4 variables, 1 to 14 and now and then up to 90 weighted or repeated points, four one-dimensional classes, all-at-once or alternating, with or without regularisation, four optimisers, optional rank adaptation), solves them, and solves them again after clock jumps, foreign random draws, refilled memory and under the seeded scheduler; non-trivial always.",probes=["reg.gradient","reg.improved","reg.als_trace","reg.rankadapt","reg.interleaved","reg.continued","reg.kristoffel","reg.weight_zero","reg.full_sweeps","reg.many_samples","reg.stochastic","reg.adapt_steps","reg.kick_kept","reg.kick_rejected","reg.sweep_stop","reg.early_stop"])
PROPS["C16"]=dict(quick=8000,thorough=300000,rule="A run draws one or two regression problems and fold counts, cross validates them repeatedly, alone, under the seeded scheduler, or over a grid of settings, and compares with training every fold separately; non-trivial always.",probes=["cv.run","cv.grid","cv.interleaved","reg.many_samples"])
PROPS["C17"]=dict(quick=14000,thorough=600000,rule="A run draws two or three computations out of eight kinds (cross approximation, train algebra, optimisation, one-dimensional functions, monitor and files, regression, density, short-lived functions at reused addresses), runs each alone, then all of them interleaved by the seeded scheduler or again in random order with other memory contents and clock, and compares everything they observe bit for bit; non-trivial always.",probes=["mix.interleaved","mix.again"])
PROPS["C18"]=dict(quick=20000,thorough=600000,rule="A run draws one computation out of the same seven kinds, runs it once to count its allocations, and again with one or a few consecutive allocations failing at a random point; non-trivial if it allocates.",probes=["oom.survived"])
PROPS["C19"]=dict(quick=30000,thorough=600000,rule="A run draws a list of random draws (uniform, normal, Poisson, arrays, random function trains), executes it after seeding, then again after seeding with the same number once other draws have happened in between, on an ordinary stream or one with extreme values; non-trivial always.",probes=["draw.repeated","draw.statistics","draw.many"])
PROPS["C20"]=dict(quick=10000,thorough=400000,rule="A run makes one or two densities (general function trains or Gaussians, with or without a linear transform) and evaluates, differentiates, samples, copies, inverts, saves, loads and restarts in random order; non-trivial always.",probes=["den.derivatives","den.loaded","den.outside","den.transform_copied","den.gaussian","den.sample","den.laplace","den.restarted"])
PROPS["C21"]=dict(quick=10000,thorough=500000,rule="A run draws one or two sessions (dimension 2 to 4, now and then up to 7, four families of one-dimensional functions, ranks up to 2) and applies 1 to 5 products, sweeps with a client's operator, diffusion, Laplace and periodic Laplace operators to a pool of four trains, two sessions under the seeded scheduler; non-trivial if an operator was applied.",probes=["dmrg.product","dmrg.client","dmrg.diffusion","dmrg.sweep_diffusion","dmrg.settled","dmrg.laplace","dmrg.periodic","dmrg.two_tasks","dmrg.many_variables"])
PROPS["C22"]=dict(quick=16000,thorough=800000,rule="A run draws one or two sessions, each with a class of one-dimensional functions, two grids and a pool of five functions, and performs 2 to 12 of 23 kinds of operation (sums, strided arrays, products, Kronecker combinations, derivatives, integrals, extremes, parameters, constructors, bases, adaptive approximation, fits), two sessions under the seeded scheduler or one with process restarts; non-trivial always.",probes=["uni.integrals","uni.absmax","uni.norm_gradient","uni.params","uni.create","uni.onezero","uni.basis","uni.adapt","uni.approx","uni.fit","uni.deriv","uni.periodic","uni.kernel_options","uni.merged","uni.arrays","uni.lincomb","uni.adaptive_product","uni.product","uni.kron","uni.eval","uni.nodal","uni.restart","uni.two_tasks","uni.large","uni.many_points","uni.close_grids"])
PROPS["C23"]=dict(quick=24000,thorough=600000,rule="A run draws one or two sessions, each with a class of functions on one domain and a pool of five arrays up to 3x3, now and then up to 6x6 on 24 nodes, and performs 2 to 10 of 14 kinds of operation (matrix products, Kronecker and block products, integrals, stacking, parameters, QR, LQ, Gram-Schmidt, SVD, LU, maximum volume, vectors of functions), two sessions under the seeded scheduler or one with process restarts; non-trivial always.",probes=["qm.svd","qm.truncated_svd","qm.blocks","qm.shape","qm.factor","qm.params","qm.maxvol","qm.integral","qm.lu","qm.quasi_qr","qm.quasi_sum","qm.matrix","qm.eval","qm.quasi_rank","qm.two_tasks","qm.product","qm.nodal","qm.dependent","qm.absmax","qm.kron","qm.orth","qm.quasi_matrix","qm.quasi_lu","qm.quasi_maxvol","qm.restart","qm.axpy","qm.quasi_copy","qm.lu_low_rank","qm.derivative","qm.large"])
PROPS["C24"]=dict(quick=30000,thorough=600000,rule="A run draws one or two sessions, each with 1 to 4, now and then up to 7 variables, a class of one-dimensional functions, nodes and two sets of options per variable, ranks up to 3 and parameter values, and performs 1 to 8 of 15 kinds of operation (whole, per-core, restricted and in-place updates, reads, copies, new structures, adopted trains, constants, linear fits, gradients, one-core sweeps, Hessian products, norm and inner-product gradients), two sessions under the seeded scheduler; non-trivial always.",probes=["par.sweep","par.restricted","par.constant","par.structure","par.copy","par.hessian","par.norm","par.two_tasks","par.padded","par.gradient","par.reused_structure","par.linear","par.inner","par.fit","param.many_variables"])
PROPS["C25"]=dict(quick=30000,thorough=600000,rule="A run draws the sizes of a discrete tensor (2 to 4, now and then 6 dimensions of 1 to 4, now and then 20 values each) and performs 4 to 16 operations on a pool of five tensor trains (compression, coordinates, canonical tensors, copies, scaling, sums, products, rounding, orthogonalisation, inner products, integrals), or one or two cross approximations of given functions, alone and under the seeded scheduler, or reads tensors from complete and cut files; non-trivial always.",probes=["tt.compress","tt.coordinate","tt.canonical","tt.sum","tt.product","tt.rank_reduced","tt.orthogonal","tt.inner","tt.cross","tt.cross_adapt","tt.cross_exact","tt.interleaved","tt.file","tt.large"])
