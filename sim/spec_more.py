FT = L+"lib_clinalg/ft.c"; TT = L+"lib_tensdecomp/"; AP = L+"lib_interface/approximate.c"; QM = L+"lib_clinalg/qmarray.c"
prop("C10", "Every way of supplying the function gives the same computation",
 "However the user's function is supplied (one point at a time, a batch at once, or an indexed list of one-dimensional functions), a fiber evaluation asks it for exactly the requested points, each of its non-fiber coordinates being the fixed ones, and returns exactly its values in order; a whole cross approximation is then identical bit for bit. Two wrappers used alternately never mix their points, no memory is lost, and a wrapper that was only partly configured can still be released.",
 ["schedules", "inputs", "histories"], "every function, every fiber and dimension, every interleaving of two wrappers, every set-up order",
 "Existing tests use one form at a time with fixed smooth functions and compare norms.",
 [L+"lib_funcs/fwrap.c", L+"lib_funcs/fapprox.c", FT],
 [("fiber cuts", L+"lib_funcs/fwrap.c: fwrap_initialize_fiber_approx, fwrap_add_fiber, fwrap_set_which_fiber, fwrap_eval"), ("indexed points", L+"lib_funcs/fwrap.c: fwrap_eval, MOVEC branch")],
 ["points passed to the user's function", "values returned", "heap"])
prop("C11", "Cross approximation stays in the domain, within its limits, and interpolates what it measured",
 "Cross approximation asks the user's function only at points inside the domain, and for node-based one-dimensional functions only at grid nodes; its ranks and number of sweeps stay within the configured limits for every function, including noisy, constant, zero and discontinuous ones. It stops early exactly when the change of a pass falls below the set tolerance, and adapted ranks grow in the set steps, each up to the limit of its own dimension. A copy of the settings acts as the settings do. The result reproduces the last measured fibers, and any function of sufficiently low rank at all grid points. Repeating it, or using it for another function, gives the same as a fresh start and leaves earlier results untouched; nothing is leaked.",
 ["inputs", "histories", "configurations"], "every function, start index set, rank limit, grid, one-dimensional class, and every sequence of repeated runs",
 "Existing tests check the accuracy of a few smooth functions with hand-picked starting points.",
 [FT, AP, L+"lib_clinalg/indmanage.c", QM, L+"lib_linalg/linalg.c", L+"lib_funcs/linelm.c", L+"lib_funcs/constelm.c", L+"lib_funcs/kernels.c"],
 [("left-right sweeps", FT+": ftapprox_cross, ftapprox_cross_rankadapt"), ("index sets", L+"lib_clinalg/indmanage.c: cross_index"), ("set-up", AP+": c3approx_init_cross, c3approx_do_cross")],
 ["points passed to the user's function", "ranks and values of the result", "bytes of earlier results", "heap"])
prop("C12", "A function that reports failure never yields an approximation",
 "If the user's function reports failure on any call during an approximation, no approximation is returned as if it had succeeded and the values of the failed call are never used as data: the computation stops or reports the failure. If the failing call is never reached, the result equals the one obtained without it.",
 ["fault_sequences", "crash_points"], "every call position that can fail and every function, class and configuration",
 "No existing test has a function that fails.",
 [L+"lib_funcs/fwrap.c", L+"lib_funcs/linelm.c", L+"lib_funcs/constelm.c", L+"lib_funcs/kernels.c", L+"lib_funcs/hpoly.c", FT],
 [("return code of the evaluation", L+"lib_funcs/fwrap.c: fwrap_eval and its callers in lib_funcs")],
 ["process termination or result of the approximation"])
prop("C13", "Function-train algebra is pointwise algebra, whatever was done before",
 "After any sequence of operations the value of a function train at every point is the value of the corresponding expression: constructors give the stated function, sum, product, scaling, axpy, array and matrix-vector forms give the pointwise combination (with their strides), rounding keeps the values within its tolerance, never raises a rank, honours a rank limit (as a projection of the original) and removes redundant rank, integrals and inner products agree with the one-dimensional rules they are defined by, derivatives agree with differences. Operands not documented as overwritten keep every byte, results own their memory, one-variable trains work too, and a train saved before a restart continues where it was.",
 ["histories", "crash_points", "inputs"], "every sequence of operations on every pool of function trains, every restart point",
 "Existing tests apply one operation to fixed operands and check one norm or one point.",
 [FT, QM, L+"lib_clinalg/quasimatrix.c", L+"lib_funcs/functions.c", L+"lib_funcs/linelm.c", L+"lib_funcs/constelm.c"],
 [("rank bookkeeping", FT+": function_train_sum, function_train_product, function_train_round"), ("arrays of trains", FT+": c3vaxpy, c3vprodsum, c3vgemv, c3vgemv_arr"), ("contractions", FT+": function_train_inner, function_train_integrate_weighted_subset")],
 ["values at fixed points", "ranks", "bytes of operands", "heap", "files"])
prop("C14", "Evaluating a function train depends only on the function and the point",
 "Single, batched, nodal, fiber and perturbed evaluation and the gradient agree with the contraction of the one-dimensional functions, do not depend on earlier calls (bit for bit equal to a fresh copy's), never change the function or write beyond their output, and two trains evaluated alternately do not influence each other. Parameters are read and written in the documented order, an update changes exactly the addressed parameters, and later evaluations use them.",
 ["histories", "schedules", "inputs"], "every history of evaluations and parameter updates, every interleaving of two trains",
 "Existing tests evaluate fresh objects once; the lazily built workspace and its reuse are never exercised.",
 [FT, QM, L+"lib_funcs/functions.c", L+"lib_funcs/linelm.c", L+"lib_funcs/constelm.c", L+"lib_funcs/kernels.c"],
 [("workspace", FT+": eval buffers ft->evalspace1..4"), ("parameters", FT+": function_train_get_params, function_train_update_params, function_train_core_update_params")],
 ["values", "bytes of the function", "heap"])
RG = L+"lib_superlearn/regress.c"; PZ = L+"lib_superlearn/parameterization.c"
prop("C15", "Regression minimises the documented objective and repeats exactly",
 "Every objective value and gradient the optimiser is given, and every one recorded, is the weighted mean squared residual of the data (plus the stated regularisation) at the recorded parameters, for one variable or many, repeated points, zero weights and samples reweighted by their leverage; a point of weight zero might as well be absent. Except with a stochastic optimiser the returned function is never worse than the start, its parameters are those the regression object reports, and data and weights are untouched. With a fixed seed the result is the same bit for bit whatever the clock, memory contents, earlier random draws or another regression running in between; continuing from a result equals starting there; alternating sweeps end as soon as one changes the function by less than their tolerance, relative to its norm, and never exceed their limit, recording a trace without overrunning it; a stochastic optimiser is given the objective of the single sample it asks for; adapting ranks raises those that rounding cannot lower by the kick rank up to the limit, keeps a raise only if the error of cross validation over the given folds does not grow, and refits at the end if asked to; nothing is leaked.",
 ["inputs", "histories", "schedules"], "every data set, parameterisation, optimiser and limit, every interleaving of two regressions, every sequence of repeated runs",
 "Existing tests check that a few smooth data sets are fitted to some accuracy; a wrong gradient or weight still fits roughly.",
 [RG, PZ, L+"lib_superlearn/superlearn.c", L+"lib_superlearn/superlearn_util.c", L+"lib_superlearn/objective_functions.c", L+"lib_superlearn/learning_options.c", L+"lib_funcs/constelm.c", L+"lib_funcs/linelm.c", L+"lib_funcs/kernels.c"],
 [("objective", L+"lib_superlearn/objective_functions.c: c3_objective_function_least_squares"), ("gradients", PZ+": ft_param_gradeval, ft_param_gradeval_lin, ft_param_core_gradeval"), ("sweeps", RG+": c3_regression_run_als, ft_regress_run_rankadapt")],
 ["stored values, gradients and iterates", "parameters", "bytes of data and weights", "heap"])
prop("C16", "Cross validation measures held-out error and leaves no trace",
 "The error reported by cross validation is the squared error on the held-out points relative to their squared size, summed over contiguous folds that together contain every point once, each fold predicted by a regression trained from the same start on exactly the remaining points with their own weights. It changes neither the regression's parameters nor data nor weights, can be repeated or interleaved with another one with the same result, and a later regression behaves as if it had not happened. A grid search settles on settings whose error is the smallest of the grid.",
 ["inputs", "histories", "schedules"], "every data set, fold count, weights, start, grid of settings and interleaving",
 "Existing tests run cross validation on one data set and only print the error.",
 [RG, PZ, L+"lib_superlearn/learning_options.c"],
 [("folds", RG+": extract_data, cross_validate_run"), ("grid search", RG+": cross_validate_grid_opt, cv_opt_grid")],
 ["reported error", "parameters before and after", "later regressions", "heap"])

PR = L+"lib_probability/probability.c"
prop("C17", "Independent computations never influence one another",
 "The outcome of a computation - cross approximation, function-train algebra, DMRG and diffusion, optimisation, one-dimensional approximation, memoised evaluation, file access, regression, density - is the same bit for bit whether it runs alone, interleaved with others that use different objects, after any others, at any time and whatever memory contained before. Every one releases all memory and files it acquired.",
 ["schedules", "histories"], "every combination, interleaving and order of computations on separate objects",
 "Existing tests run one computation after the other in a fresh process and look at one result each.",
 [FT, QM, AP, L+"lib_clinalg/dmrg.c", L+"lib_clinalg/dmrgprod.c", L+"lib_clinalg/diffusion.c", L+"lib_optimization/optimization.c", L+"lib_funcs/functions.c", L+"lib_funcs/monitoring.c", RG, PR],
 [("no process-wide state", "every function of c3/ that keeps or reads file-scope or uninitialised memory"), ("ownership", "every alloc/free pair of c3/")],
 ["values, functions, ranks, requested points, recorded files of each computation", "heap", "open files"])
prop("C18", "Running out of memory never yields a wrong result",
 "If any allocation fails at any point of a computation, the process stops, or the call reports failure, or the result is the same as without the failure: no altered value, function, file or parameter is ever delivered as a success.",
 ["fault_sequences", "crash_points"], "every allocation of every computation and every short run of consecutive failures",
 "No existing test fails an allocation.",
 [L+"lib_array/array.c", FT, QM, AP, L+"lib_optimization/optimization.c", L+"lib_funcs/functions.c", RG, PR],
 [("allocation checks", "every malloc/calloc/realloc of c3/")],
 ["process termination", "values, functions, files of the computation"])
prop("C19", "Random draws depend only on the seed and are legal for every stream",
 "After seeding, every sequence of uniform, normal and Poisson draws, random arrays and random function trains is the same whatever was drawn before. Uniform draws lie in [0,1] (arrays and coefficients in [-1,1]), normal draws are finite even if the generator returns its extreme values, random trains have the requested ranks, order and domain, and over many draws the mean, spread and lack of correlation are those of the distribution asked for.",
 ["histories", "inputs"], "every seed, every sequence of draws and every history before it, streams containing extreme values",
 "Existing tests use random arrays as input only; nothing checks the draws.",
 [L+"lib_array/array.c", FT, QM, L+"lib_funcs/polynomials.c"],
 [("draws", L+"lib_array/array.c: randu, randn, poisson, drandu"), ("random trains", FT+": function_train_poly_randu")],
 ["drawn values", "coefficients, ranks and domains of random trains"])
prop("C20", "A density keeps its meaning under transforms, copies, files and restarts",
 "A density with a linear transform has the value of its base density at the transformed-back point divided by the absolute determinant, zero outside the base domain, and the gradient and Hessian of its logarithm follow the chain rule; Gaussian densities built from mean and covariance, or by Laplace approximation, have that mean and covariance, and their samples are the transform of the normal draws. This holds whatever was evaluated, inverted, copied, saved, loaded or restarted before, the inverse being built on demand.",
 ["histories", "crash_points", "inputs"], "every density, transform, point and history of operations, every restart point",
 "The existing density tests are switched off or compare one fixed density.",
 [PR, FT, L+"lib_funcs/linelm.c", L+"lib_linalg/linalg.c"],
 [("lazy inverse", PR+": linear_transform_invert, probability_density_eval"), ("sampling", PR+": probability_density_sample, probability_density_mvn"), ("files", PR+": probability_density_save, probability_density_load")],
 ["density values, gradients and Hessians", "samples", "transform entries", "files", "heap"])
prop("C21", "Products and differential operators by sweeps agree with exact algebra",
 "The product of two function trains, a diffusion or Laplace operator applied to one (directly, on periodic grids, or through a client's operator), is the train with the exact pointwise values for every dimension, rank and function class. DMRG sweeps reproduce it from an exact guess, in two dimensions from any guess, and from generic guesses after a few sweeps; they never exceed its norm, ask the operator callback only for legal cores within the sweep limit, leave every operand unchanged, and give the same result whatever ran before, in between or was in memory, leaking nothing.",
 ["inputs", "histories", "schedules"], "every operand, guess, tolerance and sweep limit, every history of operations on the same operands and every interleaving of two of them",
 "Existing tests apply the operators once to one or two smooth functions and accept a loose error.",
 [L+"lib_clinalg/dmrg.c", L+"lib_clinalg/dmrgprod.c", L+"lib_clinalg/diffusion.c", QM, L+"lib_funcs/functions.c", L+"lib_funcs/linelm.c"],
 [("sweeps", L+"lib_clinalg/dmrg.c: dmrg_sweep_lr, dmrg_sweep_rl, dmrg_approx"), ("operators", L+"lib_clinalg/diffusion.c: dmrg_diffusion_support, exact_diffusion, exact_laplace, exact_laplace_periodic, exact_laplace_op")],
 ["values and shape of the result", "callback requests", "bytes of the operands", "heap"])
prop("C22", "One-dimensional functions keep their meaning in every class",
 "A one-dimensional function of any class (piecewise linear, piecewise constant, Gaussian kernels, Legendre and Chebyshev polynomials) has, at every point and through every evaluation call, the value, derivative, integral, inner product, extreme value and parameter gradient that its stored numbers define. Sums, products, scalings, combinations, copies, nodal projections, derivatives, fits and adaptive approximations yield the function they name, on its domain, with increasing nodes and the stated parameters; a restart restores every function exactly. No operation changes a function it only reads, writes outside the result, or leaves memory behind, whatever was computed before or in between.",
 ["inputs", "histories", "schedules", "crash_points"], "every function, grid, coefficient and point of each class, every history of operations on a pool of functions, every restart point and every interleaving of two such histories",
 "Tests exercise each operation once, on one smooth function with uniform nodes and freshly allocated operands.",
 [L+"lib_funcs/functions.c", L+"lib_funcs/linelm.c", L+"lib_funcs/constelm.c", L+"lib_funcs/kernels.c", L+"lib_funcs/polynomials.c", L+"lib_funcs/funcs_not_standard.c"],
 [("class dispatch", L+"lib_funcs/functions.c: generic_function_*"), ("grid merging", L+"lib_funcs/linelm.c: lin_elem_exp_axpy, lin_elem_exp_inner, lin_elem_adapt"), ("kernels", L+"lib_funcs/kernels.c: kernel_expansion_*")],
 ["values, derivatives, integrals, parameters and nodes", "bytes of operands", "bytes across a restart", "heap"])
prop("C23", "Arrays of functions behave as continuous matrices",
 "Matrices whose entries are one-dimensional functions obey matrix algebra at every point: products with matrices and with each other (plain and transposed), their integrals, Kronecker and block-Kronecker products, stacking, transposition, row and column access, sums, norms, parameter gradients and evaluations have the entries the definition gives. QR, LQ and singular value decompositions return orthonormal factors, triangular factors or ordered singular values, and reproduce the array; truncation drops exactly what its threshold allows. LU and maximum-volume searches return distinct pivots that are largest among the points offered, and the inverse that belongs to them. Operations that only read an array leave it unchanged, a restart restores every array exactly, and nothing is written outside a result or left behind.",
 ["inputs", "histories", "schedules", "crash_points"], "every shape and entry of each class, dependent rows and columns included, every history of operations on a pool of arrays, every restart point and every interleaving of two such histories",
 "Tests exercise each operation on one small array of smooth functions; several (products of transposes, piecewise-constant arrays, rank and LU outside polynomials) are not exercised at all.",
 [QM, L+"lib_clinalg/quasimatrix.c", L+"lib_funcs/functions.c", L+"lib_funcs/funcs_not_standard.c"],
 [("products", QM+": qmaqma, qmatqmat, qmarray_mat_kron, qmarray_block_kron_mat"), ("factorisations", QM+": qmarray_qr, qmarray_lq, qmarray_svd, qmarray_truncated_svd, qmarray_lu1d, qmarray_maxvol1d"), ("vectors of functions", L+"lib_clinalg/quasimatrix.c")],
 ["values of every entry", "inner products of factors", "pivots and inverses", "bytes of operands", "bytes across a restart", "heap"])
prop("C24", "A parameterised function train and its vector of parameters are one thing",
 "A parameterised function train always is the function its vector of parameters defines: variable by variable, function by function in column order, each with the number of parameters its options state. Whole, per-core and rank-restricted updates change exactly the addressed parameters in both the vector and the train; a copy, a new structure, an adopted train (short polynomials padded with zeros), a constant and a linear least-squares start hold what they name and share nothing with their source. The value and the gradient with respect to the parameters - in one piece, precomputed for linear parameterisations and reused for new parameters, or one core at a time between partial products - and the Hessian product, the gradients of inner products and of squared norms agree with the values themselves. Reading changes nothing, nothing is written beyond an output or left behind, whatever came before or runs in between.",
 ["inputs", "histories", "schedules"], "every structure, class, rank, parameter vector and point, every history of updates and every interleaving of two parameterised trains",
 "Tests compare one gradient at uniform ranks; mixed classes, restricted updates, changing structures and reuse of precomputed pieces are not exercised.",
 [PZ, FT, L+"lib_superlearn/superlearn_util.c", L+"lib_funcs/functions.c", QM],
 [("vector and train", PZ+": ft_param_update_params, ft_param_update_core_params, ft_param_update_restricted_ranks, ft_param_update_structure"), ("gradients", PZ+": ft_param_gradeval, ft_param_core_gradeval, ft_param_gradeval_lin, ft_param_hessvec"), ("starts", PZ+": ft_param_create_constant, ft_param_create_from_lin_ls")],
 ["vector, functions and values", "gradients against differences of values", "bytes of inputs and beyond outputs", "heap"])
prop("C25", "Discrete tensor trains hold the tensor they were made from",
 "A tensor train made from a full tensor, a canonical decomposition, a coordinate, ones or by cross approximation has the elements of what it was made from: exactly up to rounding, within the stated tolerance where a tolerance is given, and wherever its ranks suffice for a cross approximation. Sums, products, scaling, copies and orthogonalisation are element by element what they say; inner product, norm and weighted sum are those of the elements; rounding stays within its tolerance and never raises a rank. Arguments are left as they were, but for that of rounding, which is used up, and results share nothing with them. The cross approximation asks its function only for fibers of the grid, each at most once; its result depends on nothing but the function and its options, whatever memory held before and whatever else runs in between. A tensor read from a text file has every number in it, and a file that ends early is refused. Nothing is leaked.",
 ["inputs", "histories", "schedules"], "every size, dimension, rank, sequence of operations, damaged file and interleaving of two sessions",
 "Tests sample a few tensors of equal sizes and ranks, where wrong strides and ranks cancel.",
 [TT+"tensortrain.c", TT+"tt_multilinalg.c", TT+"tt_integrate.c", TT+"cross.c", TT+"candecomp.c", TT+"convert.c", L+"lib_tensor/tensor.c", L+"lib_linalg/linalg.c"],
 [("compression and rounding", TT+"tensortrain.c: full_to_tt; "+TT+"tt_multilinalg.c: tt_round"), ("arithmetic", TT+"tt_multilinalg.c: ttadd, ttmult, tt_dot, tt_norm"), ("cross approximation", TT+"cross.c: tt_cross, tt_cross_adapt"), ("files", L+"lib_tensor/tensor.c: read_tensor_3d")],
 ["elements, ranks and shapes", "calls of the function", "bytes of arguments", "heap"])
na("C90", "Quadrature rules are exact for polynomials of their degree",
 "Gauss-Legendre, Gauss-Hermite, Clenshaw-Curtis and Fejer rules integrate every polynomial up to their nominal degree exactly.",
 ["inputs"], "every rule order and polynomial", "Tests sample a few orders.", [L+"lib_quadrature/quadrature.c"], [("rules", L+"lib_quadrature/quadrature.c")], ["nodes and weights"],
 "A pure function of the rule order: no concurrency, time, I/O, randomness or multi-party behaviour for a simulator to control; exactness is a matter for proof or enumeration.")
na("C91", "Dense linear algebra helpers agree with their factorisations",
 "QR, RQ, SVD, truncated SVD, pseudo-inverse, Kronecker and norm helpers satisfy their defining identities for every matrix.",
 ["inputs"], "every matrix", "Tests sample a few matrices.", [L+"lib_linalg/linalg.c"], [("wrappers", L+"lib_linalg/linalg.c")], ["returned matrices"],
 "Pure wrappers around LAPACK with no schedule, fault or history to vary; their use inside stateful computations is simulated under C11, C13, C20 and C21.")
na("C92", "Orthogonal polynomial families obey their recurrences",
 "Legendre, Chebyshev and Hermite families are orthogonal with the stated norms, and their derivative expansions are exact, at every order.",
 ["inputs"], "every order and argument", "Tests sample a few orders.", [L+"lib_funcs/polynomials.c"], [("families", L+"lib_funcs/polynomials.c")], ["values"],
 "A pure input-output formula; expansions built from it are simulated with their histories under C13, C14, C21 and C22.")
na("C93", "Sobol sensitivity indices are the variance contributions",
 "The sensitivity indices computed from a function train equal the relative variance contributions of its variables.",
 ["inputs"], "every function train", "Tests sample two analytic functions.", [PR], [("indices", PR+": c3_sobol_sensitivity_*")], ["indices"],
 "A deterministic formula of one finished function train; nothing in it depends on scheduling, time, I/O, faults or randomness.")
