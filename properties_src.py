COMMON = " Assumes: real arithmetic for floats, trusted contracts of NumPy/SciPy/numba, the verifier itself (cross-checked against CPython on every run)."

prop("C01", "Cartesian grids enumerate exactly the product of their axes",
     "A Cartesian grid with given bounds and numbers of points (or given point lists) has exactly the product of the axis sizes as nodes: node number (i*n2+j)*n3+... is the point made of the i-th, j-th, ... points of the axes, equally spaced from lower to upper bound for uniform grids. Bounds, numbers of points, number of nodes and single-node access agree with that enumeration; adding or multiplying two grids concatenates their axes and the empty grid is neutral. Discretizing a rectangular domain gives the uniform grid over its bounds, in the order of its states.",
     ["inputs"], "every number of axes, every number of points per axis, every bounds and point lists",
     "Tests sample two or three sizes; the enumeration order must be right for every size, and grid sums and default sizes are not exercised at all.",
     ["dolo/numeric/grids.py", "dolo/numeric/misc.py", "dolo/compiler/objects.py"],
     [("cartesian / mlinspace", "dolo/numeric/misc.py"), ("UniformCartesianGrid, NonUniformCartesianGrid, cat_grids", "dolo/numeric/grids.py"), ("CartesianDomain.discretize", "dolo/compiler/objects.py")],
     "Proved for any sizes and any values, for 1 to 3 axes (number of axes is a stated bound); quantecon.cartesian is a trusted dependency." + COMMON)

prop("C06", "Complementarity residuals vanish exactly at solutions, with their jacobian",
     "For every value f, point x and bounds a<=b, finite or infinite on either side, the smoothed complementarity residual is zero exactly when (x,f) solves the mixed complementarity problem: f=0 with a<=x<=b, or x=a with the sign of f that keeps x at its lower bound, or x=b with the opposite sign. The derivatives returned with the residual are those of the residual with respect to x and f, and the batched versions treat each observation and each variable independently.",
     ["inputs"], "every f, x, a<=b including infinite bounds; every number of points and variables; scalar, batched and jacobian-carrying variants",
     "Tests evaluate the transformation on a few vectors; equivalence with the complementarity problem is a statement about every sign pattern and every bound configuration.",
     ["dolo/algos/fb.py", "dolo/numeric/optimize/ncpsolve.py", "dolo/numeric/extern/lmmcp.py"],
     [("smooth_, smooth_nodiff", "dolo/algos/fb.py"), ("smooth", "dolo/numeric/optimize/ncpsolve.py"), ("Phi3MCPPFB", "dolo/numeric/extern/lmmcp.py")],
     "Proved for all reals and all batch sizes; jacobians by symbolic differentiation of the residual the code computes." + COMMON)

prop("C08", "Batched linear algebra solves each system of the batch",
     "Given N regular systems A[n] x = b[n], every batched solver returns an x with A[n] x[n] = b[n] for each n, every batched inverse satisfies A[n] inv(A)[n] = I, and batched products equal the product of each pair of matrices. Systems never influence each other, and functions that are not documented as working in place leave their arguments unchanged.",
     ["inputs"], "every number of systems, size, and entries with regular matrices",
     "Tests solve one well-behaved system; pivoting, row elimination and right-hand-side bookkeeping must be right for every matrix and every shape.",
     ["dolo/numeric/serial_operations.py", "dolo/numeric/optimize/newton.py", "dolo/algos/invert.py", "dolo/algos/improved_time_iteration.py"],
     [("serial_multiplication, serial_solve, solve", "dolo/numeric/serial_operations.py"), ("invert, solve_gu, invert_gu, solve_tensor", "dolo/algos/invert.py"), ("ssmul", "dolo/algos/improved_time_iteration.py")],
     "Proved for any number of systems; Gaussian elimination proved for systems of size 1 to 3 (bounded), larger sizes exercised concretely; numpy.linalg.solve/inv trusted." + COMMON)

prop("C02", "The product of Markov chains is their independent joint chain",
     "The product of independent Markov chains is a Markov chain whose states are all the combinations of the states of its factors, the first factor varying slowest, with the values of the factors side by side, and in which going from one combination to another has the product of the factors' probabilities. Its rows are probability distributions when those of the factors are, and products of three or more chains equal the successive products of two. Every way of reading a chain (nodes, integration nodes and weights, discretization as a general process, a product process discretized as a whole) describes that same chain, and zero-probability transitions are skipped when iterating.",
     ["inputs"], "every number of states, values and transition matrices",
     "Tests build one small product; index arithmetic must be right for every number of states and every matrix.",
     ["dolo/numeric/discretization/discretization.py", "dolo/numeric/processes.py"],
     [("tensor_markov", "dolo/numeric/discretization/discretization.py"), ("product_mc, ProductProcess.discretize, MarkovChain, GDP, ConstantProcess", "dolo/numeric/processes.py")],
     "Proved for any numbers of states and any values, for products of 2 and 3 chains." + COMMON)

prop("C03", "Autoregressive processes: discrete chain, simulation and response",
     "The Markov chain obtained by discretizing a scalar or vector autoregressive process with mean mu, autocorrelation rho and innovation covariance Sigma is a genuine chain (non-negative probabilities, rows summing to one) with, in every state x, conditional mean mu + rho (x - mu) and conditional covariance Sigma (Rouwenhorst), or exactly the probability of the cell around each equally spaced node (Tauchen); the covariance matrix passed is left unchanged and shocks without variance stay constant. The discretization on a grid has equally spaced nodes centred on the mean and integration nodes with the same conditional mean and variance. Simulated paths start at mu plus the initial deviation and then follow x[t]-mu = rho (x[t-1]-mu) + e[t] with independent innovations of covariance Sigma (zero when not stochastic); impulse responses follow the same recursion from mu plus the impulse. Only scalar autocorrelations are discretized; others are refused.",
     ["inputs"], "every autocorrelation, covariance matrix, mean, number of states and dimension",
     "Tests discretize one process; the moments must be exact for every parameter, and simulation, response and grid discretization are hardly exercised.",
     ["dolo/numeric/discretization/discretization.py", "dolo/numeric/processes.py"],
     [("rouwenhorst, tauchen, multidimensional_discretization", "dolo/numeric/discretization/discretization.py"), ("AR1, VAR1, GDP", "dolo/numeric/processes.py")],
     "Univariate rules proved for any parameters for 2 to 5 (Rouwenhorst) and 2 to 4 (Tauchen) states (bounded), larger numbers concretely; everything built on them is proved for any number of states against their contract, for 1 and 2 variables; cholesky and the normal distribution function trusted; distribution of random draws by statistical checks (bounded)." + COMMON)

prop("C04", "iid distributions: quadrature, weights, products and mixtures",
     "Discretizing an independent shock gives points with non-negative weights summing to one. Gauss-Hermite nodes of a normal variable or vector have exactly its mean and covariance, whatever the orders, and leave the covariance matrix unchanged; equiprobable points are the quantiles that the requested mass point (median, left, right, middle) designates. The product of discrete distributions has every combination of points with the product of the weights, the first factor varying slowest; a mixture has the points of its components weighted by the probability of each component. The expectation of a function is the weighted sum of its values; viewed as a Markov chain, every row of transitions is the vector of weights, with the requested number of points. Truncated variables stay within their bounds with conditional quantiles; random draws have the mean and covariance of the distribution.",
     ["inputs"], "every set of parameters, number of points, quadrature order, dimension, function",
     "Tests compare one expectation per distribution with a loose tolerance; moments, enumeration order and options must be right for all parameters.",
     ["dolo/numeric/distribution.py", "dolo/numeric/discretization/quadrature.py", "dolo/numeric/processes.py"],
     [("gauss_hermite_nodes, hermgauss", "dolo/numeric/discretization/quadrature.py"), ("FiniteDistribution, EquiprobableDistribution, product_iid, Mixture, Normal, UNormal, Truncation", "dolo/numeric/distribution.py")],
     "Proved for any parameters, points, weights and orders (vectors of 1 and 2 variables, mixtures of two components of up to 3 points); hermgauss checked exhaustively for orders 1 to 24 (bounded); scipy quantile functions trusted; draws by statistical checks (bounded)." + COMMON)

prop("C05", "Residuals and values are expectations over the shocks, state by state",
     "Given a discretized shock process, the residuals of the arbitrage equations at state number i of the shock and point n of the grid are the sum, over the successors j of i, of the probability of j given i times the equations evaluated at the current state and decision of (i, n), the transition to tomorrow's state computed from them and the shock j, and the decision tomorrow's rule takes there. The derivatives with respect to today's decisions include the effect through tomorrow's state, those with respect to tomorrow's decisions are returned for each successor, and applying them to a perturbation of tomorrow's rule gives the resulting change of today's residual. The value of following a policy is today's utility combined, through the declared formula, with the value expected tomorrow, and a choice is valued in the same way. Markov chains, iid shocks and discretized processes on a grid are all handled.",
     ["inputs"], "every model function, process, number of states, points, controls and shocks",
     "Tests solve whole models with a handful of points and look at the final policy; a wrong index, weight or point of evaluation shifts the solution slightly and goes unnoticed.",
     ["dolo/algos/time_iteration.py", "dolo/algos/improved_time_iteration.py", "dolo/algos/value_iteration.py"],
     [("residuals_simple", "dolo/algos/time_iteration.py"), ("euler_residuals, d_filt_dx, Operator", "dolo/algos/improved_time_iteration.py"), ("update_value, choice_value", "dolo/algos/value_iteration.py")],
     "Proved for any model functions (uninterpreted), processes and sizes; the inversion of the linear operator (power series) is checked concretely on contracting operators (bounded)." + COMMON)

prop("C13", "Decision rules interpolate the values they were given",
     "A decision rule built from values at the nodes of an exogenous and an endogenous grid returns exactly these values at the nodes, whatever the interpolation method; the linear rule is the multilinear interpolation of the values, and reproduces affine functions. A rule can be called with the number of a node of the exogenous grid, with exogenous values, or with endogenous values only; calls with one point or with many, with one exogenous vector or one per point, all return the value of the rule at each pair of arguments. Constant rules and rules given by formulas return what they were given.",
     ["inputs"], "every grid size, values, points and calling convention",
     "Tests evaluate a few rules at random points and check shapes; indexing of nodes, coefficients and broadcasting must be right for each combination of grids and calling conventions.",
     ["dolo/numeric/decision_rule.py"],
     [("DecisionRule, get_coefficients, eval_is, eval_ms, eval_s", "dolo/numeric/decision_rule.py"), ("CallableDecisionRule.__call__, ConstantDecisionRule, CustomDR", "dolo/numeric/decision_rule.py")],
     "Linear interpolation proved for any sizes and values with 1 or 2 endogenous axes and at most 1 cartesian exogenous axis (bounded), against a trusted contract of the interpolation package; cubic rules and more axes concretely; rules given by formulas concretely (bounded)." + COMMON)

prop("C14", "Polynomial decision rules evaluate their polynomial; tensor products contract",
     "A Taylor decision rule of order 1, 2 or 3 with centre s0, value x0 and coefficients X1, X2, X3 evaluates to x0 + X1 ds + X2 ds ds / 2 + X3 ds ds ds / 6 with ds = s - s0, for every control, at one point or at each row of a matrix of points, whether or not exogenous values are passed, and leaves its coefficients unchanged; selecting controls selects those components. A linear rule in exogenous and endogenous states evaluates to x0 + Cm (m - m0) + Cs (s - s0) for every form of call, the exogenous part being optional. The tensor products sum over the common axes: contraction of two tensors, and multilinear map applied to several matrices.",
     ["inputs"], "every number of states, controls, points, coefficients and extents",
     "Tests compare one evaluation with its vectorised counterpart; index order and constant factors must be right for all shapes, including asymmetric coefficients.",
     ["dolo/numeric/taylor_expansion.py", "dolo/algos/perturbation.py", "dolo/numeric/tensor.py"],
     [("TaylorExpansion, eval_te_order_1/2/3", "dolo/numeric/taylor_expansion.py"), ("BivariateTaylor", "dolo/algos/perturbation.py"), ("sdot, mdot, multidot_old", "dolo/numeric/tensor.py")],
     "Proved for any sizes and values; tensor products for up to 3 axes or 3 arguments (bounded number of axes, any extents)." + COMMON)

prop("C15", "Matrix equations are solved",
     "The solution X returned for a linear matrix equation A1 X B1 + ... + Ak X Bk + K = 0 satisfies it; the solution returned for a Sylvester equation A X + B X [C, ..., C] + D = 0, where X and D have any number of axes besides the first and C multiplies each of them, satisfies it; the solution returned for a second order equation F P P + G P + H = 0 with as many roots inside the unit circle as unknowns satisfies it and is the stable one. Coefficients are left unchanged. Regular systems only.",
     ["inputs"], "all coefficients and sizes for which the equation has one (stable) solution",
     "No test solves a matrix equation; index order and signs must be right for all sizes and coefficients.",
     ["dolo/numeric/matrix_equations.py", "dolo/numeric/extern/qz.py"],
     [("solve_sylvester_vectorized, solve_sylvester, second_order_solver", "dolo/numeric/matrix_equations.py"), ("qzordered", "dolo/numeric/extern/qz.py")],
     "Proved for any coefficients and sizes (1 to 3 terms, 1 to 3 axes); dense solvers and the ordered Schur decomposition trusted in the proofs, executed in the concrete search." + COMMON)

prop("C17", "Cached functions return what the function returns",
     "Whatever calls were made before, a function decorated with memoized or cachedondisk returns, for any arguments (numbers, strings, tuples, lists, dictionaries, None, arrays; by position or by name) the value of the function there, and does not evaluate it again for arguments met before; arguments which differ by a sign, the shape of an array or one entry are not mistaken for one another. A dictionary on disk returns the last value stored under a key, or None.",
     ["inputs", "histories"], "every deterministic function, argument and sequence of calls",
     "Tests repeat one call; collisions between arguments need particular histories.",
     ["dolo/misc/caching.py"],
     [("memoized, cachedondisk, DiskDictionary, hashable", "dolo/misc/caching.py")],
     "memoized proved after any history (up to three arguments), given that hashable separates arguments; that, and caches on disk, concretely over random histories (bounded)." + COMMON)

prop("C16", "Trends minimize the filters' criteria, series by series",
     "The Hodrick-Prescott filter returns, for each series, the trend tau solving the first-order conditions of minimizing sum (y - tau)^2 + lambda sum (second differences of tau)^2, with the lambda passed, so that an affine series is its own trend and the mean is preserved; each row of a two dimensional array is filtered on its own and arrays with more axes are refused. The band-pass filter applies to each row of observations the symmetric moving average with Baxter-King weights for the periods passed, dropping k observations at each end.",
     ["inputs"], "every series, length, smoothing parameter and band",
     "Tests filter one series; the boundary rows of the system and the normalization of weights matter for every length and parameter.",
     ["dolo/numeric/filters.py"],
     [("hp_filter, bandpass_filter", "dolo/numeric/filters.py")],
     "Proved for series of any length; arrays with two series (bounded number of series). Sparse matrices as dense ones, spsolve and fftconvolve trusted." + COMMON)

prop("C19", "Numerical derivatives are the derivatives, and leave the point unchanged",
     "Numerical differentiation of a vectorized function returns its value and, for every observation, value and argument, its derivative: exactly (up to rounding) for affine functions with one-sided differences and for quadratic functions with centred ones, for any number of observations, values and arguments, including functions whose number of values differs from the number of observations and several axes of derivation. The evaluation point is left unchanged.",
     ["inputs"], "every function, number of observations, values, arguments and step",
     "Tests differentiate one function at one point of one shape.",
     ["dolo/numeric/serial_operations.py", "dolo/numeric/optimize/newton.py", "dolo/numeric/misc.py", "dolo/compiler/misc.py"],
     [("numdiff1, numdiff2", "dolo/numeric/serial_operations.py"), ("SerialDifferentiableFunction", "dolo/numeric/optimize/newton.py"), ("MyJacobian", "dolo/numeric/misc.py"), ("numdiff", "dolo/compiler/misc.py")],
     "Proved for affine / quadratic functions with arbitrary coefficients, any number of observations and values (bounded numbers of derivation axes); smooth functions concretely (bounded)." + COMMON)

prop("C10", "Simulated paths follow the model, the decision rule and the seed",
     "A simulation of a model with a decision rule has, for each date and path, the exogenous values of the driving process (given values, given states of a Markov chain, or draws of the process), states starting at the given (or calibrated) initial state and following the transition function with the exogenous values of the two consecutive dates, the state and the control of the first; controls given by the decision rule at the exogenous values (or chain state) and the states of the same date; and the auxiliary variables implied by them, each under its own name. Given shocks and initial states are left unchanged. The same seed gives the same paths, another seed other paths. An impulse response is the simulation along the response of the process to the impulse (one standard deviation by default), starting from the calibration.",
     ["inputs", "histories"], "every model, decision rule, driving process, number of paths and dates, seed",
     "Tests only check that a simulation runs; a lag, a swapped argument or a mislabelled column goes unnoticed.",
     ["dolo/algos/simulations.py"],
     [("simulate", "dolo/algos/simulations.py"), ("response, find_index", "dolo/algos/simulations.py")],
     "Proved for any model functions and decision rule (uninterpreted), any values, numbers of variables, paths and dates; impulse responses and seeds concretely (bounded)." + COMMON)

prop("C11", "Draws of Markov chains and other processes follow their law",
     "Simulating a Markov chain moves, at each date and for each path, from the current state to the state designated by an independent uniform draw: state j is reached exactly when the draw lies between the cumulated probabilities before and after j, so that states of zero probability are not reached, observed transition frequencies are the probabilities, and paths start at the given state and always stay within the states of the chain. The values simulated are those of the nodes of these states. A deterministic simulation stays at the given state. Independent processes are drawn independently over dates and paths (and stay at their mean when not stochastic), constant processes remain constant, and products of processes put the values of the factors side by side.",
     ["inputs", "histories"], "every transition matrix, set of nodes, number of paths and dates, sequence of draws",
     "Tests simulate once without looking at the transitions; an off-by-one in the cumulated probabilities needs draws close to a boundary to show.",
     ["dolo/numeric/processes.py", "dolo/numeric/distribution.py"],
     [("choice, simulate_mc_indices, simulate_markov_chain", "dolo/numeric/processes.py"), ("MarkovChain.simulate, IIDProcess, ConstantProcess, ProductProcess", "dolo/numeric/processes.py")],
     "The search for the state is proved for up to 5 states (bounded, any probabilities), the recursion on paths for any number of states, dates and paths against its contract; frequencies and products of processes concretely (bounded)." + COMMON)

prop("C18", "Calibration, domain, grid and shocks reflect the current parameters",
     "The calibration of a model gives for the name of a group the values of its symbols in their order (actions being the controls), for a symbol its value and for several names the list of their values; these values cannot be changed in place, and the values they were built from remain as they were. After any sequence of changes of calibrated values (by keywords or with a dictionary, numbers or formulas, whatever was read in between), the calibration, the domain, the grid and the shocks are those of a model defined with these values from the start: nothing computed with earlier values remains. The domain and the grid have the bounds of each state in the order of the states, whatever the order of the entries of the model file; entries which are not states are ignored and missing ones refused. Shocks are in the order of the exogenous symbols, any other order being refused; the options given to discretize a model are used.",
     ["inputs", "histories"], "every set of values, every order of declaration and every sequence of changes and reads",
     "Tests read one calibration; stale values show only for particular sequences of reads and changes, misordered bounds only for particular files.",
     ["dolo/compiler/misc.py", "dolo/compiler/model.py", "dolo/compiler/objects.py"],
     [("CalibrationDict, LoosyDict, calibration_to_vector, calibration_to_dict", "dolo/compiler/misc.py"), ("SymbolicModel.get_domain, get_exogenous, endo_grid, Model.set_calibration, set_changed", "dolo/compiler/model.py"), ("CartesianDomain", "dolo/compiler/objects.py")],
     "The invalidation is proved by induction on histories (whatever was read before a change, objects being opaque); lookups and order of domains for any values (bounded numbers of symbols); model files concretely (bounded). Evaluation of formulas (dolang) trusted." + COMMON)

prop("C20", "Residuals vanish at steady states, and steady states found are ones",
     "The residuals of a model at given (or calibrated) values are the transition evaluated at constant values minus the states, and the arbitrage equations with the same values today and tomorrow. The search of a steady state solves exactly these equations for the states and controls, starting from the calibration, with the exogenous values asked for (the calibrated ones by default) and the calibrated parameters, and returns the states, controls, exogenous values and parameters of the solution under their names.",
     ["inputs"], "every model function, calibration and exogenous value",
     "Tests do not look for steady states other than the calibrated one.",
     ["dolo/algos/steady_state.py", "dolo/compiler/misc.py"],
     [("residuals, find_steady_state", "dolo/algos/steady_state.py"), ("CalibrationDict", "dolo/compiler/misc.py")],
     "Proved for any functions (uninterpreted), values and numbers of variables, against the contract of scipy.optimize.root (values under the names of symbols: one or two variables of each kind, bounded); linear and growth models concretely (bounded)." + COMMON)

prop("C09", "Ergodic distributions are transported by the rule and are stationary",
     "The matrix of transitions over the nodes of exogenous and endogenous states, with cartesian endogenous grids, gives from each node the probabilities of the next nodes: for each future exogenous node, its conditional probability times the linear interpolation weights of the future state (moved into the grid when it falls outside), so that every row is non-negative, sums to one, and keeps the mean of states falling inside the grid. The distribution returned is a stationary distribution of these transitions, normalized to one, presented with the dimensions and coordinates of the grid; with independent shocks it is summed over them.",
     ["inputs"], "every transition function, decision rule, grid, transition matrix and set of shocks",
     "Tests only check that the computation runs; a misplaced weight or index appears only for some nodes.",
     ["dolo/algos/ergodic.py"],
     [("ergodic_distribution", "dolo/algos/ergodic.py"), ("trembling_hand", "dolo/algos/ergodic.py")],
     "Proved for any transition function and decision rule, numbers and positions of nodes, with grids of one or two axes (bounded); two models concretely (bounded). The linear solver is trusted." + COMMON)

prop("C12", "Perfect foresight paths satisfy the equations of the model at every date",
     "A perfect foresight simulation returns a table indexed by dates, in which exogenous values are the series given (as an array, a table or by name; the last value being held, series which are too long truncated, exogenous variables not given being kept at their calibration); states start at the given initial state, or at the steady state associated with the first exogenous values, and follow the transition function; controls satisfy the arbitrage equations at each date but the last (with the bounds of the controls, supposed constant: residuals vanish where the controls are strictly within bounds, and are non-negative at lower bounds, non-positive at upper bounds), and are the same at the last two dates; auxiliary variables are those implied. Bounds are not taken into account when they are to be ignored. The initial steady state is added at date -1 when it is to be kept. A former solution can be used as an initial guess. Bounds which are not constant are refused.",
     ["inputs"], "every model, series of shocks, horizon, initial state and bounds for which the solver converges",
     "Tests check that a few simulations run; a wrong lag, an index of the stacked derivatives or the use of bounds at the end needs particular series of shocks to show.",
     ["dolo/algos/perfect_foresight.py", "dolo/numeric/extern/lmmcp.py"],
     [("deterministic_solve, _shocks_to_epsilons", "dolo/algos/perfect_foresight.py"), ("det_residual", "dolo/algos/perfect_foresight.py")],
     "The stacked system, its derivatives, and what is passed to solvers and returned are proved for any model functions, numbers of variables, horizon and series (series given by name with one or two variables of each kind, bounded), solvers being specified by C06 and C07; a growth model concretely (bounded)." + COMMON)

prop("C21", "Tables of decision rules contain the decisions at the points asked for",
     "Tabulating a decision rule along one state gives, for each of the points asked for, the value of this state equally spaced between the bounds asked for (those of the domain of the state otherwise), the other states and the exogenous values being the ones given (or those of the calibration or of the node given), the controls the decision rule gives there, and the auxiliary variables implied, each under its own name. Tabulating over two states gives the controls on the product of the points along each of the two states, the others being kept at the given point, under the names of states and controls.",
     ["inputs"], "every decision rule, state, bounds, number of points and fixed values",
     "Tests check that tabulation runs; a misplaced label or argument goes unnoticed.",
     ["dolo/algos/simulations.py"],
     [("tabulate", "dolo/algos/simulations.py"), ("tabulate_2d", "dolo/algos/simulations.py")],
     "Proved for any decision rule (uninterpreted), numbers of variables, values and numbers of points along one or two states; a growth model concretely (bounded)." + COMMON)

prop("C22", "Formulas over simulated tables are evaluated date by date",
     "A formula evaluated over a table of simulated values gives, at each date, the value obtained with the values of variables at this date, of variables with a lead or lag k (written x(k) or x[t+k]) k dates later, undefined outside of the table, with t the date and the parameters given (values of the table having precedence); a formula without a table is evaluated with the values given. The given values and tables are left unchanged.",
     ["inputs"], "every formula, table and set of parameters",
     "Tests evaluate one formula; signs of leads and lags and precedence of names matter for every formula.",
     ["dolo/compiler/eval_formula.py", "dolo/compiler/model.py"],
     [("eval_formula", "dolo/compiler/eval_formula.py"), ("Model.eval_formula", "dolo/compiler/model.py")],
     "Proved for 36 random formulas (bounded) with any values and number of dates; other formulas concretely (bounded). Parsing (dolang) trusted." + COMMON)

prop("C23", "First order perturbations solve the linearized model",
     "The first order solution of a model at the steady state (calibrated or given) is a linear decision rule through it which, together with the linearized transition, satisfies the linearized arbitrage equations, for models with independent shocks (which do not enter the rule) or driven by a vector autoregression; the states it implies move according to the smallest eigenvalues of the linearized system, which are reported, complex or infinite ones included. The solution is flagged as stable when at least as many eigenvalues are below one as there are states, and as unique when no more are; a warning is given otherwise. Other processes and higher orders are refused.",
     ["inputs"], "every linearized system with distinct stable and unstable eigenvalues, every process",
     "Tests solve one or two models with real eigenvalues; complex eigenvalues, indeterminacy and several exogenous variables are not exercised.",
     ["dolo/algos/perturbation.py", "dolo/numeric/extern/qz.py"],
     [("perturb, get_derivatives, approximate_1st_order", "dolo/algos/perturbation.py"), ("qzordered", "dolo/numeric/extern/qz.py")],
     "The linearized system, the rule and the flags are proved for any derivatives and numbers of variables; the solution of the linearized system given an ordered generalized Schur decomposition for any derivatives with one or two states and controls (bounded); the decomposition itself (scipy) and random systems concretely (bounded)." + COMMON)

prop("C07", "Solvers return solutions, or say that they did not find any",
     "Newton's method, from any initial guess, returns a point of the shape of the guess where all the residuals are below the tolerance in absolute value, or warns that it did not converge, after at most the number of iterations allowed and only when they are exhausted; a guess which is already a solution is returned unchanged with no iteration; otherwise each iteration takes the longest of the halved Newton steps which reduces the residual. The search of solutions with bounds returns a point where the smoothed complementarity residual vanishes up to the tolerance (hence a solution of the bounded problem: see the complementarity residuals) or warns. The mixed complementarity solver returns a solution within its bounds or raises. Initial guesses and bounds are left unchanged.",
     ["inputs"], "every system, initial guess, bounds, tolerance and number of iterations allowed; dense, batched and sparse jacobians",
     "Tests solve two or three systems with the default options; stopping rules, step halving and the warning matter for systems on which the search is hard.",
     ["dolo/numeric/optimize/newton.py", "dolo/numeric/optimize/ncpsolve.py", "dolo/numeric/extern/lmmcp.py"],
     [("newton", "dolo/numeric/optimize/newton.py"), ("ncpsolve, smooth", "dolo/numeric/optimize/ncpsolve.py"), ("lmmcp", "dolo/numeric/extern/lmmcp.py")],
     "newton and ncpsolve proved for any function and any number of systems and unknowns (loops of unknown length by the last iteration rule: partial correctness); size of the step, sparse jacobians and lmmcp concretely on random systems (bounded). Solutions of linear systems: see C08." + COMMON)

prop("C24", "Iterative solution methods report honestly the rule they return",
     "Time iteration, improved time iteration, value iteration, evaluation of a policy and the endogenous grid points method return a decision rule on the grid of the model whose values come from the last iterate, with the number of iterations made (never more than allowed, less only when converged), the error of the last iteration and the tolerance; the convergence flag is true exactly when this error is below the tolerance. Time iteration solves at each step the Euler equations given the former rule (with the bounds of the model unless they are to be ignored) and its error is the largest change of the rule; improved time iteration, when converged, returns a rule whose residuals (with bounds, their smoothed version) are at most the error; policy evaluation reports the discrepancy between the values and those they imply; value iteration chooses within bounds decisions maximizing the value; the endogenous grid points method returns the interpolation of the last points within the bounds of the controls. Iterations start from the rule given as a guess, or from the calibration. Nothing is printed unless asked for.",
     ["inputs", "histories"], "every model, grid, process, initial guess, tolerance and number of iterations allowed",
     "Tests check that each algorithm runs on a few models; flags and errors reported after any number of iterations, and the role of guesses and bounds, are not exercised.",
     ["dolo/algos/time_iteration.py", "dolo/algos/improved_time_iteration.py", "dolo/algos/value_iteration.py", "dolo/algos/egm.py"],
     [("time_iteration", "dolo/algos/time_iteration.py"), ("improved_time_iteration", "dolo/algos/improved_time_iteration.py"), ("value_iteration, evaluate_policy", "dolo/algos/value_iteration.py"), ("egm", "dolo/algos/egm.py")],
     "Proved for any functions of the model, sizes, processes, tolerances and numbers of iterations (loops of unknown length by the last iteration rule: partial correctness), residuals being uninterpreted functions specified by C05; whole growth and savings models concretely (bounded). scipy.optimize.minimize and gmres are trusted to return some vector." + COMMON)

prop("C25", "The functions of a model compute the equations of its file",
     "In either style of model file, the functions compiled from a model (transition, arbitrage, bounds of controls, values, rewards, expectations, direct response, states after and before shocks, definitions) compute, for any values of their arguments, one point or many at once, the right hand sides of the equations of the file (the differences of both sides for Euler equations), in the order of the symbols they define, definitions being replaced at the dates where they occur, with leads and lags read from the arguments of these dates, bounds absent from an equation being infinite. Arguments are left unchanged. Definitions which use unknown symbols or hide variables, bounds written for another control and states without a domain are refused.",
     ["inputs"], "every model file whose equations are written in the order of the symbols they define, and all values of the arguments",
     "Tests compile a few models and compare no value; dates of definitions, signs of differences, order and missing bounds matter for every file.",
     ["dolo/compiler/factories.py", "dolo/compiler/model.py", "dolo/compiler/recipes.yaml"],
     [("get_factory", "dolo/compiler/factories.py"), ("SymbolicModel.equations, definitions, Model.__compile_functions__", "dolo/compiler/model.py")],
     "For 32 random models in each run (bounded), the text of the functions, generated from the file on every run, is proved equal to an independent evaluation of the equations for any values of the arguments; compiled functions (numba) evaluated on batches concretely (bounded). Parsing, printing and compilation (dolang, numba) trusted." + COMMON)
