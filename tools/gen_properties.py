"""Writes /verif/properties.jsonl (one source of truth for titles / statements / anchors)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

S = "src/bmi/samplers/"
E = "src/bmi/estimators/"
N = "src/bmi/estimators/neural/"
B = "src/bmi/benchmark/"
T = "src/bmi/benchmark/tasks/"

prop("C01", "Multinormal ground-truth MI is the exact log-determinant formula",
     "For every mean and every symmetric positive-definite covariance, the split multinormal sampler reports I(X;Y) = 1/2 log(det S_XX det S_YY / det S_XY), which is non-negative, does not depend on the mean, and is unchanged when the X block or the Y block is linearly re-mapped or when X and Y swap roles. "
     "For every correlation rho in (-1,1), positive standard deviations and means the bivariate sampler reports -1/2 log(1-rho^2), the value the general sampler reports for the same covariance; other correlations and non-positive deviations are rejected.",
     ["inputs"], "all means, all positive-definite covariances, all correlations/standard deviations, for each (dim_x, dim_y)",
     "Tests compare a handful of fixed matrices; the formula is a claim over the whole positive-definite cone.",
     [S + "_splitmultinormal.py"], [("entropy difference", S + "_splitmultinormal.py"), ("bivariate closed form", S + "_splitmultinormal.py")],
     ["SplitMultinormal.mutual_information()", "BivariateNormalSampler.mutual_information()"])

prop("C02", "Only symmetric positive-definite covariances of the right shape are accepted",
     "Constructing a multinormal sampler (or a Student-t sampler from its dispersion) succeeds for every symmetric positive-definite matrix of shape (dim_x+dim_y, dim_x+dim_y) with a mean of matching length and positive dimensions. "
     "It raises ValueError whenever the matrix is not symmetric, is symmetric but not positive-definite, or when the matrix, the mean or a dimension has the wrong size.",
     ["inputs"], "all square matrices of each small size, all mean/matrix shapes near the correct one",
     "Tests try one asymmetric and one indefinite example; a validator has to be right for every matrix, e.g. asymmetric in a single entry.",
     [S + "_splitmultinormal.py", S + "base.py", S + "_split_student_t.py"], [("covariance validation", S + "_splitmultinormal.py"), ("dimension validation", S + "base.py")])

prop("C03", "Student-t MI is the normal MI plus a dispersion-free correction",
     "For every positive-definite dispersion, mean and positive degrees of freedom, the Student-t sampler's mutual information equals the multinormal mutual information of the dispersion plus h(m)+h(n)-h(m+n), h(k) being the differential entropy of the standard k-dimensional t distribution; the correction does not depend on the dispersion or mean, is symmetric in the two dimensions and is 0 for infinitely many degrees of freedom. "
     "The covariance is df/(df-2) times the dispersion for df>2 and requesting it for df<=2 raises ValueError; non-positive df are rejected.",
     ["inputs"], "all dispersions, means, positive real/integer/infinite df, for each (dim_x, dim_y)",
     "Tests check a few df values and approximate limits.",
     [S + "_split_student_t.py"], [("entropy-based correction", S + "_split_student_t.py"), ("covariance from dispersion", S + "_split_student_t.py")])

prop("C04", "Latent-variable covariance equals the mixing matrix times its transpose",
     "For every choice of dimensions, number of interacting pairs and real weights of the Gaussian latent-variable model, the mixing matrix has one row per coordinate and one labelled column per latent variable with the documented weights, the covariance equals mixing times its transpose, and the correlation is the covariance rescaled to unit diagonal. "
     "Y-side weights left unset (and only those) take the X-side value, the dense and sparse parametrisations are the stated special cases and report exactly the off-diagonal correlations of their own correlation matrix; more interacting pairs than min(dim_x, dim_y) is an error.",
     ["inputs", "configurations"], "all real weights (including zeros), all (dim_x, dim_y, n_interacting) up to the bound",
     "Tests evaluate a grid of numeric weights; equality of two independently coded formulas is a polynomial identity over all weights.",
     [S + "_matrix_utils.py"], [("mixing", S + "_matrix_utils.py"), ("covariance", S + "_matrix_utils.py"), ("defaulting", S + "_matrix_utils.py")])

prop("C05", "Parametrised and canonical correlation matrices have the stated entries",
     "For every admissible argument the parametrised correlation matrix is symmetric with unit diagonal, holds the X-Y correlation exactly on the first k pairs (X_i, Y_i) and zero on other cross pairs, and the within-X / within-Y correlation elsewhere; dimensions or k below 1, k above a dimension, and correlations outside [-1,1] raise ValueError. "
     "The canonical-correlation matrix is the identity plus rho_i at (X_i, Y_i), with the extra Y coordinates uncorrelated with everything.",
     ["inputs", "configurations"], "all real correlations, all (dim_x, dim_y, k) up to the bound",
     "Tests check a few entries for fixed numbers.",
     [S + "_matrix_utils.py"], [("parametrised_correlation_matrix", S + "_matrix_utils.py"), ("canonical_correlation", S + "_matrix_utils.py")])

prop("C06", "Additive-noise sampler: noise stays in its band and MI follows the formula",
     "For every epsilon>0, every seed or key and every sample size, X lies in [0,1], |Y-X| <= epsilon with noise that does not reuse X's randomness, shapes are (n,1), and non-positive epsilon is rejected. "
     "The reported mutual information is epsilon - log(2 epsilon) for epsilon <= 1/2 and 1/(4 epsilon) above, continuous at 1/2, positive and decreasing in epsilon.",
     ["inputs"], "all positive epsilon, all random draws",
     "Tests use fixed epsilons and seeds.",
     [S + "_additive_uniform.py"], [("sampling", S + "_additive_uniform.py"), ("mutual_information_function", S + "_additive_uniform.py")])

prop("C07", "Discrete-continuous samplers: supports, couplings and closed-form MI",
     "For every number m>=1 of categories and every draw, the uniform-mixture sampler returns integer-valued X in {0..m-1} (as integers or floats as requested), Y-X in [0,2), and reports log m - (m-1)/m log 2; m<=0 is rejected, and the multivariate version is the coordinate-wise independent concatenation. "
     "For every p in [0,1) the zero-inflated Poisson sampler has one-dimensional X>=0 and non-negative integer-valued Y that is either 0 or the Poisson draw with rate X, and reports (1-p) times 0.3012 or (1-p)(2 log 2 - gamma - sum_{k<=t} 2^-k log k) when truncated at t; other p are rejected.",
     ["inputs"], "all m, p, truncations up to the bound, all random draws",
     "Tests check a few (m, p) values and empirical ranges.",
     [S + "_discrete_continuous.py"], [("DiscreteUniformMixtureSampler", S + "_discrete_continuous.py"), ("ZeroInflatedPoissonizationSampler", S + "_discrete_continuous.py")])

prop("C08", "Independent concatenation adds dimensions and MI and keeps blocks paired",
     "For every non-empty list of samplers, the concatenated sampler's dimensions and mutual information are the sums over the components, and its samples are the component samples placed side by side in order, X blocks with X and Y blocks with Y, row by row. "
     "Each component draws with its own derived key, so no two components share randomness, and equal seeds give equal samples.",
     ["inputs", "configurations"], "all component lists up to the bound, all component MI values and samples",
     "Tests concatenate a couple of concrete samplers.",
     [S + "_independent_coordinates.py"], [("key splitting and stacking", S + "_independent_coordinates.py")])

prop("C09", "Transformed samplers apply f to X, g to Y, and keep the base MI",
     "For every base sampler and pair of maps, the transformed sampler's sample is f applied to each base X point and g applied to each base Y point for the same seed, with unset maps acting as the identity, vectorised and point-wise maps agreeing, and rows staying paired. "
     "Its mutual information is exactly the base sampler's, its dimensions are the base dimensions plus the declared non-negative increments, and negative increments are rejected.",
     ["inputs", "configurations"], "all base samples, affine/nonlinear maps, all dimension increments",
     "Tests use a few maps and dimensions.",
     [S + "_transformed.py"], [("transform", S + "_transformed.py")])

prop("C10", "One-dimensional benchmark transforms are strictly monotone bijections",
     "The normal-CDF, signed three-halves power, asinh, signed-power and both wiggly maps are strictly increasing on the whole real line; the normal CDF is (1+erf(x/sqrt 2))/2 with values in (0,1), the half-cube is sign(x)|x|^(3/2), the power map is sign(x)|x|^alpha. "
     "The Swiss-roll map sends t in [0,1] to (s cos s, s sin s)/21 with s = 1.5 pi (1+2t) and is injective.",
     ["inputs"], "all real inputs and pairs of inputs, all positive exponents of the stated kind",
     "Monotonicity quantifies over all pairs of reals; tests look at grids.",
     ["src/bmi/transforms/simple.py", T + "wiggly.py", T + "power.py", T + "asinh.py", T + "half_cube.py", T + "normal_cdf.py"],
     [("simple transforms", "src/bmi/transforms/simple.py"), ("wiggly maps", T + "wiggly.py"), ("power", T + "power.py")])

prop("C11", "Spiral and rotation maps preserve norms and are built from skew generators",
     "For every point, every skew-symmetric generator and speed, the spiral map without an initial matrix preserves the Euclidean norm and equals the rotation exp(speed |x|^2 A) applied to x, with an optional initial matrix multiplied on the left; badly shaped generators or initial matrices are rejected. "
     "The canonical so(n) generator has -1 at (i,j), +1 at (j,i), zeros elsewhere, with invalid indices rejected; skew-symmetrisation returns (A-A^T)/2; the fixed-rotation tasks apply one orthogonal matrix to every point.",
     ["inputs"], "all points, speeds, initial matrices and skew generators of each small dimension",
     "Tests check single points and numerically computed rotations.",
     ["src/bmi/transforms/_rotate.py", T + "rotate.py", T + "spiral.py"], [("Spiral", "src/bmi/transforms/_rotate.py"), ("so_generator", "src/bmi/transforms/_rotate.py")])

prop("C12", "CDF inversion brackets the preimage and is accurate to delta",
     "For every strictly increasing function and every y whose preimage lies in [x_min, x_max], the computed inverse lies within delta (or floating-point resolution) of the true preimage; for y outside the image it returns the nearest end of the interval up to delta. "
     "The inverse is non-decreasing in y and acts elementwise on arrays.",
     ["inputs"], "all strictly increasing functions (as an uninterpreted monotone function), all y, all intervals, all delta down to a fraction of the interval",
     "Tests invert a few known CDFs at sample points.",
     ["src/bmi/transforms/_invert_cdf.py"], [("bisection", "src/bmi/transforms/_invert_cdf.py")])

prop("C13", "Normal and Student model PMI equals the log-density ratio of true marginals",
     "For every mean, positive-definite covariance or dispersion (and df), the model's joint and marginal log-densities at every point are those of the stated multivariate normal / Student-t and of its exact marginals, and the pointwise mutual information is log p(x,y) - log p(x) - log p(y). "
     "The attached analytic mutual information equals that of the corresponding split sampler and the given mean, covariance/dispersion and df are retained.",
     ["inputs"], "all points, means, positive-definite matrices, df, for each small (dim_x, dim_y)",
     "Tests compare against scipy at sampled points.",
     [S + "_tfp/_core.py", S + "_tfp/_normal.py", S + "_tfp/_student.py"], [("pmi", S + "_tfp/_core.py"), ("scale factorisation", S + "_tfp/_normal.py")])

prop("C14", "Mixture, transform and product obey their probability laws",
     "For all components and proportions, a mixture's joint, X and Y densities are the same proportion-weighted sums of the components' joint, X and Y densities and it carries no analytic mutual information; mismatched dimensions or counts are rejected. "
     "A product has pointwise mutual information 0 everywhere and analytic mutual information 0, and a diffeomorphic transform of X and/or Y leaves pointwise mutual information at corresponding points and the analytic value unchanged.",
     ["inputs", "configurations"], "all proportions, component parameters, points, and affine/scale bijector parameters",
     "Tests sample points of a few fixed mixtures.",
     [S + "_tfp/_core.py", S + "_tfp/_product.py"], [("mixture", S + "_tfp/_core.py"), ("transform", S + "_tfp/_core.py"), ("ProductDistribution", S + "_tfp/_product.py")])

prop("C15", "Monte-Carlo MI: sample split, mean/standard error, caching, determinism",
     "For every joint model, sampling n>=1 points returns the first dim_x coordinates as X and the rest as Y of one joint draw, and fewer than one point is rejected; the PMI profile is the PMI of such a draw, and the Monte-Carlo estimate is its mean with standard error equal to its standard deviation over sqrt(n). "
     "The model-backed sampler reports the mutual information it was given (including zero) and otherwise the Monte-Carlo estimate for its configured seed and sample size, computed once, so repeated calls in any order return the same value; sample sizes below one are rejected.",
     ["inputs", "histories"], "all profiles, seeds and sample sizes up to the bound, all call orders up to the bound",
     "Tests call each method once with fixed seeds.",
     [S + "_tfp/_core.py", S + "_tfp/_wrapper.py"], [("monte_carlo_mi_estimate", S + "_tfp/_core.py"), ("BMMSampler caching", S + "_tfp/_wrapper.py")],
     state=[("cached MI", "value reported by the model-backed sampler once known", S + "_tfp/_wrapper.py")])

prop("C16", "KSG estimate equals equation (8), fast = slow, for any chunk size",
     "For every sample without coincident points, metric pair and neighbourhood list, the fast and the slow KSG ensemble estimators return for each k the value max(0, psi(k) + psi(N) - mean(psi(n_x+1)+psi(n_y+1))), where n_x and n_y count other points strictly closer than the k-th nearest neighbour in the max-metric, and the estimate is the mean over the distinct k. "
     "The chunk size and the order or repetition of neighbourhoods have no effect; a sample with at most max(k) points is rejected, as are empty or non-positive neighbourhoods.",
     ["inputs", "configurations"], "all real samples of each small size, all k, chunk sizes and metrics",
     "Tests compare fast and slow on random draws with a few chunk sizes.",
     [E + "ksg.py", "src/bmi/utils.py"], [("fit (chunked)", E + "ksg.py"), ("fit (slow)", E + "ksg.py")])

prop("C17", "KSG estimates are non-negative and invariant to symmetries of the data",
     "For every sample, both KSG estimators return values >= 0 that are unchanged when the points are reordered (X and Y together), when X or Y is shifted, when both spaces are scaled by a common positive factor, when X and Y (with their metrics) swap roles, and, with standardisation, when X or Y is rescaled separately.",
     ["inputs"], "all real samples of each small size and all shifts/scales/permutations",
     "Metamorphic claims over all data; tests do not cover them.",
     [E + "ksg.py", "src/bmi/utils.py"], [("neighbour counting", E + "ksg.py"), ("standardisation", "src/bmi/utils.py")])

prop("C18", "Histogram estimator is the plug-in MI of the equal-width bin counts",
     "For every sample the histogram estimate equals sum p_ij log(p_ij / (p_i q_j)) over occupied cells of the equal-width binning with n_bins_x bins per X and n_bins_y bins per Y coordinate (n_bins_x if unset), spanning the observed range of each coordinate. "
     "It is non-negative, at most the log of the smaller number of cells, invariant to point order, and to positive rescaling and shifts of any coordinate; non-positive bin counts are rejected.",
     ["inputs", "configurations"], "all real samples of each small size and all small bin counts/dimensions",
     "Tests check shapes and a handful of cases.",
     [E + "_histogram.py"], [("estimate", E + "_histogram.py")])

prop("C19", "KDE estimator combines three entropies of the right data and settings",
     "For every sample, the KDE estimator's H(X), H(Y), H(X,Y) are minus the mean log-density of the density fitted on (and evaluated at) the X, Y and joined points with that variable's own kernel and bandwidth, which default to the joint ones only when unset, and the mutual information is H(X)+H(Y)-H(X,Y). "
     "Standardisation is applied iff requested, refitting on new data leaves nothing of the old data, and the reported parameters are the ones used.",
     ["inputs", "configurations", "histories"], "all samples and log-densities, all kernel/bandwidth combinations, repeated fits",
     "Tests only use one kernel configuration.",
     [E + "_kde.py"], [("estimate_entropies", E + "_kde.py")])

prop("C20", "CCA estimator sums Gaussian MI over min(dim) canonical correlations",
     "For every sample the CCA estimate is the sum of -1/2 log(1-r_i^2) over exactly min(dim_x, dim_y) canonical component pairs, where r_i is the sample correlation of the i-th pair, computed on the given data with the requested scaling. "
     "For one-dimensional X and Y this is -1/2 log(1-r^2) of the Pearson correlation and is symmetric in X and Y.",
     ["inputs"], "all component scores (arbitrary reals) and dimensions up to the bound",
     "Tests use Gaussian draws with loose tolerances.",
     [E + "correlation.py"], [("estimate", E + "correlation.py")])

prop("C21", "Neural losses: both memory backends equal the published formulas",
     "For every critic (arbitrary real scores) and batch size >= 2, both the linear- and the quadratic-memory backends compute: InfoNCE = mean_i[f_ii - log mean_j exp f_ij]; Donsker-Varadhan = mean_i f_ii - log mean_{i!=j} exp f_ij; NWJ = mean_i f_ii - mean_{i!=j} exp(f_ij - 1), where f_ij scores x_i with y_j. "
     "The two backends agree for every critic and batch.",
     ["inputs"], "all real score matrices for batch sizes up to the bound",
     "Tests compare random critics numerically.",
     [N + "_backend_linear_memory.py", N + "_backend_quadratic_memory.py"], [("linear backend", N + "_backend_linear_memory.py"), ("quadratic backend", N + "_backend_quadratic_memory.py")])

prop("C22", "Neural bounds: InfoNCE <= log n, shift laws, DV >= NWJ",
     "For every critic and batch of n points, InfoNCE is at most log n and unchanged by adding any function of x to the critic, Donsker-Varadhan is unchanged by adding a constant, and Donsker-Varadhan is at least NWJ; all three are unchanged by reordering the batch, and a constant critic scores 0 under InfoNCE and Donsker-Varadhan.",
     ["inputs"], "all real score matrices, shifts and permutations for batch sizes up to the bound",
     "Inequalities over all critics cannot be sampled.",
     [N + "_backend_linear_memory.py", N + "_backend_quadratic_memory.py"], [("losses", N)])

prop("C23", "MINE value, bias-corrected gradient and running denominator",
     "For every critic scores and pairing, the MINE value is mean f(paired) - log mean exp f(unpaired), and the negative gradient is (batch denominator / smoothed denominator) * d log-mean-exp - d mean. "
     "The smoothed denominator is an exponential moving average weighting the current batch by alpha and the history by 1-alpha (so values closer to 1 smooth less), and the first step has no history; paired batches keep x_i with y_i and unpaired batches draw y independently and without replacement.",
     ["inputs", "histories"], "all scores, gradients, alphas in (0,1) and denominator histories up to the bound",
     "Tests only train end to end.",
     [N + "_mine_estimator.py"], [("value/neg grad", N + "_mine_estimator.py"), ("pair sampling", N + "_mine_estimator.py")],
     state=[("running log denominator", "log of the EMA of batch denominators", N + "_mine_estimator.py")])

prop("C24", "Training log: best value, early-stop rule and diagnostics",
     "For every sequence of logged test values the final estimate is their maximum (NaN if none), and early stopping fires exactly when it is enabled and the last two or more consecutive test values failed to exceed the best so far. "
     "After finishing, the report contains the last training step, the test history in order, and exactly the warnings whose stated condition holds: early stopping not triggered, training too short, the largest smoothed training value exceeding 1.05 times the final one, the final smoothed value exceeding 1.05 times the value one window earlier.",
     ["histories", "inputs"], "all sequences of training/test values up to the bound",
     "Tests do not exercise the log on its own at all.",
     [N + "_training_log.py"], [("log_test_mi / early_stop", N + "_training_log.py"), ("detect_warnings", N + "_training_log.py")],
     state=[("best test value", "maximum of logged test MI", N + "_training_log.py"), ("counter", "tests since the best", N + "_training_log.py")])

prop("C25", "Training loops: step/test schedule, best checkpoint value, no test leakage",
     "For every schedule, both the basic and the MINE training loop run steps 1,2,... with a fresh batch drawn without replacement from the training data only, evaluate the test data after exactly every test_every_n_steps-th step with the critic of that step, and stop at max_n_steps or as soon as the early-stop rule fires (only if enabled). "
     "Each step moves the critic in the optimizer's direction that increases the objective on that batch, and the returned critic is the one after the last step.",
     ["histories", "configurations"], "all test-value sequences, step limits and test intervals up to the bound",
     "Tests train a few full models.",
     [N + "_basic_training.py", N + "_mine_estimator.py"], [("basic_training", N + "_basic_training.py"), ("mine_training", N + "_mine_estimator.py")])

prop("C26", "Neural estimators: split, wiring of parameters and batch-size guard",
     "For every sample and configuration, the neural estimators standardise (iff requested) all points before splitting, train and test on disjoint row-paired subsets that together are the whole sample (the train part having the requested share, or on the full sample when no split is requested), and pass every configured parameter to the training loop. "
     "If the batch is larger than the training part the estimate is NaN with the batch_size_larger_than_train flag and no training happens; otherwise the estimate is the training log's final value; equal seeds give equal results and the losses used match the estimator's name.",
     ["configurations", "inputs"], "all sample values, split fractions and batch sizes up to the bound",
     "Tests run full training with default settings.",
     [N + "_estimators.py", N + "_mine_estimator.py"], [("estimate_with_info", N + "_estimators.py"), ("train_test_split", N + "_estimators.py")])

prop("C27", "Benchmark runs isolate failures and never leak state between runs",
     "For every estimator outcome, running an estimator returns a record with the given identifiers, seed and sample size: on success the estimate, the reported time (or the measured one when none is reported) and merged additional information; on an exception a NaN estimate and time, success=False and the error text (plus subprocess output when available), never an exception. "
     "The caller's additional-information dictionary and the estimator's own result are never modified, so one run's outcome cannot appear in another's.",
     ["histories", "fault_sequences"], "all sequences of successes/failures up to the bound with arbitrary values",
     "Tests run one success and one failure.",
     [B + "result.py", B + "utils/timer.py"], [("run_estimator", B + "result.py")])

prop("C28", "Saving and reading a sample is the identity",
     "For every pair of two-dimensional arrays with equal numbers of rows, reading a saved sample returns the same X and Y values (up to the last-digit rounding of decimal text) in the same row and column order, for any number of coordinates (including ten or more), and reading only the dimensions returns (dim_x, dim_y). "
     "Arrays of the wrong rank or with different numbers of rows are rejected; saving a task's sample stores what the task draws for that seed.",
     ["inputs"], "all values, (dim_x, dim_y) up to the bound",
     "Tests use one or two small shapes.",
     ["src/bmi/utils.py", B + "task.py"], [("save_sample/read_sample", "src/bmi/utils.py")])

prop("C29", "External estimators: exact command line and output parsing",
     "For every path, dimensions and parameters the external R and Julia estimators build the documented argument vector (interpreter, script, absolute sample path, dim_x, dim_y, method and its parameters), run it once, and return the number printed; unparsable output raises an error mentioning it. "
     "Estimating from arrays writes exactly those arrays to a temporary sample file that is removed afterwards, and invalid parameters are rejected at construction.",
     ["inputs", "fault_sequences"], "all parameter values, dimensions and printed numbers; success/failure of the command",
     "R and Julia are not available to the tests, which only skip.",
     [E + "external/external_estimator.py", E + "external/r_estimators.py", E + "external/julia_estimators.py"],
     [("_build_command", E + "external/r_estimators.py"), ("output parsing", E + "external/external_estimator.py")])

prop("C30", "Product space and chunker: copies, standardisation, exact partition",
     "For every n>=1 and chunk size>=1 the chunker yields consecutive slices that partition 0..n-1 with every chunk but the last full, and rejects non-positive sizes. "
     "A product space holds copies of the inputs (never modifying them), keeps rows paired, joins X and Y side by side under any indexing, rejects different lengths, and standardises every coordinate to mean 0 and variance 1 (constant coordinates to 0) iff asked; added noise keeps the shape and is reproducible from its key.",
     ["inputs", "configurations"], "all n and chunk sizes up to the bound (symbolic), all sample values",
     "Tests use a few sizes.",
     ["src/bmi/utils.py"], [("chunker", "src/bmi/utils.py"), ("ProductSpace", "src/bmi/utils.py")])

prop("C31", "Task metadata mirrors the sampler; ids identify tasks; registry complete",
     "For every sampler and parameters a task reports its sampler's dimensions and mutual information together with its own id, name and parameters, and its samples are the sampler's for that seed and size. "
     "Within each family of base tasks different distribution parameters give different ids (and equal ones equal ids), a transformed task's id names its transform and base task, and the benchmark registry has unique ids that map to tasks with that very id and non-negative mutual information.",
     ["inputs", "configurations"], "all sampler outputs and parameters; all registry entries",
     "Tests check a few tasks.",
     [B + "task.py", B + "__init__.py", B + "task_list.py"], [("metadata", B + "task.py"), ("registry", B + "__init__.py")])

prop("C32", "Base task factories build the distribution their parameters describe",
     "For all parameter values, each base task factory (bivariate normal, additive noise, dense/sparse/2-pair/latent-variable multinormal, identity/dense/sparse/2-pair Student, bimodal) wraps a sampler of the stated dimensions whose covariance or dispersion, degrees of freedom and hence mutual information are those the parameters describe, and records those parameters in its metadata. "
     "In particular dense means unit variances with one common off-diagonal value, and sparse means unit variances with exactly n_interacting correlated X-Y pairs of correlation strength^2/(1+strength^2).",
     ["inputs", "configurations"], "all real strengths/off-diagonals in range, all small dimensions",
     "Tests only check that factories run.",
     [T + "multinormal.py", T + "student.py", T + "bivariate_normal.py", T + "additive_noise.py", T + "bimodal_gaussians.py"],
     [("factories", T)])

prop("C33", "Gaussian-mixture estimator: parameters used, posterior mapped faithfully",
     "For every configuration the Gaussian-mixture estimator fits the (optionally standardised) joined sample with exactly its configured number of components, concentration and chain lengths, and each posterior draw becomes the mixture with that draw's means, covariances and proportions over the right X and Y dimensions. "
     "The reported estimate is the mean of the per-draw Monte-Carlo mutual informations over n_thinned_samples distinct draws, each evaluated with a fresh key and the configured number of samples; using it before fitting raises an error.",
     ["configurations", "inputs"], "all posterior draws (arbitrary parameters) and configurations up to the bound",
     "Tests run one tiny chain and check the result is a number.",
     [E + "external/gmm.py"], [("run_mcmc", E + "external/gmm.py"), ("sample_into_bmm_distribution", E + "external/gmm.py")])

prop("C34", "Fixed-size subplots: figure size and placement add up",
     "For all axis sizes, margins and spacings, the figure width is left + the axes widths + the spacings between them + right (height likewise), and every axes has exactly the requested size at the requested row and column, with row 0 on top. "
     "Counts given explicitly must agree with listed sizes, and a single axes is returned bare.",
     ["inputs", "configurations"], "all real sizes/margins, row and column counts up to the bound",
     "No test measures the layout.",
     ["src/bmi/plot_utils/subplots_from_axsize.py"], [("layout", "src/bmi/plot_utils/subplots_from_axsize.py")])

prop("C35", "Result tables use the selected sample size, and converge/err columns are right",
     "For all results, the benchmark and convergence tables are computed only from rows with the requested (by default the largest) sample size; entries are means over seeds per estimator and task, next to the true value. "
     "The log relative error is log2(estimate/true), and an estimate counts as converged iff it exceeds 10% of the largest estimate in its own estimator/task/sample-size group.",
     ["inputs"], "all estimate values for small result tables",
     "No test covers the workflow helpers.",
     ["workflows/benchmark/_utils.py"], [("create_benchmark_table", "workflows/benchmark/_utils.py"), ("add_col_converged", "workflows/benchmark/_utils.py")])

prop("C36", "Samplers are reproducible and pass on the requested size and seed",
     "For every seed (integer or key) and sample size, the multinormal, bivariate and Student samplers return paired arrays of shapes (n, dim_x) and (n, dim_y) which are the first dim_x and the remaining coordinates of n draws from the joint distribution with exactly the configured mean and covariance (dispersion and df), depending on the seed only. "
     "Integer and NumPy integer seeds give the same sample (for the normal samplers, so do the keys made from them).",
     ["inputs", "configurations"], "all means/covariances, sizes up to the bound and seeds",
     "Tests check shapes and moments for fixed seeds.",
     [S + "_splitmultinormal.py", S + "_split_student_t.py", S + "base.py"], [("sample", S), ("cast_to_rng", S + "base.py")])

prop("C37", "Transform tasks wrap the base task with the documented maps and parameters",
     "For every base task, each transform task (normal CDF, half-cube, asinh, power, wiggly, spiral, rotation, rescale, uniformise, gaussianise, Swiss roll) samples the base task for the same seed and applies its documented map to X and to Y, keeps the base mutual information, and reports dimensions consistent with its samples. "
     "Its id and name derive from the base task's unless overridden, and its parameters are the base parameters plus its own, without modifying the base task.",
     ["inputs", "configurations"], "all base samples/MI/parameters (symbolic), transform parameters",
     "Tests only sample from them.",
     [T], [("transform tasks", T)])

prop("C38", "Mixture tasks build the documented model for all parameters",
     "For all parameter values the X, galaxy, waves, concentric and sparse-with-inliers tasks wrap the mixture their parameters describe: equal-weight Gaussians with opposite correlations; two unit balls at +-distance/2 spiralled with the given speed; a row of blobs bent by a sine wave; concentric Gaussians with growing radius; and a (1-f):f mixture of a sparse Gaussian with the product of its marginals. "
     "The dimensions, identifiers and recorded parameters match, and mutual information is estimated with the requested Monte-Carlo sample size.",
     ["inputs", "configurations"], "all real parameters, small component counts and dimensions",
     "Tests only check that sampling runs.",
     [T + "mixtures.py"], [("mixture task factories", T + "mixtures.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
