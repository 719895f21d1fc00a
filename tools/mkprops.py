"""Writes properties.jsonl (kept as a script so that the text is easy to review and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": list(state),
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
S, U, CH, BI, SU = "pykalman/standard.py", "pykalman/unscented.py", "pykalman/sqrt/cholesky.py", "pykalman/sqrt/bierman.py", "pykalman/sqrt/unscented.py"

p("C01", "Filtering computes the exact conditional state distribution",
  "For every linear-Gaussian model and every observation sequence, the mean and covariance that KalmanFilter.filter reports for time t are those of the state at time t conditioned on exactly the non-missing observations up to and including t. The first observation is assimilated into the initial distribution without a transition step.",
  ["inputs", "configurations"], "all models (any state/observation dimension, constant or per-step parameters, regular or singular state covariances), all sequence lengths >= 1, all values, all patterns of missing observations",
  "The tests compare one 5-dimensional data set and one hand-made model against stored numbers; every model, length and mask pattern has its own answer.",
  [S, U], [("predict step", S + ": _filter_predict"), ("correct step", S + ": _filter_correct"), ("recursion and indexing in time", S + ": _filter")], ["KalmanFilter.filter return value"])
p("C02", "Smoothing computes the exact posterior state distribution",
  "For every linear-Gaussian model and every observation sequence, the mean and covariance that KalmanFilter.smooth reports for time t are those of the state at time t conditioned on all non-missing observations of the whole sequence, before and after t.",
  ["inputs", "configurations"], "all models, lengths >= 1, values and patterns of missing observations",
  "The tests pin one stored data set; the backward recursion has its own time indexing and degenerate cases (length 1, missing ends, singular predictions).",
  [S], [("smoothing step", S + ": _smooth_update"), ("backward recursion", S + ": _smooth")], ["KalmanFilter.smooth return value"])
p("C03", "loglikelihood is the log density of the observed data",
  "For every model and observation sequence, loglikelihood returns the natural logarithm of the joint probability density, under the model, of exactly the observations that are not missing; time steps with a missing observation contribute nothing, and a sequence without any observation has log-likelihood zero. This holds for the plain, Cholesky and Bierman filters.",
  ["inputs", "configurations"], "all models (constant or per-step parameters), all sequences and patterns of missing observations, the three linear filters",
  "The tests check one value on stored data and never a per-step observation covariance or a missing observation.",
  [S, CH, BI, "pykalman/utils/_sklearn.py"], [("per-step innovation density", S + ": _loglikelihoods"), ("normal density", "pykalman/utils/_sklearn.py: log_multivariate_normal_density")], ["loglikelihood return value"])
p("C04", "Square root filters agree with the plain Kalman filter",
  "The Cholesky and the Bierman Kalman filter return, for filtering, smoothing, log-likelihood, online updates and parameter fitting, the same results as the plain Kalman filter on every model with positive definite, time-constant noise and initial covariances, up to floating point rounding.",
  ["inputs", "configurations"], "all such models with constant or per-step transition/observation matrices and offsets, all observation sequences and missing patterns, all operations",
  "The tests run both filters on one stored data set with one missing observation pattern; correlated observation noise, several observation dimensions, integer input and online use are not compared.",
  [CH, BI], [("triangular update by QR", CH + ": _filter_predict, _filter_correct"), ("UDU factorisation, scalar updates, decorrelation", BI + ": udu, decorrelate_observations, _filter_correct_single")], ["results of CholeskyKalmanFilter and BiermanKalmanFilter operations"])
p("C05", "Online updates reproduce batch filtering",
  "For every filter class, starting from the batch result (or from any prior belief) and feeding each returned mean and covariance unchanged into the next filter_update yields exactly the batch filter's results, where a missing observation is passed as None or masked. Parameters passed to one update apply to that update in place of the constructed ones and to nothing else.",
  ["inputs", "histories"], "all six filter classes, all models, update sequences, override choices and missing patterns",
  "The tests chain updates on one data set per class and compare one or two classes; result shape on direct chaining and overrides are not exercised in combination.",
  [S, U, CH, BI, SU], [("one-step update", S + ": KalmanFilter.filter_update"), ("one-step update", U + ": *.filter_update"), ("one-step update", SU + ": filter_update")], ["filter_update return values along a chain"])
p("C06", "A missing observation carries no information",
  "In every filter and every operation, a time step any component of whose observation is masked has no observation: results are those of the model without that observation, whatever values are hidden under the mask and whichever components are masked. Appending missing observations changes no earlier result, and if everything is missing the results are the prior's propagation.",
  ["inputs"], "all classes and operations, every mask pattern (full, partial, first, last, all), every hidden content including NaN and infinities",
  "The tests mask one time step or none; the guarantee is about every pattern, every class and every hidden value.",
  [S, U, CH, BI, SU], [("mask test", S + ": _filter_correct, _loglikelihoods, _em_*"), ("mask test", U + ": unscented_correct"), ("mask test", BI + ": decorrelate_observations, _filter_correct"), ("mask test", SU + ": _unscented_correct")], ["results of all operations on masked arrays"])
p("C07", "An EM iteration is the exact closed-form update",
  "One iteration of em computes the posterior moments of the states under the current parameters and then replaces each parameter to be fitted by the value that maximises the expected complete-data log-likelihood over that parameter, parameters fitted earlier in the same iteration already being replaced, missing observations left out, and the parameters not fitted held fixed (in the order: observation matrix, observation covariance, transition matrix, transition covariance, initial mean, initial covariance, transition offset, observation offset). Noise covariances are constant in time; offsets and matrices may vary where they are not fitted. This is the same in the plain, Cholesky and Bierman filters.",
  ["inputs", "configurations"], "all models, observation sequences, mask patterns and choices of parameters to fit, the three linear filters",
  "The tests compare a few stored iterations for one choice of parameters, or only that the likelihood grows on one data set.",
  [S, CH, BI], [("E-step", S + ": _filter, _smooth, _smooth_pair"), ("M-step", S + ": _em and _em_*")], ["parameters after em"])
p("C08", "EM never decreases the likelihood",
  "For constant parameters, any choice of parameters to fit, and any data with missing observations, the log-likelihood of the data after an em iteration is never lower than before it, except by floating point rounding.",
  ["inputs", "histories"], "all models with constant parameters, data and mask patterns, non-empty choices of parameters, any number of iterations",
  "The tests look at five iterations on one data set with default parameters.",
  [S, CH, BI], [("closed-form maximisers", S + ": _em_*")], ["loglikelihood before and after em"])
p("C09", "em changes the parameters it was asked to fit, and only those",
  "Which parameters em fits is determined by its em_vars argument, else the object's current em_vars attribute, else the documented default set; 'all' means every parameter. Parameters not fitted keep their values exactly, em with k iterations equals k calls with one iteration, em with zero iterations changes no value, em without an iteration count makes ten, and em returns the object itself. A warning names every per-step parameter that fitting makes constant, and no other.",
  ["configurations", "histories"], "all subsets of the eight parameters by each of the three ways of choosing them, all iteration counts, the three linear filters",
  "There are 256 subsets; the tests use three.",
  [S, CH, BI], [("choice of variables", S + ": KalmanFilter.em, _default_em_vars"), ("choice of variables", CH + ", " + BI + ": em")], ["object parameters before and after em"])
p("C10", "Per-step parameters take effect at their own time step",
  "When a parameter or function is given per time step, entry t of an observation parameter is used for observation t and for no other, and entry t of a transition parameter for the step from t to t+1 and no other, in every operation of every class that accepts it. Giving the same value for every step is equivalent to giving it once.",
  ["inputs", "configurations"], "all subsets of parameters given per step, all operations of all classes, lists of functions for the unscented filters",
  "The tests use per-step offsets only; index slips by one or a stuck first entry are invisible with constant parameters.",
  [S, U, CH, BI, SU], [("indexing", S + ": _last_dims"), ("indexing of functions", U + ": _function_at")], ["results of all operations with per-step parameters"])
p("C11", "Dimensions are inferred, defaults filled in, contradictions refused",
  "State and observation dimension follow from whichever parameters are given (1 if none is), and every omitted parameter acts as its documented default: identity matrices and covariances, zero offsets and mean. A construction whose parameters or declared dimensions contradict each other raises ValueError, and no consistent one does.",
  ["configurations"], "all combinations of given/omitted parameters and sizes, for the linear and the unscented classes",
  "Hundreds of combinations of given parameters and sizes; the tests try a dozen.",
  [S, U, "pykalman/utils/_sklearn.py"], [("inference", S + ": _determine_dimensionality"), ("defaults", S + ": _initialize_parameters"), ("defaults", U + ": _default_parameters"), ("merge", "pykalman/utils/_sklearn.py: preprocess_arguments")], ["n_dim_state, n_dim_obs", "results with omitted parameters", "constructor exceptions"])
p("C12", "Queries are pure: no history, no side effects",
  "filter, smooth, loglikelihood, filter_update and sample with an explicit seed return values that depend only on the object's current parameters and their arguments: earlier calls of any kind do not matter. They change neither the object's parameters nor the caller's arrays nor the global random state nor the process's settings for floating point errors, warnings and printing, and returned arrays are independent of each other and of later calls.",
  ["histories"], "all sequences of operations and parameter assignments on one object, all classes",
  "A cache, an in-place update or an aliasing result only shows in particular sequences of calls; tests call each operation once on a fresh object.",
  [S, U, CH, BI, SU], [("parameters copied/converted per call", S + ": _initialize_parameters"), ("no in-place arithmetic on inputs", S + ", " + U + ", " + SU + ": copies")], ["results, parameters and argument arrays along a history of calls"],
  [{"name": "parameters", "meaning": "public attributes of a filter object", "where": S + ": KalmanFilter.__init__"}])
p("C13", "Only the values of inputs matter, not their representation",
  "Passing the same numbers as nested lists, tuples, integer or single-precision arrays, arrays of other byte or memory order, non-contiguous views, plain or masked arrays gives the same results; so do scalars for one-dimensional parameters, flat sequences for one-dimensional observations, and a single time step passed as a row.",
  ["inputs", "configurations"], "all parameters and observations in all representations, all classes and operations",
  "The tests pass float64 C-contiguous arrays almost everywhere.",
  [S, U, CH, BI, "pykalman/utils/_numpy.py", "pykalman/utils/_sklearn.py"], [("conversion", "pykalman/utils/_sklearn.py: array1d, array2d"), ("byte order", "pykalman/utils/_numpy.py: newbyteorder"), ("observation shape", S + ": _parse_observations")], ["results of all operations"])
p("C14", "Reported covariances are valid and information never hurts",
  "Every covariance returned by filter, smooth and filter_update of the linear filters is finite, symmetric and positive semidefinite up to rounding (relative to its size for the square root filters, to the largest covariance involved for the plain filter and for smoothing); an update with an observation never yields a larger covariance than the same update without it, and smoothing never a larger one than filtering. This includes long sequences and badly scaled models.",
  ["inputs"], "all models including badly conditioned ones, long sequences, the three linear filters",
  "The tests never look at these relations, and drift only shows over long sequences or extreme scales.",
  [S, CH, BI], [("covariance update", S + ": _filter_correct, _smooth_update"), ("factored update", CH + ", " + BI)], ["covariances returned by filter, smooth, filter_update"])
p("C15", "sample draws from the model",
  "sample returns a state sequence and observations of the requested length in which each state is the transition of the previous one plus noise with that step's transition covariance, each observation the observation of its state plus noise with that step's observation covariance, all noises independent, the first state drawn from the initial distribution or equal to a given initial_state. The same integer seed gives the same sample and leaves the global generator alone; different seeds give different samples.",
  ["inputs", "configurations"], "all models, constant or per-step parameters, lengths, seeds and generators, the linear and the unscented classes",
  "The tests check shapes only, and a wrong covariance or index is invisible in a single draw.",
  [S, U], [("ancestral sampling", S + ": KalmanFilter.sample"), ("ancestral sampling", U + ": *.sample"), ("generator", "pykalman/utils/_sklearn.py: check_random_state")], ["sample return values", "numpy global random state"])
p("C16", "Unscented filters are exact on affine models",
  "With affine transition and observation functions and Gaussian noise entering additively, or affinely in the augmented filter, all three unscented filters return for filtering, smoothing and online updates the same means and covariances as the exact Kalman filter and smoother, in every dimension.",
  ["inputs", "configurations"], "all affine models (any dimensions, correlated noises, per-step functions), observation sequences and missing patterns, the three unscented classes",
  "The tests use one two-dimensional model with diagonal noise; correlated noise, several observation dimensions and more than three state dimensions are not reached.",
  [U, SU], [("unscented transform", U + ": moments2points, points2moments, unscented_transform"), ("square root unscented transform", SU)], ["filter, smooth, filter_update return values"])
p("C17", "Unscented filters compute the unscented transform for any function",
  "For arbitrary non-linear functions the unscented filters' results are those of the unscented transform with the documented sigma points (the mean, and the mean plus and minus the scaled columns of the Cholesky factor) and weights: the additive filters redraw sigma points from the predicted moments before the observation, the augmented filter carries the noise in the sigma points. Smoothing applies the corresponding regression backward in time.",
  ["inputs", "configurations"], "all functions (polynomials and rational functions in the specification), dimensions, correlated noises, per-step functions, missing patterns, the three unscented classes",
  "The tests pin one model's numbers; weights, redrawing and noise handling can change without changing that model's third decimal.",
  [U, SU], [("sigma points and weights", U + ": moments2points"), ("filters and smoothers", U + ": augmented_*, additive_*"), ("square root form", SU)], ["filter, smooth, filter_update return values"])
p("C18", "The square root unscented filter agrees with the additive one",
  "The square root additive unscented filter returns, for filtering, smoothing and online updates, the same means and covariances as the additive unscented filter for every function, dimension, noise covariance and missing pattern for which the latter is defined, up to rounding.",
  ["inputs", "configurations"], "all models including correlated observation noise, several observation dimensions, more than three state dimensions (negative weights) and missing observations at any place",
  "The tests compare both on one model with diagonal covariances.",
  [SU], [("QR and Cholesky up/downdate", SU + ": points2moments, cholupdate, qr")], ["results of both classes on the same inputs"])
p("C19", "Filtering is causal",
  "In every filter class the filtered result at time t is a function of the observations up to t only: filtering any prefix of a sequence gives the same results as that prefix of filtering the whole, for every continuation. The smoothed result at the last time equals the filtered one.",
  ["inputs", "histories"], "all classes, models, sequences, all prefixes and continuations",
  "The tests never filter a prefix.",
  [S, U, CH, BI, SU], [("forward recursion", S + ": _filter"), ("forward recursion", U + ": *_unscented_filter"), ("forward recursion", SU + ": _additive_unscented_filter")], ["filter and smooth on prefixes"])
p("C20", "Copies and pickles are equivalent to the original",
  "A filter object that has been pickled and unpickled, copied or deep-copied, at any point of its life (before use, after queries, after parameter assignment, after em), gives the same results and has the same parameters as the original, and further use of one does not affect a deep copy or an unpickled object.",
  ["histories", "configurations"], "all classes (with picklable functions), all operation histories before and after copying",
  "One test pickles one fitted object.",
  [S, U, CH, BI, SU], [("plain attributes only", S + ": KalmanFilter.__init__, em"), ("plain attributes only", U + ": UnscentedMixin.__init__")], ["results and parameters of copies"])
p("C21", "Misuse raises the documented error and leaves the object usable",
  "An online update that needs a per-step parameter which was not passed, an invalid random seed, and contradictory dimensions raise ValueError, and a covariance that is not positive definite is refused by the filters that factor it; observations whose size does not fit the model raise rather than returning numbers. After a failed query the object's parameters are unchanged and later valid calls give the same results as if the failed call had not been made.",
  ["histories", "inputs"], "all such misuses at any point of a history of operations, all classes",
  "The tests exercise three error paths, each on a fresh object that is then thrown away.",
  [S, U, CH, BI, SU, "pykalman/utils/_sklearn.py"], [("argument check", S + ": _arg_or_default, _determine_dimensionality"), ("seed check", "pykalman/utils/_sklearn.py: check_random_state")], ["exceptions, and results of later calls"])
p("C22", "The bundled robot data set is the complete, usable model",
  "load_robot returns the bundled recording as a complete linear-Gaussian model with its observations: every field has the recorded numbers in the documented orientation, and a filter built from it (with per-step offsets) yields the exact filtered and smoothed estimates on it.",
  ["inputs"], "all fields of the data set, all time steps",
  "The tests use the data set through stored results only at a few time steps.",
  ["pykalman/datasets/base.py", S], [("loader", "pykalman/datasets/base.py: load_robot")], ["load_robot fields", "filter/smooth on them"])
p("C23", "Matrix factorisation and sigma point primitives satisfy their contracts",
  "The factorisation and transform routines keep their documented contracts on every valid input: a UDU factorisation multiplies back to its matrix with unit triangular and non-negative factors, a Cholesky update or downdate is the factor of the updated matrix, sigma points reproduce the mean and covariance they were drawn from, and the density routine returns the normal log density. None modifies its arguments.",
  ["inputs"], "all matrices (positive semidefinite and singular for UDU and QR, regular for the others; integer-valued or not), vectors, weights and dimensions",
  "The routines are only reached by the tests through the filters on a few well-conditioned matrices.",
  [BI, SU, U, "pykalman/utils/_sklearn.py"], [("UDU", BI + ": udu"), ("Cholesky update", SU + ": cholupdate, qr"), ("sigma points", U + ", " + SU + ": moments2points, points2moments"), ("density", "pykalman/utils/_sklearn.py: log_multivariate_normal_density")], ["return values of these routines"])
p("C24", "Queries may run at the same time",
  "Queries (filter, smooth, loglikelihood, filter_update, and sample with a seed or generator of its own) that run at the same time in several threads, or that are called from within the model functions of another query, on the same object or on different ones, each return exactly what the same call returns alone, and leave behind objects that answer every later call as before. Fitting one object does not affect queries that run on other objects meanwhile.",
  ["schedules", "inputs"], "all classes, all pairs of queries, all interleavings of their steps",
  "The tests run one call at a time; nothing in them would notice working storage kept on the object, in the module or in numpy's global generator for the length of a call.",
  [S, U, SU, BI, CH], [("queries work on local variables", S + ": filter, smooth, loglikelihood; " + U + ": filter, smooth"), ("no module level state", U + ": moments2points; pykalman/utils/_sklearn.py: check_random_state")], ["return values of overlapping calls", "return values of later calls"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
