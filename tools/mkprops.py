#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the property texts readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": " ".join(text.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": anchors,
        }
    )


B = "src/spey/base/"
D = "src/spey/backends/"
DP = D + "default_pdf/"
H = "src/spey/hypothesis_testing/"
SM = "src/spey/interface/statistical_model.py"
HB = B + "hypotest_base.py"

prop(
    "C01", "Result caching is transparent and keeps at most maxsize entries",
    """A function or method decorated with the result cache returns, for every sequence of calls, exactly what the
    undecorated function returns for these arguments: calls share a result only if their arguments are equal in
    content, however they are passed (position, keyword, default, key order of dictionaries), failed calls are not
    remembered, and objects handed to the caller can be modified without affecting later calls (unless copying was switched off).
    A repeated call is answered without computing it again as long as its entry is among the last maxsize distinct
    entries stored (first in, first out) and the cache has not been cleared; the reported size never exceeds maxsize.""",
    ["histories", "inputs"],
    """every sequence up to the depth bound of calls over a small argument alphabet (scalars, arrays of different
    shape, dtype and content, nested lists, dictionaries, sets, positional/keyword/default forms), failing calls,
    mutations of returned objects and cache_clear, for maxsize 1, 2, 3 and unlimited, plain functions, methods and slotted classes""",
    """tests sample a handful of call sequences; key collisions, eviction order after failures or clearing and aliasing
    of returned objects only show up for particular sequences of operations""",
    ["src/spey/system/cache.py", SM],
    [("cache_results wrapper", "src/spey/system/cache.py:cache_results"),
     ("content based keys", "src/spey/system/cache.py:_make_token/_build_key"),
     ("FIFO eviction", "src/spey/system/cache.py: order deque")],
    [("cache/order/events", "stored results, insertion order, computations in flight", "closure of the wrapper")],
)
prop(
    "C02", "Concurrent cached calls terminate, agree and compute each key once",
    """However threads interleave cached calls, failing computations and cache clearing, every call terminates and either returns
    the value the undecorated function gives for its arguments or raises the exception of a computation of its arguments.
    Without clearing or eviction a key is computed at most once unless a computation of it failed, two computations of
    one key never overlap unless the cache was cleared in between, and once all calls have returned at most maxsize entries are kept and
    a result computed before a completed clearing is not served afterwards.""",
    ["schedules", "fault_sequences"],
    """all interleavings, up to the preemption bound, of 2-3 threads with 1-3 operations each (same key, colliding keys with
    maxsize 1, clearing, failing and nested computations, first access of a method) on the real module, with a scheduling point
    at every line and every lock or event operation""",
    """the tests start threads and hope for an overlap: the windows (between publishing an in-flight mark and the result,
    between eviction and waking of waiters) are a few bytecodes wide""",
    ["src/spey/system/cache.py"],
    [("in-flight sentinel and event per key", "src/spey/system/cache.py: wrapper"),
     ("lock around cache, order and events", "src/spey/system/cache.py: wrapper")],
)
prop(
    "C03", "Cached methods belong to one object: no sharing, staleness or leak",
    """Results cached for a method of one object are never returned for another one: not for other instances of the class or of
    its subclasses, not for copies made with copy or deepcopy, not for objects created after the first was deleted, and an overriding method that calls the
    overridden one through super() gets the overridden one's result.
    Caching does not keep an object alive: once the last reference is dropped the object is collected, whether or not its class uses slots.""",
    ["histories"],
    """every sequence up to the depth bound of creating, calling, clearing, copying, deep-copying, attribute change on the copy
    and deleting objects of classes with and without slots, with overridden cached methods, including StatisticalModel itself""",
    "tests check two live instances once; reuse of identities, copies and super() need particular object histories",
    ["src/spey/system/cache.py", SM, B + "backend_base.py"],
    [("per-instance descriptor", "src/spey/system/cache.py:_PerInstanceCacheDescriptor"),
     ("fallback storage for slots", "src/spey/system/cache.py:_get_fallback"),
     ("cached inference methods", SM + ": generate_asimov_data, maximize_likelihood, maximize_asimov_likelihood")],
)
prop(
    "M01", "Answers of a statistical model do not depend on earlier queries",
    """The answer of a statistical model or combination to a query depends only on the inputs it was built from and the
    arguments of the query: it is the same on a fresh model as after any sequence of other queries on this or on other models,
    including failed queries, drawing samples, and modifications by the caller of results returned earlier (values, arrays, parameters, data sets).""",
    ["histories"],
    """all ordered pairs (and triples for the core queries) of queries from an alphabet of about 40 (likelihoods, fits, Asimov
    data, limits, CLs, chi-square, significance, samplers, configurations, with all expectation types, data and options) for every default backend and a combination""",
    "tests ask one question per model; leaks of state through caches, shared parameter lists or configuration objects need a second question",
    [SM, HB, D + "distributions.py", DP + "__init__.py", "src/spey/optimizer/core.py", "src/spey/combiner/uncorrelated_statistics_combiner.py"],
    [("configuration cache", DP + "__init__.py: config"), ("result cache", "src/spey/system/cache.py"),
     ("initial parameter handling", "src/spey/optimizer/core.py:fit")],
)
prop(
    "M02", "Caller-owned inputs are never modified, models keep a snapshot of theirs",
    """No constructor or query modifies an object passed by the caller: yields, data, covariance matrices, initial
    parameters, bounds, POI dictionaries, constraint lists and option dictionaries compare equal before and after, whether the call succeeds or fails.""",
    ["inputs", "configurations"],
    """every public constructor and query of the default backends, the combiner, helper functions and optimiser, with each argument
    given as list, tuple or array where accepted, including failing calls""",
    "tests do not look at their inputs after a call, and modifications depend on the container type and on which branch is taken",
    [SM, HB, "src/spey/optimizer/core.py", DP + "__init__.py", DP + "simple_pdf.py", DP + "uncertainty_synthesizer.py", "src/spey/helper_functions.py", "src/spey/combiner/uncorrelated_statistics_combiner.py"],
    [("copies before modification", "src/spey/optimizer/core.py:fit; " + SM + ":prepare_for_fit")],
)
prop(
    "M03", "Default backends evaluate exactly their documented likelihood",
    """For every default backend (uncorrelated, correlated, third-moment and effective-sigma background, Poisson with and without uncertainties, normal, multivariate
    normal) the log-probability of any data, parameters and expectation type is the documented probability model: Poisson or Gaussian main terms
    at the documented expected yields times the documented Gaussian constraint terms, including all normalisation constants, with signal
    uncertainties entering as the documented modifiers.""",
    ["inputs", "configurations"],
    """all combinations of backend, number of bins 1-3, uncertainty configuration, observed data (including zero counts and data given explicitly, with or without auxiliary data) and parameter points from finite grids""",
    "tests check a few golden numbers at one parameter point per backend; index, sign or normalisation mistakes confined to some bins, parameter signs or options survive",
    [DP + "__init__.py", DP + "simple_pdf.py", DP + "third_moment.py", DP + "uncertainty_synthesizer.py", D + "distributions.py"],
    [("main and constraint models", DP + "__init__.py"), ("distributions", D + "distributions.py")],
    observe=["backend.get_logpdf_func", "backend.expected_data"],
)
prop(
    "M04", "Objective, gradient and Hessian agree with the log-probability",
    """For every default backend and every data selection the objective handed to the optimiser is minus the log-probability for the same data,
    its gradient is the derivative of that objective with respect to every parameter, and the Hessian function is the matrix of second
    derivatives of the log-probability.""",
    ["inputs", "configurations"],
    "all combinations of backend, configuration, data selection and interior parameter points from finite grids; derivatives against high-order finite differences of the documented formula",
    "tests check that a gradient exists; a wrong derivative or one taken on other data merely degrades fits",
    [DP + "__init__.py", DP + "simple_pdf.py", B + "backend_base.py"],
    [("objective and gradient", DP + "__init__.py:get_objective_function"), ("hessian", DP + "__init__.py:get_hessian_logpdf_func")],
)
prop(
    "M05", "Fits honour constraints and return self-consistent minima",
    """Every fit (free, or with one or several parameters of interest held fixed by value, index or name) returns parameters inside the effective bounds with the fixed ones exactly
    at their values, a likelihood value equal to the model's likelihood at these parameters (as NLL or as likelihood on request), and it is a
    minimum: for a likelihood with a single minimum, no point of the allowed parameter space has a noticeably smaller NLL and a free fit is never noticeably worse than a fit with a fixed parameter of interest inside its range, and with negative signals disallowed the best-fit signal strength is not negative.""",
    ["inputs", "configurations"],
    """all combinations of default backend, data selection, fixed values inside and outside the default range, float/dictionary/name form, sign option,
    minimiser (scipy, minuit), initial values and bounds, checked against exhaustive parameter grids""",
    "tests fit a few models once and compare with golden numbers",
    [SM, "src/spey/optimizer/core.py", "src/spey/optimizer/scipy_tools.py", "src/spey/optimizer/minuit_tools.py", B + "model_config.py"],
    [("fit", "src/spey/optimizer/core.py:fit"), ("bounds for fixed POIs", B + "model_config.py"), ("interface", SM)],
)
prop(
    "M06", "Data and expectation selection reach every query consistently",
    """Every query with pre-fit expectation gives what the observed-data query gives on the model whose observation is the background
    expectation; observed and post-fit queries use the observation; explicitly passed data replace it; and expectation types given as strings equal the
    enumeration members.""",
    ["inputs", "configurations"],
    "all combinations of query, default backend, expectation type (member and string) and explicit data",
    "tests exercise one expectation type per query; a query that drops or misroutes data or the expectation type in one branch returns a plausible number",
    [SM, HB, DP + "__init__.py", DP + "simple_pdf.py", "src/spey/utils.py"],
    [("data selection", DP + "__init__.py:get_logpdf_func/get_objective_function"), ("expectation types", "src/spey/utils.py")],
)
prop(
    "M07", "Advertised calculators match the backend and unavailable ones are refused",
    """For every subset of the optional backend methods, the calculators a statistical model (or combination) advertises are exactly those the
    implemented methods permit, a query with an advertised calculator works, and requesting one that is not advertised or unknown raises the dedicated error.
    A missing optional method surfaces as the documented error of the query that needs it, and a missing gradient is replaced by gradient-free minimisation with the same result.""",
    ["configurations"],
    "all subsets of the optional backend methods (expected data, sampler, Hessian, gradient, native Asimov likelihoods, combination) for a backend plug-in, and all requests for calculators",
    "tests use two or three hand-written backends",
    [SM, HB, B + "backend_base.py", "src/spey/system/exceptions.py"],
    [("availability", SM + ": is_*_calculator_available"), ("dispatch", HB + ":exclusion_confidence_level")],
)
prop(
    "M08", "Equivalent descriptions of one analysis give the same answers",
    """Describing the same analysis differently changes no answer beyond numerical accuracy: bins or signal modifiers in another order,
    signal yields multiplied by a factor (signal strengths and limits are divided by it), yields of Gaussian measurements in other units, additional
    bins without signal, inputs given as lists, tuples or arrays of any memory layout, independent bins analysed as a combination of
    models, and another default backend which has the same likelihood for these inputs (uncorrelated or symmetric uncertainties, zero third
    moments) all lead to the same fits, test results, limits, significances and Asimov data.""",
    ["inputs", "configurations"],
    "all models of a catalogue, all their equivalent descriptions of the listed kinds, every query and expectation type",
    "tests fix one order, scale and type of inputs per backend, so that anything which depends on the first bin, the absolute scale or the container stays invisible",
    [SM, HB, DP + "__init__.py", DP + "simple_pdf.py", DP + "uncertainty_synthesizer.py", "src/spey/combiner/uncorrelated_statistics_combiner.py"],
    [("construction of the models", DP + "__init__.py, " + DP + "simple_pdf.py"), ("queries", SM + ", " + HB)],
)
prop(
    "H01", "Test statistics follow their definitions in every sign region",
    """q_mu, q_mu-tilde, q_0 and the left-sided q_mu equal their documented piecewise definitions for every order and sign of the tested and
    best-fit signal strength: non-negative, zero where the definition says so, twice the log-likelihood ratio elsewhere with the zero-signal
    likelihood as reference for q_mu-tilde at negative best fit, and names are resolved to the right statistic or rejected.""",
    ["inputs"],
    "a grid of tested values, best fits and likelihood shapes covering every sign, order and tie for each statistic, and every recognised or unknown name",
    "tests evaluate each statistic at one or two points",
    [H + "test_statistics.py", HB],
    [("statistics", H + "test_statistics.py:qmu/qmu_tilde/q0"), ("triples for the asymptotic calculator", H + "test_statistics.py:compute_teststatistics")],
)
prop(
    "H02", "Asymptotic p-values and CLs follow the asymptotic formulae",
    """For every value of the observed and Asimov test statistic the asymptotic calculator returns the documented signal-plus-background and
    background p-values and their CLs ratio (or the discovery p-value for q_0), with the expected values at -2..+2 sigma in documented order, all within
    [0,1], and exclusion confidence levels are one minus these for each expectation type.""",
    ["inputs"],
    "a grid of test-statistic values including zero, equality and very large ones, for each statistic and expectation type; and model-level queries over default backends, signal strengths and options",
    "tests check a few golden p-values",
    [H + "asymptotic_calculator.py", H + "distributions.py", H + "utils.py", H + "test_statistics.py", HB],
    [("p-values", H + "utils.py"), ("asymptotic distributions", H + "distributions.py:AsymptoticTestStatisticsDistribution")],
)
prop(
    "H03", "Toy-based p-values are exact fractions of the generated toys",
    """For every set of toy outcomes the toy calculator's p-values are the fraction of toys with a test statistic at least as large as the
    observed one, separately for signal-plus-background and background toys, CLs is their ratio, and expected values are taken at the documented quantiles of the background toys.
    Every requested toy is generated from the fit at the tested (or zero) signal strength and evaluated on its own data.""",
    ["inputs", "configurations"],
    "all toy sequences up to a length over a finite alphabet of outcomes (ties included), for each statistic and expectation type, with the sampler's answers chosen by the explorer",
    "tests run random toys and accept wide ranges",
    [H + "toy_calculator.py", H + "distributions.py", HB],
    [("empirical distribution", H + "distributions.py:EmpricTestStatisticDistribution"), ("toy loop", HB + ": toy branch of exclusion_confidence_level")],
)
prop(
    "H04", "Upper limits sit exactly at the requested confidence level",
    """A finite upper limit on the signal strength is the value at which the exclusion confidence level equals the requested one, smaller values are not excluded and larger
    ones are; the limit is infinite only when the signal is dead or no tested value is excluded, expected limits come in documented number and order, and cross-section limits are the limit times the cross section.""",
    ["inputs", "configurations"],
    "all combinations of default backend and observed data, expectation type, number of sigma bands, confidence level, signal scale over several orders of magnitude, and synthetic monotone CL curves with adversarial scales",
    "tests check a few limits at default settings; bracketing and tolerance failures depend on the scale of the problem",
    [H + "upper_limits.py", HB, SM],
    [("root finding", H + "upper_limits.py:find_poi_upper_limit"), ("bracketing", H + "upper_limits.py:find_root_limits"), ("interface", HB + ":poi_upper_limit")],
)
prop(
    "H05", "Chi-square intervals contain exactly the points below threshold",
    """The limits returned by the chi-square test lie on the chi-square threshold of the requested confidence level: for the two-sided interval on both sides of
    the best fit, for one-sided limits on the requested side, for every confidence level, expectation type and position of the minimum, and when the chi-square has several crossings
    within the scanned range all resolvable ones are reported in ascending order.""",
    ["inputs", "configurations"],
    "synthetic chi-square curves (shifted, scaled, asymmetric, double-well, flat on one side) times limit types and confidence levels, plus default backends",
    "tests use one near-parabolic model",
    [HB, H + "upper_limits.py"],
    [("interval search", HB + ":chi2_test")],
)
prop(
    "H06", "Asimov data are the expectation of the conditional fit",
    """Asimov data for a test statistic are the model's expected data at the parameters of the fit with the signal strength fixed to one for the
    discovery statistic and zero otherwise, for every expectation type; for models without nuisance parameters the likelihood on Asimov data is maximal at that signal strength up to tolerance, and the Asimov likelihood queries equal the
    likelihood queries with these data passed explicitly.""",
    ["inputs", "configurations"],
    "all combinations of default backend, expectation type, test statistic, and signal strengths",
    "tests check one backend with the default statistic",
    [SM, DP + "__init__.py", DP + "simple_pdf.py"],
    [("generation", SM + ":generate_asimov_data"), ("expected data", DP + "__init__.py:expected_data")],
)
prop(
    "H07", "Significance, pull, chi-square and sigma_mu are mutually consistent",
    """Chi-square at a point is twice the difference of the profiled NLL and its minimum (or the NLL at the given reference), for single values, lists and scans alike;
    pull is its signed square root; discovery significance is the square root of q_0 with p-values to match; and the reported uncertainty of the signal strength is the curvature estimate or, without a
    Hessian, the Asimov estimate.""",
    ["inputs", "configurations"],
    "all combinations of query, default backend and combination, signal strengths on both sides of the best fit and exactly at it, expectation type and options",
    "tests check isolated numbers",
    [HB, SM],
    [("derived quantities", HB + ":chi2/pull/significance/sigma_mu")],
)
prop(
    "B01", "A combination is the product of its members, in any order",
    """The NLL of a combination at a signal strength is the sum of its members' NLLs with each member's own data and options, independent of the
    order in which members were added, and fits, Asimov data and limits of the combination are those of that product.
    Adding, removing, looking up and merging members behaves like a list of uniquely named analyses, rejecting duplicates and unknown names without changing the combination.""",
    ["histories", "inputs", "configurations"],
    "all operation sequences (append, remove, lookup by name, index and slice, merge) up to the depth bound; all subsets and orders of a small set of models times queries, expectation types and data",
    "tests combine two models once",
    ["src/spey/combiner/uncorrelated_statistics_combiner.py"],
    [("combined likelihood", "src/spey/combiner/uncorrelated_statistics_combiner.py:likelihood"), ("membership", "src/spey/combiner/uncorrelated_statistics_combiner.py:append/remove/__getitem__/__matmul__")],
)
prop(
    "B02", "Model configurations derive bounds and indices without losing constraints",
    """Bounds derived for fixed values differ from the suggested ones only for the parameters being fixed, and only if the value does not lie strictly inside them and the parameter is bounded on both sides;
    they then contain the value, except that the bound of the signal strength never goes below the minimum signal strength. Restricting the signal to non-negative values or changing the upper bound changes
    only the bound of the parameter of interest. The original configuration is untouched. Parameter names and integers are resolved to the position of the parameter, unknown names and out-of-range nuisance indices are rejected, renaming happens at once and keeps names unique.
    The configurations of the backends have one entry per parameter and a minimum signal strength that keeps expected yields non-negative.""",
    ["inputs", "configurations"],
    "all combinations from grids of parameter counts, POI positions, bounds (including unbounded), minimum POI, fixed values inside, on and outside bounds, keys and renaming maps; all default backends and pairs of them",
    "tests check a few bounds",
    [B + "model_config.py"],
    [("derived bounds", B + "model_config.py:fixed_poi_bounds/fixed_poi_bounds_multi/rescale_poi_bounds"), ("index resolution", B + "model_config.py:resolve_poi_indices")],
)
prop(
    "B03", "Optimiser drivers return the best outcome and retry without tightening",
    """For every sequence of minimiser outcomes the driver retries failed scipy fits up to the documented number of times, never tightens a bound, keeps parameters held
    fixed at their values, forwards every recognised option to the minimiser and reports unknown ones, and returns the value and parameters of the final attempt, warning if it did not converge.""",
    ["fault_sequences", "configurations"],
    "all success/failure sequences of the minimiser up to the retry bound times bounds (including missing ones), fixed parameters and options, with the minimiser's answers chosen by the explorer",
    "tests cover a single failure at most; retry behaviour depends on the sequence of failures",
    ["src/spey/optimizer/scipy_tools.py", "src/spey/optimizer/minuit_tools.py", "src/spey/optimizer/core.py", "src/spey/optimizer/__init__.py"],
    [("retry loop", "src/spey/optimizer/scipy_tools.py:minimize"), ("minuit driver", "src/spey/optimizer/minuit_tools.py:minimize"), ("dispatch", "src/spey/optimizer/core.py:_get_minimizer")],
)
prop(
    "B04", "Samplers produce data of the right shape, law and reproducibility",
    """For every default backend, parameter point and number of toys, sampled data have one row per toy laid out as the model's own expected
    data, auxiliary measurements included when requested and left out otherwise, each column follows the distribution of the corresponding term, and every row can be passed back as data to the model.""",
    ["inputs", "configurations"],
    "all combinations of default backend, bins 1-3, signal uncertainties, sample sizes 1-3, with and without auxiliary data, parameter points; the law is checked by replacing the random source by one that returns recorded quantiles or parameters",
    "tests draw one sample from one backend",
    [D + "distributions.py", DP + "__init__.py", DP + "simple_pdf.py"],
    [("sampling", D + "distributions.py: sample methods"), ("assembly", DP + "__init__.py:get_sampler")],
)
prop(
    "B05", "Probability terms match the standard distributions",
    """Each elementary distribution gives the log-probability and expected data of the standard distribution it is named after, for every
    location, scale, weight and data including boundary values, identically for lists and arrays, and the main, constraint and combined models give the sum over their independent components.""",
    ["inputs"],
    "grids of parameters, data and container types for every distribution and main, constraint and mixture models",
    "tests check single points",
    [D + "distributions.py"],
    [("distributions", D + "distributions.py")],
)
prop(
    "B06", "Signal uncertainties and third-moment expansion follow their formulae",
    """Signal-uncertainty descriptions (absolute, asymmetric envelope, correlation or covariance matrix, third moments) are turned into the documented multiplicative modifiers and constraint terms, neutral at zero nuisance
    and equal to the envelope at plus or minus one, and the third-moment expansion reproduces the requested mean, variance, correlations and third moment; bins whose moments admit no expansion fall back to the standard linear form with a warning, and malformed modifier descriptions are rejected.""",
    ["inputs", "configurations"],
    "all combinations of uncertainty descriptions, bins, zero or one-sided uncertainties, nuisance values from grids, and moments around the admissible boundary",
    "tests check one description each",
    [DP + "uncertainty_synthesizer.py", DP + "third_moment.py"],
    [("modifiers", DP + "uncertainty_synthesizer.py"), ("expansion", DP + "third_moment.py")],
)
prop(
    "S01", "The backend registry returns exactly what was registered",
    """After any sequence of registrations and lookups the registry lists every available backend once, returns for each name the backend registered under it with its own metadata
    and citation data, and rejects unknown, duplicate, incompatible or invalid backends with the documented error without changing what is registered.""",
    ["histories", "configurations"],
    "all sequences up to the depth bound of register, get, metadata, list and reset over valid, duplicate, unnamed, version-incompatible and non-backend classes",
    "tests look up the default backends once",
    ["src/spey/__init__.py"],
    [("registry", "src/spey/__init__.py:register_backend/get_backend/get_backend_metadata")],
)
prop(
    "S02", "The update check never disturbs the user and never trusts a bad cache",
    """Whatever the network answers, the file system does or a crash left behind, checking for updates raises nothing, warns exactly when the versions call for it, uses a cached answer only if it
    is complete and no older than a day, otherwise asks the network once and, whenever the answer is valid, caches it as the only cache file; fetching citations returns text, an empty string or the documented connection error.""",
    ["fault_sequences", "crash_points", "histories"],
    "all sequences of two checks over network answers, cache contents (absent, fresh, stale, corrupt, torn at every length), file-system errors at every operation and clock answers",
    "tests mock single failures",
    ["src/spey/system/webutils.py", "src/spey/__init__.py"],
    [("update check", "src/spey/system/webutils.py:check_updates"), ("cache files", "src/spey/system/webutils.py:_load_cached_pypi_info/_save_pypi_info")],
)
prop(
    "S03", "Log capturing and silencing nest and always restore the logger",
    """After any nesting of capturing and silencing contexts, left normally or by an exception, logger level, handlers, propagation and global disabling are as before; inside, each distinct message at or above the
    level is delivered exactly once to the innermost capturing stream in order of first occurrence, and formatting never alters a record seen by other handlers.""",
    ["histories", "fault_sequences"],
    "all well-nested sequences up to the depth bound of entering, logging at each level, raising and leaving",
    "tests enter one context once",
    ["src/spey/system/logger.py"],
    [("contexts", "src/spey/system/logger.py:capture_logs/disable_logging"), ("formatter", "src/spey/system/logger.py:ColoredFormatter")],
)
prop(
    "K01", "Every contour point lies on the contour and within bounds",
    """Every point returned by the contour finder has a (profiled) NLL above the minimum by half the chi-square quantile of the confidence level for the number of contour parameters, lies within the
    bounds, and is labelled with the right parameters; reported minimum, best fit and threshold are consistent and the result depends only on model, arguments and seed, not on the number of worker processes.""",
    ["inputs", "configurations"],
    "all combinations of model, contour parameters, confidence level, bounds, numbers of starts and steps including step sizes too large to converge, and seeds",
    "there are no tests of the contour finder",
    ["src/spey/multiparameter/contour.py"],
    [("radial search and walk", "src/spey/multiparameter/contour.py")],
)
prop(
    "K02", "Correlation, covariance and bin-merging helpers preserve their content",
    """Converting between correlation and covariance matrices is mutually inverse for all positive uncertainties, and merging bins preserves totals and covariance of the merged
    yields for every grouping, keeps the order of the remaining bins, and rejects overlapping or invalid groups.""",
    ["inputs", "configurations"],
    "all groupings of up to five bins (all sets of disjoint or overlapping groups) and grids of matrices",
    "tests check one grouping",
    ["src/spey/helper_functions.py"],
    [("helpers", "src/spey/helper_functions.py")],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
