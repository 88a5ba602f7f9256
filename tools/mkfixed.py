"""Writes the 'fixed:' lines of known_findings.txt from the fix commits in /repo (subject -> property)."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'expected="all" returned nan': ("H02", 'exclusion_confidence_level(expected="all") returned nan for undefined p-values, for which the single expectation types return 0'),
    "a combination offers the asymptotic": ("M07", "a combination advertised the asymptotic calculator for members without expected_data, whose use raised NotImplementedError"),
    "models keep their own copy": ("M02", "bounds of signal parameters given as lists or arrays were kept by reference: changing them later changed the model"),
    "do not write fixed POI": ("M02", "fit with a fixed POI wrote the fixed value into the caller's (or the backend's) init_pars"),
    "do not append backend": ("M02", "prepare_for_fit appended the backend's constraints to the caller's list at every fit"),
    "report toy and asymptotic": ("M07", "available_calculators listed calculators whose backend methods are not implemented"),
    "keep the negative POI": ("B02", "config(poi_upper_bound=...) cut the negative POI range"),
    "make backends added": ("S01", "a class registered with register_backend could not be obtained with get_backend"),
    "keep double precision": ("H07", "chi2 of a list of POI values was rounded to single precision"),
    "return a number": ("B02", "rescale_poi_bounds returned a tuple as the upper bound"),
    "keep multi-parameter": ("B02", "fixed_poi_bounds_multi gave reversed bounds / bounds excluding the fixed value"),
    "rename parameters all": ("B02", "change_parameter_names renamed chains twice and produced duplicate names"),
    "retry the fit": ("B03", "scipy retry crashed for None bounds and tightened bounds of negative numbers"),
    "reject overlapping merge": ("K02", "merge_correlated_bins accepted overlapping groups"),
    "sample auxiliary": ("B04", "samples of models with signal uncertainties / single bins / one toy had the wrong layout"),
    "do not clip the log-det": ("M03", "parameter dependent covariance: the log-determinant was clipped"),
    "build the positivity": ("M05", "default.poisson positivity constraint used relative uncertainties"),
    "accept data given": ("B05", "Poisson.log_prob failed for data given as a list"),
    "compute observed upper": ("H04", "poi_upper_limit failed for expected='observed' given as a string"),
    "accept any real": ("M05", "numpy and fractional scalars were rejected as tested POI"),
    "estimate sigma_mu": ("H07", "sigma_mu fallback used the wrong distance"),
    "compute pulls": ("H07", "pull failed for lists and at the best fit"),
    "evaluate the Hessian": ("H07", "sigma_mu_from_hessian ignored the data passed"),
    "index the combiner": ("B01", "find_most_sensitive failed: the combiner could not be indexed with a numpy integer"),
    "do not lose, strand": ("C02", "cache clear/evict during a computation lost, stranded or resurrected entries"),
    "keep cached methods": ("C03", "overridden cached methods and copied instances shared one cache"),
    "let instances": ("C03", "instances of slotted classes were never collected"),
    "build cache keys": ("C01", "object arrays and dictionaries collided or failed as cache keys"),
    "accept init_pars": ("B01", "chi2 and fixed_poi fits of combinations failed with init_pars"),
    "place the confidence": ("K01", "the contour threshold was twice the chi-square quantile"),
    "profile parameters": ("K01", "find_contour failed for models with NonlinearConstraint"),
    "keep only points": ("K01", "RATTLE points off the contour or outside the bounds were returned"),
    "do not write the colour": ("S03", "ColoredFormatter modified the record seen by other handlers"),
    "replace all handlers": ("S03", "init_logger left old handlers: messages delivered twice"),
    "write the captured": ("S03", "captured messages were lost when the block raised"),
    "bounds of a fit with": ("M05", "a POI fixed below minimum_poi: the fit ran for minutes and returned the likelihood at minimum_poi"),
    "sigma_mu falls back": ("H07", "sigma_mu raised LinAlgError / returned NaN where the Hessian is singular or not positive, and with it chi2_test and poi_upper_limit"),
    "chi2_test does not": ("H05", "chi2_test(limit_type='right') returned nan when both crossings fell between two scan points (e.g. multivariate normal, CL 0.68)"),
    "third moments on the boundary": ("B06", "8*variance**3 == m3**2 gave NaN coefficients of the third-moment expansion"),
    "keep the correlations of the third-moment": ("B06", "catastrophic cancellation in rho for large variances with third moments near zero: diagonal entries 1.16 or 0"),
    "compute third moments of large": ("B06", "compute_third_moments gave 0 or garbage for envelopes above 1e4 and NaN where one side is zero"),
    "refuse to register backends whose name": ("S01", "a backend with name=None was registered and broke the error for unknown backends (TypeError)"),
    "do not cache, nor trust": ("S02", "JSON bodies of error answers were cached and suppressed the update check for a day"),
    "a message that can not be formatted": ("S03", "a log message with wrong arguments raised TypeError inside capture_logs"),
    "a copied instance does": ("C03", "a copy kept the original alive through its cached methods"),
    "refuse bin indices outside": ("K02", "merge_correlated_bins accepted negative bin numbers and counted bins twice"),
    "keep contour points of basins outside": ("K01", "bounds excluding the best fit gave contour points outside of the bounds"),
}


def main():
    out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "7ea5d4d..HEAD"],
                         capture_output=True, text=True, check=True).stdout
    lines = []
    for line in out.splitlines():
        h, s = line.split(" ", 1)
        s = s.removeprefix("fix: ")
        hit = [v for k, v in MAP.items() if s.startswith(k)]
        assert len(hit) == 1, line
        lines.append(f"fixed: property={hit[0][0]} {h} {hit[0][1]}")
    path = os.path.join(ROOT, "known_findings.txt")
    keep = []
    if os.path.exists(path):
        keep = [x.rstrip("\n") for x in open(path) if x.startswith(("finding:", "#"))]
    with open(path, "w") as f:
        f.write("\n".join(keep + lines) + "\n")
    print(len(lines), "fixed entries")


main()
