# Property texts: estimators
from props_s import P, SAMPLER

EST = "mlmc/estimator.py"
QE = "mlmc/quantity/quantity_estimate.py"
QU = "mlmc/quantity/quantity.py"

PROPS = [
P("E01", "Estimated mean and variance are the multilevel telescoping sum",
  "estimate_mean returns per level the sample mean and unbiased sample variance of the fine values on level 0 and of fine minus coarse on higher levels, over all chunks of the level. "
  "The overall mean is the sum of the level means and the overall variance the sum of level variances divided by the number of samples used on that level, for every component.",
  ["inputs", "configurations"], "all numbers of levels, components, samples and chunk divisions",
  "Tests compare a few estimates within statistical tolerance; a wrong divisor, a dropped chunk or a fine/coarse swap on one level stays inside it.",
  [QE, QU], [("accumulation", QE + " estimate_mean"), ("level aggregation", QU + " QuantityMean")]),
P("E02", "A sample with NaN is dropped as a whole fine/coarse pair and counted",
  "A sample enters the estimate only if no component of its fine and coarse part is NaN; both parts are dropped together so pairs stay aligned. "
  "Numbers of used and removed samples are counted per level over all chunks, and each estimate starts from samples read anew, not from those cached by an earlier estimate.",
  ["inputs", "histories"], "all NaN patterns over components, samples, fine/coarse and chunks; all sequences of estimates",
  "Tests have no NaN in only one component of one part, and misaligned pairs still give finite numbers.",
  [QE], [("mask", QE + " mask_nan_samples"), ("counts", QE + " estimate_mean"), ("cache clearing", QE + " cache_clear")]),
P("E03", "Sample counts for a target variance follow the optimal MLMC allocation",
  "For each level the proposed number of samples is the maximum over moments of round(sqrt(V_l/C_l) * sum_k sqrt(V_k C_k) / target), bounded by V_l L / target and at least 2, with level variances and costs of that same level. "
  "Level steps run geometrically from the coarsest to the finest, and Estimate returns the means and variances of the moments (or their products) of its quantity.",
  ["inputs"], "all variances, costs, targets, level counts and step ranges",
  "Tests evaluate only a couple of inputs; transposed axes agree on square inputs and a wrong exponent still yields plausible counts.",
  [EST], [("allocation", EST + " estimate_n_samples_for_target_variance"), ("level steps", EST + " determine_level_parameters / calc_level_params"), ("wrappers", EST + " Estimate.estimate_moments / estimate_covariance / estimate_diff_vars")]),
P("E04", "Moment and covariance quantities keep components, samples and fine/coarse apart",
  "moments() and covariance() turn a quantity into one whose values are the moment functions (or their pairwise products) of each component of each sample: the fine part from the fine values, the coarse part from the coarse ones. "
  "The declared structure (moments at the bottom or at the top) has the same order as the values, and moment() picks the asked moment.",
  ["inputs", "configurations"], "all quantity structures, numbers of moments, samples and both layouts",
  "Tests use quantities with equal or one component, where a wrong axis order is not visible.",
  [QE], [("moments", QE + " moments"), ("covariance", QE + " covariance"), ("single moment", QE + " moment")]),
P("E05", "Domain, subsampling and bootstrap use the right samples of every level",
  "estimate_domain takes on each level the q and 1-q quantiles of that level's own collected fine values without NaN and returns the smallest lower and the largest upper one. "
  "subsample(vec) yields vec[l] samples on level l however the level is divided into chunks, in every evaluation anew, keeping fine/coarse pairs and components together; bootstrap statistics are mean and unbiased variance over estimates from such subsamples. "
  "get_level_samples(l, n) gives the quantity's values for the samples of level l read with the number n; numbers of samples given for more levels than exist are used for the first levels in order.",
  ["inputs", "configurations", "histories"], "all level sizes, chunk divisions, quantiles, sample vectors and repetitions",
  "Tests check averages with 50 % tolerance on one chunk per level; reading level 0 on every level or resetting counts per chunk is invisible there.",
  [EST, QU], [("domain", EST + " Estimate.estimate_domain"), ("subsampling", QU + " Quantity.subsample / pick_samples"), ("bootstrap", EST + " Estimate.est_bootstrap")]),
P("E06", "Regressed level variances come from each level's own variance and step",
  "For every moment except the constant one the variances of levels 1 and higher are replaced by exp of the least-squares quadratic in the logarithm of the level step fitted to the logarithms of those levels' variances; "
  "level 0, the constant moment, fewer than three levels and all-zero variances are left as they are, and arrays given by the caller are not modified. "
  "Numbers of samples for a target variance of bootstrap estimates use the regressed bootstrap variances, the storage's costs per level and the number of levels.",
  ["inputs", "configurations"], "all numbers of levels and moments, variances and steps",
  "Tests call the regression once and look only at positive numbers of samples.",
  [EST], [("regression of one moment", EST + " Estimate._moment_variance_regression"), ("over moments", EST + " Estimate._all_moments_variance_regression / estimate_diff_vars_regression"), ("target variance", EST + " Estimate.bs_target_var_n_estimated")]),
]
