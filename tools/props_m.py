# Property texts: moment functions
from props_s import P

MO = "mlmc/moments.py"
PROPS = [
P("M01", "Moments map the domain affinely onto the reference domain and mark outliers",
  "For every basis, domain, reference domain and setting, transform maps the domain (its logarithm if log is set) affinely and increasingly onto the reference domain, lower end to lower end. With safe_eval exactly the values outside the domain become NaN, so they are recognised and removed, never clipped to a wrong value; "
  "without it nothing is altered. inv_transform is the inverse map.",
  ["inputs", "configurations"], "all values, domains, reference domains, log and safe_eval settings",
  "Tests use samples well inside the domain, where clipping, masking and a shifted map are hard to distinguish from noise.",
  [MO], [("transformation", MO + " Moments.__init__, linear, inv_linear"), ("outliers", MO + " Moments.clip")]),
P("H01", "Statistical checks reject correct samples only at the stated level",
  "t_test and chi2_test raise an assertion exactly if the two-sided p-value of the samples for the tested mean, or variance, does not exceed max_p_val; the variance statistic is the sum of squared deviations over the tested variance with one degree of freedom less than samples. "
  "anova returns True exactly if the p-value of equal means over all given levels exceeds 0.05.",
  ["inputs"], "all samples, tested values and levels of significance",
  "Checks of random samples accept or reject by chance; an inverted or one-sided decision, or a wrong number of degrees of freedom, is seen only in the long run.",
  ["mlmc/tool/stats_tests.py"], [("tests", "mlmc/tool/stats_tests.py t_test, chi2_test, anova")]),
P("M02", "All ways to evaluate moment functions agree, for every size and shape",
  "Function number i of a basis is one fixed function of the transformed value (monomial t^i, Legendre polynomial P_i, Fourier 1, cos t, sin t, cos 2t, sin 2t, …), the first being constant 1: eval_all, __call__, eval and eval_single_moment return it, a smaller size yields a prefix of the functions, and values of any shape are evaluated element by element with the functions along a new last axis. "
  "change_size preserves all other parameters, and moments compare equal exactly if they evaluate the same functions.",
  ["inputs", "configurations"], "all sizes, orders, value shapes and parameters of the bases",
  "Tests evaluate few sizes of one basis by one entry point; a wrong column shows only for particular parity, order or shape.",
  [MO], [("entry points", MO + " Moments.__call__, eval, eval_single_moment, eval_all"), ("bases", MO + " Monomial, Fourier, Legendre"), ("parameters", MO + " Moments.change_size, __eq__")]),
P("M03", "Derivatives and transformed moments are exact linear images of the basis",
  "eval_diff, eval_diff2 and eval_all_der return the derivatives of the very functions returned by eval_all (Legendre basis, in the reference variable), for every size, number of requested functions and value shape. Transformed moments are the given matrix applied to the original functions, and their derivatives the same matrix applied to the derivatives of the original ones.",
  ["inputs", "configurations"], "all sizes, requested numbers of functions, derivative orders, matrices and value shapes",
  "Tests compare few sizes; errors of single coefficients or of rectangular matrices do not show there.",
  [MO], [("derivatives", MO + " Legendre._eval_diff, _eval_diff2, _eval_all_der"), ("transformed moments", MO + " TransformedMoments")]),
]
