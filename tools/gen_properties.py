#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "PyAnEn/"
V, VD, VE, VP = D+"Verify.py", D+"VerifyDeterm.py", D+"VerifyEnsemble.py", D+"VerifyProb.py"
GA, GM, GH = D+"VerifyProbGaussian.py", D+"VerifyProbGamma.py", D+"VerifyProbGammaHurdle.py"
UV, US, UB, UD, UC, UA, SG = D+"utils_verify.py", D+"utils_ss.py", D+"utils_special_boot.py", D+"utils_dist.py", D+"utils_crps.py", D+"utils_approximation.py", D+"utils_significance.py"

p("C01", "Bias, MAE, MSE and RMSE are exact averages over exactly the chosen axes",
  "For any forecasts and observations and any set of averaging axes (negative indices allowed, none meaning all), the bias, MAE, MSE and RMSE reported by the deterministic, ensemble (through its collapsed members) and parametric (through its central forecast) verifiers equal the arithmetic mean of f-o, |f-o| and (f-o)^2, and the root of the latter, over exactly those axes. The remaining axes keep their order and each kept position depends only on its own slice.",
  ["inputs", "configurations"], "all forecast/observation values, array ranks and averaging-axis choices",
  "The tests compare a few random arrays of one rank with the same numpy expression; no test ranges over values, signs, axis subsets and verifier classes together.",
  [V, VD, VE, VP], [("averaging", V+": boot_or_avg"), ("per-cell errors", "_error/_sq_error/_ab_error of each verifier"), ("axis normalisation", V+": _validate_avg_axis")],
  ["error()", "ab_error()", "sq_error()", "rmse()"])
p("C02", "Missing values are skipped when asked and propagate otherwise",
  "With NaN skipping on, averaged errors equal the mean over the non-missing cells, ensemble and sampled spread use only the non-missing members, correlation uses only pairs where both values are present, and ranks are missing exactly where the observation or any member is missing. With NaN skipping off, a missing value in a slice makes that slice's averaged error, spread and correlation missing and leaves every other slice unchanged. Bootstrapped averages and correlations skip missing values within every resample and are missing only when no resample has the values needed (with skipping off: when any resample has a missing value).",
  ["inputs", "configurations"], "every placement of missing values among the cells, both settings",
  "No test turns NaN skipping on; the set of placements of missing values is exponential.",
  [V, VE, VP, UV, UB], [("nan-aware mean", V+": boot_or_avg"), ("nan-aware extrema", "_spread"), ("pair mask", UB+": _func_corr"), ("rank mask", UV+": rank_histogram")],
  ["error()", "ab_error()", "sq_error()", "spread()", "corr()", "rank_hist()"])
p("C03", "Aggregating along axes never mixes kept positions",
  "For correlation, Brier score, Brier decomposition, CRPS, IOU, reliability and binned spread-skill, the value at every kept position equals the value obtained by verifying that position's slice alone, whatever the array rank and whichever axes (positive or negative indices, in any order) are aggregated. The kept axes appear in their original order.",
  ["inputs", "configurations"], "all values, array ranks up to the bound and all axis subsets",
  "The axis tests fix one large shape, one kept axis at a time, and random data in which permuted axes of equal statistics are not told apart.",
  [V, UB, UV, US], [("transpose/reshape per slice", UB+": _workflow"), ("axis moves", UV+": _reliability_create_split, boot_arr"), ("axis moves", US+": _binned_spread_skill_create_split")],
  ["corr()", "brier()", "brier_decomp()", "crps()", "iou_determ()", "iou_prob()", "reliability()", "binned_spread_skill()"])
p("C04", "Ensemble axis position and configuration setters do what they say",
  "Every metric of the ensemble verifier is the same whether the member axis is the first or the last one, given by a positive or negative index, or inferred; inference picks the last axis if removing it leaves the observation shape, else the first, else fails. After changing the ensemble axis, collapse function, averaging axes or bootstrap setting through a setter, every metric equals that of a verifier constructed with that configuration.",
  ["inputs", "configurations", "histories"], "all values, axis placements, collapse functions and setter sequences",
  "Tests build each verifier once and never call the axis or collapse setters.",
  [VE, V], [("axis guess", VE+": _guess_ensemble_axis"), ("collapse", VE+": _collapse_ensembles"), ("setters", VE+": set_ensemble_axis, set_collapse_func")],
  ["VerifyEnsemble(...)", "set_ensemble_axis()", "set_collapse_func()", "error()", "spread()", "variance()", "crps()", "cdf()", "rank_hist()"])
p("C05", "Ensemble probabilities are exact member fractions",
  "With the member-fraction method the probability of being below a threshold is the fraction of members less than or equal to it, and the probability of exceeding it is exactly one minus that, cell by cell, for scalar or per-cell thresholds and any member-axis position. Hence probabilities lie in [0, 1] and the below-probability never decreases as the threshold grows.",
  ["inputs", "configurations"], "all member values, thresholds (including ties with members and zero) and axis placements",
  "Tests only check that serial and parallel agree and that over+below is near one for most cells.",
  [UV, VE], [("threshold stacked as member 0 then counted", UV+": ens_to_prob, ens_to_prob_moments"), ("complement", VE+": _cdf")],
  ["cdf()", "sharpness()", "ens_to_prob"])
p("C06", "Parametric CDFs are the right distribution's CDF, bounded and complementary",
  "For Gaussian, zero-truncated Gaussian, shifted gamma, zero-truncated shifted gamma and gamma-hurdle forecasts, the below-probability is that distribution's CDF at the threshold (scalar or per-cell) for the given parameters: in [0, 1], non-decreasing in the threshold, without mass below zero when truncated (with a shift that is not positive), and 1-pop at or below zero for the hurdle. The exceedance probability is exactly its complement.",
  ["inputs", "configurations"], "all valid parameters and thresholds",
  "One test checks a single CDF value 0.5 and one compares a few hurdle entries with each other.",
  [UD, GA, GM, GH, D+"dist_truncgamma.py"], [("parameter conversion and clipping", UD+": cdf_gaussian, cdf_gamma, cdf_gamma_hurdle"), ("complement", "_cdf of each verifier")],
  ["cdf()", "cdf_gaussian", "cdf_gamma", "cdf_gamma_hurdle"])
p("C07", "The number of workers and the mapping axis never change a result",
  "Parametric CDFs (truncated or not, scalar or per-cell thresholds), ensemble probabilities (both methods), ranks (up to tie-breaking) and the shape and per-cell parameters of sampled ensembles are the same for one worker and for several, for every negative mapping axis.",
  ["inputs", "configurations"], "all inputs, worker counts, mapping axes and array ranks",
  "Tests compare serial with parallel for the untruncated Gaussian CDF, the hurdle CDF and ensemble probabilities on one shape with the default mapping axis.",
  [UD, UV], [("split/concatenate", UD+": _parallel_process and wrappers"), ("split/concatenate", UV+": rank_histogram, ens_to_prob")],
  ["cdf_gaussian", "cdf_gamma", "cdf_gamma_hurdle", "ens_to_prob", "rank_histogram", "sample_dist_gaussian", "sample_dist_gamma"])
p("C08", "Observation ranks are correct for every tie-break draw",
  "Each rank lies between one plus the number of members strictly below the observation and one plus the number of members not above it, for every outcome of the random tie-breaking. Without ties the rank is exact, and with ties every rank in that range can occur.",
  ["inputs", "schedules"], "all values including ties in any pattern of cells, and all random draws",
  "The rank test adds 0.1 to the observations so no tie ever occurs.",
  [UV, VE, VP], [("min ranks plus randomised ties", UV+": rankdata"), ("axis handling", UV+": rank_histogram")], ["rank_hist()", "rank_histogram"])
p("C09", "Ensemble CRPS, spread and variance follow their definitions",
  "Per cell, the ensemble CRPS is the mean absolute member error minus half the mean absolute member difference, the spread is the largest minus the smallest member, and the variance is the population variance of the members; the averaged metrics average these over the chosen axes. Computing CRPS slice by slice along the first axis gives the same values as in one go, for either member-axis position.",
  ["inputs", "configurations"], "all member values, member-axis placements and both computation modes",
  "Tests only compare CRPS of slices with each other; the split mode is never run.",
  [VE], [("split mode", VE+": _crps"), ("spread/variance", VE+": _spread, _variance")], ["crps()", "spread()", "variance()"])
p("C10", "Brier score is the squared gap between probability and strict event",
  "The Brier score of the ensemble, Gaussian, gamma and hurdle verifiers is the mean over the averaging axes of (p - e)^2 with p the forecast probability of the requested event and e = 1 exactly when the observation is strictly above (over) or strictly below (below) the threshold; a missing observation has no score. It lies in [0, 1], and exactly one of over and below must be given.",
  ["inputs", "configurations"], "all forecasts, observations and thresholds including ties and zero",
  "Tests run one threshold and check only file names.",
  [VE, VP, UV], [("binarisation", UV+": binarize_obs"), ("score", "_brier")], ["brier()", "binarize_obs"])
p("C11", "Brier decomposition is exact and consistently ordered",
  "For binary outcomes, reliability - resolution + uncertainty equals the Brier score of the forecasts replaced by the mean of their probability bin, where samples share a bin exactly when they fall inside the same one of the 20 equal probability bins (which side an inner edge belongs to is left open); uncertainty is obar(1-obar), reliability is non-negative, and 0 <= resolution <= uncertainty <= 1/4. The same holds slice by slice along kept axes.",
  ["inputs", "configurations"], "all probabilities in [0,1], including bin edges, and all outcomes",
  "Tests check the identity to 0.001 on one ramp and to 0.01 on one random array.",
  [UB], [("bin loop", UB+": _func_brier_decomp"), ("slices", UB+": _workflow, brier_decomp")], ["brier_decomp()"])
p("C12", "Correlation is Pearson's over the pooled, correctly paired samples",
  "The reported correlation is the Pearson correlation of forecast and observation pairs pooled over the averaging axes, using the verifier's deterministic forecast. It is 1 when forecasts are an increasing affine function of the observations, unchanged under positive affine rescaling of either side, and symmetric in its two inputs.",
  ["inputs", "configurations"], "all non-constant samples, array ranks and axis subsets",
  "Tests only check that the value lies inside a bootstrap interval.",
  [UB, VD, VE, GA, GM, GH], [("pooling", UB+": _workflow"), ("pearson", UB+": _func_corr")], ["corr()"])
p("C13", "Reliability diagram accounts for every sample in the right bin",
  "For probabilities in [0, 1] the bins are nbins equal intervals (which side an inner edge belongs to is left open); per populated bin the diagram reports the mean probability of its samples and their observed frequency, and bins that hold no sample are left out. Bin counts sum to the number of samples, bin means lie inside their bin, frequencies lie in [0, 1], count-weighted means reproduce the overall means, and kept axes are handled slice by slice even when slices populate different bins.",
  ["inputs", "configurations"], "all probabilities (including 0, 1 and bin edges), outcomes and bin counts",
  "Tests compare the diagram of slices with itself on data dense enough to populate all bins.",
  [UV], [("binning", UV+": _reliability_create_split"), ("aggregation", UV+": _reliability_agg_no_boot")], ["reliability()", "reliability_diagram"])
p("C14", "Spread-skill bins hold equal shares of variance-ordered, paired samples",
  "Samples are ordered by ensemble variance (equal variances in any order) and cut into nbins consecutive groups whose sizes differ by at most one; each bin reports the root of its mean variance and the root of the mean squared error of the same samples. Hence bin spreads never decrease, size-weighted squared values reproduce the overall means, and asking for more bins than samples is refused.",
  ["inputs", "configurations"], "all variances (including ties) and squared errors, bin counts, array ranks and axes",
  "Tests compare slices of the result with themselves; pairing and ordering are never checked.",
  [US, VE, VP], [("sort and split", US+": _binned_spread_skill_create_split"), ("aggregation", US+": _binned_spread_skill_agg_no_boot")], ["binned_spread_skill()", "utils_ss.binned_spread_skill"])
p("C15", "Bootstrap intervals are honest for every resample drawn",
  "For every random draw, each bootstrap result (averaged metrics, correlation, Brier decomposition, reliability, spread-skill) is [lower, mean, upper] of statistics of resamples, with replacement and of the requested size, of the pooled samples of that slice (that bin) only, forecasts and observations resampled together. Lower and upper are the (1-c)/2 and (1+c)/2 quantiles of those statistics at the configured confidence c; for spread-skill they are taken of the mean squares, whose roots are reported.",
  ["inputs", "schedules", "configurations"], "all sample values and all random draws, sample sizes, repeats and confidences within the bound",
  "Tests draw one seed and check that the plain estimate lies inside the interval.",
  [UV, UB, US, V], [("resampling", UV+": boot_vec, boot_arr, _reliability_agg_boot"), ("resampling", UB+": _func_corr, _func_brier_decomp"), ("resampling", US+": _binned_spread_skill_agg_boot")],
  ["error() etc. with boot_samples", "corr()", "brier_decomp()", "reliability()", "binned_spread_skill()"])
p("C16", "IOU is intersection over union of the two event sets",
  "The deterministic and probabilistic IOU equal the number of cells where both forecast and observed events occur divided by the number where at least one does, over the averaging axes, with strict comparisons; a missing value is never an event, and the result is missing exactly when neither event occurs anywhere. It lies in [0, 1], and is 1 exactly when the two non-empty event sets coincide.",
  ["inputs", "configurations"], "all values including ties and missing values, thresholds and axes",
  "One hand-computed example with one threshold.",
  [UV, VD, VE, VP], [("set counts", UV+": _iou, iou_determ, iou_prob")], ["iou_determ()", "iou_prob()"])
p("C17", "ROC curve and area match the ranking of events over non-events",
  "The ROC curve pairs every forecast probability with its own observed event; it starts at (0, 0), ends at (1, 1) and never decreases, and the area is the probability that an event received a higher forecast than a non-event, ties counting half. With NaN skipping on, pairs with a missing probability are left out together.",
  ["inputs", "configurations"], "all probabilities including ties and missing ones, and outcomes with both classes present",
  "No test runs ROC.",
  [UV, VE, VP], [("flatten and mask", UV+": calculate_roc")], ["roc()", "calculate_roc"])
p("C18", "Probability integral transform equals the CDF at the observation",
  "Without sampled members, the rank of a parametric verifier is its forecast CDF evaluated at each cell's own observation. Only for observations equal to zero, and only when randomisation is on, it is instead drawn between zero and that CDF value; every result lies in [0, 1].",
  ["inputs", "schedules", "configurations"], "all parameters and observations including zeros, all random draws, both settings",
  "One test checks that a histogram of PIT values is roughly flat, on observations that are never zero.",
  [VP, GA, GM, GH], [("cdf at o, zeros randomised", VP+": _pit, _rank_hist")], ["pit()", "rank_hist()"])
p("C19", "Sampled ensembles have the right layout, parameters and support",
  "Sampling n members from a Gaussian or gamma forecast yields the observation shape with a member axis of length n at the requested position, each cell drawn from its own parameters; truncation keeps members at or above zero and clipping sets exactly the members below the limit to zero. Spread and ranks computed from the sample reduce over that member axis and have the observation shape.",
  ["inputs", "schedules", "configurations"], "all parameters, all draws, member-axis positions, truncation and clipping settings",
  "Two tests check only the shape for one axis position.",
  [UD, VP, GA, GM], [("sampling and axis move", UD+": sample_dist_gaussian, sample_dist_gamma"), ("clip", "_prob_to_ens"), ("reduction axis", VP+": _spread, _rank_hist")], ["prob_to_ens()", "spread()", "rank_hist()"])
p("C20", "Closed-form CRPS matches its formula and is finite for valid inputs",
  "The CRPS of Gaussian, zero-truncated Gaussian and censored shifted-gamma forecasts equals its published closed form in the forecast parameters and observation, cell by cell. It scales linearly when forecast and observation are rescaled together, and is a finite number for every finite forecast with positive mean and spread, however sharp.",
  ["inputs"], "all valid parameters and observations",
  "One test compares a gamma CRPS with numerical integration for moderate shapes and zero shift; the truncated Gaussian CRPS is never run.",
  [UC, GA, GM], [("gamma closed form", UC+": crps_gamma, _lbeta"), ("truncated Gaussian closed form", UC+": crps_truncated_gaussian")], ["crps()", "crps_gamma", "crps_truncated_gaussian"])
p("C21", "The truncated gamma distribution is internally consistent",
  "On its support the truncated gamma's CDF is the gamma mass between the lower bound and x divided by the mass between the bounds, its quantile function inverts the CDF, its density is the gamma density over that same mass and zero outside the bounds, and every sample lies between the bounds. The CDF rises from 0 at the lower to 1 at the upper bound.",
  ["inputs", "schedules"], "all bounds, shapes and points, all uniform draws",
  "One test checks one parameter set.",
  [D+"dist_truncgamma.py"], [("formulas", "truncgamma_gen")], ["truncgamma_gen.cdf/pdf/ppf/rvs"])
p("C22", "Numerical integration is the same in every mode and completion order",
  "Integrated mean, variance and CRPS are the midpoint-weighted CDF sums (with variance the second moment minus the squared mean) and the trapezoidal sum of the squared gap between CDF and observed step over the integration grid, for every CDF. They are identical for one worker, for several workers whatever the order in which tasks finish, and for the memory-mapped mode; the default grid extends beyond all observations when these are not all equal, and the variance is never negative for a valid CDF.",
  ["inputs", "schedules", "configurations"], "all CDF values on the grid, all completion orders, both memory modes",
  "Tests compare modes on one data set with whatever completion order the machine produced.",
  [UA, GH], [("ordered reassembly", UA+": Integration._mean/_variance/_crps"), ("memmap", UA+": wrapper_cdf, wrapper_brier, _memmap_sum_mul"), ("range", UA+": _define_integration_range")], ["Integration.mean/variance/crps", "VerifyProbGammaHurdle.crps/f_determ/variance"])
p("C23", "Integration leaves settings and files as they were, even when it fails",
  "After an integration finishes or fails at any of its CDF evaluations, every PyAnEn setting in the environment has its former meaning, the memory-map file it created is gone, and a later integration gives its usual result.",
  ["fault_sequences", "configurations"], "a failure at any CDF evaluation or none, any number of workers, both memory modes",
  "No test lets an evaluation fail.",
  [UA], [("suppress/resume and memmap finalisation", UA+": _workflow, _suppress_sublevel_tqdm, _finalize_memmap")], ["Integration.mean/variance/crps", "os.environ", "file system"])
p("C24", "Saving intermediate results never changes any answer",
  "For any history of metric calls with any thresholds and bin counts, a verifier with saving enabled returns what a verifier without saving returns; this includes a later verifier on the same data and settings that reuses the directory, changing the averaging axes or the bootstrap size between calls, and, when starting from scratch, any other reconfiguration. Results for different thresholds or bin counts are never confused.",
  ["histories", "inputs", "configurations"], "all call histories up to the bound, all threshold values (equal or not, scalar, pair or small array)",
  "Tests call a metric twice in a row with the same threshold.",
  [V, VE, VP, VD], [("cache key", V+": to_name"), ("cache", V+": _save, _load, _metric_workflow_1/2/3")], ["every metric with working_directory set"])
p("C25", "Saving touches nothing but its working directory",
  "Creating or reconfiguring a verifier and calling metrics creates, overwrites or deletes files only inside the working directory (given save names without path separators). Earlier contents are removed only when starting from scratch is requested, and nothing is written when saving is disabled.",
  ["histories", "configurations"], "all call histories up to the bound, directory existing or not, all settings",
  "Tests look at a few file names in one directory.",
  [V], [("directory preparation", V+": _validate_saving"), ("save", V+": _save")], ["file system", "enable_saving()", "disable_saving()"])
p("C26", "A crash while saving never corrupts a later run",
  "If a process dies at any point while a metric result is being saved, a later verifier on the same data that reuses the directory still returns the right value for every metric: it finds either the complete result or none.",
  ["crash_points", "inputs"], "every file operation of a save and every truncation point of the written data",
  "No test interrupts a save.",
  [V], [("save", V+": _save"), ("load", V+": _load")], ["file system", "metric calls with start_from_scratch=False"])
p("C27", "Verification never alters its inputs and calls do not influence each other",
  "No metric or utility call changes the forecast, observation, threshold or parameter arrays it was given, nor do results share memory with them. Calling any metric before another leaves the second one's result unchanged.",
  ["inputs", "histories"], "all values, all pairs of metric calls",
  "Tests never look at their inputs after a call.",
  [V, VD, VE, VP, UV, US, UB, UD, UC], [("copies", "_f_determ, _cdf, _pit, _prob_to_ens"), ("in-place sort", US+": _binned_spread_skill_create_split")], ["every public call"])
p("C28", "Diebold-Mariano statistic and p-value are correct",
  "For each criterion the statistic is the mean loss difference over the root of its long-run variance estimate (lags below h), times the small-sample factor, and the p-value is the two-sided Student-t tail with n-1 degrees of freedom, so it lies in [0, 1]. Exchanging the two forecasts flips the sign and keeps the p-value, and rescaling all series together by a positive factor changes neither.",
  ["inputs", "configurations"], "all series, horizons and criteria",
  "The function has no test.",
  [SG], [("loss differential, autocovariance, adjustment", SG+": diebold_mariano_test, autocovariance")], ["diebold_mariano_test"])
p("C29", "Matrix export is lossless, well-formed and never overwrites unasked",
  "A written matrix file starts with its dimensions and lists every row in order with every entry at its place, missing entries as nan, so that reading it back gives the same matrix. An existing file is left untouched unless overwriting is requested, and a non-matrix is refused without creating a file.",
  ["inputs", "configurations"], "all entries including missing ones, matrix sizes, existing or absent target",
  "The function has no test.",
  [D+"Grid.py"], [("writer", D+"Grid.py: write_matrix")], ["output file of write_matrix"])
p("C30", "Reliability index is zero exactly for a flat rank histogram",
  "The reliability index is the summed absolute deviation of the normalised histogram from the uniform one: zero exactly when all bins are equal, unchanged by rescaling or permuting the bins, and at most 2.",
  ["inputs"], "all non-negative histograms with a positive total",
  "The function has no test.",
  [V], [("index", V+": reliability_index")], ["Verify.reliability_index"])
p("C31", "Kernel-density ensemble probabilities are valid probabilities",
  "With the kernel-density method every probability lies in [0, 1], the exceedance probability is one minus the below-probability, and each cell uses only its own members and its own threshold.",
  ["inputs", "configurations"], "all members and thresholds (including identical members), any fitted density",
  "Tests only compare serial with parallel results.",
  [UV], [("numerical integral of the density", UV+": ens_to_prob_kde, ens_to_prob")], ["cdf() with kde method", "ens_to_prob"])
p("C32", "Station indices order chunk files by rank without overlap",
  "Stations read from the chunk file with rank r receive strictly increasing index coordinates in [r, r+1), so that for any two chunks all stations of the lower rank come before all those of the higher one, whatever the chunk sizes. A file name without a rank or a data set without the station dimension is refused.",
  ["inputs"], "all rank numbers and chunk sizes within the bound",
  "The IO module has no test.",
  [D+"IO.py"], [("helper index", D+"IO.py: __add_coords__")], ["num_stations coordinate of open_mfdataset"])
p("C33", "Opened data sets carry decoded names, coordinates and time units",
  "Opening a single data set decodes its character-matrix names, attaches the known coordinate variables (station locations, lead times, test and search times), labels time variables with their epoch unit, decodes them when asked, and presents test times under the common time dimension. Opening chunk files labels and presents times in the same way and fills lead-time, test-time and station-location coordinates missing from the opened group from the root groups, each station keeping its own location.",
  ["inputs", "configurations"], "all data sets written by the PAnEn tools",
  "The IO module has no test.",
  [D+"IO.py", D+"Grid.py"], [("post-processing", D+"IO.py: open_dataset, open_mfdataset")], ["open_dataset", "open_mfdataset", "read_station_coordinates"])
p("C34", "Inputs that do not fit together are refused, those that fit are accepted",
  "A verifier is made exactly when its forecasts (each parameter array, or the members once the first or last axis is taken as member axis) have the shape of its array of observations and all parameters of its distribution are there, also when other shapes could be broadcast; a middle member axis and settings of the wrong type are refused. Event metrics need exactly one side of the threshold, probabilities need a number or one threshold per cell, probability thresholds lie in [0, 1], sampling needs a number of members, and the metric functions refuse pairs of arrays of different shapes.",
  ["inputs", "configurations"], "all shapes within the bound including broadcastable ones, all subsets of parameters, threshold forms and probability thresholds",
  "Tests only construct verifiers that fit; a silent broadcast yields plausible numbers.",
  [V, VD, VE, VP, GA, GM, GH, UV, US, UB, UD, SG], [("construction", "_validate of each verifier"), ("arguments", "assertions of the metric functions")], ["constructors and setters", "every event metric", "cdf()", "metric functions"])
p("C35", "Central forecasts and variances are those of the forecast itself",
  "The central forecast is the forecast itself (deterministic), the collapsed members (ensemble), the mean parameter (Gaussian, gamma), or the mean of the probability mass between integration points (hurdle), one value per cell, whatever the averaging axes, bootstrapping, truncation or sampling settings. The variance is that of the members or the squared spread parameter, and errors are those of the central forecast.",
  ["inputs", "configurations"], "all values and all combinations of these settings",
  "Tests look at one configuration per metric.",
  [V, VD, VE, GA, GM, GH, UA], [("central forecast", "_f_determ of each verifier"), ("variance", "_variance of each verifier")], ["f_determ()", "variance()", "error()", "sq_error()"])
p("C36", "Metrics depend on the samples and members given, not on their order",
  "Putting the pooled samples (forecast and observation together) in another order leaves every aggregated metric of every verifier unchanged, reordering kept positions reorders the results in the same way, and every ensemble metric is unchanged when each cell's members are reordered, as long as no tie has to be broken by order or at random.",
  ["inputs", "configurations"], "all values, orders and metrics",
  "No test reorders its data.",
  [V, VD, VE, VP, UV, US, UB, UD, UC, UA], [("every metric", "all metric methods")], ["every metric"])
p("C37", "A change of units changes metrics only by its factor",
  "Multiplying forecasts, observations, thresholds and integration range by a positive factor multiplies bias, MAE, RMSE, spread, CRPS, central forecasts, sampled members and spread-skill curves by it and squared errors and variances by its square, and adding the same offset to values and thresholds moves central forecasts and members only (for ensemble, Gaussian and untruncated gamma forecasts). Probabilities, Brier scores, decompositions, reliability, ROC, IOU, ranks and correlations do not change. Kernel-density probabilities are excepted.",
  ["inputs", "configurations"], "all values and thresholds, small and large factors, offsets",
  "Tests use data of one magnitude, so absolute tolerances, rounding and hard-coded limits stay unseen.",
  [V, VD, VE, VP, UV, US, UB, UD, UC, UA], [("every metric", "all metric methods")], ["every metric"])
p("C38", "Missing observations are left out of event scores, not counted as non-events",
  "With NaN skipping on, the Brier score, its decomposition, the reliability diagram, the ROC curve and the CRPS of data with missing observations equal those of the observed cells alone, slice by slice (also the integrated mean, variance and CRPS of hurdle forecasts whose integration range is taken from the observations); a slice without observations has a missing score and an empty diagram. With NaN skipping off, a missing observation makes the Brier score and decomposition of its slice missing.",
  ["inputs", "configurations"], "every placement of missing observations, all other values, both settings",
  "No test has missing observations.",
  [V, VE, VP, UV, UB], [("events", UV+": binarize_obs"), ("leaving out", UV+": calculate_roc, _reliability_agg_no_boot_slice; PyAnEn/utils_approximation.py: _define_integration_range; "+UB+": _func_brier_decomp; "+V+": boot_or_avg")], ["brier()", "brier_decomp()", "reliability()", "roc()", "crps()"])
p("C39", "A setting takes effect wherever and whenever it is given",
  "Importing the package gives every setting its documented default unless the environment already has one. Passing a setting as a function argument gives the same result as setting the pyanen_ variable of that name; a variable changed after a verifier was built counts from the next metric on; and a verifier reconfigured through its setters (averaging axis, bootstrap size, truncation, clipping, number of members, members axis, integration points and range), also after metrics were asked for, gives the same results as one built with these settings.",
  ["configurations", "histories"], "all values, every subset of the arguments and setters, every draw",
  "Tests set each option one way, before the first call.",
  ["PyAnEn/__init__.py", V, VE, VP, GA, GM, GH, UV, US, UB, UA], [("defaults", "PyAnEn/__init__.py"), ("arguments", UV+": boot_arr, boot_vec, reliability_diagram, ens_to_prob_kde; "+US+": binned_spread_skill; "+UB+": corr, brier_decomp"), ("setters", "set_* of every verifier")], ["every metric", "set_* methods"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
