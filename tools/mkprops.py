"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["cyclic_boosting/" + f for f in files],
                     mechanism=[dict(name=n, where="cyclic_boosting/" + w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))


prop("P01", "Continuous binning is an equal-weight partition of the number line",
     "When a continuous column is binned, bin numbers are a non-decreasing function of the value that uses every number from 0 to k-1 on the training data with k never above the requested number of bins, every bin holds at least (1 - tolerance)/(requested bins) of the total training weight while no bin but the last could have been closed earlier (without its largest value it would hold less than 1/(requested bins)), and each value falls into the bin whose reported half-open interval (lower boundary, upper boundary] contains it. "
     "Values outside the training range go to the first or last bin, and missing, non-finite or declared magic-integer missing values go to the missing bin -1 and never influence the boundaries; rows of zero weight do not influence them either.",
     ["inputs", "configurations"],
     "all training columns (ties, skew, tiny or huge values, few distinct values, missing, infinite), weights, requested bin counts, tolerances, and all transformed values including unseen ones",
     "The tests bin a few fixed columns with default tolerance; the guarantee is over every column, weighting and later value.",
     ["binning/bin_number_transformer.py", "binning/ecdf_transformer.py", "binning/_utils.py"],
     [("boundary reduction", "binning/ecdf_transformer.py:reduce_cdf_and_boundaries_to_nbins"),
      ("weighted cdf", "binning/ecdf_transformer.py:calculate_cdf_from_weighted_data"),
      ("bin lookup", "binning/bin_number_transformer.py:BinNumberTransformer.transform")],
     ["transform() output", "get_feature_bin_boundaries()"])

prop("P02", "Categorical binning is a stable bijection onto 0..k-1",
     "When an ordered or unordered discrete column is binned, the k distinct training values with non-zero weight are numbered 0..k-1 in increasing order regardless of how many there are, and transforming any value yields exactly the number of the equal training value. "
     "A value not seen in training, a missing or non-finite value and a declared magic-integer missing value all yield the missing bin -1. Columns without a declared property pass through unchanged, and output rows, order and labels are those of the input.",
     ["inputs", "configurations"],
     "all discrete columns (1 to several hundred categories, close floats, negative numbers), subsets of columns declared, containers and index labels",
     "The tests cover a handful of small columns; dtype overflow, near-equal values, unseen values and zero weights are never exercised.",
     ["binning/bin_number_transformer.py", "binning/ecdf_transformer.py"],
     [("discrete lookup", "binning/bin_number_transformer.py:BinNumberTransformer.transform"),
      ("unique values", "binning/ecdf_transformer.py:get_weighted_cdf_uniques")],
     ["transform() output"])

prop("P03", "The empirical-CDF transform is the weighted training distribution",
     "The empirical-CDF transform maps a continuous column by a non-decreasing, piecewise-linear function into [0, 1] that equals the weighted share of training values not above each reported boundary, being 0 below the training minimum (and at it, unless the minimum alone fills a bin) and 1 from the maximum on. "
     "For a discrete column every training value maps to the weighted share of training values not above it, and unseen or missing values map to missing.",
     ["inputs", "configurations"],
     "all columns, weights, bin counts, tolerances and transformed values",
     "Tests check a few columns against stored numbers; the relation to the weighted training distribution is never checked in general.",
     ["binning/ecdf_transformer.py"],
     [("cdf computation", "binning/ecdf_transformer.py:calculate_cdf_from_weighted_data"),
      ("interpolation", "binning/ecdf_transformer.py:ECdfTransformer.transform")],
     ["transform() output", "bins_and_cdfs_"])

prop("P04", "Caller's data and arguments are never modified",
     "Training, predicting, transforming, explaining and fitting distributions leave every array, frame, index, target, weight and option object passed in by the caller bit-for-bit unchanged, for every estimator, binning transformer (unless in-place was requested), pipeline, smoother and helper. "
     "The only exception is the documented output column that the estimator's transform methods append.",
     ["inputs", "configurations", "histories"],
     "all estimators and options, numpy and pandas containers, dtypes, non-default indexes, missing values, read-only inputs, sequences of calls",
     "Tests never compare the inputs before and after a call.",
     ["base.py", "nbinom.py", "binning/ecdf_transformer.py", "binning/bin_number_transformer.py", "quantile_matching.py", "smoothing/onedim.py"],
     [("column extraction", "common_smoothers.py / base.py:get_X_column"),
      ("copy on transform", "binning/bin_number_transformer.py:BinNumberTransformer.transform")],
     ["deep snapshots of arguments around every public call"])

prop("P05", "Prediction on the training rows reproduces the in-sample fit",
     "Applying a trained model to its own training rows gives, to rounding, the in-sample prediction at the end of training: what the final training observation reports (before the model's documented output step, i.e. clipping at zero or thresholding to a class), what fit-and-transform returns, and the value whose loss is the last entry of the reported loss history. "
     "Each feature's stored profile looked up at a row's bin is that row's contribution, so training never accounts for an effect that prediction cannot reproduce or the reverse.",
     ["inputs", "configurations", "histories"],
     "all estimators, feature properties, one- and multi-dimensional groups, missing values, weights, priors, smoothing choices, learning rates, aggregation on or off, convergence paths",
     "Tests compare aggregate error numbers for a few fixed configurations; a mismatch between training state and prediction state for particular bins stays invisible.",
     ["base.py", "features.py", "common_smoothers.py"],
     [("frozen profile for prediction", "features.py:Feature.prepare_feature"),
      ("in-sample state", "base.py:CyclicBoostingBase._fit_main")],
     ["BaseObserver.observe_iterations", "predict()", "fit_transform()"])

prop("P06", "Every prediction decomposes exactly into its reported contributions",
     "For every row, combining the model's base value (or the row's calibrated prior prediction) with the reported contributions of all features on the model's scale (product for multiplicative, sum for additive, odds product for probability models) gives exactly the model's prediction for that row. "
     "A feature's contribution to a row depends only on that row's bins of that feature, so equal bins receive equal contributions.",
     ["inputs", "configurations"],
     "all estimators with contributions, all rows including missing, unseen and out-of-range bins, all groups, priors and weights",
     "A single test checks contributions of one model on its training data.",
     ["base.py", "link.py", "price.py"],
     [("contributions", "base.py:CyclicBoostingBase.get_feature_contributions"),
      ("link functions", "link.py")],
     ["get_feature_contributions()", "predict()", "predict_proba()"])

prop("P07", "Predictions are always finite and inside the model's range",
     "After any training that returns successfully, predictions for any rows whatsoever (missing, infinite, negative, unseen or out-of-range bins, any combination) are finite, one per row, and in the model's range: strictly positive for multiplicative mean regression (non-negative for multiplicative quantiles), non-negative for additive count regression, within [0, 1] and summing to one for class probabilities, and within [0, 1] for the dispersion model. "
     "A total single-feature factor of a multiplicative model stays within [0.01, 1000] for one-dimensional and [0.1, 100] for multi-dimensional features (unless a diverging training had to be damped or updates are configured not to aggregate), and no single update of it exceeds a factor of two; exponent factors of the price model likewise stay within [0.05, 20] and [0.1, 5].",
     ["inputs", "configurations"],
     "degenerate targets (constant, all zero, extreme magnitudes), empty or single-row bins, single rows, extreme weights, all estimators and smoothing options, all prediction rows",
     "Tests use one well-behaved sales data set.",
     ["base.py", "regression.py", "location.py", "classification.py", "nbinom.py", "link.py"],
     [("factor clipping", "base.py:CyclicBoostingBase.visit_factors / regression.py"),
      ("neutral value for non-finite factors", "features.py / base.py")],
     ["predict()", "predict_proba()", "get_feature_contributions()"])

prop("P08", "Missing and unseen values have fixed, representation-independent meaning",
     "A missing bin, however represented (negative, NaN, infinite; in any dimension of a group) receives the feature's single missing-value contribution learned from the missing training rows, or the neutral contribution if the feature is declared not to learn missing values. "
     "A bin number above all bins known from training receives the neutral contribution, as does, for multiplicative models and the beta-posterior classifier, a bin of an unordered feature that has no training rows. Marking training values as missing in one representation or another yields the same model, and in a feature that does not learn missing values the targets of its missing rows do not influence its profile in that update.",
     ["inputs", "configurations"],
     "all estimators, flags, groups, missing representations in training and prediction",
     "Tests contain one data set without systematic missing-value variation.",
     ["features.py", "base.py", "common_smoothers.py", "flags.py"],
     [("missing bin", "utils.py:multidim_binnos_to_lexicographic_binnos"),
      ("prediction lookup", "base.py:CyclicBoostingBase._pred_feature"),
      ("missing not learned", "base.py:update_factors")],
     ["get_feature_contributions()", "predict()"])

prop("P09", "Prediction is a pure row-wise function",
     "The prediction, contribution and probability of a row depend only on that row's values of the columns the model uses: not on other rows, batch size, row order, row labels, column order, additional columns, numeric storage type, or whether a frame or an equivalent array is passed. "
     "Repeating or interleaving predictions on other data never changes a result.",
     ["inputs", "histories", "configurations"],
     "all estimators and pipelines, all batches, permutations, subsets, containers, dtypes and call sequences",
     "Tests predict one batch once.",
     ["base.py", "features.py", "common_smoothers.py", "binning/bin_number_transformer.py"],
     [("column lookup", "common_smoothers.py / base.py:get_X_column"),
      ("prediction", "base.py:CyclicBoostingBase.predict")],
     ["predict()", "predict_proba()", "get_feature_contributions()", "transform()"])

prop("P10", "Sample weights mean repetition",
     "For the count, negative-binomial and classification models, training with integer sample weights gives the same model as repeating each row that many times, and a row of weight zero has no influence apart from declaring that its bins exist; the same holds for the location and background-subtraction models when smoothing is off. "
     "For every weighted model unit weights are the same as no weights, the base value is that of the weighted target, and the weight column is never used as a default feature.",
     ["inputs", "configurations"],
     "all weightings incl. zero and large weights, all groups, priors, smoothing options, learning rates; additive models when smoothing is off",
     "No test compares weighted with repeated data.",
     ["base.py", "features.py", "regression.py", "classification.py", "location.py", "nbinom.py"],
     [("weights", "base.py:CyclicBoostingBase._init_weights"),
      ("weighted bin sums", "features.py:Feature.bind_data")],
     ["predict()", "global_scale_", "loss history"])

prop("P11", "Training is deterministic and leaves no memory of earlier use",
     "Two trainings with equal options and equal data give identical models, and training an estimator or a binning transformer again, on any other data or after its options were changed, gives exactly the model, importances, contributions, bins and loss history a fresh one with these options would give. "
     "Nothing done between (predicting, explaining, plotting, failed trainings, training of other estimators sharing the same option objects) changes a trained model or a later training.",
     ["histories", "inputs", "configurations"],
     "all sequences of fit, failed fit, predict, contributions, clone, on different data sets, for all estimators and binning transformers",
     "Tests train every estimator once.",
     ["base.py", "features.py", "observers.py", "binning/ecdf_transformer.py"],
     [("feature re-creation", "base.py:CyclicBoostingBase._init_features"),
      ("importance reset", "base.py:set_feature_importances")],
     ["predict()", "get_feature_importances()", "loss history"])

prop("P12", "Training ignores row order, labels and container",
     "Permuting the training rows together with target and weights, relabelling the index, reordering or adding columns outside the declared feature groups, or passing an equivalent container or numeric type yields the same model up to rounding. "
     "Relabelling the bins of an unordered feature permutes its profile and changes nothing else.",
     ["inputs", "configurations"],
     "all permutations and relabellings, duplicate or shuffled indexes, for all estimators with closed-form bin updates",
     "Tests fit one row order with a default index.",
     ["base.py", "features.py", "common_smoothers.py", "utils.py"],
     [("positional access", "base.py:get_X_column"), ("bin aggregation", "features.py:Feature.bind_data")],
     ["predict()", "get_feature_contributions()"])

prop("P13", "Count regression follows the Bayesian gamma update, feature by feature",
     "For the Poisson and negative-binomial regressors every feature update is, bin by bin, the regularised posterior estimate (weighted target over weighted prediction under the model's variance function with its fixed gamma prior), smoothed according to the feature's declared property, scaled by the learning rate, limited to a halving or doubling per step and to the total factor limits, computed against the predictions including all preceding feature updates; the trained model is the result of exactly that sequence. "
     "Hence predictions, profiles and loss history equal those of an independent step-by-step computation.",
     ["inputs", "configurations", "histories"],
     "all targets, weights, priors, groups, flags, smoothing options, dispersion parameters, learning rates and iteration limits",
     "Tests pin three decimals of the error on one data set.",
     ["base.py", "regression.py", "nbinom.py", "features.py", "common_smoothers.py"],
     [("gamma posterior", "regression.py:_calc_factors_from_posterior"),
      ("Poisson sums", "regression.py:CBPoissonRegressor.calc_parameters"),
      ("NBinom sums", "regression.py:CBNBinomRegressor.calc_parameters"),
      ("update", "base.py:update_factors")],
     ["predict()", "BaseObserver events", "loss history"])

prop("P14", "Additive regression follows the variance-weighted mean update",
     "For the location regressor, the location regressor with Poisson uncertainty and the background-subtraction regressor every feature update is, bin by bin, the regularised (variance-)weighted mean residual, smoothed by the feature's declared property and scaled by the learning rate, against predictions including all preceding updates. "
     "Location updates leave the weighted mean of a feature's effect at zero over the training data, count locations never go below zero, and predictions and loss history equal those of an independent step-by-step computation.",
     ["inputs", "configurations", "histories"],
     "all targets, weights, priors, groups, flags, smoothing options, learning rates and iteration limits",
     "Tests pin three decimals of the error on one data set.",
     ["location.py", "GBSregression.py", "base.py", "features.py"],
     [("variance estimate", "location.py:CBLocationRegressor"), ("calibration", "location.py:calibrate_to_weighted_mean"),
      ("background subtraction", "GBSregression.py")],
     ["predict()", "BaseObserver events", "loss history"])

prop("P15", "Classification follows the boosted beta-posterior update with coherent outputs",
     "For the classifier every feature update is, bin by bin, the Gaussian-matched beta posterior of the class odds computed from the samples weighted by their current misclassification probability, smoothed and applied as for regression, and the trained model equals an independent step-by-step computation. "
     "Class probabilities are one minus and the fitted probability, and the predicted class is 1 exactly when that probability exceeds one half.",
     ["inputs", "configurations", "histories"],
     "all 0/1 targets (including single-class bins), weights, priors, groups, flags, smoothing options, learning rates",
     "Tests pin three decimals of the error on one data set.",
     ["classification.py", "base.py", "utils.py"],
     [("boost weights", "classification.py:boost_weights"), ("beta posterior", "classification.py:calc_parameters"),
      ("quantile matching", "base.py:gaussian_matching_by_quantiles")],
     ["predict()", "predict_proba()", "BaseObserver events"])

prop("P16", "Quantile and custom-cost regression minimise the stated cost in every bin",
     "Each update of a quantile or custom-cost model takes, in every bin with training rows, a parameter whose weighted cost over exactly that bin's rows is not above the cost of leaving predictions unchanged and (for smooth convex costs) is the minimum, while empty bins stay neutral. With smoothing the update is the declared smoothing of exactly those parameters, with uncertainties from the weighted targets of each bin. "
     "With smoothing off and full learning rate the training cost never increases, the base value of a quantile model is the weighted target quantile, and a trained quantile model has about the requested share of targets below it in every well-populated bin of a single feature.",
     ["inputs", "configurations"],
     "all targets, quantiles, weights (base value invariant under rescaling of weights), convex costs, groups, empty bins",
     "Tests pin the error on one data set for a few quantiles.",
     ["generic_loss.py", "utils.py"],
     [("per-bin optimisation", "generic_loss.py:CBGenericLoss.optimization"), ("base quantile", "utils.py:continuous_quantile_from_discrete_pdf"),
      ("row grouping", "generic_loss.py:CBGenericLoss.calc_parameters")],
     ["predict()", "recorded cost-function calls", "loss history"])

prop("P17", "Dispersion model picks the likelihood-optimal width per bin",
     "For the negative-binomial width model each update selects, in every bin, the candidate dispersion that minimises the summed negative log-likelihood of that bin's rows given their mean predictions and their current dispersion (or the likelihood-weighted average when so configured), plus the configured penalty; profiles, predictions and loss history equal those of an independent computation. "
     "Empty bins stay neutral and the mean prediction column is never changed or used as a feature by default.",
     ["inputs", "configurations", "histories"],
     "all count targets, mean predictions, penalties, grid sizes, groups, priors, both selection modes",
     "Tests pin one configuration.",
     ["nbinom.py"],
     [("likelihood grid", "nbinom.py:CBNBinomC.calc_parameters"), ("negative log likelihood", "nbinom.py:compute_2d_loss")],
     ["predict()", "BaseObserver events"])

prop("P18", "Price elasticity enters only as an exponential of the price ratio",
     "For the price-elasticity model the logarithm of each prediction is base value plus feature contributions plus exponent times (price ratio - 1), where the exponent is the row's prior exponent (default -1) times a positive product of external-feature factors; the model reports exactly this decomposition. "
     "Hence a price ratio of 1 or a missing price ratio has no effect, the price effect compounds multiplicatively and monotonically in the price ratio with the sign of the prior exponent, and training and prediction use the same formula.",
     ["inputs", "configurations"],
     "all price ratios, prior exponents, feature groups, weights; training data with and without price variation",
     "One test pins the error on one data set.",
     ["price.py"],
     [("exponent application", "price.py:CBExponential._pred"), ("exponent fit", "price.py:CBExponential._fit_feature / newton_bisect")],
     ["predict()", "predict_extended()"])

prop("P19", "The training loop obeys its iteration, convergence and hierarchy protocol",
     "Training performs at least one and at most the configured number of iterations, visits every feature once per iteration in declared order with learning rate given by the configured schedule (within (0, 1], non-decreasing, 1 at the end), and stops after an iteration exactly when the relative loss change or the mean factor change is at or below its threshold or the limit is reached, reporting which; only a hierarchical start-up phase or the damping of a divergence defers the stop. "
     "With hierarchical groups only those groups are trained during the first configured iterations, with full learning rate; an iteration that more than doubles the initial loss is undone and the next one damped, and a training that keeps doing so is rejected with an error instead of returning silently.",
     ["inputs", "configurations", "histories"],
     "all thresholds, iteration limits, learning rates, hierarchies, data that converge, stall or diverge",
     "Tests run default limits on one data set.",
     ["base.py", "learning_rate.py"],
     [("loop", "base.py:CyclicBoostingBase._fit_main"), ("stopping", "base.py:ConvergenceParameters / _check_stop_criteria"),
      ("schedules", "learning_rate.py")],
     ["BaseObserver events", "stop_criteria_"])

prop("P20", "Declared shape flags constrain the learned profile",
     "A feature declared monotonically increasing (decreasing) gets a non-decreasing (non-increasing) profile in every update, whatever the data; one declared linear gets an affine profile (cut only by the limits on factors of multiplicative models); one declared seasonal gets a profile that is periodic over its bins; and one declared unordered gets profiles in which exchanging bin numbers just exchanges the values. "
     "Which shape applies depends only on the declared flags with their documented precedence, in one-dimensional groups and in the innermost dimension of grouped smoothing.",
     ["inputs", "configurations"],
     "all data incl. strongly non-monotone and noisy ones, bin counts, weights, smoothing options, flag combinations",
     "Tests train one monotonic feature and look only at the error.",
     ["common_smoothers.py", "smoothing/onedim.py", "smoothing/extrapolate.py", "flags.py"],
     [("smoother choice", "common_smoothers.py:SmootherChoiceCommonBase.choice_fct"), ("isotonic fit", "smoothing/onedim.py:IsotonicRegressor")],
     ["observed feature profiles", "choice_fct"])

prop("P21", "One-dimensional smoothers compute their documented estimate",
     "Each one-dimensional smoother's prediction equals its documented estimate for every input: bin value or missing when unseen; shrinkage to prior or (neighbour-)weighted mean lying between bin value and mean with less shrinkage for smaller uncertainty; weighted least-squares line, orthogonal polynomial, isotonic or seasonal fit; constants where documented. "
     "Estimates are finite for finite inputs, equivariant under shifting or scaling of the values (where no absolute prior is configured), and exact for data of the smoother's own form.",
     ["inputs", "configurations"],
     "all bin values, weights, uncertainties, gaps in bins, single bins, constant values, prediction points inside, between and outside of bins",
     "Tests cover one example per smoother.",
     ["smoothing/onedim.py", "smoothing/extrapolate.py", "smoothing/orthofit.py", "utils.py"],
     [("regularisation", "utils.py:regularize_to_error_weighted_mean*"), ("orthogonal polynomials", "smoothing/orthofit.py"),
      ("smoothers", "smoothing/onedim.py")],
     ["fit()/predict() of every smoother"])

prop("P22", "Multi-dimensional and wrapping smoothers compose faithfully",
     "A multi-dimensional smoother addresses each combination of bins separately (never mixing cells through index arithmetic), a grouped smoother equals its inner smoother fitted separately per outer group, a sectioned smoother equals its two parts fitted on either side of the split, and normalising wrappers equal the wrapped smoother around the weighted mean. "
     "Wrappers return missing exactly for unseen cells when discontinuous, for points outside the training range when interpolating, and never when extrapolating. A smoother given explicitly for a column or group is used for exactly that column or group.",
     ["inputs", "configurations"],
     "all dimensions and bin counts, incomplete grids, weights incl. zero, wrapper options, inner smoothers, prediction points",
     "Tests cover one small grid per class.",
     ["smoothing/multidim.py", "smoothing/meta_smoother.py", "common_smoothers.py", "utils.py"],
     [("lexicographic index", "utils.py:multidim_binnos_to_lexicographic_binnos"), ("group by", "smoothing/multidim.py:GroupBySmoother"),
      ("wrappers", "smoothing/meta_smoother.py")],
     ["fit()/predict() of every smoother"])

prop("P23", "Interaction features address every cell separately",
     "A multi-dimensional feature behaves as one categorical feature with one level per combination of bins: its contribution depends on the exact combination, cells never alias for any bin counts or dimension order, and a row missing in any dimension is missing for the group. "
     "Training on a group equals training on the pre-combined categorical column with the same smoothing, and the interaction-term helpers enumerate every group of the requested sizes exactly once, encode each combination uniquely, and select the requested number with the highest scores.",
     ["inputs", "configurations"],
     "all dimensions, bin counts (sparse, unequal, single-bin), missing patterns, groupings",
     "Tests use one two-dimensional group of fixed size.",
     ["utils.py", "features.py", "interaction_selection.py", "base.py"],
     [("lexicographic index", "utils.py:multidim_binnos_to_lexicographic_binnos"), ("interaction terms", "interaction_selection.py")],
     ["get_feature_contributions()", "public helpers"])

prop("P24", "Prior predictions enter as calibrated per-row base values",
     "With a prior-prediction column (in all models whose base value is learned, i.e. all but the dispersion model) each row's base value on the model's scale is its prior plus one offset common to all rows, chosen so that the weighted mean of the finite priors maps to the base value; rows whose prior is missing or outside the link's domain use the base value itself. "
     "Hence multiplying (adding to) all priors by a constant changes nothing, a constant prior equals no prior, ratios (differences) of two rows' predictions follow the ratio (difference) of their priors when all features agree, and prediction needs no target.",
     ["inputs", "configurations"],
     "all prior columns incl. missing, zero and negative values, weights, estimators",
     "One test uses one prior column.",
     ["base.py", "nbinom.py", "generic_loss.py"],
     [("prior offset", "base.py:CyclicBoostingBase._init_global_scale"), ("prior lookup", "base.py:_get_prior_predictions")],
     ["predict()"])

prop("P25", "Models survive persistence and cloning unchanged",
     "Serialising and restoring, or deep-copying, a trained estimator, pipeline, transformer, quantile chain or distribution object, in the same or another process, yields an object with identical predictions, contributions, importances and options, and the original is unaffected. "
     "An unfitted clone has the same options and trains to the same model.",
     ["histories", "configurations"],
     "all estimators and options, serialisation before and after fit, chains of copies, different hash seeds in the other process",
     "Tests never serialise or clone a fitted model.",
     ["base.py", "features.py", "observers.py", "binning/ecdf_transformer.py", "quantile_matching.py"],
     [("reference clearing", "base.py:_fit_main / features.py:clear_feature_references")],
     ["pickle round trip in a fresh process"])

prop("P26", "Quantile-parameterised distributions are valid and hit their quantiles",
     "For any strictly ordered quantile triplet inside the stated bounds (symmetric, skewed, scalar or vectorised) each quantile-parameterised distribution's quantile function returns exactly the three given values at alpha, 0.5 and 1 - alpha, is strictly increasing and within the bounds for all probabilities, and its cumulative distribution function is its inverse, non-decreasing from 0 to 1. "
     "Vectorised evaluation equals element-wise scalar evaluation, pairing or crossing probabilities with parameters as documented, and scaling the inputs scales the outputs.",
     ["inputs"],
     "all triplets incl. exactly and nearly symmetric ones, bounds, alphas, probabilities, both base distributions",
     "Tests evaluate a few triplets; exact symmetry and bound cases are not covered.",
     ["quantile_matching.py"],
     [("parameters", "quantile_matching.py:J_QPD_S / J_QPD_B / J_QPD_extended_*")],
     ["ppf()", "cdf()"])

prop("P27", "Chained quantile predictions are ordered, bounded and trained as a chain",
     "The chained quantile regressor returns low, median and high quantile predictions with low below median below high inside the stated bounds for every row and every finite output of its members; each member is trained on the transformed target of the previous one on exactly the rows it concerns, and the returned quantiles invert exactly the transformations used in training. "
     "Hence members that reproduce their training targets exactly make the chain reproduce consistent quantiles.",
     ["inputs", "configurations", "histories"],
     "both bound modes, bounds of any sign, targets on either side of the median, frames or arrays, stub or real member models, extreme member outputs",
     "Tests run one bound mode and compare three means.",
     ["quantile_matching.py"],
     [("chain", "quantile_matching.py:QPD_RegressorChain"), ("transforms", "quantile_matching.py:*_transform")],
     ["fit()/predict() of the chain with recording members"])

prop("P28", "Distribution fits to quantiles return coherent distributions",
     "The functions that fit a normal, gamma, negative-binomial or spline distribution to predicted quantiles return a distribution whose quantiles reproduce the given ones when those come from that family (the negative binomial, being a fit of steps, up to about one count; the spline always, at the given probabilities), independently of the row's position, and whose parameters are valid (positive scale, shape, size; probability in (0, 1]). "
     "The fitted sinh-logistic tail shape describes the observations no worse than the shapes zero and one. The companion utilities are consistent: a smeared or plain cumulative probability of an observation lies between the distribution function just below and at the observation.",
     ["inputs"],
     "all parameters of each family, quantile levels, integer observations",
     "Tests use two parameter sets.",
     ["quantile_matching.py", "utils.py"],
     [("fits", "quantile_matching.py:quantile_fit_*")],
     ["returned distributions"])

prop("P29", "Observers and plots are passive and report the truth",
     "Attaching any observers, or creating plots afterwards, changes neither the trained model nor any prediction. "
     "What observers report is true at the time of the event: the loss history starts with the loss of the base prediction and has one entry per iteration equal to the weighted loss of that iteration's prediction, factor changes are those the training loop reported after each iteration, final profiles, bin counts, mean targets and mean predictions per bin and the calibration histogram equal direct computation from the training data and the final model, and a snapshot taken at one iteration is not altered by later ones.",
     ["inputs", "configurations", "histories"],
     "all estimators, observers for any iteration, number of observers, plots of every kind into scratch files",
     "Tests only check that plots are produced.",
     ["observers.py", "base.py", "features.py", "plots/__init__.py"],
     [("collection", "observers.py:PlottingObserver"), ("histograms", "utils.py:calc_linear_bins / get_bin_bounds")],
     ["observer attributes", "observer events"])

prop("P30", "Pipelines equal explicit binning followed by the estimator",
     "Each ready-made pipeline gives exactly the result of binning the raw data with the same bin settings and then training and applying the estimator with the same options; every option of the pipeline function reaches the component it belongs to, and none is dropped or swapped. Options left out take the pipeline function's own defaults (100 bins, at most 10 iterations, stop thresholds of 1e-3) or else those of the estimator. "
     "The same trained bin boundaries are used in training and prediction.",
     ["configurations", "inputs"],
     "all pipeline functions, every option with non-default values, raw data with missing and unseen values",
     "Tests use a few pipelines with mostly default options.",
     ["pipelines.py", "binning/bin_number_transformer.py"],
     [("option forwarding", "pipelines.py:pipeline_CB")],
     ["get_params() of the components", "predict()"])

prop("P31", "Feature importances are a faithful normalised attribution",
     "Feature importances are non-negative, one per feature group under distinct names, and add up to one unless every contribution is neutral to six digits; each is proportional to the mean absolute contribution of that feature on the model's scale over the training rows. "
     "Each belongs to the group it is named after whatever the order of groups or columns, and they do not depend on repeated training or on predictions made in between.",
     ["inputs", "configurations", "histories"],
     "all estimators, groups, labels (string or integer), repeated trainings",
     "Tests check one model's importances.",
     ["base.py", "features.py"],
     [("importances", "base.py:set_feature_importances / get_feature_importances")],
     ["get_feature_importances()"])

prop("P32", "Invalid input is rejected before it can corrupt a model",
     "Training raises an error, and never returns a fitted model, when any single target value is outside the model's domain (negative or missing for count, negative-binomial, price and multiplicative quantile models; missing or infinite for additive location and quantile models; other than 0 or 1 for the classifier), when data are empty or target and data differ in length, when a group, weight or prior column does not exist, or when the list of groups is empty; predicting, explaining or transforming raises before training and whenever a needed column is absent. "
     "The binning transformers likewise reject data without the columns they were trained on and bin counts below two, invalid options (contradictory shape flags, an object that is not a smoother choice, unordered distribution quantiles, unknown distribution, bound or mode names) are rejected, valid input never is, and a rejected training leaves the caller's data unchanged and the estimator trainable. The columns an estimator reports as required suffice for training and prediction, and without any one of them training is rejected.",
     ["inputs", "configurations"],
     "all positions of an offending value among otherwise valid rows, all estimators and transformers",
     "Tests cover a few offending vectors.",
     ["base.py", "regression.py", "classification.py", "location.py", "generic_loss.py", "binning/ecdf_transformer.py"],
     [("target checks", "base.py:_check_y"), ("group checks", "base.py:_init_features")],
     ["exceptions from fit()/predict()/transform()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
