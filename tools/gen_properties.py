"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


prop("C01", "Cross-fitting: every nuisance prediction is out-of-fold",
     """For every model class and every repetition, the nuisance predictions a fitted model stores for the observations of a
     test fold are exactly what a fresh copy of the supplied learner, trained only on that fold's training observations
     restricted to the subpopulation the nuisance function conditions on, predicts for them. In particular neither an
     observation's own outcome, treatment, instrument or selection value nor that of any observation tested in the same fold
     can influence its nuisance predictions - apart from two documented full-sample ingredients of targets: the preliminary
     effect estimate in the IV-type (or user-score) outcome model of partially linear models, and the starting point and bounds of
     the preliminary quantile search of quantile models.""",
     ["inputs", "configurations"],
     """all model classes and scores, learners, sample splittings (drawn or supplied), numbers of folds/repetitions, clustered
     data, subgroup settings, and all perturbations of the data of one fold""",
     """Unit tests compare final estimates of a few fixed designs with a manual re-implementation that shares the helpers
     that do the splitting; leakage or a wrong conditioning set on other folds, treatments or options is invisible there.""",
     ["doubleml/double_ml.py", "doubleml/utils/_estimation.py", "doubleml/plm/plr.py", "doubleml/plm/pliv.py",
      "doubleml/irm/*.py", "doubleml/did/*.py", "doubleml/rdd/rdd.py"],
     [("conditional training samples", "doubleml/utils/_estimation.py:_get_cond_smpls"),
      ("cross-fitted prediction", "doubleml/utils/_estimation.py:_dml_cv_predict"),
      ("nested cross-fitting", "doubleml/irm/pq.py, lpq.py, cvar.py, ssm.py")],
     ["model.predictions", "training data seen by the learners"])

prop("C02", "Sample splittings are valid, honoured, and rejected cleanly",
     """Every drawn splitting consists, for each repetition, of the configured number of folds whose test sets partition the
     observations and whose training sets never overlap their test set (complement of it; with clustered data built from whole
     clusters so that no cluster is shared between the training and the test part of a fold, in any clustering dimension), and
     for models that stratify, every fold keeps the strata proportions. A supplied splitting is accepted exactly when its test
     sets partition the observations with disjoint, duplicate-free, in-range indices; it is then used as given, with number of
     folds and repetitions derived from it. A rejected one leaves the model as it was.""",
     ["inputs", "configurations", "histories"],
     "all sample sizes, folds, repetitions, strata, cluster layouts, and all well- or ill-formed supplied splittings",
     "Tests use a handful of hand-written partitions and fixed seeds; they never check the partition itself over layouts.",
     ["doubleml/utils/resampling.py", "doubleml/utils/_checks.py", "doubleml/double_ml.py", "doubleml/irm/apos.py",
      "doubleml/irm/qte.py"],
     [("drawing", "doubleml/utils/resampling.py:DoubleMLResampling, DoubleMLClusterResampling"),
      ("validation", "doubleml/utils/_checks.py:_check_sample_splitting")],
     ["model.smpls", "model.smpls_cluster", "model.n_folds", "model.n_rep"])

prop("C03", "Partially linear models solve their documented score equations",
     """For partially linear regression (partialling out, IV-type, user-supplied score; any number of treatments) and partially
     linear IV models (one or several instruments; partialling out X, Z, or X and Z), each repetition's coefficient is the exact
     root of the documented orthogonal score evaluated at that repetition's nuisance predictions, the reported score values and
     derivatives are those of that score, and the standard error is the sandwich formula of it.""",
     ["inputs", "configurations"],
     "all data sets, learners, scores, numbers of treatments/instruments, folds and repetitions",
     "Tests check a few seeds with default sizes against helpers; multi-treatment x multi-rep x score combinations are not crossed.",
     ["doubleml/plm/plr.py", "doubleml/plm/pliv.py", "doubleml/double_ml_score_mixins.py", "doubleml/utils/_estimation.py"],
     [("scores", "doubleml/plm/plr.py:_score_elements, doubleml/plm/pliv.py:_score_elements"),
      ("root", "doubleml/double_ml_score_mixins.py:LinearScoreMixin"), ("variance", "doubleml/utils/_estimation.py:_var_est")],
     ["all_coef", "all_se", "psi", "psi_deriv", "predictions"])

prop("C04", "Interactive models: ATE, ATTE, APO scores incl. weights and normalization",
     """For the interactive regression model (average effect and effect on the treated) and the average-potential-outcome model,
     with or without observation weights (fixed, or a weights/expected-weights pair), with or without normalized inverse
     probability weights, and for any trimming threshold, coefficient, score values and standard error equal those obtained from
     the documented doubly-robust score evaluated at the stored nuisance predictions with the propensity bounded by the
     threshold. Unit weights reproduce the unweighted effect, and group-indicator weights divided by the group share
     reproduce the effect of that group.""",
     ["inputs", "configurations"],
     "all data sets, treatment levels, weights, trimming thresholds, normalisation settings, splittings",
     "Fixed seeds and one trimming threshold pair; combinations of weights, normalisation, repetitions and scores are sparse.",
     ["doubleml/irm/irm.py", "doubleml/irm/apo.py", "doubleml/utils/_propensity_score.py", "doubleml/utils/_checks.py"],
     [("scores", "doubleml/irm/irm.py:_score_elements, doubleml/irm/apo.py:_score_elements"),
      ("weights", "doubleml/irm/irm.py:_get_weights, doubleml/irm/apo.py:_get_weights")],
     ["all_coef", "all_se", "psi", "psi_elements"])

prop("C05", "IV-interactive and sample-selection models solve their documented scores",
     """For the interactive IV model (with any always-/never-taker setting and any normalization setting) and the
     sample-selection models (missing at random, nonignorable nonresponse), coefficient, score values and standard error equal
     those of the documented local-average-treatment-effect and selection-adjusted scores evaluated at the stored nuisance
     predictions, with the propensity bounded by the trimming threshold.""",
     ["inputs", "configurations"],
     "all data sets, subgroup settings, normalisation, trimming, splittings, learners",
     "Tests repeat the implementation's own helpers on fixed seeds (including its normalisation), so a shared error is invisible.",
     ["doubleml/irm/iivm.py", "doubleml/irm/ssm.py"],
     [("scores", "doubleml/irm/iivm.py:_score_elements, doubleml/irm/ssm.py:_score_elements")],
     ["all_coef", "all_se", "psi", "predictions"])

prop("C06", "Difference-in-differences models solve their documented scores",
     """For panel and repeated-cross-section difference-in-differences models, with observational or experimental score, with or
     without in-sample normalization, and for any trimming threshold, coefficient, score values and standard error equal those of
     the documented score evaluated at the stored nuisance predictions, with treatment and time shares taken from the training
     folds (or the sample, when normalizing in sample).""",
     ["inputs", "configurations"],
     "all data sets, scores, normalisation, trimming, splittings, learners",
     "Fixed seeds; only estimates on one or two designs are compared.",
     ["doubleml/did/did.py", "doubleml/did/did_cs.py"],
     [("scores", "doubleml/did/did.py:_score_elements, doubleml/did/did_cs.py:_score_elements")],
     ["all_coef", "all_se", "psi", "predictions"])

prop("C07", "Quantile, local quantile and CVaR estimates solve their scores",
     """For potential quantiles, local potential quantiles and conditional-value-at-risk, at every quantile level and treatment
     level, the reported coefficient solves the documented moment condition at the stored nuisance predictions (sign change of
     the empirical score for quantiles, exact root for CVaR), and the standard error is the sandwich formula with the documented
     density (kernel) derivative. At fixed nuisances the potential-quantile estimate increases weakly
     with the quantile level.""",
     ["inputs", "configurations"],
     "all data sets, quantile levels, treatment levels, normalisation, kde choices, splittings",
     "Tests compare to a manual copy with the same nested splitting and seeds for three quantile levels.",
     ["doubleml/irm/pq.py", "doubleml/irm/lpq.py", "doubleml/irm/cvar.py", "doubleml/double_ml_score_mixins.py"],
     [("score and derivative", "doubleml/irm/pq.py, lpq.py, cvar.py"), ("root search", "doubleml/double_ml_score_mixins.py:NonLinearScoreMixin")],
     ["all_coef", "all_se", "psi", "psi_deriv"])

prop("C08", "Propensity scores are bounded, normalized and passed through correctly",
     """In every model that uses propensity scores the scores entering the estimate (estimated or externally supplied) lie within
     [threshold, 1 - threshold], equal the learner's or user's value wherever that already lies inside, and are replaced by the
     nearest bound otherwise. With normalization on, the inverse-probability weights of the treated and of the untreated each
     average to one, and normalization never alters anything else.""",
     ["inputs", "configurations"],
     "all propensity vectors (including exact 0, 1, out-of-range external values), thresholds, treatments and models",
     "Tests use thresholds 0.01/0.05 on data where trimming is mostly inactive.",
     ["doubleml/utils/_propensity_score.py", "doubleml/irm/*.py", "doubleml/did/*.py"],
     [("truncation", "doubleml/utils/_propensity_score.py:_trimm"), ("normalisation", "doubleml/utils/_propensity_score.py:_normalize_ipw")],
     ["model.predictions", "model.coef"])

prop("C09", "Cluster-robust estimation uses the cluster-weighted score and variance",
     """With one- or two-way clustered data, each repetition's estimate solves the score in which every fold is weighted by the
     inverse number of its test clusters (products in two dimensions), and the standard error is the documented one-/two-way
     cluster-robust sandwich over whole clusters; both depend on cluster labels only through the partition they induce. With
     singleton clusters and equal folds the one-way estimate agrees with the unclustered estimate.""",
     ["inputs", "configurations"],
     "all cluster layouts (unbalanced, singletons, empty cells), one-/two-way, folds, repetitions, linear and nonlinear scores, drawn or supplied splittings",
     "Tests use one balanced multiway design with fixed sizes.",
     ["doubleml/double_ml.py", "doubleml/utils/_estimation.py", "doubleml/double_ml_score_mixins.py", "doubleml/double_ml_framework.py"],
     [("fold weights", "doubleml/double_ml.py:_est_causal_pars"), ("variance", "doubleml/utils/_estimation.py:_var_est")],
     ["all_coef", "all_se"])

prop("C10", "Reported inference is coherent with the repetition-level estimates",
     """The reported coefficient is the median of the repetition estimates and the standard error the documented median
     aggregation; t-statistics, p-values, summaries and pointwise confidence intervals are the normal-theory functions of
     estimate and standard error (median over repetitions of the repetition intervals), contain the estimate, are
     nested in the confidence level, and carry the right parameter names in the right order. This holds at model level (p-value
     of the reported t-statistic) and at framework and composite level (median of the repetition p-values), for any number of
     parameters and repetitions.""",
     ["inputs", "configurations"],
     "all numbers of parameters/repetitions, levels in (0,1), estimates, standard errors and scaling factors",
     "Tests check a few levels and shapes with fixed values.",
     ["doubleml/double_ml.py", "doubleml/double_ml_framework.py", "doubleml/utils/_estimation.py", "doubleml/utils/_descriptive.py"],
     [("aggregation", "doubleml/utils/_estimation.py:_aggregate_coefs_and_ses"), ("confint", "doubleml/double_ml_framework.py:confint"),
      ("summary", "doubleml/utils/_descriptive.py:generate_summary")],
     ["coef", "se", "t_stat", "pval", "summary", "confint()"])

prop("C11", "Multiplier bootstrap and joint confidence intervals match their definition",
     """For each supported multiplier distribution, every bootstrap t-statistic is the multiplier-weighted mean of that
     parameter's standardized score for that repetition, with one multiplier draw per observation (per repetition) shared by all
     parameters; joint intervals use the level-quantile of the maximal absolute bootstrap statistic over all parameters, equal
     estimate +/- critical value times standard error (median over repetitions), and widen with the level. A bootstrap is
     reproducible under the same random state and is needed before joint inference.""",
     ["inputs", "configurations", "histories"],
     "all methods, draws, numbers of parameters/repetitions, levels and call orders",
     "Tests compare a few shapes on one seed with the same helper that draws the weights.",
     ["doubleml/double_ml_framework.py", "doubleml/utils/_estimation.py"],
     [("bootstrap", "doubleml/double_ml_framework.py:bootstrap"), ("weights", "doubleml/utils/_estimation.py:_draw_weights")],
     ["boot_t_stat", "confint(joint=True)"])

prop("C12", "Multiple-testing adjustment is the stated procedure",
     """Adjusted p-values equal the stated procedure applied per repetition and aggregated by the median: Romano-Wolf is the
     step-down bootstrap procedure on the parameters ordered by absolute t-statistic, every other method the textbook adjustment
     of the raw p-values. Results are reported in the original parameter order, lie in [0, 1], are monotone in the raw evidence
     for step-down methods, and do not depend on the order in which parameters are listed.""",
     ["inputs", "configurations"],
     "all parameter counts, repetition counts, t-statistic patterns (ties, signs), bootstrap draws, methods",
     "Tests only check fixed designs with well separated effects.",
     ["doubleml/double_ml_framework.py"],
     [("p_adjust", "doubleml/double_ml_framework.py:p_adjust")], ["p_adjust()"])

prop("C13", "Estimator algebra: sums, differences, scaling and concatenation",
     """Adding, subtracting, scaling and concatenating fitted results acts on repetition estimates, scores, and sensitivity
     quantities as the corresponding linear map: the result's estimates are the combination, its standard errors are those of the
     combined score (absolute value of the factor when scaling), its intervals contain its estimates, and concatenation keeps every block unchanged and in order.
     Operands are never modified, incompatible operands are refused, and the usual laws (commutativity, associativity, inverse,
     distributivity) hold.""",
     ["inputs", "programs"],
     "all expressions built from frameworks by +, -, scalar * and concat, over any shapes",
     "Tests check one sum, one difference and one product.",
     ["doubleml/double_ml_framework.py"],
     [("operators", "doubleml/double_ml_framework.py:__add__, __sub__, __mul__, concat")],
     ["framework.thetas", "framework.ses", "framework.scaled_psi", "framework.confint()"])

prop("C14", "Sensitivity bounds, robustness values and their confidence limits",
     """For any confounding strengths and correlation, the reported bounds are estimate -/+ |rho| * sqrt(cf_y * cf_d / (1 - cf_d)) *
     bias bound with one-sided confidence limits from the bound's own score; they bracket the estimate, coincide with it at zero
     strength, and widen with each strength and with |rho|. The robustness value is the common strength at which the bound (or its
     confidence limit) reaches the null hypothesis, per parameter. Summaries and contour plots show these same quantities at the strengths they are
     labelled with; repetitions and parameters are aggregated as for the estimates.""",
     ["inputs", "configurations"],
     "all cf_y, cf_d in [0,1), rho in [-1,1], levels, null hypotheses, numbers of parameters and repetitions",
     "Tests evaluate a handful of strengths; monotonicity and the defining equation of the robustness value are not checked.",
     ["doubleml/double_ml_framework.py", "doubleml/utils/_sensitivity.py"],
     [("bounds", "doubleml/double_ml_framework.py:_calc_sensitivity_analysis"), ("robustness values", "doubleml/double_ml_framework.py:_calc_robustness_value"),
      ("bias", "doubleml/utils/_sensitivity.py")],
     ["sensitivity_params", "sensitivity_summary", "sensitivity_plot()"])

prop("C15", "Sensitivity ingredients and benchmarks match their definitions",
     """For every model with sensitivity support and every option, the outcome-residual variance and Riesz-representer second
     moment (with their mean-zero scores) equal the documented expressions of the stored nuisance predictions; a non-positive
     second moment is replaced by the plug-in. A covariate benchmark equals the documented gain statistics between the
     fitted model and a refit of it on the same splitting without the benchmark covariates, and leaves the fitted model and its
     data untouched.""",
     ["inputs", "configurations"],
     "all models with sensitivity support, scores, weights, normalisation, splittings, covariate subsets",
     "Tests cover one design per model and never check the mean-zero property or the untouched original.",
     ["doubleml/plm/plr.py", "doubleml/irm/irm.py", "doubleml/irm/apo.py", "doubleml/did/did.py", "doubleml/did/did_cs.py",
      "doubleml/double_ml.py", "doubleml/utils/gain_statistics.py"],
     [("elements", "*/_sensitivity_element_est"), ("benchmark", "doubleml/double_ml.py:sensitivity_benchmark"),
      ("gain statistics", "doubleml/utils/gain_statistics.py")],
     ["sensitivity_elements", "sensitivity_benchmark()"])

prop("C16", "External predictions replace exactly the learners they are given for",
     """Supplying any allowed subset of nuisance predictions externally makes the model use exactly these values for the given
     treatment, learner and repetition and fit only the remaining learners; feeding back a model's own stored predictions on
     the same splitting reproduces its estimates and standard errors. A subset of treatments (or levels) may be supplied, malformed or
     unknown entries are refused, and the caller's arrays are not modified.""",
     ["inputs", "configurations"],
     "all models supporting external predictions, all subsets of learners/treatments, repetitions, prediction arrays",
     "Tests supply all-or-one learners for single designs, mostly with placeholder learners.",
     ["doubleml/utils/_estimation.py", "doubleml/utils/_checks.py", "doubleml/double_ml.py", "doubleml/irm/apos.py",
      "doubleml/plm/*.py", "doubleml/irm/*.py", "doubleml/did/*.py"],
     [("routing", "doubleml/utils/_estimation.py:_set_external_predictions"), ("validation", "doubleml/utils/_checks.py:_check_external_predictions")],
     ["coef", "se", "predictions"])

prop("C17", "Fitting is deterministic and repeatable, and options without effect have none",
     """With deterministic learners and a fixed splitting, fitting the same model again, or a freshly built equal model, or with
     different settings for storing predictions, storing models, parallel jobs, or with the same hyperparameters given once or
     per fold, yields the same estimates, standard errors, scores and predictions. Results after any history of re-drawing,
     setting splittings, tuning and fitting depend only on the final data, learners, parameters and splitting.""",
     ["inputs", "configurations", "histories"],
     "all model classes, fit options, and sequences of API calls before the last fit",
     "Tests fit each object once; stale state between calls and the alternative prediction path are hardly crossed.",
     ["doubleml/double_ml.py", "doubleml/utils/_estimation.py", "doubleml/irm/apos.py", "doubleml/irm/qte.py"],
     [("two prediction paths", "doubleml/utils/_estimation.py:_dml_cv_predict"), ("re-initialisation", "doubleml/double_ml.py:_initalize_fit, set_sample_splitting")],
     ["coef", "se", "psi", "predictions", "models"])

prop("C18", "Hyperparameters reach exactly the learner, treatment, repetition and fold meant",
     """Hyperparameters set for a nuisance learner and treatment (one set, or one per repetition and fold) are used when fitting
     precisely that nuisance function, treatment, repetition and fold, and nowhere else. Tuning searches only the given grid by
     cross-validation on that nuisance function's own sample (the full sample, or the training part of each fold), sets the best
     candidate found per nuisance, treatment (and fold), and returns the searches in the documented order.""",
     ["inputs", "configurations"],
     "all models, learners, treatments, repetitions, folds, grids, tuning modes",
     "Tests check that tuned results equal a manual copy for single-treatment single-repetition designs.",
     ["doubleml/double_ml.py", "doubleml/utils/_estimation.py", "doubleml/plm/*.py", "doubleml/irm/*.py", "doubleml/did/*.py"],
     [("routing", "doubleml/double_ml.py:set_ml_nuisance_params, tune"), ("search", "doubleml/utils/_estimation.py:_dml_tune")],
     ["params", "get_params()", "tune()", "parameters of the fitted learners"])

prop("C19", "Learner diagnostics describe the fitted nuisance functions",
     """Stored targets equal the variable each nuisance function predicts, on exactly the observations of its subpopulation and missing
     elsewhere; the reported loss is the root-mean-squared error (regression) or log-loss (classification) of stored predictions against
     stored targets; evaluating learners applies the given metric to those arrays for each learner, repetition and parameter. Stored models are
     the fitted per-fold learners: predicting with them reproduces the stored predictions.""",
     ["inputs", "configurations"],
     "all models, learners, repetitions, treatments, metrics",
     "Tests check shapes and single designs.",
     ["doubleml/double_ml.py", "doubleml/utils/_estimation.py"],
     [("losses", "doubleml/double_ml.py:_calc_nuisance_loss"), ("evaluate", "doubleml/double_ml.py:evaluate_learners"),
      ("targets", "doubleml/utils/_estimation.py:_cond_targets")],
     ["nuisance_targets", "nuisance_loss", "evaluate_learners()", "models"])

prop("C20", "Data container: variable roles stay consistent under any change sequence",
     """After any sequence of role assignments, each exposed array (outcome, treatment, covariates, instruments, time, selection,
     clusters) equals the named columns of the user's table, default covariates are all columns without another role (other
     treatments included exactly when configured), no column holds two exclusive roles, and binary indicators reflect the current columns. An invalid assignment is refused and
     leaves the container unchanged; building from arrays is equivalent to building from the corresponding table; the user's
     table is never modified.""",
     ["inputs", "histories"],
     "all tables, role assignments, and sequences of valid and invalid role changes",
     "Tests check individual setters, not histories, and not derived state after changes.",
     ["doubleml/double_ml_data.py"],
     [("role setters and disjointness", "doubleml/double_ml_data.py")],
     ["y", "d", "x", "z", "t", "s", "cluster_vars", "x_cols", "binary_treats", "binary_outcome"],
     [{"name": "roles", "meaning": "column names per role and cached arrays", "where": "doubleml/double_ml_data.py"}])

prop("C21", "Effect heterogeneity: best linear predictors, CATE, GATE and their intervals",
     """Conditional and group effects are the least-squares projection of the model's orthogonal signal on the supplied basis (group
     effects for disjoint groups are the group means of the signal), with the documented robust covariance; pointwise
     intervals at level L cover estimate +/- normal quantile times standard error, joint intervals contain pointwise ones, and both contain the estimate. Groups may
     be given as booleans, 0/1 dummies or one categorical column with the same result.""",
     ["inputs", "configurations"],
     "all signals, bases, group layouts, covariance types, levels; for the linear, interactive and potential-outcome models",
     "Tests check one random basis and fixed levels, and replicate the implementation's interval formulas.",
     ["doubleml/utils/blp.py", "doubleml/plm/plr.py", "doubleml/irm/irm.py", "doubleml/irm/apo.py"],
     [("projection and intervals", "doubleml/utils/blp.py"), ("cate/gate", "doubleml/plm/plr.py, doubleml/irm/irm.py, doubleml/irm/apo.py")],
     ["blp_model", "summary", "confint()"])

prop("C22", "Policy trees are weighted classification trees on the effect signal",
     """A fitted policy tree assigns to each leaf the decision with the larger total signal (treat iff the leaf's summed signal is positive), respects
     the requested depth and minimum leaf size, is invariant to a positive rescaling of the signal, and predicts for new data by feature name. Its in-sample
     policy value is never below that of the better constant policy, and for depth one without pruning equals the best single split under the documented impurity criterion.""",
     ["inputs", "configurations"],
     "all signals (including zeros and ties), feature tables, depths and tree parameters",
     "Tests compare one random signal to a copy of the same call.",
     ["doubleml/utils/policytree.py", "doubleml/irm/irm.py"],
     [("weighted classification", "doubleml/utils/policytree.py:fit")],
     ["predict()", "policy_tree"])

prop("C23", "Composite estimators equal the combination of their parts",
     """A multi-level potential-outcome model reports, level by level, what single-level models on the same splitting report, and its
     causal contrasts are the differences to the chosen reference levels with the standard errors of the differenced scores; quantile-effect models equal
     differences of the two single quantile (or local quantile, CVaR) models. The
     average treatment effect from the interactive model equals the contrast of the two potential-outcome models, and
     multi-treatment models equal separate single-treatment models with the other treatments as covariates.""",
     ["inputs", "configurations"],
     "all level sets, orders, reference sets, quantile sets, splittings, weights, normalisation",
     "Tests compare binary treatment cases on fixed seeds.",
     ["doubleml/irm/apos.py", "doubleml/irm/qte.py", "doubleml/irm/irm.py", "doubleml/double_ml.py"],
     [("APOS", "doubleml/irm/apos.py"), ("QTE", "doubleml/irm/qte.py"), ("multi-treatment loop", "doubleml/double_ml.py:fit")],
     ["coef", "se", "causal_contrast()", "modellist"])

prop("C24", "Estimates respect symmetries of the problem",
     """With a matching splitting and equivariant learners, estimates and standard errors are invariant to permuting rows, renaming or
     reordering columns, re-indexing the table, adding unused columns and storing numbers as integers or floats;
     they are equivariant to affine changes of the outcome, to rescaling the treatment where it is continuous, and change as
     the definition demands when a binary treatment is relabelled.""",
     ["inputs", "configurations"],
     "all model classes and data sets, all permutations, renamings, dtypes and affine maps",
     "Metamorphic relations are not tested at all.",
     ["doubleml/double_ml.py", "doubleml/double_ml_data.py", "doubleml/plm/*.py", "doubleml/irm/*.py", "doubleml/did/*.py"],
     [("array extraction", "doubleml/double_ml_data.py"), ("scores", "*/_score_elements")],
     ["coef", "se"])

prop("C25", "Regression discontinuity: first stage, bandwidth iteration and aggregation",
     """For sharp and fuzzy designs, every first-stage specification, kernel and cutoff, the adjusted outcome (and treatment) is the observed one minus the
     average of the cross-fitted predictions just left and right of the cutoff, trained with kernel weights of the current bandwidth on the training
     folds only; the final estimate is the local-polynomial estimate on the adjusted data, aggregated over repetitions by the documented median rule. Shifting score and
     cutoff together, storing data as integers, and shifting the outcome leave the estimate unchanged.""",
     ["inputs", "configurations"],
     "all data sets, cutoffs, bandwidths, kernels, specifications, iterations, repetitions",
     "Tests only check coverage-like properties for simulated data sets with stock learners.",
     ["doubleml/rdd/rdd.py"],
     [("first stage", "doubleml/rdd/rdd.py:_fit_nuisance_model"), ("iteration", "doubleml/rdd/rdd.py:fit"),
      ("aggregation", "doubleml/rdd/rdd.py:aggregate_over_splits")],
     ["coef", "se", "ci", "confint()", "w", "h"])

prop("C26", "Simulated data sets are reproducible, consistent and correctly labelled",
     """Every data generator returns, for the same random state and arguments, the same data in each of its return formats, with the requested
     number of observations and covariates, roles and value ranges as documented (binary treatments, instruments, selection, time, and
     outcomes consistent with the observation rule), and without changing global state other than consuming random numbers.""",
     ["inputs", "configurations"],
     "all generators, sizes, parameters, return types and seeds",
     "Tests call each generator once per return type and check the type.",
     ["doubleml/datasets.py", "doubleml/rdd/datasets/*.py"],
     [("generators", "doubleml/datasets.py")], ["return values"])

prop("C27", "Wrapper and placeholder learners behave as documented",
     """A global learner ignores sample weights and otherwise predicts exactly like a fresh copy of its base learner trained on the same data, is
     cloneable, configurable and tunable through its base learner and leaves the base learner unfitted; placeholder learners can be cloned and passed to any model, but
     refuse to be configured, fitted or used.""",
     ["inputs", "configurations"],
     "all base learners, data sets, weights and parameter settings",
     "Tests cover two base learners and one data set.",
     ["doubleml/utils/global_learner.py", "doubleml/utils/dummy_learners.py"],
     [("wrapping", "doubleml/utils/global_learner.py"), ("placeholders", "doubleml/utils/dummy_learners.py")], ["fit/predict"])

prop("C28", "Invalid requests are refused and leave the object unchanged",
     """A request with an argument of the wrong type or outside its documented range (levels, bootstrap settings, strengths, thresholds, quantiles, folds, scores,
     learners, treatment data, weights, hyperparameter targets, method before fit) is refused with a type or value error (or not-implemented), and afterwards the object
     gives the same results as before the request.""",
     ["inputs", "histories"],
     "all public methods of models and frameworks, all out-of-domain arguments, at any point of an object's life",
     "Tests check messages on fresh objects; never that a refused request left no trace.",
     ["doubleml/utils/_checks.py", "doubleml/double_ml.py", "doubleml/double_ml_framework.py", "doubleml/irm/*.py"],
     [("checks", "doubleml/utils/_checks.py")], ["raised errors", "state before/after"])

prop("C29", "User-supplied objects are never modified and never shared between results",
     """Constructing, fitting, tuning, evaluating, bootstrapping, benchmarking or combining never changes the user's data tables, arrays, learners, weights, parameter grids,
     scoring specifications, splittings or prediction dictionaries, and later changes made by one model (refit, new splitting) never alter the reported results of another
     model or of a framework obtained earlier.""",
     ["inputs", "histories"],
     "all models, all interleavings of operations on objects sharing data, learners or splittings",
     "No test snapshots its inputs or interleaves two models over shared data.",
     ["doubleml/double_ml.py", "doubleml/double_ml_data.py", "doubleml/double_ml_framework.py", "doubleml/irm/*.py", "doubleml/rdd/rdd.py"],
     [("cloning", "constructors and _dml_cv_predict"), ("copies", "doubleml/double_ml_data.py, doubleml/irm/apos.py")],
     ["snapshots of inputs before/after"])

prop("C30", "Scores identify the effect and are orthogonal / doubly robust",
     """When the nuisance functions are estimated without error (a finite population in which the learners predict cell averages), every model reports exactly the causal
     parameter it documents, computed without any score formula: the slope of a partially linear regression, the instrumental variable slope, the standardized mean
     difference (whole population, treated, weighted, by group), average potential outcomes, the local effect, the difference-in-differences effect on the treated, the
     effect under selection at random, and (local) quantiles that invert the standardized distribution function. If one of the nuisance functions covered by the double
     robustness of a score is replaced by arbitrary values, the estimate stays the same; if all are off by e, the error of the estimate is of order e squared.""",
     ["inputs", "configurations"],
     "all finite populations (cells, arms, outcomes), all models with a score, weights, folds and repetitions, all wrong nuisance values",
     "Tests compare with re-implementations of the same score formulas on a few simulated data sets, with tolerances that hide first-order bias.",
     ["doubleml/plm/plr.py", "doubleml/plm/pliv.py", "doubleml/irm/*.py", "doubleml/did/*.py", "doubleml/utils/blp.py"],
     [("scores", "_score_elements of every model"), ("estimation", "doubleml/double_ml_score_mixins.py"), ("groups", "doubleml/irm/irm.py:gate/cate")],
     ["model.coef", "model.all_coef", "model.gate", "model.cate"])

prop("C31", "Sensitivity bounds contain the effect hidden by the omitted confounder",
     """For models with sensitivity analysis: if a confounder with strengths cf_y and cf_d (as documented: shares of explained variation of the outcome residual and of the
     Riesz representer) is left out and the nuisance functions are estimated without error, the interval of bounds for (cf_y, cf_d, rho=1) contains the effect with the
     confounder, with the true correlation it touches it, the robustness value for that effect as null hypothesis does not exceed the larger strength, and benchmarking an
     observed confounder returns its gains, its correlation and the change of the effect. The same holds for contrasts of potential outcomes.""",
     ["inputs", "configurations"],
     "all finite populations with an omitted discrete confounder; partially linear, interactive, potential outcome and difference-in-differences models",
     "Tests only check that the output has the right type or equals a re-implementation of the same elements.",
     ["doubleml/double_ml_framework.py", "doubleml/plm/plr.py", "doubleml/irm/irm.py", "doubleml/irm/apo.py", "doubleml/irm/apos.py", "doubleml/did/did.py",
      "doubleml/did/did_cs.py", "doubleml/utils/gain_statistics.py"],
     [("elements", "_sensitivity_element_est of every model"), ("bounds", "doubleml/double_ml_framework.py:_calc_sensitivity_analysis"),
      ("benchmarks", "doubleml/utils/gain_statistics.py")],
     ["sensitivity_params", "sensitivity_benchmark"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
