"""Writes properties.jsonl and MANIFEST.json (the registered checks are the modules in checks/)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []


def anchor(f):
    return f if "/" in f else "src/glum/" + f


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=[anchor(f) for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=anchor(b)) for a, b in mech],
            observe_at=list(observe), hook_needed=None,
        ),
    ))


I, H, C = "inputs", "histories", "configurations"

prop("C01", "A converged fit is optimal for the documented objective",
     "Whenever fitting ends without a convergence warning and without constraints, the returned intercept and coefficients satisfy, up to the stated tolerance, the first-order optimality conditions of the documented objective: half the normalised weighted deviance plus the alpha-weighted L1 and L2 penalties with the user's P1 and P2, with the offset in the linear predictor and, with scale_predictors, with penalties on standardised features. Strongly convex problems with an exact Hessian converge.",
     [I, C], "all designs (collinear and constant columns included), families, links, weights, offsets, penalty shapes, solvers, selection rules and tolerances",
     "The tests compare a few dozen golden coefficient vectors and a handful of sklearn comparisons; the optimality conditions quantify over every combination of penalty, weight, offset, scaling and solver.",
     ["_glm.py", "_solvers.py", "_cd_fast.pyx", "_functions.pyx", "_utils.py"],
     [("IRLS loop, subgradient stopping rule, line search", "_solvers.py"), ("coordinate descent on the quadratic model", "_cd_fast.pyx"), ("standardize/unstandardize of data and penalties", "_utils.py")],
     ["GeneralizedLinearRegressor.fit: intercept_, coef_"])

prop("C02", "Solver choices do not change the estimate",
     "For a problem with a unique optimum, every solver that accepts it (closed form, least-squares IRLS, coordinate-descent IRLS with cyclic or random selection, L-BFGS, trust-constr, auto) and every setting of hessian_approx, start_params, warm start, random_state and copy_X give the same model up to the tolerance. The estimate agrees with an independent numerical minimiser of the documented objective.",
     [I, C], "all well-posed problems and all admissible pairs of solver configurations",
     "Tests compare solvers on one or two fixed data sets per family.",
     ["_glm.py", "_solvers.py", "_linalg.py", "_cd_fast.pyx", "_functions.pyx"],
     [("solver dispatch", "_glm.py"), ("closed-form Tikhonov solve", "_linalg.py"), ("low-rank Hessian updates on active rows and columns", "_solvers.py")],
     ["fit with different solver arguments"])

prop("C03", "Box constraints hold and are optimal",
     "With lower_bounds and/or upper_bounds (scalar or per coefficient, possibly infinite, equal or excluding zero), every coefficient of a fitted model lies within its bounds, and a converged model satisfies the optimality conditions of the bounded problem, wherever fitting was started and also along a regularization path and in the cross-validated estimator.",
     [I, C], "all bound vectors, start values, penalties, scalings and column scales",
     "Tests fix bounds on one data set; a violation needs particular combinations of column scale, start value and binding bound.",
     ["_glm.py", "_solvers.py", "_cd_fast.pyx", "_utils.py", "_validation.py", "_glm_cv.py"],
     [("clipping inside coordinate descent", "_cd_fast.pyx"), ("bounds rescaled with the columns", "_utils.py"), ("clipping of start values", "_glm.py")],
     ["coef_, coef_path_"])

prop("C04", "Linear inequality constraints hold and are optimal",
     "With A_ineq and b_ineq, a model fitted without a convergence warning satisfies A coef <= b up to the stated tolerance and no feasible point has a meaningfully smaller penalised objective; constraints never apply to the intercept and hold on the original feature scale whether or not predictors are scaled.",
     [I, C], "all feasible constraint systems (b = 0 for the monotone IRLS solver), both constrained solvers, all families and penalties",
     "Tests try one or two constraint matrices on unscaled data.",
     ["_glm.py", "_solvers.py", "_utils.py", "_validation.py"],
     [("trust-constr with linear constraints", "_solvers.py"), ("penalty continuation of the monotone IRLS solver", "_solvers.py"), ("constraint matrix rescaled with the columns", "_utils.py")],
     ["coef_"])

prop("C05", "Monotonic constraints give monotone predictions",
     "A formula model fitted with monotonic_constraints and without a convergence warning predicts monotonically, in the requested direction, in each constrained variable when all other variables are held fixed: in the numeric value, or in the order of the category levels (also inside interactions with other categoricals, with or without drop_first). Among such models it is optimal.",
     [I, C], "all data sets, level orders, directions, drop_first settings and constrained terms the option accepts",
     "Tests check a few formulas with fixed data; monotonicity is a statement about every pair of points.",
     ["_formula.py", "_glm.py", "_solvers.py"],
     [("difference rows built from the model spec", "_formula.py"), ("monotone IRLS and trust-constr", "_solvers.py")],
     ["predict on level or value grids"])

prop("C06", "The storage of the design does not matter",
     "The same numbers given as C- or Fortran-ordered or non-contiguous arrays, lists, integer arrays, scipy CSC/CSR/COO matrices, tabmat dense, sparse and split matrices, or pandas or polars data frames give the same fit, predictions, score and covariance.",
     [I, C], "all value matrices (including sparse, constant and zero columns) and all pairs of containers",
     "Tests fit some containers on one data set and mostly check that fitting works; equality for all values is a relation between runs.",
     ["_glm.py", "_validation.py", "_utils.py", "_linalg.py", "_solvers.py"],
     [("conversion and validation of X", "_validation.py"), ("tabmat matrices behind one interface", "_linalg.py")],
     ["fit, predict, score, covariance_matrix"])

prop("C07", "User data and hyperparameters are never modified",
     "With copy_X left at its default or True, no method modifies the arrays, matrices, data frames, parameter objects (penalties, bounds, constraints, start values, alphas, monotonic constraints) or constructor parameters it is given, so get_params after fit returns what was set.",
     [I, H], "all input containers, parameter combinations and public method calls",
     "One or two tests compare X and y before and after fitting for default settings.",
     ["_glm.py", "_glm_cv.py", "_utils.py", "_validation.py", "_solvers.py"],
     [("copies in validation and set-up", "_validation.py"), ("copy-on-scale of bounds and penalties", "_utils.py")],
     ["byte comparison of all arguments before and after each call"])

prop("C08", "Fits are equivariant under row, column and unit changes",
     "Permuting observations leaves the model unchanged; permuting features permutes coefficients, bounds and penalties; rescaling or shifting a feature rescales its coefficient and moves the intercept without changing predictions when the feature is unpenalised or predictors are scaled; an all-zero feature changes nothing.",
     [I, C], "all data sets, permutations, positive and negative scale factors and shifts",
     "Tests check a single scaling on one data set.",
     ["_glm.py", "_utils.py", "_solvers.py", "_cd_fast.pyx"],
     [("internal standardisation", "_utils.py"), ("active-set bookkeeping", "_solvers.py")],
     ["coef_, intercept_, predict"])

prop("C09", "Sample weights act as documented",
     "Multiplying all weights by a positive constant does not change the fit; a weight of zero is the same as leaving the observation out; an integer weight is the same as repeating the observation; no weights equals unit weights, in fitting, scoring, dispersion, covariance and cross-validation where applicable.",
     [I, C], "all problems, weight vectors (including zeros and very unequal weights) and regularisation settings",
     "Tests check weights for a couple of families and for default penalties only.",
     ["_glm.py", "_glm_cv.py", "_validation.py", "_distribution.py", "_functions.pyx"],
     [("normalisation of weights", "_glm.py"), ("weights in every kernel", "_functions.pyx")],
     ["coef_, score, covariance_matrix, dispersion"])

prop("C10", "Offsets act as a fixed part of the linear predictor",
     "An offset is added to the linear predictor everywhere: shifting it by a constant moves only the intercept; it equals a feature whose coefficient is fixed at one; with a log link and counts or a Gaussian identity link it is equivalent to the textbook transformation of response and weights; fit, predict, score, covariance, regularization path and cross-validation treat it alike.",
     [I, C], "all offsets (scalars, integer and float vectors), families, links and solvers",
     "Tests use one offset for a few families.",
     ["_glm.py", "_glm_cv.py", "_solvers.py", "_distribution.py", "_linalg.py"],
     [("offset in the linear predictor and in start values", "_glm.py"), ("offset in the derivative kernels", "_distribution.py")],
     ["coef_, intercept_, predict, score"])

prop("C11", "Every entry of a regularization path is a solution",
     "With alpha_search, every row of the coefficient path is the optimum for its alpha, the same model a separate fit with that alpha gives; the last entry is the fitted model, and predict and linear_predictor with alpha or alpha_index use exactly the matching entry (column order included), rejecting unknown alphas.",
     [I, C], "all data, alpha sequences (any order, with zero) and penalties",
     "Tests check that the path exists and a few predictions on it.",
     ["_glm.py", "_solvers.py", "_utils.py"],
     [("warm-started path loop", "_glm.py"), ("alpha lookup", "_glm.py")],
     ["coef_path_, intercept_path_, predict(alpha=, alpha_index=)"])

prop("C12", "The automatic alpha grid starts where the model becomes empty",
     "The automatically chosen alphas are a decreasing geometric grid with the requested length and ratio or minimum; with L1 penalties on all features the largest alpha gives a model with all coefficients zero while a slightly smaller alpha does not, for any family, weights, P1 and scaling, and with an offset for the families whose null model has a closed form (the Tweedie families with log link, Gaussian with identity link, any family without an intercept).",
     [I, C], "all problems with l1_ratio > 0 and all grid parameters",
     "Tests check the grid of a few Gaussian or Poisson examples without offset.",
     ["_glm.py", "_glm_cv.py", "_distribution.py"],
     [("largest alpha from the gradient at the null model", "_glm.py")],
     ["_alphas via the path, coef_path_"])

prop("C13", "Cross-validation selects and refits what its scores say",
     "For the cross-validated estimator the stored coefficient and deviance paths are those of separate fits on the training folds evaluated on the held-out folds; the chosen alpha and l1_ratio minimise the average held-out deviance; the final model equals a plain fit on all data with the chosen hyperparameters.",
     [I, C], "all data sets, fold splitters, weights, offsets, alpha grids and l1_ratio lists",
     "Tests compare against sklearn for Gaussian lasso on one data set.",
     ["_glm_cv.py", "_glm.py"],
     [("fold fits and held-out deviances", "_glm_cv.py"), ("selection and refit", "_glm_cv.py")],
     ["alphas_, l1_ratio_, alpha_, coef_path_, deviance_path_, train_deviance_path_, coef_"])

prop("C14", "Deviances follow the family's variance function",
     "For every family, the deviance is the weighted sum of unit deviances, non-negative, zero only at mu = y (up to a mu-independent constant for fractional binomial data), equals twice the integral of (y - t)/v(t) from mu to y, has derivative -2(y - mu)/v(mu), and the Tweedie family reproduces normal, Poisson, gamma and inverse Gaussian at powers 0, 1, 2 and 3.",
     [I], "all responses and means in the family's range, weights, scalars and dtypes, and powers",
     "Tests evaluate a few points per family.",
     ["_distribution.py", "_functions.pyx"],
     [("compiled deviance kernels", "_functions.pyx"), ("unit deviance and variance methods", "_distribution.py")],
     ["ExponentialDispersionModel: deviance, unit_deviance, unit_variance, deviance_derivative, in_y_range"])

prop("C15", "Likelihoods and dispersion match their definitions",
     "log_likelihood equals the weighted sum of the family's log density (series or closed form) at the given or Pearson dispersion, and dispersion equals the Pearson or deviance estimate with the requested degrees of freedom, for every family that offers them.",
     [I], "all responses, means, weights, dispersions and Tweedie powers",
     "Tests check a few values, mainly for Poisson, normal and Tweedie 1.5.",
     ["_distribution.py", "_functions.pyx"],
     [("compiled log-likelihood kernels and Tweedie series", "_functions.pyx"), ("dispersion estimators", "_distribution.py")],
     ["log_likelihood, dispersion"])

prop("C16", "Gradients and Hessians used in fitting are the true ones",
     "For every family and link, the row-wise gradients are the derivatives of half the deviance with respect to the linear predictor and the row-wise Hessians are its second derivative or their expectation; the fused predictor update returns the updated linear predictor, its mean and the deviance up to a constant; Fisher and observed information are the corresponding weighted cross products of the design.",
     [I], "all linear predictors, responses, weights, step factors and storage types",
     "Tests compare kernels with generic code at random points for a few families.",
     ["_distribution.py", "_functions.pyx", "_link.py"],
     [("specialised family/link kernels", "_functions.pyx"), ("generic fallbacks", "_distribution.py")],
     ["eta_mu_deviance, rowwise_gradient_hessian, _fisher_information, _observed_information"])

prop("C17", "Links are consistent smooth bijections",
     "For every link, the inverse undoes the link on its range and conversely, the three derivative methods are the derivatives they claim to be, the functions accept scalars and arrays, keep shape, stay inside the family's range and remain finite for arbitrarily large linear predictors where clipping is documented, and Tweedie links coincide with identity and log at 0 and 1.",
     [I], "all linear predictors and means, scalars and arrays, float32 and float64",
     "Tests check fixed grids.",
     ["_link.py", "_utils.py"],
     [("link classes", "_link.py")],
     ["link, inverse, derivative, inverse_derivative, inverse_derivative2"])

prop("C18", "Single precision fits approximate double precision fits",
     "Fitting a float32 matrix (array, sparse or tabmat) runs in single precision: the coefficients are float32 and every result agrees with the float64 fit of the same numbers to single-precision accuracy, with any mix of float32, float64 and integer responses, weights, offsets, penalties and start values; with a float64 design those dtypes do not matter at all.",
     [I, C], "all well-conditioned problems and dtype combinations of X, y, weights and offset",
     "Tests fit float32 data with matching dtypes for a few cases.",
     ["_glm.py", "_validation.py", "_solvers.py", "_cd_fast.pyx", "_functions.pyx"],
     [("one dtype for all inputs", "_glm.py"), ("fused-type kernels", "_functions.pyx")],
     ["coef_, predict, score"])

prop("C19", "Covariance matrices match their definitions",
     "The covariance matrix equals an independent computation of the requested estimator: inverse expected or observed information times dispersion, the heteroskedasticity-robust sandwich or the cluster-robust sandwich, with the documented small-sample factors; it is symmetric, unaffected by relabelling clusters or reordering rows, and singletons clusters reduce to the robust one. Stored and recomputed matrices agree.",
     [I, C], "all data, families, weights, offsets, cluster labels (any hashable type and order) and option combinations",
     "Tests compare with statsmodels on one data set per family.",
     ["_glm.py", "_distribution.py"],
     [("information matrices and scores", "_distribution.py"), ("sandwich assembly and group sums", "_glm.py")],
     ["covariance_matrix, std_errors, coef_table"])

prop("C20", "Hypothesis tests and coefficient tables agree with the covariance",
     "wald_test returns the quadratic form (R b - r)' (R V R')^-1 (R b - r) with the rank of R degrees of freedom and its chi-squared p-value, and the matrix, feature-name, term and formula ways of stating a hypothesis agree; coef_table and std_errors derive from the same covariance, with correct t values, p-values and confidence limits.",
     [I, C], "all restriction matrices, hypotheses, models and confidence levels",
     "Tests check a few restrictions on fixed models.",
     ["_glm.py"],
     [("Wald test variants", "_glm.py"), ("coefficient table", "_glm.py")],
     ["wald_test, coef_table, std_errors"])

prop("C21", "Predictions, scores and information criteria are consistent",
     "linear_predictor is X coef + intercept + offset, predict is its inverse link times the weights if given, score is one minus the ratio of model to null deviance, and aic, aicc and bic follow from the log-likelihood of the data they are given with the documented number of degrees of freedom.",
     [I, C], "all models, new data, offsets, weights and containers",
     "Tests check single values.",
     ["_glm.py", "_distribution.py"],
     [("linear predictor", "_glm.py"), ("score and information criteria", "_glm.py")],
     ["linear_predictor, predict, score, aic, aicc, bic"])

prop("C22", "Categorical features mean one indicator per level",
     "A data frame with categorical columns gives the same model as the explicit indicator (dummy) columns, with drop_first and every missing-value method, for pandas and polars and any level order, including unused levels; at prediction time rows are interpreted by level name whatever the order or subset of levels in the new data, missing values follow the chosen method, and unseen levels raise an error.",
     [I, C], "all level sets and orders, missing patterns, mixes of numeric and categorical columns, and new data",
     "Tests use a few fixed small frames.",
     ["_glm.py", "_utils.py", "_formula.py"],
     [("level alignment at prediction", "_utils.py"), ("missing categories", "_utils.py")],
     ["coef_, feature_names_, predict"])

prop("C23", "Per-feature penalties expand to all levels of a categorical",
     "For data frames with categorical columns, P1 and P2 given per original column act as the same penalty on every indicator of that column, and penalties given per expanded column are used as they are; names and penalties stay aligned under drop_first and missing-as-category.",
     [I, C], "all mixes of columns, level counts, drop_first and missing methods",
     "Tests check the helper on a few vectors.",
     ["_utils.py", "_glm.py"],
     [("expansion of penalties", "_utils.py")],
     ["coef_ against an explicit indicator fit"])

prop("C24", "Formulas equal the design they describe",
     "Fitting a Wilkinson formula gives the same model as fitting the design matrix that formula denotes (intercept handling, interactions, transformations, categorical coding with or without full rank, two-sided formulas and variables from the context), predicting on new data re-applies the same encoding, and names of features and terms match the columns.",
     [I, C], "all formulas from a grammar over numeric and categorical variables, and all data",
     "Tests fit a dozen fixed formulas.",
     ["_formula.py", "_glm.py"],
     [("formula parsing and materialisation", "_formula.py"), ("stored model specs", "_glm.py")],
     ["coef_, feature_names_, term_names_, predict"])

prop("C25", "Estimators carry no state between fits",
     "After any history of set_params, fit, failed fit, predict, covariance and path calls, fitting again gives the same results and answers as a fresh estimator with the same parameters and data (unless warm_start asks for the previous coefficients as start, which changes only the starting point); clones are unfitted copies with equal parameters, and pickled or copied models (also those pickled by earlier 3.x versions) behave identically.",
     [H], "all sequences of estimator operations over changing data types, formulas, families and paths",
     "Tests refit at most once and never change the kind of data between fits.",
     ["_glm.py", "_glm_cv.py"],
     [("fitted attributes set by fit", "_glm.py"), ("pickle migration", "_glm.py")],
     ["all public results after each step"],
     [("X_model_spec_, y_model_spec_", "encoders of a formula fit", "_glm.py"), ("covariance_matrix_", "stored covariance", "_glm.py"), ("_alphas, coef_path_", "path of the last fit", "_glm.py")])

prop("C26", "Invalid input is rejected with an error",
     "Wrong hyperparameters (type or range), misshaped, negative, missing or non-finite data, weights, offsets, penalties, bounds or constraints, responses outside the family's range, and unsupported combinations raise a ValueError, TypeError or similar instead of producing a model; the same call with the defect removed succeeds.",
     [I, C], "all single defects injected into otherwise valid calls",
     "Tests enumerate single bad values per argument, mostly with default settings.",
     ["_glm.py", "_glm_cv.py", "_validation.py", "_distribution.py"],
     [("hyperparameter validation", "_glm.py"), ("array validation", "_validation.py")],
     ["fit raises"])

prop("C27", "Family and link names resolve to the documented objects",
     "Every documented family and link string, including parametrised Tweedie and negative binomial names with any numeric parameter, resolves to the distribution or link the documentation names, the automatic link is the documented one for the family, instances pass through unchanged, and other strings are rejected; string and instance give the same fit.",
     [I], "all documented names, numeric parameters in their formats, and strings that are not names",
     "Tests list a few names.",
     ["_glm.py", "_distribution.py", "_link.py"],
     [("name parsing", "_glm.py")],
     ["get_family, get_link, family_instance, link_instance, fit"])

prop("C28", "Convergence reports are truthful",
     "A convergence warning is given exactly when the iteration limit was reached (or the line search failed) before the stopping rule held, n_iter_ never exceeds max_iter, the diagnostics list one row per iteration with a final convergence value consistent with the outcome, and more iterations never make the objective worse.",
     [I, C], "all problems, tolerances and iteration limits",
     "Tests check that one warning appears for max_iter=1.",
     ["_solvers.py", "_glm.py"],
     [("stopping rule and warnings", "_solvers.py"), ("diagnostics", "_glm.py")],
     ["warnings, n_iter_, get_formatted_diagnostics"])

prop("C29", "Parallelism and randomness do not change results",
     "Cross-validation gives the same results for any n_jobs and joblib backend, concurrent fits and queries in one process give the results of sequential ones, fits on one thread are bit-for-bit repeatable for a given random_state, and the number of threads changes results only by rounding.",
     [C, I], "all problems, job counts and thread counts",
     "Tests run one n_jobs value.",
     ["_glm_cv.py", "_functions.pyx", "_cd_fast.pyx", "_distribution.py"],
     [("joblib over folds", "_glm_cv.py"), ("OpenMP reductions", "_functions.pyx")],
     ["coef_, deviance_path_, distribution methods under thread limits"])

prop("C30", "Penalties act in the documented direction",
     "Along decreasing alpha the penalty value of the optimum grows and its deviance falls; large L1 penalties give exact zeros, P1 or P2 entries of zero leave a coefficient unpenalised, a symmetric part is all that matters of P2, dense and sparse or diagonal and full P2 are equivalent, any positive semi-definite P2 is accepted and indefinite ones are rejected.",
     [I, C], "all problems, alphas, penalty vectors and matrices",
     "Tests check a few penalties and one indefinite matrix.",
     ["_glm.py", "_linalg.py", "_utils.py", "_solvers.py"],
     [("penalty set-up", "_glm.py"), ("definiteness check", "_linalg.py")],
     ["coef_, coef_path_"])

prop("C31", "The benchmark tooling reports what it measures",
     "In glum_benchmarks: get_obj_val is (up to a constant independent of the coefficients) the documented penalised objective at the given coefficients for any matrix type, weights and offset; a benchmark run reports the rows, alpha and objective of the problem it solved at the alpha it was run with; exposure_and_offset_to_weights gives a log-link Tweedie problem with the same score equations; load_data gives the same design in every storage and the response, weights or offset of its data_setup; simulated data are reproducible from random_seed, have the requested features (possibly none of a kind) and responses with the stated mean; runtime reports the run closest to the median after discarding the warm-up; result file names, summary tables and regression verdicts reproduce the settings and numbers they were made from.",
     [I, C], "all distributions, matrix types, weights, offsets, alphas, simulation settings, run times and time-outs, and sets of results",
     "The tests run the pipeline on one small problem and check that keys exist.",
     ["glum_benchmarks/util.py", "glum_benchmarks/problems.py", "glum_benchmarks/data/simulated_glm.py", "glum_benchmarks/run_benchmarks.py", "glum_benchmarks/compare_results.py", "glum_benchmarks/libraries/bench_glum.py", "glum_benchmarks/libraries/bench_sklearn.py"],
     [("objective value of a run", "glum_benchmarks/util.py"), ("data set-ups and storages", "glum_benchmarks/problems.py"), ("objective gaps of a results table", "glum_benchmarks/run_benchmarks.py"), ("regression verdict", "glum_benchmarks/compare_results.py")],
     ["get_obj_val, execute_problem_library, load_data, simulate_mixed_data, runtime, analyze_results"])

prop("C32", "Estimators compose with scikit-learn and are blind to presentation settings",
     "Inside pipelines, column transformers, target transformers, ensembles, feature elimination, cross-validation helpers, grid search and metadata routing, glum estimators give what the same computation done by hand gives, with sample weights and offsets passed through; predictions of a row do not depend on the other rows they are asked for with; and settings that only concern presentation or options that are not in use (verbosity, copying, finiteness checks on finite data, covariance options, naming options, the seed of an unused random generator) change neither estimates nor predictions, while a fit with verbose=0 prints nothing.",
     [I, C], "all data, weights, offsets, containers, splits and compositions",
     "Tests run scikit-learn's generic estimator checks and a single pipeline.",
     ["_glm.py", "_glm_cv.py", "_solvers.py", "_validation.py", "_formula.py"],
     [("predict, linear_predictor and score", "_glm.py"), ("progress reporting", "_solvers.py"), ("constructor parameters", "_glm.py")],
     ["sklearn.pipeline, sklearn.model_selection, sklearn.compose around GeneralizedLinearRegressor and ...CV"])

prop("C33", "User-defined families and links behave like built-in ones",
     "A family written by subclassing ExponentialDispersionModel (its four bounds, unit_variance, unit_variance_derivative and unit_deviance) and a link written by subclassing Link give, when they describe a built-in family or link, the same fits with every solver, the same regularisation paths, cross-validation results, predictions, scores, deviances, dispersions, covariance matrices and accepted responses as the built-in one; and when they describe one glum does not have (probit, softplus, Wedderburn's quasi-likelihood), the minimiser of the documented objective and the textbook deviance, score and covariance.",
     [I, C], "all families and links that satisfy the interface, designs, weights, offsets, penalties and solvers",
     "The tests use one custom link; nothing compares a custom family with a built-in one.",
     ["_distribution.py", "_link.py", "_glm.py", "_glm_cv.py", "_solvers.py"],
     [("generic eta, gradient and Hessian kernels", "_distribution.py"), ("public base class of links", "_link.py"), ("initial intercept for any link", "_distribution.py")],
     ["ExponentialDispersionModel and Link subclasses passed as family= and link="])

prop("C34", "Warnings are given exactly when what they describe happens",
     "Each of glum's own warnings (covariance of a penalised model, covariance recomputed, degrees of freedom under ridge regularisation, start values moved into the bounds, ignored min_alpha or min_alpha_ratio, deprecated alphas) is given when, and only when, what it says is the case, for single fits, paths and cross-validation; and work on a well-posed problem from any container (fit, path, cross-validation, prediction, score, covariance, coefficient table, Wald test) is otherwise silent: no warnings of NumPy, SciPy, pandas or scikit-learn leak out.",
     [I, C], "all combinations of penalties, bounds, start values, grids and containers",
     "The tests look for a few of the warnings in one situation each and never for their absence in others.",
     ["_glm.py", "_glm_cv.py", "_distribution.py", "_solvers.py"],
     [("start values and bounds", "_glm.py"), ("covariance warnings", "_glm.py"), ("alpha grid warnings", "_glm.py")],
     ["warnings raised by fit, covariance_matrix, std_errors, aic, aicc, bic"])

# ---------------------------------------------------------------- manifest
NOTE = {}
TECH = {}
exec((V / "tools/notes.py").read_text()) if (V / "tools/notes.py").exists() else None

if __name__ == "__main__":
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
    checks, na = [], []
    for p in P:
        i = p["id"]
        if (V / "checks" / f"{i.lower()}.py").exists():
            checks.append(dict(
                property=i,
                quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, "property-based testing (Hypothesis) against an independent oracle"),
                level="exploration",
                level_note=NOTE.get(i, "Generated-input search with shrinking; trusts numpy/scipy arithmetic and the reference formulas in pbt/oracle.py; establishes nothing beyond the inputs explored."),
            ))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    (V / "MANIFEST.json").write_text(json.dumps(dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -m pbt.build",
        checks=checks, not_applicable=na,
        notes="Checks use /opt/venv's Python with Hypothesis from the offline tool venv; see DESIGN.md.",
    ), indent=1) + "\n")
    print(len(checks), "checks,", len(na), "not claimed")
