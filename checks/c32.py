"""C32: estimators compose with scikit-learn; presentation settings do not matter."""
import contextlib
import io

import joblib
import numpy as np
import pandas as pd
import sklearn
from hypothesis import strategies as st
from scipy import sparse
from sklearn.base import clone

from checks.common import same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = ["normal", "poisson", "gamma", "binomial", "tweedie:1.5"]


def data(c, rng):
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p)) * np.array([1, 3, 0.5, 2, 1])[:p] + np.array([0, 2, 0, -1, 0.5])[:p]
    if c.get("zeros"):
        X[rng.random((n, p)) < 0.5] = 0
    eta = 0.3 * np.tanh(X @ rng.standard_normal(p)) + 0.2
    fam = c["fam"]
    if fam == "normal":
        y = eta + rng.standard_normal(n)
    elif fam == "poisson":
        y = rng.poisson(np.exp(eta)).astype(float)
    elif fam == "gamma":
        y = rng.gamma(2, np.exp(eta) / 2) + 1e-3
    elif fam == "binomial":
        y = (rng.random(n) < 1 / (1 + np.exp(-eta))).astype(float)
    else:
        y = np.where(rng.random(n) < 0.3, 0.0, rng.gamma(2, np.exp(eta) / 2))
    # every fold should hold something to learn from
    y[::3] = {"binomial": 1.0}.get(fam, 1.3 if fam != "poisson" else 2.0)
    if fam == "binomial":
        y[1::3] = 0.0
    return X, y


def est(c, cv=False, **kw):
    import glum

    kw = dict(dict(family=O.make_family(c["fam"]), link="identity" if c["fam"] == "normal" else "logit" if c["fam"] == "binomial" else "log", l1_ratio=c.get("l1", 0), gradient_tol=1e-9, max_iter=300), **kw)
    if cv:
        return glum.GeneralizedLinearRegressorCV(n_alphas=4, cv=3, min_alpha_ratio=0.1, **kw)
    return glum.GeneralizedLinearRegressor(alpha=c.get("alpha", 0.1), **kw)


def close(a, b, what, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        fail(f"{what}: shapes {a.shape} and {b.shape}")
    if not np.allclose(a, b, rtol=tol, atol=tol * (1 + np.abs(b).max(initial=0)), equal_nan=True):
        fail(f"{what}: {a} instead of {b}")


# ------------------------------------------------- settings that must not matter
@st.composite
def presentation_cases(draw):
    c = draw(G.problems(fams=G.CONVEX, degenerate=False))
    c["solver"] = draw(st.sampled_from(["auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"]))
    c["search"] = draw(st.booleans())
    c["changes"] = draw(st.lists(st.sampled_from(["verbose", "verbose2", "copy_X", "finite", "robust", "expected", "drop_first", "cov", "seed", "separator", "cat_format", "missing"]), min_size=1, max_size=4, unique=True))
    c["holder"] = draw(st.sampled_from(["array", "fortran", "csc", "frame"]))
    return c


CHANGES = dict(
    verbose=dict(verbose=1), verbose2=dict(verbose=2), copy_X=dict(copy_X=False), finite=dict(force_all_finite=False), robust=dict(robust=False), expected=dict(expected_information=True),
    drop_first=dict(drop_first=True), seed=dict(random_state=7), separator=dict(interaction_separator=" x "), cat_format=dict(categorical_format="{name}<{category}>"), missing=dict(cat_missing_method="zero", cat_missing_name="?"),
)


@check("C32", presentation_cases(), quick=900, rule="verbosity, copying, finiteness checks, covariance options, naming options and the seed of an unused random generator changed on convex problems without categoricals: estimates, iteration count and predictions stay, a silent fit prints nothing; non-trivial = the fit succeeded")
def presentation(c, ctx):
    pb = G.Problem(c)
    solver = c["solver"]
    if solver == "irls-ls" and np.any(np.asarray(pb.objective().P1) > 0):
        solver = "irls-cd"
    if solver in ("lbfgs", "trust-constr") and np.any(np.asarray(pb.objective().P1) > 0):
        solver = "auto"
    hold = {"array": np.array, "fortran": np.asfortranarray, "csc": sparse.csc_matrix, "frame": lambda X: pd.DataFrame(X, columns=[f"v{i}" for i in range(X.shape[1])])}[c["holder"]]
    base = dict(solver=solver, gradient_tol=1e-8, max_iter=200, alpha_search=c["search"], random_state=3)
    if c["search"]:
        base["alpha"] = [1.0, 0.1, 0.01]
    out = []
    for extra in [{}] + [CHANGES[k] for k in c["changes"]]:
        kw = dict(base, **extra)
        m = G.glr(**pb.params(**kw))
        so, se = io.StringIO(), io.StringIO()
        fit_kw = dict(store_covariance_matrix=True) if extra is CHANGES["cov"] else {}
        try:
            with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                _, ok = G.quiet_fit(m, hold(pb.X.copy()), pb.y.copy(), sample_weight=pb.w, offset=pb.off, **fit_kw)
        except np.linalg.LinAlgError:
            return
        except (ValueError, AssertionError) as e:
            if extra and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
                fail(f"with {extra}: {type(e).__name__} {e}")
            return  # a diverged fit, or a covariance that does not exist
        if not kw.get("verbose") and (so.getvalue() or se.getvalue()):
            fail(f"a fit with verbose=0 ({solver}) printed {(so.getvalue() + se.getvalue())[:200]!r}")
        out.append((extra, m, ok))
    _, m0, ok0 = out[0]
    if not np.all(np.isfinite(np.r_[m0.intercept_, m0.coef_])):
        return
    for extra, m, ok in out[1:]:
        what = f"{solver}, {c['holder']}, {extra}"
        tol = 1e-6 if ok0 else 1e-5
        if ok != ok0 or m.n_iter_ != m0.n_iter_:
            fail(f"{what}: {m.n_iter_} iterations (converged {ok}) instead of {m0.n_iter_} ({ok0})")
        close(np.r_[m.intercept_, m.coef_], np.r_[m0.intercept_, m0.coef_], f"{what}: estimates", tol)
        if c["search"]:
            close(m.coef_path_, m0.coef_path_, f"{what}: path", tol)
        close(m.linear_predictor(hold(pb.X.copy())), m0.linear_predictor(hold(pb.X.copy())), f"{what}: predictions", tol)
        if list(m.feature_names_) != list(m0.feature_names_):
            fail(f"{what}: feature names {m.feature_names_}")
    ctx.label(solver, *c["changes"])
    ctx.mark()


CHANGES["cov"] = {"verbose": 0}


# ---------------------------------------------------------- row-wise predictions
@st.composite
def row_cases(draw):
    return dict(
        fam=draw(st.sampled_from(FAMS)), n=draw(st.integers(12, 40)), p=draw(st.integers(1, 4)), seed=draw(st.integers(0, 2**32 - 1)), l1=draw(st.sampled_from([0, 0.5])),
        holder=draw(st.sampled_from(["array", "csr", "csc", "frame", "catframe", "formula", "formula_poly", "tabmat"])), offset=draw(st.booleans()),
        weights=draw(st.booleans()), how=draw(st.sampled_from(["single", "permute", "repeat", "halves"])), search=draw(st.booleans()), m=draw(st.integers(2, 12)),
    )


@check("C32", row_cases(), quick=700, rule="predictions of a fitted model for single rows, permuted, repeated and stacked rows of new data (arrays, sparse, frames with categoricals, tabmat, formulas with stateless and stateful terms) equal the rows of the predictions for the whole; non-trivial = all")
def rows(c, ctx):
    import tabmat as tm

    rng = np.random.default_rng(c["seed"])
    X, y = data(c, rng)
    n, p, m = c["n"], c["p"], c["m"]
    new = rng.standard_normal((m, p))
    cats = ["a", "b", "c"]
    kc = np.array(cats)[np.arange(n) % 3]
    kn = rng.choice(cats, size=m)
    names = [f"v{i}" for i in range(p)]

    def frame(A, k):
        return pd.DataFrame(A, columns=names).assign(k=pd.Categorical(k, categories=cats))

    kw = {}
    if c["search"]:
        kw = dict(alpha_search=True)
    e = est(dict(c, alpha=[1.0, 0.1] if c["search"] else 0.1), **kw)
    if c["holder"] in ("formula", "formula_poly"):
        e.set_params(formula="y ~ " + ("poly(v0, 2) + k" if c["holder"].endswith("poly") else "v0 * k"))
        train, new = frame(X, kc).assign(y=y), frame(new, kn)
        args = (train,)
    else:
        hold = {"array": lambda A, k: A, "csr": lambda A, k: sparse.csr_matrix(A), "csc": lambda A, k: sparse.csc_matrix(A), "frame": lambda A, k: pd.DataFrame(A, columns=names),
                "catframe": frame, "tabmat": lambda A, k: tm.DenseMatrix(np.asfortranarray(A))}[c["holder"]]
        args = (hold(X, kc), y)
        new = hold(new, kn)
    try:
        G.quiet_fit(e, *args)
    except np.linalg.LinAlgError:
        return
    off = rng.standard_normal(m) * 0.3 if c["offset"] else None
    w = rng.uniform(0.5, 2, size=m) if c["weights"] else None
    idx = {
        "single": [np.array([i]) for i in range(m)], "permute": [rng.permutation(m)],
        "repeat": [rng.integers(0, m, size=2 * m)], "halves": [np.arange(m // 2), np.arange(m // 2, m)],
    }[c["how"]]

    def take(A, i):
        return A.iloc[i] if isinstance(A, pd.DataFrame) else A[i] if not isinstance(A, sparse.csc_matrix) else A.tocsr()[i].tocsc()

    ask = [("predict", dict(offset=off, sample_weight=w)), ("linear_predictor", dict(offset=off))]
    if c["search"]:
        ask.append(("predict", dict(alpha_index=[0, 1], offset=off)))
    for f, kws in ask:
        whole = np.asarray(getattr(e, f)(new, **kws))
        for i in idx:
            part = {k: (v[i] if isinstance(v, np.ndarray) else v) for k, v in kws.items()}
            if not len(i):
                continue
            got = getattr(e, f)(take(new, i), **part)
            close(got, whole[i], f"{c['holder']}: {f} of rows {list(i)[:6]}", 1e-9)
    ctx.label(c["holder"], c["how"])
    ctx.mark()


# ------------------------------------------------------ pipelines, meta-estimators
@st.composite
def meta_cases(draw):
    return dict(
        fam=draw(st.sampled_from(FAMS)), n=draw(st.integers(18, 50)), p=draw(st.integers(2, 5)), seed=draw(st.integers(0, 2**32 - 1)), l1=draw(st.sampled_from([0, 0.5])),
        alpha=draw(st.sampled_from([0.03, 0.3])), zeros=draw(st.booleans()), w=draw(st.booleans()), off=draw(st.booleans()), cv=draw(st.booleans()),
        what=draw(st.sampled_from(["pipeline", "column", "target", "voting", "bagging", "multi", "pandas_out", "rfe", "permutation"])),
    )


@check("C32", meta_cases(), quick=600, rule="pipelines, column transformers (also with pandas output), target transformation, voting, bagging, multi-output, feature elimination and permutation importance around glum estimators against the same computation done by hand; non-trivial = all")
def meta(c, ctx):
    from sklearn.compose import ColumnTransformer, TransformedTargetRegressor
    from sklearn.ensemble import BaggingRegressor, VotingRegressor
    from sklearn.feature_selection import RFE
    from sklearn.inspection import permutation_importance
    from sklearn.multioutput import MultiOutputRegressor
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import OneHotEncoder, StandardScaler

    rng = np.random.default_rng(c["seed"])
    X, y = data(c, rng)
    n, p = X.shape
    w = rng.uniform(0.5, 2, size=n) if c["w"] else None
    off = rng.standard_normal(n) * 0.2 if c["off"] else None
    e = est(c, cv=c["cv"])
    new = rng.standard_normal((6, p))
    k = np.array(["a", "b", "c"])[rng.permutation(np.arange(n) % 3)]
    what = c["what"]

    def by_hand(A, t=y, weight=w, offset=off):
        return clone(e).fit(A, t, sample_weight=weight, offset=offset)

    ctx.label(what, "cv" if c["cv"] else "single")
    if what == "pipeline":
        pipe = Pipeline([("s", StandardScaler()), ("g", e)])
        pipe.fit(X, y, g__sample_weight=w, g__offset=off)
        s = StandardScaler().fit(X)
        m = by_hand(s.transform(X))
        close(pipe.predict(new), m.predict(s.transform(new)), "pipeline predictions")
        close(pipe.score(X, y), m.score(s.transform(X), y), "pipeline score")
        close(clone(pipe).set_params(g__scale_predictors=False).fit(X, y, g__sample_weight=w, g__offset=off)["g"].coef_, m.coef_, "coefficients in a cloned pipeline")
    elif what in ("column", "pandas_out"):
        df = pd.DataFrame(X, columns=[f"v{i}" for i in range(p)]).assign(k=k)
        ct = ColumnTransformer([("n", StandardScaler(), [f"v{i}" for i in range(p)]), ("c", OneHotEncoder(sparse_output=what == "column", drop="first"), ["k"])], sparse_threshold=1.0)
        if what == "pandas_out":
            ct.set_output(transform="pandas")
        pipe = Pipeline([("ct", ct), ("g", e)])
        pipe.fit(df, y, g__sample_weight=w, g__offset=off)
        s = StandardScaler().fit(X)
        D = np.column_stack([s.transform(X), k == "b", k == "c"]).astype(float)
        m = by_hand(D)
        close(pipe.predict(df), m.predict(D), "column transformer predictions", 1e-6)
        close(pipe["g"].coef_, m.coef_, "column transformer coefficients", 1e-6)
        if what == "pandas_out" and list(pipe["g"].feature_names_) != list(ct.get_feature_names_out()):
            fail(f"feature names {pipe['g'].feature_names_} instead of {list(ct.get_feature_names_out())}")
    elif what == "target":
        t = np.abs(y) + 0.5
        e = est(dict(c, fam="normal"), cv=c["cv"])
        m1 = TransformedTargetRegressor(regressor=e, func=np.log, inverse_func=np.exp).fit(X, t, sample_weight=w)
        m2 = clone(e).fit(X, np.log(t), sample_weight=w)
        close(m1.predict(new), np.exp(m2.predict(new)), "target transformation")
    elif what == "voting":
        e2 = est(dict(c, alpha=1.0))
        v = VotingRegressor([("a", e), ("b", e2)], weights=[2, 1]).fit(X, y, **({} if w is None else dict(sample_weight=w)))
        want = (2 * clone(e).fit(X, y, sample_weight=w).predict(new) + clone(e2).fit(X, y, sample_weight=w).predict(new)) / 3
        close(v.predict(new), want, "voting")
    elif what == "bagging":
        if c["cv"] or c["fam"] == "binomial":
            e = est(dict(c, fam="normal"))
        b = BaggingRegressor(e, n_estimators=3, max_samples=0.8, max_features=min(2, p), random_state=c["seed"] % 1000).fit(X, y)
        parts = []
        for est_i, rows_i, cols_i in zip(b.estimators_, b.estimators_samples_, b.estimators_features_):
            A, t = X[:, cols_i], y
            counts = np.bincount(rows_i, minlength=n).astype(float)
            parts.append(clone(e).fit(A, t, sample_weight=counts).predict(new[:, cols_i]))
            close(est_i.predict(new[:, cols_i]), parts[-1], "a bagged estimator against row counts as sample weights", 1e-5)
        close(b.predict(new), np.mean(parts, axis=0), "bagging", 1e-5)
    elif what == "multi":
        Y = np.column_stack([y, y[::-1]])
        m1 = MultiOutputRegressor(e).fit(X, Y, **({} if w is None else dict(sample_weight=w)))
        want = np.column_stack([clone(e).fit(X, Y[:, j], sample_weight=w).predict(new) for j in range(2)])
        close(m1.predict(new), want, "multi-output")
    elif what == "rfe":
        e = est(c)
        r = RFE(e, n_features_to_select=1).fit(X, y)
        live = list(range(p))
        while len(live) > 1:
            co = np.abs(clone(e).fit(X[:, live], y).coef_)
            if np.sum(co <= co.min() + 1e-6) > 1:
                return
            live.pop(int(co.argmin()))
        if list(np.flatnonzero(r.support_)) != live:
            fail(f"feature elimination keeps {np.flatnonzero(r.support_)}, by hand {live}")
    else:
        m = by_hand(X)
        r = permutation_importance(m, X, y, n_repeats=2, random_state=3)
        r2 = permutation_importance(m, X, y, n_repeats=2, random_state=3, scoring=lambda f, A, t: f.score(A, t))
        close(r.importances, r2.importances, "permutation importances")
    ctx.mark()


# --------------------------------------------------------------- model selection
@st.composite
def selection_cases(draw):
    return dict(
        fam=draw(st.sampled_from(FAMS)), n=draw(st.integers(18, 50)), p=draw(st.integers(1, 4)), seed=draw(st.integers(0, 2**32 - 1)), l1=draw(st.sampled_from([0, 0.5])),
        zeros=draw(st.booleans()), w=draw(st.booleans()), off=draw(st.booleans()), frame=draw(st.sampled_from(["array", "frame", "csr"])), routing=draw(st.booleans()),
        splits=draw(st.integers(2, 4)), what=draw(st.sampled_from(["score", "predict", "grid", "curve", "routed"])), jobs=draw(st.sampled_from([None, None, 2])),
    )


def pick(A, i):
    return A.iloc[i] if hasattr(A, "iloc") else A[i]


@check("C32", selection_cases(), quick=450, rule="cross_val_score, cross_val_predict, GridSearchCV, validation_curve and metadata routing of sample_weight and offset with glum estimators against the same loop by hand; non-trivial = all")
def selection(c, ctx):
    from sklearn import model_selection as ms

    rng = np.random.default_rng(c["seed"])
    X, y = data(c, rng)
    n, p = X.shape
    X = {"array": X, "frame": pd.DataFrame(X, columns=[f"v{i}" for i in range(p)]), "csr": sparse.csr_matrix(X)}[c["frame"]]
    extra = {}
    if c["w"]:
        extra["sample_weight"] = rng.uniform(0.5, 2, size=n)
    if c["off"]:
        extra["offset"] = rng.standard_normal(n) * 0.2
    cut = ms.KFold(c["splits"], shuffle=True, random_state=c["seed"] % 1000)
    e = est(c)
    if any(len(set(y[i])) < 2 for f in cut.split(y) for i in f):
        return  # D^2 of a constant response is undefined

    def one(m, tr):
        return clone(m).fit(pick(X, tr), y[tr], **{k: v[tr] for k, v in extra.items()})

    alphas = [0.01, 0.1, 1.0]
    what = c["what"]
    ctx.label(what, c["frame"])
    kw = dict(params=extra) if extra else {}
    if what == "score":
        got = ms.cross_val_score(e, X, y, cv=cut, **kw)
        close(got, [one(e, tr).score(pick(X, te), y[te]) for tr, te in cut.split(y)], "cross_val_score")
    elif what == "predict":
        got = ms.cross_val_predict(e, X, y, cv=cut, **kw)
        want = np.empty(n)
        for tr, te in cut.split(y):
            want[te] = one(e, tr).predict(pick(X, te))
        close(got, want, "cross_val_predict")
    elif what == "grid":
        with joblib.parallel_backend("threading"):
            g = ms.GridSearchCV(e, dict(alpha=alphas, fit_intercept=[True, False]), cv=cut, n_jobs=c["jobs"]).fit(X, y, **extra)
        combos = [(a, fi) for a in alphas for fi in [True, False]]
        models = {(a, fi): [one(clone(e).set_params(alpha=a, fit_intercept=fi), tr) for tr, te in cut.split(y)] for a, fi in combos}
        got = [float(s[list(g.cv_results_["params"]).index(dict(alpha=a, fit_intercept=fi))]) for s in [g.cv_results_["mean_test_score"]] for a, fi in combos]

        def scores(weighted):
            # scikit-learn also hands the sample weights to score in newer versions
            k = [dict(sample_weight=extra["sample_weight"][te]) if weighted and "sample_weight" in extra else {} for _, te in cut.split(y)]
            return [np.mean([m.score(pick(X, te), y[te], **kw) for m, kw, (_, te) in zip(models[q], k, cut.split(y))]) for q in combos]

        w0, w1 = scores(True), scores(False)
        want = w0 if np.allclose(got, w0, rtol=1e-7, atol=1e-7) else w1
        close(got, want, f"grid scores of {combos}")
        if want[combos.index((g.best_params_["alpha"], g.best_params_["fit_intercept"]))] < max(want) - 1e-6:
            fail(f"grid search chose {g.best_params_} of {want}")
        m = clone(e).set_params(**g.best_params_).fit(X, y, **extra)
        close(g.best_estimator_.coef_, m.coef_, "the refitted best estimator")
        close(g.predict(X), m.predict(X), "predictions of the grid search")
    elif what == "curve":
        tr_s, te_s = ms.validation_curve(e, X, y, param_name="alpha", param_range=alphas, cv=cut, **kw)
        for j, a in enumerate(alphas):
            for f, (tr, te) in enumerate(cut.split(y)):
                m = one(clone(e).set_params(alpha=a), tr)
                close([tr_s[j, f], te_s[j, f]], [m.score(pick(X, tr), y[tr]), m.score(pick(X, te), y[te])], f"validation curve at {a}, fold {f}")
    else:
        old = sklearn.get_config()["enable_metadata_routing"]
        sklearn.set_config(enable_metadata_routing=True)
        try:
            r = clone(e).set_fit_request(sample_weight=True, offset=True).set_score_request(sample_weight=True, offset=True)
            got = ms.cross_validate(r, X, y, cv=cut, params=extra or None, return_estimator=True)
        finally:
            sklearn.set_config(enable_metadata_routing=old)
        for f, (tr, te) in enumerate(cut.split(y)):
            m = one(e, tr)
            close(got["estimator"][f].coef_, m.coef_, f"routed fit of fold {f}")
            close(got["test_score"][f], m.score(pick(X, te), y[te], **{k: v[te] for k, v in extra.items()}), f"routed score of fold {f}")
    ctx.mark()
