"""C34: warnings are given exactly when what they describe happens."""
import contextlib
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.common import conditioning
from pbt import gens as G
from pbt.core import check, fail
from pbt.oracle import make_family


@contextlib.contextmanager
def heard():
    """The warnings given inside, as (category name, text)."""
    out = []
    with warnings.catch_warnings(record=True) as rec, np.errstate(all="warn"):
        warnings.simplefilter("always")
        yield out
        out.extend((w.category.__name__, str(w.message)) for w in rec)


def expect(got, part, want, what):
    n = sum(part in t for _, t in got)
    if bool(n) != bool(want):
        fail(f"{what}: {'no' if want else 'a'} warning {part!r}: {got}")


PENALISED, RIDGE, AGAIN = "You are estimating a penalized model", "under L2 (ridge) regularisation", "has already been computed"
LOWER, UPPER = "lower_bounds above starting value", "upper_bounds below starting value"
NO_RATIO, NO_MIN, OLD = "Ignoring `min_alpha_ratio`", "Ignoring `min_alpha` and `min_alpha_ratio`", "alphas is deprecated"
FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1.0", "log")]


@st.composite
def cases(draw):
    c = draw(G.problems(fams=FAMS, min_n=15, max_n=40, max_p=4, weights=("none", "uniform", "ints"), cols=["normal", "uniform", "binary", "shifted"], l1=(0.0, 0.3, 1.0), alphas=(0.0, 0.0, 0.01, 0.1)))
    c["kind"] = draw(st.sampled_from(["single", "single", "none", "path", "old", "auto", "cv"]))
    c["bounds"] = draw(st.sampled_from(["none", "none", "lower", "upper", "both"]))
    c["start"] = draw(st.sampled_from(["none", "inside", "low", "high", "on"]))
    c["min"] = draw(st.sampled_from(["none", "none", "min", "ratio", "both"]))
    c["warm"] = draw(st.booleans())
    return c


@check("C34", cases(), quick=2500, rule="fits with bounds, start values, grids, cross-validation and penalties of all kinds, then covariances and information criteria: each of glum's own warnings (penalised covariance, recomputed covariance, degrees of freedom under ridge, moved start values, ignored or deprecated options) is given if and only if what it says is so; non-trivial = the fit converged and at least one of the warnings was due")
def due(c, ctx):
    import glum

    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 5)
    kind, p = c["kind"], pb.p
    cv = kind == "cv"
    if pb.l1 == 0.3 and cv:
        pb.l1 = 0.5
    par = pb.params(max_iter=200)
    par.pop("alpha")
    if rng.uniform() < 0.2:
        pb.alpha = int(rng.integers(2))  # an integer is a number, too
    grid = np.sort(np.exp(rng.uniform(np.log(1e-3), 0, size=3)))[::-1].tolist()
    if rng.uniform() < 0.4:
        grid[-1] = 0.0
    if kind == "single":
        par["alpha"] = pb.alpha
    elif kind == "path":
        par.update(alpha_search=True, alpha=grid)
    elif kind == "old":
        par.update(alpha_search=True, alphas=grid)
    elif kind == "auto":
        par.update(alpha_search=True, n_alphas=3)
    elif cv:
        par.update(cv=2, n_alphas=3)
        if rng.integers(2):
            par["alphas"] = [g for g in grid if g > 0]
    if c["min"] in ("min", "both"):
        par["min_alpha"] = 1e-7
    if c["min"] in ("ratio", "both"):
        par["min_alpha_ratio"] = 0.01
    lb = ub = None
    if c["bounds"] in ("lower", "both"):
        lb = rng.choice([-0.5, -0.1, 0.0, 0.1], size=p)
        par["lower_bounds"] = lb
    if c["bounds"] in ("upper", "both"):
        ub = rng.choice([0.1, 0.4, 0.5], size=p) if lb is not None else rng.choice([-0.1, 0.0, 0.1, 0.5], size=p)
        par["upper_bounds"] = ub
    first = np.zeros(p)
    if c["start"] != "none":
        lo = np.full(p, -0.4) if lb is None else lb
        hi = np.full(p, 0.5) if ub is None else ub
        hi = np.maximum(hi, lo)
        first = {"inside": (lo + hi) / 2, "low": lo - 0.1, "high": hi + 0.1, "on": np.where(rng.integers(2, size=p), lo, hi)}[c["start"]]
        par["start_params"] = np.r_[[0.1] * pb.fi, first]
    est = glum.GeneralizedLinearRegressorCV(**par) if cv else glum.GeneralizedLinearRegressor(**par)
    what = f"{kind}, bounds {c['bounds']}, start {c['start']}, {pb.fam}"
    try:
        with heard() as w1:
            est.fit(pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    except (ValueError, np.linalg.LinAlgError) as e:
        if any(t in str(e) for t in ("all zeros", "infs or NaNs", "No variation", "singular")):
            return
        raise
    ctx.label(kind, "bounds:" + c["bounds"], "start:" + c["start"])
    low, high = lb is not None and np.any(first < lb), ub is not None and np.any(first > ub)
    # exactly on a bound, rescaling may move a start value across by one ulp; a
    # column that is constant within a fold starts from zero there
    flat = cv and "binary" in c["cols"]
    if lb is None or low or np.all(first > lb) and not flat:
        expect(w1, LOWER, low, what)
    if ub is None or high or np.all(first < ub) and not flat:
        expect(w1, UPPER, high, what)
    automatic = kind == "auto" or cv and "alphas" not in par
    expect(w1, NO_RATIO, automatic and c["min"] == "both", what)
    expect(w1, NO_MIN, kind == "path" and c["min"] != "none", what)
    expect(w1, OLD, kind == "old", what)
    alpha = est.alpha_ if cv else grid[-1] if kind in ("path", "old") else 1.0 if kind == "auto" else pb.alpha if kind == "single" else 0
    if not np.all(np.isfinite(est.coef_)):
        return
    due = [low, high, kind == "old", alpha > 0]
    args = (pb.X, pb.y, pb.w, pb.off)
    try:
        with heard() as w2:
            est.covariance_matrix(*args)
        expect(w2, PENALISED, alpha > 0, what + f", alpha {alpha}: covariance")
        expect(w2, AGAIN, False, what + ": covariance")
        for i in range(2):
            with heard() as w3:
                est.std_errors(*args, store_covariance_matrix=True)
            expect(w3, PENALISED, alpha > 0, what + f", alpha {alpha}: standard errors")
            expect(w3, AGAIN, i == 1, what + f": covariance stored for the {i + 1}. time")
        with heard() as w4:
            est.covariance_matrix()
        expect(w4, AGAIN, False, what + ": stored covariance")
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
            raise
    if not cv and pb.off is None:
        for ic in ("aic", "aicc", "bic"):
            if ic == "aicc" and len(pb.y) <= p + 3:
                continue
            with heard() as w5:
                getattr(est, ic)(pb.X, pb.y, sample_weight=pb.w)
            # existing tests ask for the warning also when alpha is left at None
            if pb.l1 == 1 or kind == "single" or alpha > 0:
                expect(w5, RIDGE, alpha > 0 and pb.l1 < 1, f"{what}, alpha {alpha}, l1_ratio {pb.l1}: {ic}")
    ctx.mark(any(due))


@check("C34", cases(), quick=1500, rule="everything that is done with a well-posed problem (fit, path, cross-validation, prediction, score, covariance, coefficient table) is silent apart from the warnings that are due: no NumPy, pandas, SciPy or scikit-learn warnings leak out; non-trivial = converged on a well-conditioned problem")
def silent(c, ctx):
    import glum
    import pandas as pd
    from scipy import sparse

    c = dict(c, kind="cv" if c["kind"] == "cv" else "path" if c["kind"] == "path" else "single", signal=min(c["signal"], 0.3))
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 6)
    pb.alpha = max(pb.alpha, 0.01)
    par = pb.params(max_iter=500)
    par.pop("alpha")
    if c["kind"] == "single":
        par["alpha"] = pb.alpha
    elif c["kind"] == "path":
        par.update(alpha_search=True, alpha=[0.3, 0.1, 0.03])
    else:
        par.update(cv=2, alphas=[0.3, 0.1])
    store = rng.choice(["array", "frame", "categorical", "formula", "csc", "csr", "float32", "fortran"])
    frame = pd.DataFrame(pb.X, columns=[f"x{j}" for j in range(pb.p)])
    if store in ("categorical", "formula"):
        code = rng.permutation(np.arange(len(pb.y)) % 3)
        frame["g"] = pd.Categorical(code.astype(str), categories=["0", "1", "2"])
        if store == "categorical" and rng.integers(2):
            frame.loc[[0, 1, 2], "g"] = None
            par["cat_missing_method"] = rng.choice(["zero", "convert"])
        for k in ("P1", "P2"):
            par[k] = "identity"
        par["drop_first"] = bool(pb.fi)
        if store == "formula":
            par["formula"] = "~ " + " + ".join(frame.columns)
    X = {"array": pb.X, "csc": sparse.csc_matrix(pb.X), "csr": sparse.csr_matrix(pb.X), "float32": pb.X.astype(np.float32), "fortran": np.asfortranarray(pb.X)}.get(store, frame)
    est = glum.GeneralizedLinearRegressorCV(**par) if c["kind"] == "cv" else glum.GeneralizedLinearRegressor(**par)
    got = []
    step = "fit"
    try:
        with heard() as w:
            est.fit(X, pb.y, sample_weight=pb.w, offset=pb.off)
        got += [("fit",) + x for x in w]
        for step, f in [("predict", lambda: est.predict(X, offset=pb.off)), ("linear_predictor", lambda: est.linear_predictor(X)), ("score", lambda: est.score(X, pb.y, sample_weight=pb.w, offset=pb.off)),
                        ("covariance_matrix", lambda: est.covariance_matrix(X, pb.y, pb.w, pb.off)), ("coef_table", lambda: est.coef_table(X=X, y=pb.y, sample_weight=pb.w, offset=pb.off)), ("wald_test", lambda: est.wald_test(X=X, y=pb.y, sample_weight=pb.w, offset=pb.off, R=np.eye(len(est.coef_) + pb.fi)[:1])), ("get_formatted_diagnostics", lambda: est.get_formatted_diagnostics())]:
            with heard() as w:
                f()
            got += [(step,) + x for x in w if PENALISED not in x[1] and RIDGE not in x[1]]
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and all(t not in str(e) for t in ("infs or NaNs", "singular", "No variation")):
            raise
        return
    if any(x[1] == "ConvergenceWarning" for x in got):
        return  # judged by C28
    if store not in ("categorical", "formula"):
        k = conditioning(pb, est)
        if k is None or k < 1e-3:
            return
    else:
        g = code
        Z = np.column_stack([np.ones(len(pb.y)), pb.X, g == 1, g == 2])[slice(None) if pb.w is None else pb.w > 0]
        sd = Z[:, 1:].std(axis=0)
        if np.any(sd < 1e-6) or np.linalg.cond((Z[:, 1:] - Z[:, 1:].mean(axis=0)) / sd) > 1e3:
            return  # collinear columns
    eta = est.linear_predictor(X, offset=pb.off)
    if np.any(np.abs(eta) > 20):
        return
    ctx.label(c["kind"], pb.fam, store)
    if got:
        fail(f"{c['kind']}, {pb.fam}, {store}: {got}")
    ctx.mark()


@st.composite
def histories(draw):
    c = draw(G.problems(fams=FAMS[:5], min_n=15, max_n=30, max_p=3, weights=("none", "uniform"), cols=["normal", "uniform", "shifted"], l1=(0.0, 0.5), alphas=(0.0, 0.05)))
    c["steps"] = [(draw(st.sampled_from(["single", "zero", "none", "int", "path", "path to zero", "grid"])), draw(st.sampled_from(["plain", "robust", "nonrobust"])), draw(st.booleans())) for _ in range(draw(st.integers(2, 4)))]
    return c


@check("C34", histories(), quick=700, rule="one estimator refitted with other parameters, covariances stored and asked for in between, against a fresh estimator with the last parameters: the same warnings; non-trivial = the penalty changed from positive to zero or back")
def histories_agree(c, ctx):
    import glum

    pb = G.Problem(dict(c, P1="identity", P2="identity"))
    base = dict(family=make_family(pb.fam), link=pb.link, l1_ratio=pb.l1, fit_intercept=pb.fi, max_iter=200)
    if pb.off is not None or pb.l1:
        base["max_iter"] = 300
    used = glum.GeneralizedLinearRegressor(**base)
    kinds = []
    for kind, cov, store in c["steps"]:
        par = {"single": dict(alpha_search=False, alpha=0.1), "zero": dict(alpha_search=False, alpha=0.0), "none": dict(alpha_search=False, alpha=None), "int": dict(alpha_search=False, alpha=1),
               "path": dict(alpha_search=True, alpha=[0.5, 0.1]), "path to zero": dict(alpha_search=True, alpha=[0.5, 0.0]), "grid": dict(alpha_search=True, alpha=None, n_alphas=3)}[kind]
        used.set_params(**par)
        fresh = glum.GeneralizedLinearRegressor(**dict(base, **par))
        said = []
        for m in (used, fresh):
            try:
                with heard() as w1:
                    m.fit(pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
                with heard() as w2:
                    m.covariance_matrix(pb.X, pb.y, pb.w, pb.off, store_covariance_matrix=store, **({} if cov == "plain" else dict(robust=cov == "robust")))
                with heard() as w3:
                    m.covariance_matrix(pb.X, pb.y, pb.w, pb.off, store_covariance_matrix=store, robust=True)
                with heard() as w4:
                    if pb.off is None:
                        m.bic(pb.X, pb.y, sample_weight=pb.w)
            except (ValueError, np.linalg.LinAlgError) as e:
                if isinstance(e, ValueError) and all(t not in str(e) for t in ("infs or NaNs", "singular", "No variation")):
                    raise
                return
            said.append([[x for x in w if x[0] != "RuntimeWarning"] for w in (w1, w2, w3, w4)])
        kinds.append(kind in ("zero", "none", "path to zero"))
        if said[0] != said[1]:
            fail(f"after {[s[0] for s in c['steps'][: len(kinds)]]}: the reused estimator warns {said[0]}, a fresh one {said[1]}")
        expect(said[0][1], PENALISED, not kinds[-1], f"{kind}: covariance")
        expect(said[0][2], AGAIN, store, f"{kind}: covariance again, store={store}")
    ctx.mark(len(set(kinds)) > 1)
