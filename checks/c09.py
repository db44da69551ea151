"""C09: sample weights act as documented."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import make_bounds
from checks.common import conditioning, fit, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX + [("igauss", "log"), ("ghs", "identity")], cols=COLS, min_n=8, weights=("ints", "uniform", "none")), **kw}))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd", "irls-ls", "lbfgs"]))
    c["bounds"] = draw(st.sampled_from([None, None, None, "nonneg", "mixed"]))
    if c["alpha"] * c["l1"] > 0 and c["solver"] in ("irls-ls", "lbfgs"):
        c["solver"] = "auto"
    if c["bounds"]:
        c["solver"] = "irls-cd"
    c["k"] = draw(st.sampled_from([1e-6, 0.1, 7.0, 1234.5, 1e5]))
    return c


def kwargs(c, pb):
    kw = dict(solver=c["solver"])
    if c["bounds"]:
        lb, ub = make_bounds(np.random.default_rng(c["seed"] + 5), c["bounds"], pb.p)
        pb.lb, pb.ub = lb, ub
        kw.update(lower_bounds=lb, upper_bounds=ub)
    return kw


def ext(kw, v=1e-8):
    return 5e-7 if kw["solver"] == "lbfgs" else v


@check("C09", cases(), quick=3000, rule="weights multiplied by a constant between 1e-6 and 1e5: same model and score; a scalar weight or unit weights equal no weights; non-trivial = both fits converged")
def scaling(c, ctx):
    pb = G.Problem(c)
    kw = kwargs(c, pb)
    m, c1 = fit(pb, **kw)
    w = c["k"] * (np.ones(len(pb.y)) if pb.w is None else pb.w)
    n, c2 = fit(pb, w=w, **kw)
    what = f"{pb.fam}/{pb.link}/{kw['solver']} with weights times {c['k']}"
    ctx.label(f"w:{c['w']}", f"k:{c['k']}", f"solver:{c['solver']}")
    if c1 and c2 and same(pb, m, n.intercept_, n.coef_, what, extra=ext(kw)):
        ctx.mark()
        a, b = m.score(pb.X, pb.y, sample_weight=pb.w, offset=pb.off), n.score(pb.X, pb.y, sample_weight=w, offset=pb.off)
        O.assert_close(b, a, rtol=1e-4, atol=1e-4 / min(1, conditioning(pb, m)), what=what + ": score")
    if pb.w is None:
        n, c2 = fit(pb, w=c["k"], **kw)
        if c1 and c2:
            same(pb, m, n.intercept_, n.coef_, f"scalar weight {c['k']}", extra=ext(kw))


@check("C09", cases(weights=("zeros", "ints", "uniform", "none")), quick=2500, rule="rows with weight zero (with arbitrary other contents) against the data without them, in fit, score and covariance; non-trivial = both fits converged")
def zero_weights(c, ctx):
    pb = G.Problem(c)
    kw = kwargs(c, pb)
    rng = np.random.default_rng(c["seed"] + 2)
    k = int(rng.integers(1, 4))
    at = np.sort(rng.integers(0, len(pb.y) + 1, size=k))
    w0 = np.ones(len(pb.y)) if pb.w is None else pb.w
    Xz = np.insert(pb.X, at, rng.normal(size=(k, pb.p)) * 2, axis=0)
    yz = np.insert(pb.y, at, rng.choice(pb.y, size=k) if pb.fam != "normal" else rng.normal(size=k))
    wz = np.insert(w0, at, 0.0)
    oz = None if pb.off is None else np.insert(pb.off, at, rng.normal(size=k))
    keep = w0 > 0
    m, c1 = fit(pb, X=pb.X[keep], y=pb.y[keep], w=w0[keep], off=None if pb.off is None else pb.off[keep], **kw)
    n, c2 = fit(pb, X=Xz, y=yz, w=wz, off=oz, **kw)
    what = f"{pb.fam}/{pb.link}/{kw['solver']} with zero-weight rows"
    ctx.label(f"solver:{c['solver']}", f"fam:{pb.fam}")
    if c1 and c2 and same(pb, m, n.intercept_, n.coef_, what, extra=ext(kw)):
        ctx.mark()
        a = m.score(pb.X[keep], pb.y[keep], sample_weight=w0[keep], offset=None if pb.off is None else pb.off[keep])
        b = m.score(Xz, yz, sample_weight=wz, offset=oz)
        O.assert_close(b, a, rtol=1e-8, atol=1e-9, what=what + ": score")


@check("C09", cases(weights=("ints",)), quick=2500, rule="integer weights against repeated rows, in fit, score, dispersion, deviance; non-trivial = both fits converged and some weight exceeds one")
def repetition(c, ctx):
    pb = G.Problem(c)
    kw = kwargs(c, pb)
    q = np.repeat(np.arange(len(pb.y)), pb.w.astype(int))
    off = None if pb.off is None else pb.off[q]
    wi = pb.w.astype(int) if c["k"] > 1 else pb.w  # integer dtype as well
    m, c1 = fit(pb, w=wi, **kw)
    n, c2 = fit(pb, X=pb.X[q], y=pb.y[q], w=None, off=off, **kw)
    what = f"{pb.fam}/{pb.link}/{kw['solver']} with repeated rows"
    ctx.label(f"solver:{c['solver']}", f"fam:{pb.fam}")
    if c1 and c2 and same(pb, m, n.intercept_, n.coef_, what, extra=ext(kw)):
        ctx.mark(pb.w.max() > 1)
        O.assert_close(m.score(pb.X[q], pb.y[q], offset=off), m.score(pb.X, pb.y, sample_weight=wi, offset=pb.off), rtol=1e-8, atol=1e-9, what=what + ": score")
        f = O.make_family(pb.fam)
        mu = m.predict(pb.X, offset=pb.off)
        O.assert_close(f.deviance(pb.y[q], mu[q]), f.deviance(pb.y, mu, wi), rtol=1e-8, atol=1e-8, what=what + ": deviance")
        O.assert_close(f.dispersion(pb.y[q], mu[q], ddof=2), f.dispersion(pb.y, mu, wi, ddof=2), rtol=1e-8, atol=1e-8, what=what + ": dispersion")


@check("C09", cases(weights=("ints", "uniform", "none"), max_n=30), quick=2000, rule="rows with the same features and offset but different responses against one row with the summed weight and the weighted mean response: same model, also along a path of alphas; non-trivial = both fits converged and some rows were merged")
def aggregation(c, ctx):
    pb = G.Problem(c)
    kw = kwargs(c, pb)
    rng = np.random.default_rng(c["seed"] + 8)
    n = len(pb.y)
    q = np.sort(np.r_[np.arange(n), rng.integers(0, n, size=n)])
    w = np.ones(n) if pb.w is None else pb.w
    wq = w[q] * rng.choice([0.5, 1.0, 2.0], size=2 * n)
    yq = pb.y[q].copy()
    swap = rng.random(2 * n) < 0.5
    yq[swap] = rng.choice(pb.y, size=2 * n)[swap]
    W = np.bincount(q, weights=wq)
    Y = np.bincount(q, weights=wq * yq) / W
    path = c["k"] > 100 and not c["bounds"] and (c["solver"] not in ("lbfgs", "irls-ls") or c["l1"] == 0 and c["solver"] != "lbfgs")
    if path:
        kw.update(alpha_search=True, alpha=[1.0, 0.1, c["alpha"] if 0 < c["alpha"] < 0.1 else 0.02])
    order = rng.permutation(2 * n)
    pb.X, pb.y, pb.w, off = pb.X, Y, W, pb.off
    m, c1 = fit(pb, **kw)
    f, c2 = fit(pb, X=pb.X[q][order], y=yq[order], w=wq[order], off=None if off is None else off[q][order], **kw)
    what = f"{pb.fam}/{pb.link}/{kw['solver']} with rows merged by their features"
    ctx.label(f"solver:{c['solver']}", f"fam:{pb.fam}", f"path:{path}")
    if not (c1 and c2):
        return
    if path:
        last = O_path(pb, kw["alpha"][-1])
        if same(last, m, f.intercept_, f.coef_, what, extra=ext(kw)):
            ctx.mark()
    elif same(pb, m, f.intercept_, f.coef_, what, extra=ext(kw)):
        ctx.mark()


def O_path(pb, alpha):
    """The problem at another alpha, for judging the last entry of a path."""
    import copy

    q = copy.copy(pb)
    q.c = dict(pb.c, alpha=alpha)
    q.alpha = alpha
    return q


@check("C09", cases(weights=("ints",), alphas=(0.0,), min_n=15, max_n=60, max_p=3, fams=[("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1.0", "log")],
                    P1s=("identity",), P2s=("identity",)), quick=800,
       rule="covariance (non-robust, expected or observed) and standard errors of unpenalised fits with integer weights against repeated rows, and zero-weight rows against their absence for all estimators; non-trivial = both fits converged")
def covariance(c, ctx):
    pb = G.Problem(dict(c, bounds=None))
    if G.rank_deficient(pb, False):
        return
    kw = dict(solver="auto" if c["solver"] == "lbfgs" else c["solver"])
    rng = np.random.default_rng(c["seed"] + 2)
    q = np.repeat(np.arange(len(pb.y)), pb.w.astype(int))
    m, c1 = fit(pb, **kw)
    if not (c1 and (conditioning(pb, m) or 0) > 1e-4):
        return
    exp = bool(rng.integers(2))
    a = m.covariance_matrix(pb.X, pb.y, sample_weight=pb.w, offset=pb.off, robust=False, expected_information=exp)
    b = m.covariance_matrix(pb.X[q], pb.y[q], offset=None if pb.off is None else pb.off[q], robust=False, expected_information=exp)
    sc = np.sqrt(np.outer(np.diag(np.abs(b)), np.diag(np.abs(b))))
    O.assert_close(a, b, rtol=1e-6, atol=1e-10, scale=sc, what=f"{pb.fam}: covariance with integer weights against repeated rows (expected_information={exp})")
    # zero weights
    k = 3
    at = rng.integers(0, len(pb.y) + 1, size=k)
    Xz, yz, wz = np.insert(pb.X, at, rng.normal(size=(k, pb.p)), axis=0), np.insert(pb.y, at, rng.choice(pb.y, size=k)), np.insert(pb.w, at, 0.0)
    oz = None if pb.off is None else np.insert(pb.off, at, 0.1)
    for rob, cl in ((False, False), (True, False), (True, True)):
        kk, kz = {}, {}
        if cl:
            g = rng.integers(0, 6, size=len(pb.y))
            kk, kz = dict(clusters=g), dict(clusters=np.insert(g, at, g[0]))
        a = m.covariance_matrix(pb.X, pb.y, sample_weight=pb.w, offset=pb.off, robust=rob, expected_information=exp, **kk)
        b = m.covariance_matrix(Xz, yz, sample_weight=wz, offset=oz, robust=rob, expected_information=exp, **kz)
        O.assert_close(b, a, rtol=1e-6, atol=1e-10, scale=np.sqrt(np.outer(np.diag(np.abs(a)), np.diag(np.abs(a)))), what=f"{pb.fam}: covariance (robust={rob}, clusters={cl}) with zero-weight rows added")
    ctx.mark()
    ctx.label(f"fam:{pb.fam}", f"expected:{exp}")


@check("C09", cases(weights=("uniform", "ints", "wide"), fams=[("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit")], min_n=24, max_p=3), quick=200,
       rule="cross-validation: weights times a constant (within and across folds) leave deviances, chosen alpha and model unchanged; non-trivial = a model was selected")
def cv(c, ctx):
    import glum

    pb = G.Problem(c)
    par = pb.params()
    par.pop("alpha")
    par.update(l1_ratio=pb.l1, alphas=[1.0, 0.1, 0.01], cv=3, gradient_tol=1e-8, max_iter=300)
    out = []
    for k in (1.0, c["k"]):
        try:
            m, conv = G.quiet_fit(glum.GeneralizedLinearRegressorCV(**par), pb.X, pb.y, sample_weight=pb.w * k, offset=pb.off)
        except (np.linalg.LinAlgError, ValueError) as e:
            if "infs or NaNs" in str(e) or "No variation" in str(e) or "singular" in str(e).lower():
                return
            raise
        if not conv:
            return
        out.append(m)
    a, b = out
    d = np.asarray(a.deviance_path_)
    if not np.all(np.isfinite(d)) or np.abs(d).max() > 1e3:
        return
    O.assert_close(b.deviance_path_, d, rtol=1e-3, atol=1e-3, what=f"{pb.fam}: held-out deviances with weights times {c['k']}")
    if a.alpha_ != b.alpha_:
        # a genuine tie may flip
        mean = np.sort(d.reshape(3, -1).mean(0) if d.shape[0] == 3 else d.mean(tuple(range(d.ndim - 1))).ravel())
        O.assert_true(mean[1] - mean[0] < 1e-3, f"{pb.fam}: chosen alpha {b.alpha_} instead of {a.alpha_} with weights times {c['k']}")
        return
    k = conditioning(pb, a)
    if k and k > 1e-3:
        same(pb, a, b.intercept_, b.coef_, f"CV {pb.fam} with weights times {c['k']}", kappa=k, extra=1e-6)
    ctx.mark()


@check("C09", cases(weights=("none",), min_n=15, max_n=40, max_p=3, alphas=(0.0, 0.01, 0.1)), quick=500,
       rule="one number as the weight of every row against the vector repeating it, in everything that takes weights (fit with stored covariance, cross-validation, score, covariances of all kinds, standard errors, Wald test, coefficient table); non-trivial = converged")
def scalar(c, ctx):
    import warnings

    import glum

    pb = G.Problem(c)
    k = float(c["k"]) if 1e-3 <= c["k"] <= 1e3 else 2.5
    k = k if c["seed"] % 3 else int(k + 1)
    n = len(pb.y)
    vec = np.full(n, float(k))
    par = pb.params(gradient_tol=1e-6, max_iter=300)
    ctx.label(pb.fam, f"type:{type(k).__name__}")

    def answers(w):
        out = {}
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            m, ok = G.quiet_fit(glum.GeneralizedLinearRegressor(**par), pb.X, pb.y, sample_weight=w, offset=pb.off)
            if not ok:
                return None
            out["coef_"], out["intercept_"] = m.coef_, m.intercept_
            out["score"] = m.score(pb.X, pb.y, sample_weight=w, offset=pb.off)
            for kw in (dict(robust=False), dict(robust=False, expected_information=True), dict(robust=True), dict(clusters=np.arange(n) % 5)):
                out[f"covariance {sorted(kw)}"] = m.covariance_matrix(pb.X, pb.y, w, pb.off, **kw)
            out["std_errors"] = m.std_errors(pb.X, pb.y, w, pb.off)
            R = np.eye(pb.p + pb.fi)[:1]
            out["wald"] = m.wald_test(R=R, X=pb.X, y=pb.y, sample_weight=w, offset=pb.off).test_statistic
            out["table"] = m.coef_table(X=pb.X, y=pb.y, sample_weight=w, offset=pb.off).to_numpy()
            s = glum.GeneralizedLinearRegressor(**par).fit(pb.X, pb.y, sample_weight=w, offset=pb.off, store_covariance_matrix=True)
            out["stored covariance"] = s.covariance_matrix()
            if c["seed"] % 4 == 0:
                q = {a: b for a, b in par.items() if a != "alpha"}
                v = glum.GeneralizedLinearRegressorCV(alphas=[0.5, 0.05], cv=3, **q).fit(pb.X, pb.y, sample_weight=w, offset=pb.off)
                out["deviance_path_"], out["CV coef_"], out["alpha_"] = v.deviance_path_, v.coef_, v.alpha_
        return out

    try:
        a, b = answers(vec), answers(k)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and all(t not in str(e) for t in ("infs or NaNs", "No variation", "singular")):
            raise
        return
    if a is None or b is None:
        if (a is None) != (b is None):
            fail(f"{pb.fam}: weights of {k} for all rows converge as {'a vector' if a else 'a number'} only")
        return
    for name in a:
        O.assert_close(np.asarray(b[name], float), np.asarray(a[name], float), rtol=1e-9, atol=1e-12 * (1 + np.nanmax(np.abs(np.asarray(a[name], float)), initial=0)), what=f"{pb.fam}/{pb.link}: {name} with the weight {k} as a number")
    ctx.mark()
