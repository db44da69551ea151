"""C10: offsets act as a fixed part of the linear predictor."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.common import conditioning, fit, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints"]
TW = [("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log"), ("tweedie:1.2", "log"), ("igauss", "log"), ("tweedie:2", "log"), ("tweedie:1", "log"), ("normal", "identity"), ("tweedie:0", "identity"), ("tweedie:2.5", "log")]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX + [("igauss", "log"), ("ghs", "identity"), ("normal", "log")], cols=COLS, min_n=8, offsets=(True,), weights=("none", "uniform", "ints")), **kw}))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd", "irls-ls", "lbfgs", "trust-constr"]))
    if c["alpha"] * c["l1"] > 0 and c["solver"] in ("irls-ls", "lbfgs", "trust-constr"):
        c["solver"] = "auto"
    if c["solver"] == "trust-constr" and (c["fam"], c["link"]) not in G.CONVEX:
        # its step-size stop can end far from stationarity without convexity
        c["solver"] = "irls-ls"
        c["l1"] = 0.0
    c["wide"] = draw(st.booleans())
    return c


def prob(c):
    pb = G.Problem(c)
    if c["wide"]:
        pb.off = pb.off * 2
    return pb


def kwargs(c):
    if c["solver"] == "trust-constr":
        return dict(solver="trust-constr", max_iter=1000)
    return dict(solver=c["solver"])


def ext(c):
    return 3e-6 if c["solver"] == "trust-constr" else 5e-7 if c["solver"] == "lbfgs" else 1e-8


@check("C10", cases(intercept=(True,)), quick=2000, rule="offset shifted by a constant (array, scalar, list or Series): only the intercept moves, predictions, score and covariance stay; a zero offset equals none; non-trivial = both fits converged")
def shift(c, ctx):
    pb = prob(c)
    kw = kwargs(c)
    rng = np.random.default_rng(c["seed"] + 1)
    m, c1 = fit(pb, **kw)
    k = float(rng.choice([-1.0, -0.25, 0.5, 2.0]))
    n, c2 = fit(pb, off=pb.off + k, **kw)
    what = f"{pb.fam}/{pb.link}/{c['solver']} with offset shifted by {k}"
    ctx.label(f"solver:{c['solver']}", f"fam:{pb.fam}")
    if c1 and c2 and same(pb, m, n.intercept_ + k, n.coef_, what, extra=ext(c)):
        ctx.mark()
        kap = conditioning(pb, m)
        if kap > 1e-3:
            a, b = m.score(pb.X, pb.y, sample_weight=pb.w, offset=pb.off), n.score(pb.X, pb.y, sample_weight=pb.w, offset=pb.off + k)
            O.assert_close(b, a, rtol=1e-4, atol=1e-4, what=what + ": score")
            O.assert_close(n.linear_predictor(pb.X, offset=pb.off + k), m.linear_predictor(pb.X, offset=pb.off), rtol=1e-4, atol=1e-4, what=what + ": linear predictor")
    # no offset / zero offset / scalar offset
    a, ca = fit(pb, off=None, **kw)
    for z, nm in ((np.zeros(len(pb.y)), "zero"), (k, "scalar"), (np.full(len(pb.y), k).tolist(), "constant list"), (pd.Series(np.full(len(pb.y), k)), "constant Series"), (0, "integer zero")):
        if rng.uniform() < 0.5:
            continue
        b, cb = fit(pb, off=z, **kw)
        kk = k if nm not in ("zero", "integer zero") else 0.0
        if ca and cb:
            same(pb_no(pb), a, b.intercept_ + kk, b.coef_, f"{pb.fam}/{pb.link}/{c['solver']} with a {nm} offset", extra=ext(c))


def pb_no(pb):
    import copy

    q = copy.copy(pb)
    q.off = None
    return q


@check("C10", cases(), quick=1500, rule="offset against an extra column holding it whose coefficient is pinned to one by bounds; non-trivial = both fits converged")
def pinned_feature(c, ctx):
    pb = prob(c)
    kw = dict(solver="irls-cd")
    m, c1 = fit(pb, **kw)
    X2 = np.column_stack([pb.X, pb.off])
    P1 = np.ones(pb.p) if pb.P1 is None else pb.P1
    P2 = np.ones(pb.p) if pb.P2 is None else pb.P2
    kw.update(P1=np.append(P1, 0.0), P2=np.append(P2, 0.0) if P2.ndim == 1 else np.block([[P2, np.zeros((pb.p, 1))], [np.zeros((1, pb.p + 1))]]))
    kw.update(lower_bounds=np.append(np.full(pb.p, -np.inf), 1.0), upper_bounds=np.append(np.full(pb.p, np.inf), 1.0))
    n, c2 = fit(pb, X=X2, off=None, **kw)
    ctx.label(f"fam:{pb.fam}", f"conv:{c1}:{c2}")
    if c1 and c2 and (conditioning(pb, m) or 0) > 1e-4:
        O.assert_close(n.coef_[-1], 1.0, rtol=1e-9, what="pinned coefficient")
        if same(pb, m, n.intercept_, n.coef_[:-1], f"{pb.fam}/{pb.link} with the offset as a pinned feature"):
            ctx.mark()


@check("C10", cases(fams=TW, scale=(False,)), quick=2000, rule="log link: offset log(e) against response y/e with weights w e^(2-p) (and alpha rescaled by the change of total weight); identity Gaussian: y - offset; non-trivial = both fits converged")
def transformation(c, ctx):
    pb = prob(c)
    kw = kwargs(c)
    m, c1 = fit(pb, **kw)
    p = O.tweedie_power(pb.fam)
    w = np.ones(len(pb.y)) if pb.w is None else pb.w
    if pb.link == "identity":
        y2, w2 = pb.y - pb.off, w
    else:
        e = np.exp(pb.off)
        y2, w2 = pb.y / e, w * e ** (2 - p)
    n, c2 = fit(pb, y=y2, w=w2, off=None, alpha=pb.alpha * w.sum() / w2.sum(), gradient_tol=1e-9, **kw)
    ctx.label(f"fam:{pb.fam}", f"solver:{c['solver']}", f"conv:{c1}:{c2}")
    if c1 and c2 and same(pb, m, n.intercept_, n.coef_, f"{pb.fam}/{pb.link}/{c['solver']} with the response divided by exposure", extra=5e-6 if c["solver"] != "irls-cd" else 1e-7):
        ctx.mark()


@check("C10", cases(fams=[("poisson", "log"), ("gamma", "log"), ("normal", "identity"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1.0", "log")], alphas=(0.0,), min_n=15, max_p=3, intercept=(True,), P1s=("identity",), P2s=("identity",)), quick=600,
       rule="covariance matrices (non-robust, robust, clustered; expected or observed), stored and recomputed, with the offset shifted by a constant or turned into the transformed response; non-trivial = fits converged")
def covariance(c, ctx):
    pb = prob(c)
    if G.rank_deficient(pb, False):
        return
    kw = dict(solver="irls-ls")
    rng = np.random.default_rng(c["seed"] + 2)
    m, c1 = fit(pb, **kw)
    k = float(rng.choice([-0.5, 1.0]))
    n, c2 = fit(pb, off=pb.off + k, **kw)
    if not (c1 and c2) or (conditioning(pb, m) or 0) < 1e-3:
        return
    rob, exp = bool(rng.integers(2)), bool(rng.integers(2))
    kk = dict(clusters=rng.integers(0, 5, size=len(pb.y))) if rng.integers(2) and rob else {}
    A = m.covariance_matrix(pb.X, pb.y, sample_weight=pb.w, offset=pb.off, robust=rob, expected_information=exp, **kk)
    B = n.covariance_matrix(pb.X, pb.y, sample_weight=pb.w, offset=pb.off + k, robust=rob, expected_information=exp, **kk)
    sc = np.sqrt(np.outer(np.diag(np.abs(A)), np.diag(np.abs(A))))
    O.assert_close(B, A, rtol=2e-4, atol=1e-12, scale=sc, what=f"{pb.fam}: covariance with a shifted offset (robust={rob}, expected={exp})")
    ctx.mark()
    # explicit offset in the data against mu given by it
    mu = m.predict(pb.X, offset=pb.off)
    C = m.covariance_matrix(pb.X, pb.y, mu=mu, sample_weight=pb.w, offset=pb.off, robust=rob, expected_information=exp, **kk)
    O.assert_close(C, A, rtol=1e-8, scale=sc, atol=1e-14, what=f"{pb.fam}: covariance at an explicit mu")
    O.assert_close(m.std_errors(pb.X, pb.y, sample_weight=pb.w, offset=pb.off, robust=rob, expected_information=exp, **kk), np.sqrt(np.diag(A)), rtol=1e-8, what="std_errors with offset")
    ctx.label(f"fam:{pb.fam}", f"robust:{rob}")


@check("C10", cases(fams=[("poisson", "log"), ("gamma", "log"), ("normal", "identity"), ("binomial", "logit")], min_n=24, max_p=3, intercept=(True,), alphas=(0.1,), l1=(0.0, 0.5, 1.0)), quick=250,
       rule="regularization path (given or automatic alphas) and cross-validation with the offset shifted by a constant: same alphas, coefficients, deviances and choice; non-trivial = both converged")
def path_and_cv(c, ctx):
    import glum

    pb = prob(c)
    rng = np.random.default_rng(c["seed"] + 3)
    k = float(rng.choice([-0.5, 1.0]))
    cv = bool(rng.integers(2))
    par = pb.params(gradient_tol=1e-8, max_iter=300)
    par.pop("alpha")
    auto = bool(rng.integers(2))
    grid = dict(n_alphas=5, min_alpha_ratio=1e-2) if auto else dict()
    if cv:
        if not auto:
            grid["alphas"] = [0.5, 0.05, 0.01]
        par.update(cv=3, **grid)
        mk = lambda: glum.GeneralizedLinearRegressorCV(**par)
    else:
        if not auto:
            grid["alpha"] = [0.5, 0.05, 0.01]
        par.update(alpha_search=True, **grid)
        mk = lambda: glum.GeneralizedLinearRegressor(**par)
    out = []
    for o in (pb.off, pb.off + k):
        try:
            m, conv = G.quiet_fit(mk(), pb.X, pb.y, sample_weight=pb.w, offset=o)
        except (np.linalg.LinAlgError, ValueError) as e:
            if "infs or NaNs" in str(e) or "No variation" in str(e) or "singular" in str(e).lower():
                return
            raise
        if not conv:
            return
        out.append(m)
    a, b = out
    what = f"{pb.fam} {'CV' if cv else 'path'} with offset shifted by {k}"
    O.assert_close(b._alphas if not cv else b.alphas_, a._alphas if not cv else a.alphas_, rtol=1e-6, what=what + ": alphas")
    ctx.label(f"cv:{cv}", f"auto:{auto}", f"fam:{pb.fam}")
    if cv:
        d = np.asarray(a.deviance_path_)
        if not np.all(np.isfinite(d)) or np.abs(d).max() > 1e3:
            return
        O.assert_close(b.deviance_path_, d, rtol=1e-3, atol=1e-3, what=what + ": held-out deviances")
        if a.alpha_ != b.alpha_:
            ctx.label("tie")
            return
    kap = conditioning(pb, a)
    if kap and kap > 1e-3:
        same(pb, a, b.intercept_ + k, b.coef_, what, kappa=kap, extra=1e-6)
        if not cv:
            for i in range(len(a.coef_path_)):
                O.assert_close(b.coef_path_[i], a.coef_path_[i], rtol=1e-4, atol=1e-4, what=what + f": path entry {i}")
            O.assert_close(b.intercept_path_ + k, a.intercept_path_, rtol=1e-4, atol=1e-4, what=what + ": intercepts")
    ctx.mark()
