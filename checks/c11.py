"""C11: every entry of a regularization path is a solution."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import sparse

from checks.c01 import kkt_check, saturated
from checks.common import conditioning, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

GRIDS = ["user", "user", "user", "auto", "auto_min", "unsorted", "single", "dup", "tiny"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX, min_n=6, max_n=40, alphas=(1.0,)), **kw}))
    c["grid"] = draw(st.sampled_from(GRIDS))
    c["k"] = draw(st.integers(2, 6))
    c["solver"] = draw(st.sampled_from(["auto", "auto", "irls-cd", "irls-ls", "lbfgs", "closed-form"]))
    c["start"] = draw(st.sampled_from([False, False, True]))
    c["store"] = draw(st.sampled_from(["dense", "csc", "pandas"]))
    c["depr"] = draw(st.sampled_from([False, False, False, True]))
    return c


class Row:
    """One row of the path as a model."""

    def __init__(self, b0, b):
        self.intercept_, self.coef_ = b0, b


def make(c, pb, rng, cv=False):
    import glum

    s = c["solver"]
    normal = pb.fam == "normal" and pb.link == "identity"
    if s == "closed-form" and not (normal and pb.l1 == 0):
        s = "auto"
    if pb.l1 > 0 and s in ("irls-ls", "lbfgs"):
        s = "irls-cd"
    par = pb.params(solver=s, gradient_tol=1e-8, max_iter=500)
    par.pop("alpha")
    k = c["k"]
    al = np.sort(np.exp(rng.uniform(np.log(2e-3), np.log(2.0), size=k)))[::-1]
    if c["grid"] == "unsorted":
        al = rng.permutation(al)
    if c["grid"] == "single":
        al = al[:1]
    if c["grid"] == "tiny":
        al = al * 1e-8
    if c["grid"] == "dup":
        al = np.r_[al[:1], al]
    if c["grid"].startswith("auto"):
        par.update(n_alphas=k)
        if c["grid"] == "auto_min":
            par["min_alpha"] = 1e-4
        else:
            par["min_alpha_ratio"] = 0.05
        if not cv:
            par["alpha"] = None
    elif cv or c["depr"]:
        par["alphas"] = list(al) if rng.integers(2) else al
    else:
        par["alpha"] = list(al) if rng.integers(2) else al
    if c["start"]:
        par["start_params"] = rng.normal(size=pb.p + pb.fi) * 0.2
    if cv:
        par["cv"] = 2
        return glum.GeneralizedLinearRegressorCV(**par), s, al
    return glum.GeneralizedLinearRegressor(alpha_search=True, **par), s, al


def fit(est, pb, X):
    try:
        return G.quiet_fit(est, X, pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and not any(t in str(e) for t in ("infs or NaNs", "ingular", "No variation", "min_alpha")):
            raise
        return None, False


def container(kind, X):
    if kind == "csc":
        return sparse.csc_matrix(X)
    if kind == "pandas":
        return pd.DataFrame(X, columns=[f"x{j}" for j in range(X.shape[1])])
    return X.copy()


def at(pb, alpha, m=None):
    """The same problem with the alpha of one path entry."""
    q = G.Problem(pb.c)
    q.alpha = float(alpha)
    return q


@check("C11", cases(), quick=1500, rule="fits with alpha_search over user grids (sorted, unsorted, repeated, single), automatic grids and start values: optimality of every row at its alpha, equality with a separate fit, last row = fitted model; non-trivial = at least two well-conditioned rows, one with a non-zero coefficient")
def rows(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 2)
    est, s, al = make(c, pb, rng)
    m, conv = fit(est, pb, container(c["store"], pb.X))
    ctx.label(f"grid:{c['grid']}", f"solver:{s}", f"converged:{conv}", f"fam:{pb.fam}")
    if m is None:
        return
    P, I = np.asarray(m.coef_path_), np.asarray(m.intercept_path_)
    alphas = np.asarray(m._alphas, float)
    if not c["grid"].startswith("auto") and not np.array_equal(alphas, al):
        fail(f"the path is for {alphas}, not for the given alphas {al}")
    if P.shape != (len(alphas), pb.p) or I.shape[0] != len(alphas):
        fail(f"coef_path_ has shape {P.shape}, intercept_path_ {I.shape} for {len(alphas)} alphas and {pb.p} features")
    if not (np.array_equal(P[-1], m.coef_) and np.array_equal(np.ravel(I)[-1], float(m.intercept_))):
        fail("coef_, intercept_ are not the last path entry")
    if not conv:
        return
    tol = max(1e-8 * (pb.p + 1), 1e-4) if s == "lbfgs" else 1e-8
    good = 0
    j = int(rng.integers(len(alphas)))
    for i, a in enumerate(alphas):
        q = at(pb, a)
        what = f"{pb.fam}/{pb.link}/{s}: entry {i} (alpha {a:.4g}) of the path over {alphas}"
        # lbfgs may stop on relative progress of the objective, whose curvature grows with alpha
        r = kkt_check(Row(np.ravel(I)[i], P[i]), q.objective(), tol * np.sqrt(1 + a) if s == "lbfgs" else tol, what)
        if r is None:
            continue
        kap = conditioning(q, Row(np.ravel(I)[i], P[i]))
        if kap is None:
            continue
        good += 1
        if i == j:
            par = q.params(solver=s if s != "closed-form" else "auto", gradient_tol=1e-8, max_iter=500)
            sep, c2 = fit(G.glr(**par), q, q.X)
            if c2:
                same(q, sep, np.ravel(I)[i], P[i], what + " against a separate fit", kappa=kap, extra=3e-5 if s == "lbfgs" else 1e-8)
    ctx.mark(good >= min(2, len(alphas)) and bool(np.any(P != 0)))


@check("C11", cases(fams=G.CONVEX, max_n=30), quick=1200, rule="predict and linear_predictor at every alpha and index, singly, as list, in random order and with repetitions, with offsets and weights, for paths and cross-validated models, from several containers; unknown, ambiguous and misused arguments are rejected; non-trivial = a path with two different rows")
def predictions(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 3)
    cv = rng.uniform() < 0.35 and len(pb.y) >= 8
    est, s, al = make(c, pb, rng, cv=cv)
    est.set_params(max_iter=25, gradient_tol=1e-6)  # the entries need not be optimal here
    m, conv = fit(est, pb, container(c["store"], pb.X))
    if m is None or not np.all(np.isfinite(m.coef_)):
        return
    alphas = np.asarray(m._alphas, float)
    if cv and not c["grid"].startswith("auto"):
        # the path of the cross-validated estimator is the alphas_ attribute
        if not np.array_equal(np.sort(np.ravel(m.alphas_)), np.sort(alphas)):
            fail(f"the refitted path is for {alphas}, alphas_ is {m.alphas_}")
    if cv:
        E, Z = np.eye(pb.p), np.zeros((1, pb.p))
        I = np.array([float(m.linear_predictor(Z, alpha_index=i)[0]) for i in range(len(alphas))])
        P = np.array([m.linear_predictor(E, alpha_index=i) - I[i] for i in range(len(alphas))])
        best = min(np.flatnonzero(alphas == m.alpha_), key=lambda i: np.abs(P[i] - m.coef_).max())  # (repeated alphas)
        O.assert_close(P[best], m.coef_, rtol=1e-9, atol=1e-12, scale=1 + abs(I[best]) + np.abs(P[best]).max(), what="coefficients at the selected alpha")
    else:
        P, I = np.asarray(m.coef_path_), np.ravel(m.intercept_path_)
    if not np.all(np.isfinite(P)):
        return
    nn = int(rng.integers(1, 8))
    nn = len(alphas) if rng.uniform() < 0.3 else nn
    Xn = rng.normal(size=(nn, pb.p))
    off = rng.normal(size=nn) if rng.integers(2) else None
    w = rng.uniform(0.5, 2, size=nn) if rng.integers(2) else None
    want = Xn @ P.T + I + (0 if off is None else off[:, None])
    scale = (np.abs(Xn) @ np.abs(P.T) + np.abs(I) + 1).max()
    Xs = container(c["store"], Xn)
    link = m.link_instance

    def ask(what, cols, **kw):
        eta = np.asarray(m.linear_predictor(Xs, offset=off, **kw))
        target = want[:, cols]
        if eta.shape != target.shape:
            fail(f"linear_predictor({what}) has shape {eta.shape}, expected {target.shape}")
        O.assert_close(eta, target, rtol=1e-10, atol=0, scale=scale, what=f"linear_predictor({what})")
        mu = np.asarray(m.predict(Xs, sample_weight=w, offset=off, **kw))
        with np.errstate(all="ignore"):
            tm = link.inverse(target)
            tm = tm if w is None else tm * (w if target.ndim == 1 else w[:, None])
        if mu.shape != tm.shape:
            fail(f"predict({what}) has shape {mu.shape}, expected {tm.shape}")
        ok = np.isfinite(tm) & (np.abs(target) < 50)
        O.assert_close(mu[ok], tm[ok], rtol=1e-8, atol=1e-300, scale=None, what=f"predict({what})")

    uniq = np.array([i for i in range(len(alphas)) if np.sum(np.isclose(alphas, alphas[i], rtol=2e-5, atol=0)) == 1], int)
    for i in range(len(alphas)):
        ask(f"alpha_index={i}", i, alpha_index=i)
    for i in uniq:
        ask(f"alpha={alphas[i]!r}", i, alpha=float(alphas[i]))
    idx = rng.integers(0, len(alphas), size=int(rng.integers(1, 5)))
    ask(f"alpha_index={idx.tolist()}", idx, alpha_index=idx.tolist())
    ask(f"alpha_index=array {idx}", idx, alpha_index=idx)
    if len(uniq):
        idx = rng.choice(uniq, size=int(rng.integers(1, 5)))
        ask(f"alpha={alphas[idx].tolist()}", idx, alpha=alphas[idx].tolist())
        ask(f"alpha=array {alphas[idx]}", idx, alpha=alphas[idx])
    last = len(alphas) - 1 if not cv else best
    ask("", last)
    # misuse
    bad = float(np.exp(rng.normal()) * 3 + alphas.max() * 1.01) if rng.integers(2) else float(alphas[0] * (1 + rng.choice([-1, 1]) * 0.01))
    tests = [("unknown alpha", dict(alpha=bad if not np.any(np.isclose(alphas, bad, rtol=1e-3, atol=0)) else alphas.max() * 7)), ("alpha and alpha_index", dict(alpha=float(alphas[0]), alpha_index=0)),
             ("alpha_index out of range", dict(alpha_index=len(alphas) + int(rng.integers(3)))), ("unknown alpha in a list", dict(alpha=[float(alphas[0]), alphas.max() * 7]))]
    for name, kw in tests:
        for f in (m.linear_predictor, m.predict):
            try:
                f(Xs, **kw)
            except (ValueError, IndexError, KeyError, TypeError):
                continue
            fail(f"{name} ({kw}) accepted by {f.__name__} of a path over {alphas}")
    ctx.label(f"cv:{cv}", f"grid:{c['grid']}", f"nn==k:{nn == len(alphas)}", f"store:{c['store']}")
    ctx.mark(len(alphas) > 1 and not np.allclose(P[0], P[-1]))
    if not cv:
        one, ok = fit(G.glr(**pb.params(alpha=float(alphas[0]), max_iter=20)), pb, pb.X)
        if one is not None:
            for kw in (dict(alpha=float(alphas[0])), dict(alpha_index=0)):
                try:
                    one.predict(pb.X, **kw)
                except ValueError:
                    continue
                fail(f"{kw} accepted by predict of a model without a path")
