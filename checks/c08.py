"""C08: fits are equivariant under row, column and unit changes."""
import numpy as np
from hypothesis import strategies as st

from checks.c03 import make_bounds
from checks.common import conditioning, fit, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX + [("ghs", "identity"), ("igauss", "log")], cols=COLS, min_n=8), **kw}))
    c["bounds"] = draw(st.sampled_from([None, None, "mixed", "nonneg", "box"]))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd", "irls-ls", "lbfgs"]))
    return c


def setup(c):
    pb = G.Problem(c)
    kw = {}
    s = c["solver"]
    if pb.alpha * pb.l1 > 0 and s in ("irls-ls", "lbfgs"):
        s = "auto"
    lb = ub = None
    if c["bounds"]:
        lb, ub = make_bounds(np.random.default_rng(c["seed"] + 5), c["bounds"], pb.p)
        pb.lb, pb.ub = lb, ub
        kw.update(lower_bounds=lb, upper_bounds=ub)
        s = "irls-cd"
    kw["solver"] = s
    return pb, kw, lb, ub


def tolerance(kw):
    return dict(tol=1e-8, extra=3e-7 if kw["solver"] == "lbfgs" else 1e-8)


@check("C08", cases(), quick=2500, rule="rows (with weights and offset) permuted; non-trivial = both fits converged to a finite model on a non-identity permutation")
def rows(c, ctx):
    pb, kw, *_ = setup(c)
    m, c1 = fit(pb, **kw)
    q = np.random.default_rng(c["seed"] + 1).permutation(len(pb.y))
    n, c2 = fit(pb, X=pb.X[q], y=pb.y[q], w=None if pb.w is None else pb.w[q], off=None if pb.off is None else pb.off[q], **kw)
    if c1 and c2 and same(pb, m, n.intercept_, n.coef_, f"{pb.fam}/{pb.link}/{kw['solver']} with permuted rows", **tolerance(kw)):
        ctx.mark(np.any(q != np.arange(len(q))))
    ctx.label(f"solver:{kw['solver']}", f"conv:{c1 and c2}")


@check("C08", cases(min_p=2), quick=2500, rule="columns permuted with penalties and bounds; non-trivial = both fits converged to a finite model on a non-identity permutation")
def columns(c, ctx):
    pb, kw, lb, ub = setup(c)
    m, c1 = fit(pb, **kw)
    q = np.random.default_rng(c["seed"] + 2).permutation(pb.p)
    kw2 = dict(kw)
    if pb.P1 is not None:
        kw2["P1"] = pb.P1[q]
    if pb.P2 is not None:
        kw2["P2"] = pb.P2[q] if pb.P2.ndim == 1 else pb.P2[np.ix_(q, q)]
    if lb is not None:
        kw2.update(lower_bounds=lb[q], upper_bounds=ub[q])
    n, c2 = fit(pb, X=pb.X[:, q], **kw2)
    if c1 and c2:
        back = np.empty(pb.p)
        back[q] = n.coef_
        if same(pb, m, n.intercept_, back, f"{pb.fam}/{pb.link}/{kw['solver']} with permuted columns", **tolerance(kw)):
            ctx.mark(np.any(q != np.arange(pb.p)))
    ctx.label(f"solver:{kw['solver']}", f"conv:{c1 and c2}", f"P2:{c['P2']}")


@check("C08", cases(), quick=2500, rule="columns rescaled (penalties and bounds rescaled along, or left alone with scale_predictors) and shifted when there is an intercept; non-trivial = both fits converged to a finite model")
def units(c, ctx):
    pb, kw, lb, ub = setup(c)
    rng = np.random.default_rng(c["seed"] + 3)
    m, c1 = fit(pb, **kw)
    s = rng.choice([0.01, 0.5, 1.0, 3.0, 50.0], size=pb.p) * rng.choice([1, -1], size=pb.p)
    if lb is not None:
        s = np.abs(s)
    sh = rng.normal(size=pb.p) * 2 if pb.fi else np.zeros(pb.p)
    X2 = pb.X * s + sh
    kw2 = dict(kw)
    # with scale_predictors the penalty refers to standardised columns: only signs matter
    # (constant columns are not scaled)
    o = pb.objective()
    const = np.sqrt(o.w @ (pb.X - o.w @ pb.X) ** 2) < 1e-6
    f = np.where(const, s, np.sign(s)) if pb.scale else s
    P1 = np.ones(pb.p) if pb.P1 is None else pb.P1
    P2 = np.ones(pb.p) if pb.P2 is None else pb.P2
    kw2["P1"] = P1 * np.abs(f)
    kw2["P2"] = P2 * f**2 if P2.ndim == 1 else P2 * np.outer(f, f)
    if lb is not None:
        kw2.update(lower_bounds=lb / s, upper_bounds=ub / s)
    n, c2 = fit(pb, X=X2, **kw2)
    if c1 and c2:
        b = n.coef_ * s
        if same(pb, m, n.intercept_ + sh @ n.coef_, b, f"{pb.fam}/{pb.link}/{kw['solver']} with rescaled columns (scale_predictors={pb.scale})", tol=1e-8, extra=1e-6 if kw["solver"] == "lbfgs" else 1e-7):
            ctx.mark()
            k = conditioning(pb, m)
            if k and k > 1e-3:
                O.assert_close(n.predict(X2, offset=pb.off), m.predict(pb.X, offset=pb.off), rtol=1e-4, atol=1e-5, what="predictions after a change of units")
    ctx.label(f"solver:{kw['solver']}", f"conv:{c1 and c2}", f"scale:{pb.scale}")


@check("C08", cases(), quick=2000, rule="an all-zero column inserted at a random place; its coefficient is zero (or the nearest bound) and the others are unchanged; non-trivial = both fits converged to a finite model")
def zero_column(c, ctx):
    pb, kw, lb, ub = setup(c)
    rng = np.random.default_rng(c["seed"] + 4)
    m, c1 = fit(pb, **kw)
    j = int(rng.integers(pb.p + 1))
    X2 = np.insert(pb.X, j, 0.0, axis=1)
    kw2 = dict(kw)
    if pb.P1 is not None:
        kw2["P1"] = np.insert(pb.P1, j, 1.0)
    if pb.P2 is not None:
        if pb.P2.ndim == 1:
            kw2["P2"] = np.insert(pb.P2, j, 1.0)
        else:
            kw2["P2"] = np.insert(np.insert(pb.P2, j, 0.0, axis=0), j, 0.0, axis=1)
            kw2["P2"][j, j] = 1.0
    if lb is not None:
        kw2.update(lower_bounds=np.insert(lb, j, -1.0), upper_bounds=np.insert(ub, j, 1.0))
    n, c2 = fit(pb, X=X2, **kw2)
    ctx.label(f"solver:{kw['solver']}", f"conv:{c1 and c2}", f"alpha0:{pb.alpha == 0}")
    if n is None and c1 and conditioning(pb, m) and pb.alpha > 0 and pb.l1 < 1:
        fail(f"{pb.fam}/{pb.link}/{kw['solver']}: an all-zero column makes a regular fit fail")
    if c1 and c2:
        if conditioning(pb, m):
            O.assert_true(abs(n.coef_[j]) < 1e-6 or pb.alpha == 0, f"{pb.fam}/{pb.link}/{kw['solver']}: an all-zero column got the coefficient {n.coef_[j]}")
        if same(pb, m, n.intercept_, np.delete(n.coef_, j), f"{pb.fam}/{pb.link}/{kw['solver']} with an all-zero column", **tolerance(kw)):
            ctx.mark()


@check("C08", cases(fams=[("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log"), ("normal", "identity"), ("binomial", "logit"), ("normal", "identity"), ("tweedie:1.2", "log")]), quick=1500,
       rule="unit of the response changed (scaled, shifted for the normal, labels swapped for the logit) with the matching penalty; non-trivial = both fits converged to a finite model")
def response_units(c, ctx):
    pb, kw, lb, ub = setup(c)
    kw = {k: v for k, v in kw.items() if "bounds" not in k}
    rng = np.random.default_rng(c["seed"] + 6)
    m, c1 = fit(pb, **kw)
    k = float(rng.choice([0.25, 3.0, 10.0]))
    what = f"{pb.fam}/{pb.link}/{kw['solver']} with response in other units"
    if pb.fam == "binomial":
        n, c2 = fit(pb, y=1 - pb.y, off=None if pb.off is None else -pb.off, **kw)
        tr = lambda: (-n.intercept_, -n.coef_)
    elif pb.fam == "normal":
        sh = float(rng.normal()) if pb.fi else 0.0
        a = dict(alpha=pb.alpha)
        if pb.alpha > 0:
            # L1 scales with k, L2 stays: keep both by changing alpha and l1_ratio
            a1, a2 = pb.alpha * pb.l1 * k, pb.alpha * (1 - pb.l1)
            a = dict(alpha=a1 + a2, l1_ratio=a1 / (a1 + a2))
        n, c2 = fit(pb, y=pb.y * k + sh, off=None if pb.off is None else pb.off * k, **a, **kw)
        tr = lambda: ((n.intercept_ - sh) / k, n.coef_ / k)
    else:
        if not pb.fi:
            return
        p = O.tweedie_power(pb.fam)
        n, c2 = fit(pb, y=pb.y * k, alpha=pb.alpha * k ** (2 - p), **kw)
        tr = lambda: (n.intercept_ - np.log(k), n.coef_)
    ctx.label(f"fam:{pb.fam}", f"conv:{c1 and c2}")
    if c1 and c2 and same(pb, m, *tr(), what, tol=2e-7, extra=1e-6 if kw["solver"] == "lbfgs" else 1e-7):
        ctx.mark()
