"""C12: the automatic alpha grid starts where the model becomes empty."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

# an offset is accounted for exactly where the null model has a closed form
EXACT_OFFSET = {("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("igauss", "log"), ("normal", "log")}


def exact(pb):
    return pb.off is None or not pb.fi or (pb.fam, pb.link) in EXACT_OFFSET or pb.fam.startswith("tweedie")


@st.composite
def cases(draw, **kw):
    kw = {**dict(fams=G.FAM_LINKS, min_n=5, max_n=40, alphas=(1.0,), l1=(0.0, 0.05, 0.3, 0.5, 0.9, 1.0, 1.0)), **kw}
    c = draw(G.problems(**kw))
    c["wide"] = draw(st.sampled_from([False, False, True]))
    if c["wide"]:
        c["n"] = min(c["n"], 6)
        c["cols"] = (c["cols"] * 8)[: max(len(c["cols"]), 8)]
    if draw(st.sampled_from([False] * 7 + [True])):
        c["n"] = min(c["n"], 8)
        c["cols"] = (c["cols"] * 8)[: c["n"]]
    c["n_alphas"] = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 6, 7]))
    c["grid"] = draw(st.sampled_from(["ratio", "ratio", "min", "default", "both"]))
    c["cv"] = draw(st.sampled_from([False, False, True]))
    c["solver"] = draw(st.sampled_from(["auto", "auto", "irls-cd"]))
    c["store"] = draw(st.sampled_from(["dense", "csc", "pandas"]))
    return c


def null_model(pb, obj):
    """The intercept of the model without coefficients, by independent root finding."""
    from scipy import optimize

    if not pb.fi:
        return 0.0
    p = pb.p

    def g(b0):
        return obj.smooth_grad(b0, np.zeros(p))[0]

    mid = {"identity": lambda m: m, "log": lambda m: np.log(max(m, 1e-12)), "logit": lambda m: np.log(m / (1 - m)), "cloglog": lambda m: np.log(-np.log1p(-m))}[pb.link](float(obj.w @ obj.y)) - float(obj.w @ obj.off)
    r = 0.5
    while g(mid - r) > 0 or g(mid + r) < 0:
        r *= 2
        if r > 60:
            return None
    return optimize.brentq(g, mid - r, mid + r, xtol=1e-14, rtol=1e-14)


def build(c, pb, rng):
    import glum

    par = pb.params(solver=c["solver"], gradient_tol=1e-7, max_iter=500, n_alphas=c["n_alphas"])
    par.pop("alpha")
    ratio = float(np.exp(rng.uniform(np.log(1e-3), np.log(0.9))))
    amin = float(np.exp(rng.uniform(np.log(1e-5), np.log(1e-3))))
    if c["grid"] in ("ratio", "both"):
        par["min_alpha_ratio"] = ratio
    if c["grid"] in ("min", "both"):
        par["min_alpha"] = amin
    if c["cv"]:
        if rng.integers(2):
            par["l1_ratio"] = [par["l1_ratio"], 0.5]
        return glum.GeneralizedLinearRegressorCV(cv=2, **par), par, ratio, amin
    return glum.GeneralizedLinearRegressor(alpha_search=True, alpha=None, **par), par, ratio, amin


def run_fit(est, pb, c):
    from checks.c11 import container

    try:
        return G.quiet_fit(est, container(c["store"], pb.X), pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError, AssertionError) as e:
        if isinstance(e, AssertionError) and not c["cv"]:
            raise
        if isinstance(e, ValueError) and not any(t in str(e) for t in ("infs or NaNs", "ingular", "No variation", "min_alpha")):
            raise
        return None, str(e)


@check("C12", cases(), quick=2000, rule="automatic grids of paths and cross-validation over all families, weights, offsets, P1, scaling, wide and tall designs: length, order, geometric spacing, first value against the gradient of an independently computed null model, last value against the requested ratio or minimum; non-trivial = L1 grid compared with the null model")
def grid(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 4)
    est, par, ratio, amin = build(c, pb, rng)
    est.set_params(max_iter=10, max_inner_iter=100)  # only the grid matters here
    m, conv = run_fit(est, pb, c)
    ctx.label(f"grid:{c['grid']}", f"cv:{c['cv']}", f"fam:{pb.fam}", f"wide:{c['wide']}")
    if m is None:
        return
    l1s = np.atleast_1d(par["l1_ratio"]).astype(float)
    al = np.asarray(m.alphas_ if c["cv"] else m._alphas, float)
    if al.shape != ((len(l1s), c["n_alphas"]) if c["cv"] and len(l1s) > 1 else (c["n_alphas"],)):
        fail(f"grid of shape {al.shape} for n_alphas={c['n_alphas']} and l1_ratio={l1s}")
    for l1, a in zip(l1s, np.atleast_2d(al)):
        what = f"{pb.fam}/{pb.link}, l1_ratio {l1}: grid {a}"
        pb.l1, pb.alpha = float(l1), 1.0
        obj = pb.objective()
        if not np.all(np.diff(a) < 0):
            fail(f"{what} is not decreasing")
        if len(a) == 1:
            ctx.label("single alpha")
        else:
            O.assert_close(np.diff(np.log(a)), np.full(len(a) - 1, np.log(a[-1] / a[0]) / (len(a) - 1)), rtol=1e-6, atol=1e-9, what=what + ": spacing")
        if len(a) == 1:
            pass  # the largest one
        elif c["grid"] in ("min", "both"):
            O.assert_close(a[-1], amin, rtol=1e-9, atol=0, what=what + ": smallest value is min_alpha")
        else:
            want = ratio if c["grid"] == "ratio" else 1e-6 if pb.X.shape[0] >= pb.p else 1e-2
            O.assert_close(a[-1] / a[0], want, rtol=1e-6, atol=0, what=what + ": ratio of smallest and largest")
        if not exact(pb):
            ctx.label("approximate offset")
            continue
        b0 = null_model(pb, obj)
        if b0 is None:
            continue
        g = np.abs(obj.smooth_grad(b0, np.zeros(pb.p))[1])
        P1 = obj.P1
        slack = 1e-8 * obj.grad_scale(b0, np.zeros(pb.p))
        if np.all(P1 == 0):
            want, slack = (g / obj.rstd).max() / 0.001, slack / 0.001  # (of the standardised features)
        else:
            k = P1 > 0
            want = (g[k] / P1[k]).max()
            slack = slack / P1[k].min()
        if want <= 10 * slack:
            ctx.label("gradient zero")
            continue
        O.assert_close(a[0], want, rtol=1e-6, atol=slack, what=what + ": largest value")
        ctx.mark(bool(np.any(P1 > 0)))
        ctx.label("ridge" if np.all(P1 == 0) else "l1")


@check("C12", cases(l1=(0.05, 0.3, 0.5, 0.9, 1.0), P1s=("identity", "identity", "vec")), quick=1200, rule="with L1 penalties on all features: separate fits just above the largest automatic alpha are empty, just below not; the first row of the path is empty; non-trivial = both fits converged")
def empty(c, ctx):
    pb = G.Problem(c)
    c["cv"] = False
    rng = np.random.default_rng(c["seed"] + 4)
    est, par, ratio, amin = build(c, pb, rng)
    m, conv = run_fit(est, pb, c)
    if m is None or not exact(pb):
        return
    a0 = float(np.asarray(m._alphas)[0])
    obj = pb.objective()
    # (with gradients at rounding level the grid starts at an arbitrary value)
    pb.alpha = 1.0
    o1 = pb.objective()
    b00 = null_model(pb, o1)
    if b00 is None:
        return
    if np.abs(o1.smooth_grad(b00, np.zeros(pb.p))[1]).max() < 1e-5 * o1.grad_scale(b00, np.zeros(pb.p)):
        return
    ctx.label(f"fam:{pb.fam}:{pb.link}", f"path-conv:{conv}", f"off:{pb.off is not None}")
    # rows are measured on the scale the solver works on
    sd = obj.std * obj.rstd
    if conv and np.abs(np.asarray(m.coef_path_)[0] * sd).max() > 1e-6:
        fail(f"{pb.fam}/{pb.link}: the model at the largest alpha {a0} has coefficients {m.coef_path_[0]}")
    out = []
    for f, want_empty in ((1 + 1e-3, True), (1 - 1e-2, False)):
        pb.alpha = a0 * f
        q, c2 = run_fit(G.glr(**pb.params(solver="irls-cd", gradient_tol=1e-8 * min(1.0, a0), max_iter=500)), pb, c)
        if q is None or not c2:
            return
        out.append(q)
        zero = bool(np.all(np.abs(q.coef_ * sd) <= 1e-9))
        if zero != want_empty:
            fail(f"{pb.fam}/{pb.link}: with alpha {f} times the largest automatic alpha {a0}, the coefficients are {q.coef_}")
    ctx.mark()
