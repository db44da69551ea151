"""C03: box constraints hold and are optimal."""
import numpy as np
from hypothesis import strategies as st

from checks.c01 import kkt_check
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = [f for f in G.FAM_LINKS if f != ("ghs", "identity")] + [("ghs", "identity")]


def make_bounds(rng, kind, p):
    lb, ub = np.full(p, -np.inf), np.full(p, np.inf)
    if kind == "lower":
        lb = rng.choice([-0.5, -0.1, 0.0, 0.05, -np.inf], size=p)
    elif kind == "upper":
        ub = rng.choice([0.5, 0.1, 0.0, -0.05, np.inf], size=p)
    elif kind == "box":
        a = rng.choice([-0.3, -0.05, 0.0], size=p)
        lb, ub = a, a + rng.choice([0.01, 0.1, 0.4], size=p)
    elif kind == "mixed":
        a = rng.normal(size=p) * 0.2
        lb, ub = a, a + np.abs(rng.normal(size=p)) * 0.2
        lb[rng.uniform(size=p) < 0.4] = -np.inf
        ub[rng.uniform(size=p) < 0.4] = np.inf
    elif kind == "equal":
        a = rng.normal(size=p) * 0.1
        lb, ub = lb.copy(), ub.copy()
        k = rng.integers(p)
        lb[k] = ub[k] = a[k]
    elif kind == "exclude0":
        s = np.where(rng.uniform(size=p) < 0.5, 1, -1)
        lb, ub = np.where(s > 0, 0.05, -0.3), np.where(s > 0, 0.3, -0.05)
    elif kind == "nonneg":
        lb = np.zeros(p)
    elif kind == "nonpos":
        ub = np.zeros(p)
    return lb, ub


KINDS = ["lower", "upper", "box", "mixed", "equal", "exclude0", "nonneg", "nonpos"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=FAMS, degenerate=False), **kw}))
    c["bounds"] = draw(st.sampled_from(KINDS))
    c["scalar"] = draw(st.booleans())
    c["start"] = draw(st.sampled_from(["guess", "guess", "zero", "array", "far"]))
    c["tol"] = draw(st.sampled_from([None, None, 1e-7]))
    c["sel"] = draw(st.sampled_from(["cyclic", "random"]))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd"]))
    return c


def bound_args(c, lb, ub, p):
    kw = {}
    if c["scalar"]:
        # a scalar applies to every coefficient
        lb, ub = np.full(p, lb[0]), np.full(p, ub[0])
        if np.isfinite(lb[0]):
            kw["lower_bounds"] = float(lb[0])
        if np.isfinite(ub[0]):
            kw["upper_bounds"] = float(ub[0])
        return lb, ub, kw
    if np.isfinite(lb).any():
        kw["lower_bounds"] = lb.copy()
    if np.isfinite(ub).any():
        kw["upper_bounds"] = ub.copy()
    return lb, ub, kw


def start_args(c, pb):
    if c["start"] == "guess":
        return {}
    if c["start"] == "zero":
        return dict(start_params=np.zeros(pb.p + pb.fi))
    s = np.random.default_rng(c["seed"] + 7).normal(size=pb.p + pb.fi) * (0.1 if c["start"] == "array" else 1.0)
    if pb.fi:
        s[0] = 0.3 * s[0]
    return dict(start_params=s)


def inside(b, lb, ub, what):
    tol = 1e-12 * (1 + np.abs(b))
    if not (np.all(b >= lb - tol) and np.all(b <= ub + tol)):
        fail(f"{what}: coefficients {b} leave [{lb}, {ub}]")


@check("C03", cases(), quick=8000, rule="random problems with scalar or vector bounds (one-sided, boxes, equal, excluding zero), start values inside or outside; containment always, box optimality on convergence; non-trivial = converged with an active bound")
def box(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    lb, ub = make_bounds(rng, c["bounds"], pb.p)
    lb, ub, kw = bound_args(c, lb, ub, pb.p)
    if not kw:
        return
    solver = c["solver"]
    kw.update(start_args(c, pb))
    m, conv = G.fit_pb(pb, lenient=c["start"] in ("array", "far"), solver=solver, gradient_tol=c["tol"], selection=c["sel"], random_state=1, max_iter=100, **kw)
    if m is None:
        return
    what = f"{pb.fam}/{pb.link}/{solver} bounds {c['bounds']}"
    b = np.asarray(m.coef_)
    if not np.isfinite(b).all():
        ctx.label("diverged")
        return
    inside(b, lb, ub, what)
    ctx.label(f"solver:{solver}", f"bounds:{c['bounds']}", f"start:{c['start']}", f"scalar:{c['scalar']}", f"conv:{conv}", f"scale:{pb.scale}")
    if not conv:
        return
    tol = 1e-4 if c["tol"] is None else c["tol"]
    kkt_check(m, pb.objective(), tol, what, lb, ub)
    ctx.mark(np.any(np.isclose(b, lb, rtol=1e-9, atol=0) | np.isclose(b, ub, rtol=1e-9, atol=0) | (b == lb) | (b == ub)))


@check("C03", cases(max_n=30), quick=1500, rule="alpha_search path with bounds: every entry of coef_path_ inside, every alpha optimal for the bounded problem; non-trivial = a bound is active on the path")
def path(c, ctx):
    pb = G.Problem(c)
    if pb.l1 == 0 and pb.fam == "ghs":
        return
    rng = np.random.default_rng(c["seed"] + 1)
    lb, ub = make_bounds(rng, c["bounds"], pb.p)
    lb, ub, kw = bound_args(c, lb, ub, pb.p)
    if not kw:
        return
    alphas = [1.0, 0.3, 0.05]
    kw.update(start_args(c, pb))
    m, conv = G.fit_pb(pb, lenient=c["start"] in ("array", "far"), solver="irls-cd", alpha=alphas, alpha_search=True, gradient_tol=c["tol"], max_iter=100, **kw)
    if m is None:
        return
    cp, ip = np.asarray(m.coef_path_), np.atleast_1d(m.intercept_path_)
    act = False
    for k, a in enumerate(alphas):
        if not np.isfinite(cp[k]).all():
            continue
        inside(cp[k], lb, ub, f"{pb.fam}/{pb.link} path entry {k}")
        act |= bool(np.any((cp[k] == lb) | (cp[k] == ub) | np.isclose(cp[k], lb) | np.isclose(cp[k], ub)))
        if conv:
            obj = pb.objective(alpha=a)

            class M:
                coef_, intercept_ = cp[k], ip[k] if pb.fi else 0.0

            kkt_check(M, obj, 1e-4 if c["tol"] is None else c["tol"], f"{pb.fam}/{pb.link} path entry {k} bounds {c['bounds']}", lb, ub)
    ctx.mark(act and conv)
    ctx.label(f"bounds:{c['bounds']}", f"conv:{conv}")


@check("C03", cases(max_n=40, min_n=20, max_p=4, fams=[f for f in FAMS if f[0] in ("normal", "poisson", "gamma", "tweedie:1.5")], weights=("none", "uniform")), quick=500,
       rule="cross-validated estimator with bounds: all stored path coefficients and the final model inside, final model optimal for the chosen alpha; non-trivial = an active bound")
def cross_validated(c, ctx):
    import glum

    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    lb, ub = make_bounds(rng, c["bounds"], pb.p)
    lb, ub, kw = bound_args(c, lb, ub, pb.p)
    if not kw:
        return
    par = pb.params()
    for k in ("alpha",):
        par.pop(k)
    l1 = pb.l1 if pb.l1 > 0 else 0.5
    par.update(kw, l1_ratio=l1, alphas=[0.5, 0.05, 0.005], cv=3, solver="irls-cd", max_iter=200)
    try:
        m, conv = G.quiet_fit(glum.GeneralizedLinearRegressorCV(**par), pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if "infs or NaNs" in str(e) or isinstance(e, np.linalg.LinAlgError) or "No variation" in str(e):
            return
        raise
    for arr in (np.asarray(m.coef_path_).reshape(-1, pb.p), np.asarray(m.coef_)[None]):
        for b in arr:
            if np.isfinite(b).all():
                inside(b, lb, ub, f"CV {pb.fam}/{pb.link}")
    b = np.asarray(m.coef_)
    if conv:
        kkt_check(m, pb.objective(alpha=m.alpha_, l1_ratio=m.l1_ratio_), 1e-4, f"CV {pb.fam}/{pb.link} bounds {c['bounds']}", lb, ub)
    ctx.mark(conv and np.any(np.isclose(b, lb) | np.isclose(b, ub)))
    ctx.label(f"bounds:{c['bounds']}", f"conv:{conv}")
