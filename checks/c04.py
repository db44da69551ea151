"""C04: linear inequality constraints hold and are optimal."""
import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from checks.c01 import saturated
from checks.c02 import curvature
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

KINDS = ["sum", "nonneg", "chain", "random0", "random+", "random-", "redundant", "zerorow", "single", "pairs"]
COLS = ["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints", "small", "big"]


def make_ineq(rng, kind, p):
    """(A, b); every system has a strictly feasible point."""
    if kind == "sum":
        return np.ones((1, p)), np.array([rng.choice([0.0, 0.2, -0.1])])
    if kind == "nonneg":
        return -np.eye(p), np.zeros(p)
    if kind == "chain" and p > 1:
        A = np.zeros((p - 1, p))
        A[np.arange(p - 1), np.arange(p - 1)], A[np.arange(p - 1), np.arange(1, p)] = 1, -1
        return A * rng.choice([-1, 1]), np.zeros(p - 1)
    if kind in ("random0", "random+", "random-"):
        A = np.round(rng.normal(size=(rng.integers(1, p + 1), p)), 2)
        A[np.abs(A).sum(1) == 0] = 1.0
        x = np.zeros(p) if kind != "random-" else rng.normal(size=p) * 0.2
        return A, (A @ x + (0 if kind == "random0" else 0.05))
    if kind == "redundant":
        a = rng.normal(size=(1, p))
        return np.vstack([a, 2 * a, a, 0.5 * a]), np.array([0.1, 0.2, 0.15, 0.1])
    if kind == "zerorow":
        return np.vstack([np.zeros((1, p)), np.ones((1, p))]), np.array([0.0, 0.0])
    if kind == "pairs" and p > 1:
        A = np.zeros((2, p))
        A[0, 0], A[0, 1] = 1, -1
        A[1, 0], A[1, p - 1] = -1, -0.5
        return A, np.zeros(2)
    A = np.zeros((1, p))
    A[0, rng.integers(p)] = rng.choice([-1.0, 1.0, 3.0])
    return A, np.array([rng.choice([0.0, 0.05])])


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX, cols=COLS, l1=(0.0,), min_n=8, max_p=5), **kw}))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["solver"] = draw(st.sampled_from(["auto", "trust-constr", "irls-ls-monotonic", "irls-ls-monotonic"]))
    c["lists"] = draw(st.booleans())
    c["start"] = draw(st.sampled_from(["none", "none", "zero", "array"]))
    c["tol"] = draw(st.sampled_from([None, 1e-7]))
    return c


def better(obj, A, b, b0, beta, fi):
    """A feasible (to rounding) point with a smaller objective than (b0, beta), if
    a general-purpose constrained minimiser finds one: (value, b0, beta)."""
    sd = obj.std * obj.rstd
    As = A / sd
    keep = np.abs(A).sum(1) > 0
    As, bs = As[keep], b[keep]
    nrm = np.linalg.norm(As, axis=1)
    As, bs = As / nrm[:, None], bs / nrm

    def un(z):
        be = z[fi:] / sd
        return (z[0] - obj.mean @ be if fi else 0.0), be

    def f(z):
        with np.errstate(all="ignore"):
            v = obj.value(*un(z))
            g0, g = obj.smooth_grad(*un(z))
        g = g / obj.rstd
        if not (np.isfinite(v) and np.all(np.isfinite(g))):
            return 1e10, np.zeros_like(z)
        return v, (np.r_[g0, g] if fi else g)

    Az = np.column_stack([np.zeros((len(As), int(fi))), As])
    best = None
    z1 = np.r_[b0 + obj.mean @ beta, beta * sd] if fi else beta * sd
    ybar = obj.w @ obj.y
    g0 = ybar if obj.link == "identity" else O.L.fwd(obj.link, np.clip(ybar, 1e-3, 0.999) if obj.fam == "binomial" else ybar)
    z2 = np.r_[g0, np.zeros(len(beta))] if fi else np.zeros(len(beta))
    for z in (z1, z2):
        r = optimize.minimize(f, z, jac=True, method="SLSQP", constraints=[dict(type="ineq", fun=lambda z: bs - Az @ z, jac=lambda z: -Az)] if len(As) else (), options=dict(maxiter=500, ftol=1e-15))
        if not np.all(np.isfinite(r.x)):
            continue
        viol = (Az @ r.x - bs).max(initial=0)
        if viol > 1e-9:
            continue
        v = f(r.x)[0]
        if best is None or v < best[0]:
            best = (v, *un(r.x))
    return best


def verify(obj, A, b, m, what, fi, solver, tol, ctx):
    """Feasibility and optimality of one fitted (intercept, coef)."""
    b0, beta = m
    if not np.all(np.isfinite(np.r_[b0, beta])):
        fail(f"{what}: non-finite estimate without a warning")
    if saturated(obj, b0, beta):
        ctx.label("saturated")
        return False
    sd = obj.std * obj.rstd
    slack = A @ beta - b
    unit = 1 + np.abs(A) @ (1 / sd)  # constraints are handled in standardised coordinates
    ftol = 1e-6 * 1.01 if solver == "irls-ls-monotonic" else 1e-6 * unit
    if np.any(slack > ftol):
        fail(f"{what}: A coef - b = {slack} at {beta}")
    val = obj.value(b0, beta)
    w = better(obj, A, b, b0, beta, fi)
    if w is None:
        ctx.label("no-reference")
        return False
    kap = curvature(obj, w[1], w[2])
    if not kap > 1e-5:
        ctx.label("flat")
        return False
    allow = 1e-6 * (1 + abs(w[0])) + tol**2 / kap * 2
    if val > w[0] + allow:
        fail(f"{what}: objective {val!r} at intercept {b0}, coef {beta}, but {w[1]}, {w[2]} is feasible with {w[0]!r}")
    return bool(np.any(slack > -1e-5))


def run(c, ctx, path):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    A, b = make_ineq(rng, c["kind"], pb.p)
    solver = c["solver"]
    if solver == "irls-ls-monotonic":
        if pb.alpha == 0 and G.rank_deficient(pb):
            return
        b = np.zeros(len(b))
    kw = dict(solver=solver, max_iter=3000 if solver != "irls-ls-monotonic" else 300)
    if solver == "irls-ls-monotonic":
        kw["gradient_tol"] = c["tol"]
    kw["A_ineq"], kw["b_ineq"] = (A.tolist(), b.tolist()) if c["lists"] else (A, b)
    if c["start"] != "none":
        s = np.zeros(pb.p + pb.fi) if c["start"] == "zero" else rng.normal(size=pb.p + pb.fi) * 0.1
        kw["start_params"] = s
    tol = (1e-4 if c["tol"] is None else c["tol"]) if solver == "irls-ls-monotonic" else 1e-6
    what = f"{pb.fam}/{pb.link}/{solver}/{c['kind']} (scale_predictors={pb.scale})"
    ctx.label(f"solver:{solver}", f"kind:{c['kind']}", f"fam:{pb.fam}", f"scale:{pb.scale}")
    if path:
        alphas = [0.5, 0.1, 0.02]
        kw.update(alpha=alphas, alpha_search=True)
    m, conv = G.fit_pb(pb, lenient=True, **kw)
    ctx.label(f"conv:{conv}:{solver}")
    if m is None or not conv:
        return
    if path:
        for k, a in enumerate(alphas):
            obj = pb.objective(alpha=a)
            ctx.mark(verify(obj, A, b, (float(m.intercept_path_[k]) if pb.fi else 0.0, m.coef_path_[k]), what + f" path entry {k}", int(pb.fi), solver, tol, ctx))
    else:
        ctx.mark(verify(pb.objective(), A, b, (float(m.intercept_), m.coef_), what, int(pb.fi), solver, tol, ctx))


@check("C04", cases(), quick=2500, rule="random problems with linear constraints (sums, signs, chains, random systems with zero or non-zero right-hand sides, redundant and zero rows) under the three solvers that accept them: feasibility, and no feasible point found by SLSQP has a smaller objective; non-trivial = converged with an active constraint")
def constrained(c, ctx):
    run(c, ctx, False)


@check("C04", cases(max_n=30, max_p=4), quick=400, rule="the same along an alpha path; non-trivial = converged with an active constraint")
def path(c, ctx):
    run(c, ctx, True)


@check("C04", cases(fams=[("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log")], min_n=24, max_n=50, max_p=4, weights=("none", "uniform", "ints")), quick=120,
       rule="the cross-validated estimator with constraints: every fold's path and the refit feasible, the final model optimal for the chosen alpha; non-trivial = an active constraint")
def cross_validated(c, ctx):
    import glum

    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    A, b = make_ineq(rng, c["kind"], pb.p)
    solver = "trust-constr" if c["solver"] == "irls-ls-monotonic" else c["solver"]
    par = pb.params(l1_ratio=0.0, solver=solver, A_ineq=A, b_ineq=b, max_iter=3000)
    par.pop("alpha")
    par.update(alphas=[0.5, 0.05], cv=3)
    try:
        m, conv = G.quiet_fit(glum.GeneralizedLinearRegressorCV(**par), pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if "infs or NaNs" in str(e) or isinstance(e, np.linalg.LinAlgError) or "No variation" in str(e):
            return
        raise
    what = f"CV {pb.fam}/{pb.link}/{solver}/{c['kind']} (scale_predictors={pb.scale})"
    ctx.label(f"conv:{conv}", f"kind:{c['kind']}")
    if not conv:
        return
    sd = pb.X.std(0)
    for beta in np.asarray(m.coef_path_).reshape(-1, pb.p):
        slack = A @ beta - b
        if np.any(slack > 1e-5 * (1 + np.abs(A) @ (1 / np.maximum(sd, 1e-3)))):
            fail(f"{what}: a fold's coefficients {beta} violate the constraints by {slack}")
    obj = pb.objective(alpha=m.alpha_, l1_ratio=0.0)
    ctx.mark(verify(obj, A, b, (float(m.intercept_), m.coef_), what, int(pb.fi), solver, 1e-6, ctx))
