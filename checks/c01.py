"""C01: a converged unconstrained fit is a stationary point of the documented objective."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail


def saturated(obj, b0, b):
    """Diverging fit of separable data: no optimum exists."""
    eta = obj.eta(b0, b)
    if obj.link == "log":
        return bool(np.any(np.abs(eta) > 30))
    mu = obj.mu(b0, b)
    return obj.fam == "binomial" and bool(np.any((mu < 1e-9) | (mu > 1 - 1e-9)))


def kkt_check(m, obj, tol, what, lb=None, ub=None):
    b0, b = float(m.intercept_), np.asarray(m.coef_, float)
    if saturated(obj, b0, b):
        return None
    if not (np.isfinite(b0) and np.isfinite(b).all()):
        fail(f"{what}: non-finite coefficients reported as converged: {b0}, {b}")
    g0, g = obj.kkt(b0, b, lb, ub)
    resid = abs(g0) + np.abs(g).sum()
    bound = tol * 1.001 + 1e-11 * (1 + np.nan_to_num(obj.grad_scale(b0, b), nan=1.0))
    if not resid <= bound:
        fail(f"{what}: optimality residual {resid:.3e} > {bound:.3e} (intercept {g0:.2e}, coef {g}) at {b0}, {b}")
    return resid


SOLVERS = ["auto", "auto", "irls-cd", "irls-ls", "lbfgs", "closed-form"]


def pick_solver(s, pb):
    normal = pb.fam in ("normal",) and pb.link == "identity"
    if s == "closed-form" and not (normal and (pb.l1 == 0 or pb.alpha == 0)):
        s = "auto"
    if s in ("irls-ls", "lbfgs") and pb.alpha * pb.l1 > 0:
        s = "irls-cd"
    return s


@st.composite
def cases(draw, convex):
    c = draw(G.problems(fams=G.CONVEX if convex else G.FAM_LINKS, degenerate=not convex))
    c["solver"] = draw(st.sampled_from(SOLVERS))
    c["tol"] = draw(st.sampled_from([None, 1e-6, 1e-8]))
    c["sel"] = draw(st.sampled_from(["cyclic", "random"]))
    c["sp2"] = draw(st.booleans())
    c["start"] = draw(st.sampled_from([None, None, 0.01, 0.3, 1.0, 3.0])) if convex else None
    c["approx"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.01, 0.2])) if convex else 0.0
    return c


def run(c, ctx, must_converge):
    pb = G.Problem(c)
    solver = pick_solver(c["solver"], pb)
    kw = {}
    if c["sp2"] and pb.P2 is not None:
        kw["P2"] = G.as_sparse_p2(pb.P2)
    if c["approx"] and solver in ("auto", "irls-cd", "irls-ls"):
        kw["hessian_approx"] = c["approx"]
    if c["start"] is not None:
        kw["start_params"] = c["start"] * np.random.default_rng(c["seed"] + 3).normal(size=pb.p + pb.fi)
    m, conv = G.fit_pb(pb, solver=solver, gradient_tol=c["tol"], selection=c["sel"], random_state=0, max_iter=300, lenient="start_params" in kw or "hessian_approx" in kw, **kw)
    ctx.label(f"solver:{solver}", f"fam:{pb.fam}", f"link:{pb.link}", f"w:{c['w']}", f"l1:{pb.l1 * pb.alpha > 0}",
              f"P2:{c['P2']}", f"scale:{pb.scale}", f"intercept:{pb.fi}", f"offset:{pb.off is not None}")
    ctx.label(f"start:{c['start']}")
    if not conv:
        exact_hessian = not pb.fam.startswith("negbin") and pb.link != "cloglog"
        if must_converge and exact_hessian and not kw.get("hessian_approx") and c["start"] is None and c["tol"] is None and solver != "lbfgs" and G.ridge_pd(pb) and not G.rank_deficient(pb):
            fail(f"{pb.fam}/{pb.link}/{solver}: strongly convex problem not solved within 300 iterations")
        wp = not G.rank_deficient(pb, pb.alpha > 0)
        ctx.label("not-converged", f"not-converged:{pb.fam}:{pb.link}:{solver}:{c['tol']}:wellposed={wp}:ridge={pb.alpha*(1-pb.l1)}")
        return
    tol = {None: 1e-4}.get(c["tol"], c["tol"])
    if solver == "lbfgs":
        # stops on the largest gradient entry or on relative progress of the objective
        tol = max(tol * (pb.p + 1), 1e-4)
    elif solver == "closed-form" or (solver == "auto" and pb.l1 == 0 and pb.fam == "normal" and pb.link == "identity"):
        tol = min(tol, 1e-8)
    obj = pb.objective()
    kkt_check(m, obj, tol, f"{pb.fam}/{pb.link}/{solver}")
    ctx.mark(np.any(m.coef_ != 0))
    if pb.alpha * pb.l1 > 0:
        z = int((m.coef_ == 0).sum())
        ctx.label("l1:some-zero" if 0 < z < pb.p else "l1:all-zero" if z else "l1:none-zero")


@check("C01", cases(True), quick=4000, rule="random design (column kinds, n, p), family/link with convex deviance, weights, offset, P1/P2/alpha/l1_ratio/scaling, solver, start values, hessian_approx; non-trivial = converged with a non-zero coefficient")
def kkt_convex(c, ctx):
    run(c, ctx, True)


@check("C01", cases(False), quick=3000, rule="as kkt_convex over all 19 family/link pairs and constant, zero and duplicated columns; non-trivial = converged with a non-zero coefficient")
def kkt_any(c, ctx):
    run(c, ctx, False)
