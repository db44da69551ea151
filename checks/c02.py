"""C02: solver choices do not change the estimate."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from checks.c01 import saturated
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = [f for f in G.CONVEX]
CONFIG_KINDS = ["irls-cd", "irls-ls", "lbfgs", "trust-constr", "auto", "closed-form"]


@st.composite
def configs(draw):
    return dict(
        solver=draw(st.sampled_from(CONFIG_KINDS)), sel=draw(st.sampled_from(["cyclic", "random"])),
        happrox=draw(st.sampled_from([0.0, 0.0, 0.1, 0.9])), start=draw(st.sampled_from(["none", "none", "zero", "array", "warm"])),
        rs=draw(st.sampled_from([0, 1, None])), copy=draw(st.sampled_from([None, True, False])), sp2=draw(st.booleans()),
        inner=draw(st.sampled_from([None, None, 30])), fortran=draw(st.booleans()),
    )


@st.composite
def cases(draw):
    c = draw(G.problems(fams=FAMS, weights=("none", "uniform", "zeros", "ints"), max_n=60, min_n=10, max_p=5,
                        cols=["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints"],
                        alphas=(0.0, 0.01, 0.1, 0.5, 1.0), P1s=("identity", "vec", "veczero"), P2s=("identity", "vec", "full", "veczero", "psd")))
    c["configs"] = draw(st.lists(configs(), min_size=2, max_size=4))
    return c


def reference(obj, p):
    """Minimise the documented objective with L-BFGS-B on split variables, then polish."""
    l1 = np.any(obj.P1 > 0)
    sd = obj.std * obj.rstd  # column scales: optimise in standardised coordinates

    def unpack(z):
        b0 = z[0] if obj.fi else 0.0
        v = z[obj.fi:]
        c = v[:p] - v[p:] if l1 else v
        b = c / sd
        return b0 - (obj.mean @ b if obj.fi else 0.0), b

    def f(z):
        b0, b = unpack(z)
        with np.errstate(all="ignore"):
            val = obj.value(b0, b)
            g0, g = obj.smooth_grad(b0, b)
        g = g / obj.rstd
        if not np.isfinite(val) or not np.all(np.isfinite(g)):
            return 1e12, np.zeros_like(z)
        if l1:
            v = z[obj.fi:]
            P1 = obj.P1 / obj.rstd
            val = val - np.abs(obj.P1 * b * obj.std).sum() + P1 @ (v[:p] + v[p:])
            g = np.concatenate([g + P1, -g + P1])
        return val, np.concatenate([[g0], g]) if obj.fi else g

    z = np.zeros(obj.fi + p * (2 if l1 else 1))
    if obj.fi:
        ybar = obj.w @ obj.y
        z[0] = O.L.fwd(obj.link, np.clip(ybar, 1e-3, 0.999) if obj.fam == "binomial" else ybar) if obj.link != "identity" else ybar
    bounds = [(None, None)] * obj.fi + ([(0, None)] * (2 * p) if l1 else [(None, None)] * p)
    for _ in range(3):
        r = optimize.minimize(f, z, jac=True, method="L-BFGS-B", bounds=bounds, options=dict(maxiter=3000, maxfun=6000, ftol=1e-16, gtol=1e-10))
        z = r.x
    return (*unpack(z), r.fun)


def curvature(obj, b0, b):
    """Smallest eigenvalue of the expected Hessian in standardised coordinates."""
    eta = obj.eta(b0, b)
    mu = obj.mu(b0, b)
    h = obj.w * O.L.dinv(obj.link, eta) ** 2 / O.var(obj.fam, mu)
    Z = (obj.X - obj.mean) / (obj.std * obj.rstd)
    P = obj.P2 / np.outer(obj.rstd, obj.rstd)
    if obj.fi:
        Z = np.column_stack([np.ones(len(Z)), Z])
        P = np.block([[np.zeros((1, 1)), np.zeros((1, P.shape[0]))], [np.zeros((P.shape[0], 1)), P]])
    return np.linalg.eigvalsh((Z.T * h) @ Z + P)[0]


def fit_config(pb, k):
    normal = pb.fam == "normal" and pb.link == "identity"
    s = k["solver"]
    l1 = pb.alpha * pb.l1 > 0
    if l1 and s in ("irls-ls", "lbfgs", "trust-constr", "closed-form"):
        s = "irls-cd"
    if s == "closed-form" and not normal:
        s = "irls-ls"
    kw = dict(solver=s, selection=k["sel"], random_state=k["rs"], hessian_approx=k["happrox"], copy_X=k["copy"], max_iter=400, gradient_tol=1e-7)
    if s == "trust-constr":
        kw.update(gradient_tol=1e-8, max_iter=2000)
    if s == "irls-cd" and k["inner"]:
        kw["max_inner_iter"] = k["inner"]
    if k["sp2"] and pb.P2 is not None:
        kw["P2"] = G.as_sparse_p2(pb.P2)
    rng = np.random.default_rng(pb.c["seed"] + 11)
    if k["start"] == "zero":
        kw["start_params"] = np.zeros(pb.p + pb.fi)
    elif k["start"] == "array":
        kw["start_params"] = rng.normal(size=pb.p + pb.fi) * 0.3 / np.r_[np.ones(int(pb.fi)), 1 + np.abs(pb.X).max(0)]
    X = np.asfortranarray(pb.X) if k["fortran"] else pb.X
    X = X.copy(order="F" if k["fortran"] else "C")
    m = G.glr(**pb.params(**kw))
    if k["start"] == "warm":
        m.set_params(warm_start=True)
        m.set_params(alpha=pb.alpha * 3)
        try:
            G.quiet_fit(m, X.copy(), pb.y)  # other weights, offset and penalty
        except (np.linalg.LinAlgError, ValueError) as e:
            if "infs or NaNs" in str(e) or "singular" in str(e).lower():
                return None, False, s
            raise
        m.set_params(alpha=pb.alpha)
    try:
        m, conv = G.quiet_fit(m, X, pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
            raise
        return None, False, s
    return m, conv, s


@check("C02", cases(), quick=5000, rule="a well-conditioned convex problem fitted under 2-4 random solver configurations (solver, selection, hessian_approx, start, warm start, seed, copy_X, sparse P2, storage order), all compared with scipy L-BFGS-B on the documented objective: objective gap, optimality residual and coefficient distance; non-trivial = two different configurations converged")
def agree(c, ctx):
    pb = G.Problem(c)
    if G.rank_deficient(pb):
        return
    obj = pb.objective()
    rb0, rb, rf = reference(obj, pb.p)
    if saturated(obj, rb0, rb) or not np.isfinite(rf):
        return
    kappa = curvature(obj, rb0, rb)
    if not kappa > 1e-4:
        ctx.label("flat")
        return
    sd = obj.std * obj.rstd
    n_ok, seen = 0, set()
    for k in c["configs"]:
        m, conv, s = fit_config(pb, k)
        ctx.label(f"solver:{s}", f"start:{k['start']}", f"happrox:{k['happrox']}")
        if m is None or not conv:
            ctx.label(f"not-converged:{s}:happrox={k["happrox"]}:inner={k["inner"]}:{"raised" if m is None else "limit"}")
            exact = not pb.fam.startswith("negbin") and pb.link != "cloglog"
            if exact and m is None and k["start"] in ("none", "zero") and kappa > 1e-3:
                fail(f"{pb.fam}/{pb.link}/{s}: fitting failed although the optimum {rb0}, {rb} is unique and finite")
            continue
        b0, b = float(m.intercept_), np.asarray(m.coef_, float)
        what = f"{pb.fam}/{pb.link}/{s}/{k['sel']}/hessian_approx={k['happrox']}/start={k['start']}"
        if not np.all(np.isfinite(np.r_[b0, b])):
            fail(f"{what}: non-finite estimate")
        val = obj.value(b0, b)
        loose = s in ("lbfgs", "trust-constr")
        gap = val - rf
        tolgap = 1e-8 * (1 + abs(rf)) + (1e-7 if loose else 1e-7 ** 2 / kappa * 10)
        if gap > tolgap:
            fail(f"{what}: objective {val!r} exceeds that of an independent minimiser {rf!r} by {gap:.3e}")
        # distance in standardised coordinates, centred intercept
        dist = np.abs((b - rb) * sd).max()
        dist = max(dist, abs((b0 + obj.mean @ b) - (rb0 + obj.mean @ rb)) if pb.fi else 0)
        bound = np.sqrt(2 * (max(gap, 0) + tolgap) / kappa) * 3 + 1e-6
        if dist > bound:
            fail(f"{what}: estimate {b0}, {b} differs from the minimiser {rb0}, {rb} by {dist:.2e} (> {bound:.2e})")
        n_ok += 1
        seen.add((s, k["sel"], k["happrox"], k["start"]))
        if isinstance(k["copy"], bool):
            ctx.label(f"copy_X:{k['copy']}")
    ctx.mark(len(seen) >= 2)


@st.composite
def tall(draw):
    c = draw(G.problems(fams=[("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("normal", "identity"), ("tweedie:1.5", "log")],
                        weights=("none", "uniform"), min_n=150, max_n=600, min_p=4, max_p=12, cols=["normal", "binary", "sparse", "sparse", "skew"],
                        alphas=(0.003, 0.01, 0.03), l1=(0.5, 0.9, 1.0), P2s=("identity",), P1s=("identity", "vec")))
    c["signal"] = draw(st.sampled_from([0.5, 1.5]))
    c["happrox"] = draw(st.sampled_from([0.01, 0.1, 0.5, 1.0]))
    c["sel"] = draw(st.sampled_from(["cyclic", "random"]))
    return c


@check("C02", tall(), quick=500, rule="larger L1 problems where hessian_approx > 0 actually skips rows and the active set shrinks: same model as with exact Hessians; non-trivial = some coefficients zero, some not")
def hessian_approximation(c, ctx):
    pb = G.Problem(c)
    kw = dict(solver="irls-cd", gradient_tol=1e-7, max_iter=500, selection=c["sel"], random_state=3)
    a, ca = G.fit_pb(pb, **kw)
    b, cb = G.fit_pb(pb, hessian_approx=c["happrox"], **kw)
    if not (ca and cb):
        ctx.label(f"not-converged:{ca}:{cb}")
        return
    obj = pb.objective()
    kappa = max(curvature(obj, float(a.intercept_), a.coef_), 1e-5)
    sd = obj.std * obj.rstd
    d = np.abs((a.coef_ - b.coef_) * sd).max()
    bound = 1e-6 + 10 * 2e-7 / kappa
    if d > bound:
        fail(f"hessian_approx={c['happrox']}: coefficients differ by {d:.2e} (> {bound:.2e}): {a.coef_} {b.coef_}")
    z = (b.coef_ == 0).sum()
    ctx.mark(0 < z < pb.p)
    ctx.label(f"fam:{pb.fam}")


@st.composite
def ridges(draw):
    c = draw(G.problems(fams=[("normal", "identity"), ("normal", "identity"), ("tweedie:0", "identity")], weights=("none", "uniform", "zeros", "ints"), min_n=4, max_n=40, max_p=8, l1=(0.0,),
                        cols=["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints"], alphas=(0.0, 0.01, 0.1, 1.0), P2s=("identity", "vec", "full", "veczero", "psd", "asym")))
    c["p2"] = draw(st.sampled_from(["dense", "csc_matrix", "csr_matrix", "coo_matrix", "dia_matrix", "csc_array"]))
    c["x"] = draw(st.sampled_from(["C", "F", "csc_matrix", "csr_matrix", "frame"]))
    c["solver"] = draw(st.sampled_from(["auto", "closed-form", "irls-ls", "irls-cd", "path"]))
    return c


@check("C02", ridges(), quick=3000, rule="Gaussian ridge fits (solver auto, closed-form, irls or as a path; P2 as vector, dense or sparse matrix in several formats, designs in several containers) against a direct solution of the normal equations; non-trivial = unique solution and a penalty")
def ridge(c, ctx):
    import pandas as pd
    from scipy import sparse

    pb = G.Problem(c)
    obj = pb.objective()
    Z = np.column_stack([np.ones(len(obj.y)), obj.X]) if pb.fi else np.asarray(obj.X, float)
    P = np.zeros((Z.shape[1],) * 2)
    P[int(pb.fi):, int(pb.fi):] = obj.P2 * np.outer(obj.std, obj.std)
    H = (Z.T * obj.w) @ Z + P
    sd = np.r_[np.ones(int(pb.fi)), obj.std * obj.rstd]
    if np.linalg.eigvalsh(H / np.outer(sd, sd))[0] < 1e-7:
        return
    z = np.linalg.solve(H, Z.T @ (obj.w * (obj.y - obj.off)))
    X = {"C": np.ascontiguousarray, "F": np.asfortranarray, "frame": lambda v: pd.DataFrame(v, columns=[f"c{j}" for j in range(pb.p)])}.get(c["x"]) or getattr(sparse, c["x"])
    kw = dict(solver="auto" if c["solver"] == "path" else c["solver"], gradient_tol=1e-9, max_iter=500)
    if c["solver"] == "path":
        kw.update(alpha_search=True, alpha=[pb.alpha * 2 + 0.1, pb.alpha])
    if pb.P2 is not None and c["p2"] != "dense":
        kw["P2"] = getattr(sparse, c["p2"])(np.diag(pb.P2) if np.ndim(pb.P2) == 1 else pb.P2)
    what = f"{pb.fam}/{c['solver']} with X as {c['x']}, P2 {c['P2']} as {c['p2']}"
    if c["solver"] == "closed-form" and pb.fam != "normal":
        return
    m, conv = G.quiet_fit(G.glr(**pb.params(**kw)), X(pb.X), pb.y, sample_weight=pb.w, offset=pb.off)
    got = np.r_[[m.intercept_] if pb.fi else [], m.coef_]
    kappa = np.linalg.eigvalsh(H / np.outer(sd, sd))[0]
    ctx.label(f"solver:{c['solver']}", f"p2:{c['p2']}", f"P2:{c['P2']}", f"conv:{conv}")
    if not conv:
        return
    scale = (1 + np.abs(z * sd).max()) * np.ones(len(z)) / sd
    if pb.fi:
        scale[0] += np.abs(obj.mean * z[1:]).sum() + np.abs(obj.mean / obj.rstd / obj.std).sum()
    O.assert_close(got, z, rtol=1e-7 + 1e-8 / kappa, atol=0, scale=scale, what=what)
    ctx.mark(pb.alpha > 0)
