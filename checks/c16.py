"""C16: gradients, Hessians and fused predictor updates used in fitting are the true ones."""
import numpy as np
import tabmat as tm
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FL = [
    ("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("igauss", "log"), ("binomial", "logit"), ("binomial", "cloglog"),
    ("negbin:1.0", "log"), ("negbin:0.2", "log"), ("negbin:4.0", "log"), ("tweedie:0", "identity"), ("tweedie:1", "log"), ("tweedie:2", "log"),
    ("tweedie:3", "log"), ("tweedie:1.5", "log"), ("tweedie:1.1", "log"), ("tweedie:1.9", "log"), ("tweedie:2.5", "log"), ("tweedie:-1", "identity"),
    ("ghs", "identity"), ("normal", "log"), ("poisson", "identity"), ("gamma", "tweedie2"), ("igauss", "tweedie3"), ("poisson", "tweedie0"),
    ("gamma", "identity"), ("tweedie:1.5", "tweedie1.5"), ("negbin:1.0", "identity"), ("binomial", "identity"), ("binomial", "log"),
    ("normal", "logit"), ("normal", "tweedie0"), ("poisson", "tweedie1"), ("normal", "tweedie2"), ("tweedie:0", "log"), ("normal", "cloglog"),
]
# the row-wise Hessian is the true second derivative of half the deviance here,
# and its expectation elsewhere
TRUE_HESSIAN = {("gamma", "log"), ("tweedie:2", "log"), ("tweedie:1.5", "log"), ("tweedie:1.1", "log"), ("tweedie:1.9", "log")}


def eta_range(fam, link, extreme):
    if link in ("log", "tweedie1"):
        lo, hi = (-12, 12) if extreme else (-2.5, 2.5)
        return (lo, -0.02) if fam == "binomial" else (lo, hi)
    if link == "logit":
        return (-30, 30) if extreme else (-4, 4)
    if link == "cloglog":
        return (-8, 1.8) if extreme else (-3, 1)
    if fam == "binomial":
        return (0.01, 0.99)
    if fam in ("normal", "ghs", "tweedie:0") and link in ("identity", "tweedie0"):
        return (-30, 30) if extreme else (-3, 3)
    return (0.02, 50) if extreme else (0.2, 3)


@st.composite
def cases(draw):
    return dict(fl=draw(st.integers(0, len(FL) - 1)), n=draw(st.integers(1, 30)), seed=draw(G.SEEDS), extreme=draw(st.booleans()),
                y=draw(st.sampled_from(["sample", "sample", "edge"])), factor=draw(st.sampled_from([0.0, 1.0, 0.5, 0.125, -1.0])),
                f32=draw(st.sampled_from([False, False, False, True])), w=draw(st.sampled_from(["uniform", "ones", "zeros", "tiny"])))


def data(c):
    fam, link = FL[c["fl"]]
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    lo, hi = eta_range(fam, link, c["extreme"])
    eta = rng.uniform(lo, hi, size=n)
    mu = O.L.inv(link, eta)
    y = O.random_y(rng, fam, mu)
    name, par = O.fam_param(fam)
    if c["y"] == "edge":
        if name in ("poisson", "negbin") or name == "tweedie" and 1 <= par < 2:
            y[rng.uniform(size=n) < 0.5] = 0.0
        elif name == "binomial":
            y = rng.uniform(size=n)
    if name in ("gamma", "igauss"):
        y = np.maximum(y, 1e-3)
    w = {"uniform": rng.uniform(0.1, 2, size=n), "ones": np.ones(n), "zeros": (rng.uniform(size=n) < 0.6) * 1.7,
         "tiny": rng.uniform(0.1, 2, size=n) * 1e-5}[c["w"]]
    if c["f32"]:
        y, w, eta = (a.astype(np.float32) for a in (y, w, eta))
        if name == "binomial":
            y = np.clip(y, 0, 1)
    return fam, link, rng, eta, y, w


def half_dev_terms(fam, link, y, eta):
    """Unit deviance at eta in extended care for the logit."""
    if fam == "binomial" and link == "logit":
        return 2 * (np.logaddexp(0, eta) - y * eta)
    mu = O.L.inv(link, eta)
    d = O.unit_dev(fam, y, mu)
    return d - O.binomial_entropy(y) if fam == "binomial" else d


@check("C16", cases(), quick=8000, rule="eta_mu_deviance for 35 family/link pairs (optimised kernels and defaults), responses at the edge of the support, weights, step factors, float32; non-trivial = non-zero step and weight")
def fused_update(c, ctx):
    fam, link, rng, eta_to, y, w = data(c)
    d = rng.normal(size=len(y)).astype(eta_to.dtype)
    fac = c["factor"]
    cur = (eta_to - fac * d).astype(eta_to.dtype)
    f, l = O.make_family(fam), O.make_link(link)
    args = [a.copy() for a in (cur, d, y, w)]
    eta, mu, dev = f.eta_mu_deviance(l, fac, *args)
    ctx.label(f"{fam}/{link}", f"f32:{c['f32']}")
    ctx.mark(fac != 0 and (w > 0).any())
    for a, b, nm in zip(args, (cur, d, y, w), ("cur_eta", "X_dot_d", "y", "sample_weight")):
        O.assert_true(np.array_equal(a, b), f"{fam}/{link}: eta_mu_deviance changed {nm}")
    want_eta = np.asarray(cur, float) + fac * np.asarray(d, float)
    tol = 2e-5 if c["f32"] else 1e-9
    if c["f32"] and c["extreme"]:
        ctx.label("skip-f32-extreme")
        return
    ok = np.ones(len(y), bool)
    lo, hi = eta_range(fam, link, c["extreme"])
    want_mu = O.L.inv(link, np.clip(want_eta, lo, hi))
    O.assert_close(eta, want_eta, rtol=tol, atol=tol, what=f"{fam}/{link}: eta")
    O.assert_close(mu, want_mu, rtol=tol * 30 if link != "identity" else tol, atol=tol if c["f32"] or link in ("logit", "cloglog") else 1e-12, what=f"{fam}/{link}: mu")
    # the deviance may omit terms that do not depend on mu: compare differences
    ref = np.clip(eta_to.astype(float) * 0.5 + 0.5 * (lo + hi) / 2, lo, hi).astype(eta_to.dtype)
    _, _, dev0 = f.eta_mu_deviance(l, 0.0, ref.copy(), d.copy(), y.copy(), w.copy())
    yy, ww = y.astype(float), w.astype(float)
    a, b = ww * half_dev_terms(fam, link, yy, np.clip(want_eta, lo, hi)), ww * half_dev_terms(fam, link, yy, ref.astype(float))
    amp = np.abs(a).sum() + np.abs(b).sum() + abs(dev) + abs(dev0) + float(ww @ (np.abs(yy) + 1)) * 1e-3
    O.assert_close(dev - dev0, a.sum() - b.sum(), rtol=0, atol=(5e-4 if c["f32"] else 1e-8) * amp, what=f"{fam}/{link}: change of the deviance between two linear predictors")


FAR = [("binomial", "logit"), ("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log"), ("negbin:1.0", "log"), ("normal", "identity")]


@st.composite
def far_cases(draw):
    return dict(fl=draw(st.sampled_from(FAR)), f32=draw(st.booleans()), seed=draw(G.SEEDS), n=draw(st.integers(1, 8)), size=draw(st.sampled_from([10, 30, 60, 80, 85])), y=draw(st.sampled_from(["fit", "edge"])), fac=draw(st.sampled_from([0.0, 1.0, 0.25])))


@check("C16", far_cases(), quick=3000, rule="kernels at linear predictors far out (up to +-680 in double, +-340 in single precision): finite, within the range of the mean, relative errors of mean, deviance and gradient against logaddexp-type references; non-trivial = some predictor beyond 20")
def far(c, ctx):
    fam, link = c["fl"]
    rng = np.random.default_rng(c["seed"])
    dt = np.float32 if c["f32"] else np.float64
    n = c["n"]
    size = c["size"] * (1 if c["f32"] else 8)
    if fam != "binomial":
        size = min(size, 40 if c["f32"] else 300)
    elif c["f32"]:
        size *= 4
    eta = (rng.uniform(-1, 1, size=n) * size).astype(dt)
    eta[0] = size * rng.choice([-1, 1])
    d = rng.normal(size=n).astype(dt)
    cur = (eta - dt(c["fac"]) * d).astype(dt)
    want = (cur + dt(c["fac"]) * d).astype(float)
    w = rng.uniform(0.1, 2, size=n).astype(dt)
    f, l = O.make_family(fam), O.make_link(link)
    if fam == "binomial":
        mu = np.where(want >= 0, 1 / (1 + np.exp(-np.abs(want))), np.exp(-np.abs(want)) / (1 + np.exp(-np.abs(want))))
        y = rng.integers(0, 2, size=n).astype(dt) if c["y"] == "edge" else np.clip(mu, 0, 1).round(2).astype(dt)
    else:
        mu = np.exp(want) if link == "log" else want
        y = np.ones(n, dt) if c["y"] == "edge" or fam == "normal" else np.clip(mu, 1e-3, 1e4).astype(dt)
    e2, m2, dev = f.eta_mu_deviance(l, c["fac"], cur.copy(), d.copy(), y.copy(), w.copy())
    what = f"{fam}/{link} {np.dtype(dt).name} at predictors up to {size}"
    eps = np.finfo(dt).eps
    if not (np.all(np.isfinite(m2)) and np.isfinite(dev)):
        fail(f"{what}: mean {m2}, deviance {dev} at {want}")
    tol = 30 * eps * (1 + np.abs(want)) if link == "log" or fam == "binomial" else 30 * eps
    O.assert_true(np.all(np.abs(np.asarray(m2, float) - mu) <= tol * np.abs(mu) + np.finfo(dt).tiny * 10), f"{what}: mean {m2}, expected {mu} at {want}")
    yy, ww = y.astype(float), w.astype(float)
    if fam == "binomial":
        dd = ww * 2 * (np.logaddexp(0, want) - yy * want)
        O.assert_close(dev, dd.sum(), rtol=0, atol=100 * eps * (ww * (1 + np.abs(want))).sum(), what=f"{what}: deviance")
    eta2, mu2 = np.asarray(e2, dt), np.asarray(m2, dt)
    g, h = f.rowwise_gradient_hessian(l, None, 1.0, None, y.copy(), w.copy(), eta2.copy(), mu2.copy())
    if not (np.all(np.isfinite(g)) and np.all(np.isfinite(h)) and np.all(np.asarray(h) >= 0)):
        fail(f"{what}: gradient {g}, Hessian {h} at {want}")
    k = {"poisson": 1.0, "gamma": 1 / mu, "tweedie:1.5": mu**-0.5, "negbin:1.0": 1 / (1 + mu)}[fam] if link == "log" else 1.0
    O.assert_close(g, ww * (yy - mu) * k, rtol=0, atol=ww * (np.abs(yy) + np.abs(mu)) * k * 200 * eps * (1 + np.abs(want)) + 10 * np.finfo(dt).tiny, what=f"{what}: gradient")
    ctx.label(f"{fam}/{link}", f"f32:{c['f32']}")
    ctx.mark(np.abs(want).max() > 20)


@check("C16", cases(), quick=8000, rule="rowwise_gradient_hessian for 35 family/link pairs against the derivative of half the deviance and its expected (or, for the log-link Tweedie kernels, exact) second derivative, also by central differences of the code's own deviance; non-trivial = some positive weight")
def rowwise(c, ctx):
    fam, link, rng, eta, y, w = data(c)
    if c["f32"] and c["extreme"]:
        return
    f, l = O.make_family(fam), O.make_link(link)
    e = eta.astype(float)
    mu = O.L.inv(link, e)
    if fam == "binomial" or link in ("logit", "cloglog"):
        if np.any((mu < 1e-9) | (mu > 1 - 1e-9)):
            e = np.clip(e, *eta_range(fam, link, False))
            eta = e.astype(eta.dtype)
            mu = O.L.inv(link, e)
    g, h = f.rowwise_gradient_hessian(l, None, 1.0, None, y.copy(), w.copy(), eta.copy(), mu.astype(eta.dtype))
    yy, ww = y.astype(float), w.astype(float)
    d1, v = O.L.dinv(link, e), O.var(fam, mu)
    want_g = ww * (yy - mu) / v * d1
    want_h = ww * d1**2 / v
    # true second derivative of half the deviance
    obs = ww * (d1**2 / v * (1 + (yy - mu) * O.dvar(fam, mu) / v) - (yy - mu) / v * O.L.d2inv(link, e))
    ctx.label(f"{fam}/{link}")
    ctx.mark((w > 0).any())
    tol = 1e-4 if c["f32"] else 1e-7
    gs = ww * (np.abs(yy) + np.abs(mu)) / v * np.abs(d1)
    O.assert_close(g, want_g, rtol=tol, atol=1e-13 if not c["f32"] else 1e-7, scale=gs, what=f"{fam}/{link}: row-wise gradient")
    hw = obs if (fam, link) in TRUE_HESSIAN else want_h
    hs = np.abs(hw) + (ww * np.abs(d1) * (np.abs(yy) + mu) / v if fam.startswith(("gamma", "tweedie")) else 0)
    bad = ~(np.abs(h - hw) <= tol * hs + (1e-13 if not c["f32"] else 1e-7))
    if bad.any():
        # either curvature is legitimate, nothing else is
        bad &= ~(np.abs(h - obs) <= tol * np.maximum(hs, np.abs(obs)) + 1e-13) & ~(np.abs(h - want_h) <= tol * np.maximum(hs, want_h) + 1e-13)
        if bad.any():
            i = np.argmax(bad)
            fail(f"{fam}/{link}: row-wise Hessian {h[i]} is neither the second derivative {obs[i]} nor its expectation {want_h[i]} (y={yy[i]}, eta={e[i]}, w={ww[i]})")
    O.assert_true(np.all(h >= 0), f"{fam}/{link}: negative curvature in the IRLS weights {h.min()}")


@st.composite
def info_cases(draw):
    return dict(fl=draw(st.integers(0, len(FL) - 1)), n=draw(st.integers(2, 20)), seed=draw(G.SEEDS), extreme=False, y=draw(st.sampled_from(["sample", "edge"])),
                factor=1.0, f32=False, w=draw(st.sampled_from(["uniform", "ones", "zeros"])), p=draw(st.integers(1, 4)), fi=draw(st.booleans()),
                phi=draw(st.sampled_from([1.0, 0.3, 4.0])), mat=draw(st.sampled_from(["dense", "sparse", "split", "cat"])))


def make_matrix(rng, kind, n, p):
    X = rng.normal(size=(n, p))
    if kind == "dense":
        return tm.DenseMatrix(X), X
    if kind == "sparse":
        X[rng.uniform(size=X.shape) < 0.6] = 0
        from scipy import sparse
        return tm.SparseMatrix(sparse.csc_matrix(X)), X
    if kind == "cat":
        codes = rng.integers(0, p, size=n)
        return tm.CategoricalMatrix(_cat(codes, p)), np.eye(p)[codes]
    from scipy import sparse
    Y = X.copy()
    Y[rng.uniform(size=X.shape) < 0.6] = 0
    codes = rng.integers(0, 3, size=n)
    return tm.SplitMatrix([tm.DenseMatrix(X), tm.SparseMatrix(sparse.csc_matrix(Y)), tm.CategoricalMatrix(_cat(codes, 3))]), np.column_stack([X, Y, np.eye(3)[codes]])


def _cat(codes, k):
    import pandas as pd
    return pd.Categorical.from_codes(codes, categories=[f"l{i}" for i in range(k)])


@check("C16", info_cases(), quick=3000, rule="expected and observed information and score matrices of 35 family/link pairs on dense, sparse, categorical and split designs against explicit cross products, and the score against the gradient; non-trivial = more than one observation with weight")
def information(c, ctx):
    fam, link, rng, eta, y, w = data(c)
    f, l = O.make_family(fam), O.make_link(link)
    if not all(hasattr(f, a) for a in ("_fisher_information", "_observed_information", "_score_matrix")):
        ctx.label("no such hooks")
        return
    X, D = make_matrix(rng, c["mat"], c["n"], c["p"])
    mu = O.L.inv(link, eta)
    fi, phi = c["fi"], c["phi"]
    if w.sum() == 0:
        w = w + 1
    Z = np.column_stack([np.ones(len(y)), D]) if fi else D
    d1, v = O.L.dinv(link, eta), O.var(fam, mu)
    ww = w / phi
    exp_w = ww * d1**2 / v
    obs_w = ww * (d1**2 / v * (1 + (y - mu) * O.dvar(fam, mu) / v) - (y - mu) / v * O.L.d2inv(link, eta))
    sc = ww * (y - mu) / v * d1
    ctx.mark((w > 0).sum() > 1)
    ctx.label(f"{fam}/{link}", c["mat"])
    pos = w > 0
    # zero weights: 1/(phi/w) with w=0 is zero
    with np.errstate(divide="ignore"):
        a = f._fisher_information(l, X, y, mu, w, phi, fi)
        b = f._observed_information(l, X, y, mu, w, phi, fi)
        s = f._score_matrix(l, X, y, mu, w, phi, fi)
    s = s.toarray() if hasattr(s, "toarray") else s.A if hasattr(s, "A") else np.asarray(s)
    for got, want, nm, wt in [(a, (Z.T * exp_w) @ Z, "expected information", exp_w), (b, (Z.T * obs_w) @ Z, "observed information", obs_w)]:
        O.assert_close(got, want, rtol=1e-6, atol=1e-9, scale=(np.abs(Z).T * np.abs(wt)) @ np.abs(Z), what=f"{fam}/{link}/{c['mat']}: {nm}")
    O.assert_close(s, Z * sc[:, None], rtol=1e-6, atol=1e-9, scale=np.abs(Z) * (ww * (np.abs(y) + np.abs(mu)) / v * np.abs(d1))[:, None], what=f"{fam}/{link}/{c['mat']}: score matrix")
