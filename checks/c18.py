"""C18: single precision."""
import numpy as np
import pandas as pd
import polars as pl
import tabmat as tm
from hypothesis import strategies as st
from scipy import sparse

from checks.common import conditioning
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "normal", "uniform", "binary", "sparse", "ints", "skew", "shifted", "small", "fine"]
FAMS = [fl for fl in G.FAM_LINKS if fl[0] != "tweedie:3"]
STORES = ["C", "F", "csc", "csr", "csc_array", "pandas", "polars", "tm.dense", "tm.sparse", "tm.split", "strided"]
FRAMES = ("pandas", "polars")
VEC = ["f32", "f64", "int", "list", "series32"]
EPS = float(np.finfo(np.float32).eps)


def store32(kind, X):
    X = X.astype(np.float32)
    n, p = X.shape
    if kind == "C":
        return X
    if kind == "F":
        return np.asfortranarray(X)
    if kind == "strided":
        B = np.zeros((2 * n, p), np.float32)
        B[::2] = X
        return B[::2]
    if kind in ("csc", "csr"):
        return getattr(sparse, kind + "_matrix")(X)
    if kind == "csc_array":
        return sparse.csc_array(X)
    if kind == "pandas":
        return pd.DataFrame(X, columns=[f"c{j}" for j in range(p)])
    if kind == "polars":
        return pl.DataFrame({f"c{j}": X[:, j] for j in range(p)})
    if kind == "tm.dense":
        return tm.DenseMatrix(np.asfortranarray(X))
    if kind == "tm.sparse":
        return tm.SparseMatrix(sparse.csc_matrix(X))
    if kind == "tm.split":
        if p < 2:
            return tm.DenseMatrix(np.asfortranarray(X))
        i, j = np.arange(0, p, 2), np.arange(1, p, 2)
        return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, i])), tm.SparseMatrix(sparse.csc_matrix(X[:, j]))], [i, j])
    raise KeyError(kind)


def vec(kind, v):
    if v is None:
        return None
    if kind == "int":
        return v.astype(np.int64) if np.array_equal(v, np.round(v)) else v.astype(np.float32)
    if kind == "f32":
        return v.astype(np.float32)
    if kind == "series32":
        return pd.Series(v.astype(np.float32), index=np.arange(len(v))[::-1])
    if kind == "list":
        return v.tolist()
    return v


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=FAMS, cols=COLS, min_n=8, max_n=60, max_p=5, alphas=(0.003, 0.01, 0.03, 0.1, 0.5, 1.0, 0.0),
                                  weights=("none", "none", "uniform", "zeros", "ints")), **kw}))
    c["store"] = draw(st.sampled_from(STORES))
    c["kinds"] = [draw(st.sampled_from(VEC)) for _ in range(3)]
    c["solver"] = draw(st.sampled_from(["auto", "auto", "irls-cd", "irls-ls", "lbfgs", "closed-form", "trust-constr"]))
    c["p64"] = draw(st.booleans())
    if "fine" in c["cols"] and c["P2"] == "psd":
        c["P2"] = "identity"  # rounding a singular penalty outweighs the curvature of such columns
    return c


def rounded(c):
    """The case with every number representable in single precision."""
    pb = G.Problem(c)
    for a in ("X", "y", "w", "off"):
        v = getattr(pb, a)
        if v is not None:
            setattr(pb, a, v.astype(np.float32).astype(float))
    return pb


def solver_of(pb, s):
    if "fine" in pb.c["cols"] and s in ("lbfgs", "trust-constr"):
        return "auto"  # too badly scaled for these methods in single precision
    if s == "closed-form" and not (pb.fam == "normal" and pb.link == "identity" and pb.l1 == 0):
        return "auto"
    if pb.l1 > 0 and pb.alpha > 0 and s in ("irls-ls", "lbfgs", "trust-constr"):
        return "irls-cd"
    return s


def fit(pb, X, y, w, off, **par):
    try:
        return G.quiet_fit(G.glr(**pb.params(**par)), X, y, sample_weight=w, offset=off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
            raise
        return None, False


def regular(pb, m):
    """Curvature and size of the linear predictor that single precision can resolve."""
    k = conditioning(pb, m)
    if k is None or k < 3e-3:
        return None
    obj = pb.objective()
    eta = obj.eta(float(m.intercept_), np.asarray(m.coef_, float))
    if np.abs(eta).max() > (4 if pb.link == "cloglog" else 8):
        return None
    return k


@check("C18", cases(), quick=1400, rule="float32 designs in 11 containers, responses, weights and offsets as float32, float64, integer, list or Series: dtype of the results and agreement of coefficients and objective with the double precision fit of the same numbers; non-trivial = converged, curvature above 3e-3 and a non-zero coefficient")
def fits(c, ctx):
    pb = rounded(c)
    s = solver_of(pb, c["solver"])
    par = dict(solver=s, max_iter=200)
    m64, c64 = fit(pb, pb.X, pb.y, pb.w, pb.off, gradient_tol=1e-8, **par)
    if m64 is None or not c64:
        return
    k = regular(pb, m64)
    if k is None:
        return
    X = store32(c["store"], pb.X)
    y, w, off = (vec(kd, v) for kd, v in zip(c["kinds"], (pb.y, pb.w, pb.off)))
    over = {}
    if not c["p64"]:
        over = {a: getattr(pb, a).astype(np.float32) for a in ("P1", "P2") if getattr(pb, a) is not None}
    m, conv = fit(pb, X, y, w, off, gradient_tol=1e-4, **par, **over)
    ctx.label(f"store:{c['store']}", f"solver:{s}", f"fam:{pb.fam}", f"conv:{conv}")
    what = f"{pb.fam}/{pb.link}/{s}/{c['store']}"
    if m is None:
        fail(f"{what}: the float32 fit failed, the float64 fit has curvature {k:.1e}")
    # data frames are always converted to double precision
    if np.asarray(m.coef_).dtype != np.float32 and c["store"] not in FRAMES:
        fail(f"{what}: coef_ has dtype {np.asarray(m.coef_).dtype}")
    # a Newton iteration in single precision may stall above the tolerance (and warn);
    # where it stands must still be a solution to single-precision accuracy
    obj = pb.objective()
    b0, b = float(m.intercept_), np.asarray(m.coef_, float)
    if not np.all(np.isfinite(np.r_[b0, b])):
        fail(f"{what}: coefficients {b0}, {b}")
    B0, B = float(m64.intercept_), np.asarray(m64.coef_, float)
    sd = obj.std * obj.rstd
    size = 1 + np.abs(B * sd).max() + abs(B0) + np.abs(obj.mean * B).sum()
    d = max(np.abs((b - B) * sd).max(), abs(b0 + obj.mean @ b - B0 - obj.mean @ B) if pb.fi else 0.0)
    bound = (8 * (1e-4 if s not in ("lbfgs", "trust-constr") else 2e-3) + 400 * EPS * size * np.sqrt(len(pb.y))) / min(k, 1.0)
    if not conv:
        if s in ("lbfgs", "trust-constr"):
            return  # gave up and said so
        bound *= 10
    if not d <= bound:
        fail(f"{what}: ({b0}, {b}) in single, ({B0}, {B}) in double precision: distance {d:.2e} > {bound:.2e} (curvature {k:.1e})")
    f, F = obj.value(b0, b), obj.value(B0, B)
    slack = bound**2 * 4 + 50 * EPS * (1 + abs(F))
    if not f <= F + slack * 10:
        fail(f"{what}: objective {f} in single, {F} in double precision")
    ctx.mark(conv and bool(np.any(B != 0)))


@check("C18", cases(min_n=10, fams=[fl for fl in FAMS if fl[0] not in ("ghs", "igauss", "tweedie:0")]), quick=500,
       rule="predictions, scores, deviance, covariance, information criteria, pickled copies and refits (warm start) of float32 models against the float64 model at the same coefficients; non-trivial = every answer compared")
def answers(c, ctx):
    pb = rounded(c)
    if pb.alpha == 0:
        pb.alpha = 0.1
    s = solver_of(pb, c["solver"])
    X = store32(c["store"], pb.X)
    y, w, off = (vec(kd, v) for kd, v in zip(c["kinds"], (pb.y, pb.w, pb.off)))
    par = dict(solver=s, max_iter=200, gradient_tol=1e-4)
    m, conv = fit(pb, X, y, w, off, **par)
    if m is None or not conv or regular(pb, m) is None:
        return
    what = f"{pb.fam}/{pb.link}/{s}/{c['store']}"
    # the double precision twin: the same coefficients
    t, _ = fit(pb, pb.X, pb.y, pb.w, pb.off, **par)
    if t is None:
        return
    t.coef_, t.intercept_ = np.asarray(m.coef_, float), float(m.intercept_)
    wt = np.ones(len(pb.y)) if pb.w is None else pb.w
    obj = pb.objective()
    e = np.asarray(m.linear_predictor(X, offset=off), float)
    E = obj.eta(t.intercept_, t.coef_)
    size = 1 + np.abs(E).max() + (np.abs(pb.X) @ np.abs(t.coef_)).max()
    O.assert_close(e, E, rtol=0, atol=20 * EPS * size, what=what + ": linear_predictor")
    mu, MU = np.asarray(m.predict(X, offset=off), float), t.predict(pb.X, offset=pb.off)
    O.assert_close(mu, MU, rtol=100 * EPS * size, atol=100 * EPS * size, what=what + ": predict")
    tot = float(np.abs(O.unit_dev(pb.fam, pb.y, MU) * wt).sum() / wt.sum())
    tol = 400 * EPS * size * (1 + tot) * (1 + np.abs(pb.y).max())
    sc, SC = m.score(X, y, sample_weight=w, offset=off), t.score(pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    null = np.average(O.unit_dev(pb.fam, pb.y, np.full(len(pb.y), np.average(pb.y, weights=wt))), weights=wt)
    if null > 1e-2:
        O.assert_close(sc, SC, rtol=0, atol=tol / min(1, null), what=what + ": score")
    nt = 0
    if len(pb.y) > pb.p + pb.fi + 2 and pb.link != "cloglog":
        for kw in (dict(), dict(robust=False), dict(robust=True, expected_information=True)):
            try:
                V = t.covariance_matrix(pb.X, pb.y, sample_weight=pb.w, offset=pb.off, **kw)
            except np.linalg.LinAlgError:
                continue
            ev = np.linalg.eigvalsh((V + V.T) / 2)
            if ev[0] <= 0 or ev[-1] / ev[0] > 300 or not np.all(np.isfinite(V)):
                continue
            v = np.asarray(m.covariance_matrix(X, y, sample_weight=w, offset=off, **kw), float)
            O.assert_close(v, V, rtol=5e-3, atol=5e-3 * np.abs(V).max() + 1e-9, what=f"{what}: covariance_matrix({kw})")
            nt += 1
    fresh = G.glr(**pb.params(**par), warm_start=True)
    fresh.fit(X, y, sample_weight=w, offset=off)
    first = fresh.coef_.copy()
    fresh.fit(X, y, sample_weight=w, offset=off)
    if fresh.coef_.dtype != np.float32 and c["store"] not in FRAMES:
        fail(f"{what}: coef_ has dtype {fresh.coef_.dtype} after a warm start")
    k = regular(pb, m)
    O.assert_close(np.asarray(fresh.coef_, float) * obj.std * obj.rstd, np.asarray(first, float) * obj.std * obj.rstd, rtol=0,
                   atol=(16 * (1e-4 if s not in ("lbfgs", "trust-constr") else 2e-3) + 400 * EPS * size) / min(k, 1), what=what + ": warm-started refit")
    ctx.label(f"covs:{nt}", f"fam:{pb.fam}")
    ctx.mark(True)


@check("C18", cases(max_n=40), quick=700, rule="float64 designs with responses, weights, offsets, start values and penalties in any numeric dtype give the bitwise float64 result; non-trivial = some argument not float64")
def mixed(c, ctx):
    pb = rounded(c)
    for a in ("P1", "P2"):
        v = getattr(pb, a)
        if v is not None:
            setattr(pb, a, v.astype(np.float32).astype(float))
    s = solver_of(pb, c["solver"])
    par = dict(solver=s, max_iter=40)
    rng = np.random.default_rng(c["seed"] + 1)
    start = (rng.normal(size=pb.p + pb.fi) * 0.1).astype(np.float32) if rng.integers(2) else None
    sp = {} if start is None else dict(start_params=start.astype(float))
    m64, c64 = fit(pb, pb.X, pb.y, pb.w, pb.off, **par, **sp)
    if m64 is None:
        return
    y, w, off = (vec(kd, v) for kd, v in zip(c["kinds"], (pb.y, pb.w, pb.off)))
    over = {a: getattr(pb, a).astype(np.float32) for a in ("P1", "P2") if getattr(pb, a) is not None and rng.integers(2)}
    if start is not None:
        sp = dict(start_params=start)
    m, conv = fit(pb, pb.X.copy(), y, w, off, **par, **over, **sp)
    what = f"{pb.fam}/{pb.link}/{s}: y, weights, offset as {c['kinds']}, {sorted(over)} in float32"
    if m is None:
        fail(f"{what}: the fit failed")
    if m.coef_.dtype != np.float64:
        fail(f"{what}: coef_ has dtype {m.coef_.dtype} for a float64 design")
    if conv and c64:
        O.assert_close(m.coef_, m64.coef_, rtol=1e-9, atol=1e-10 * (1 + np.abs(m64.coef_).max()), what=what + ": coef_")
        O.assert_close(m.intercept_, m64.intercept_, rtol=1e-9, atol=1e-10, what=what + ": intercept_")
    ctx.label(*[f"y:{c['kinds'][0]}", f"w:{c['kinds'][1]}", f"P:{len(over)}"])
    ctx.mark(conv and (any(k not in ("f64", "list") for k in c["kinds"]) or bool(over)))


@st.composite
def talls(draw):
    return dict(seed=draw(G.SEEDS), store=draw(st.sampled_from(["C", "F", "csc", "tm.split"])))


@check("C18", talls(), quick=40, rule="each case is 60 tall well-conditioned float32 designs (200 to 2000 rows, standard normal columns, irls-ls, tolerance 1e-5): nearly all (all but 2) converge without a warning, all to the double precision solution; non-trivial = all compared")
def tall(c, ctx):
    stuck = []
    for i in range(60):
        rng = np.random.default_rng([c["seed"], i])
        fam = str(rng.choice(["poisson", "gamma", "tweedie:1.5", "binomial"]))
        n, p, alpha = int(rng.integers(200, 2000)), int(rng.integers(2, 7)), float(rng.choice([0.001, 0.1]))
        X = rng.normal(size=(n, p)).astype(np.float32)
        eta = (fam != "binomial") + X.astype(float) @ (rng.normal(size=p) * 0.4)
        link = "logit" if fam == "binomial" else "log"
        y = np.asarray(O.random_y(rng, fam, O.L.inv(link, eta))).astype(np.float32)
        if fam == "gamma":
            y = np.maximum(y, np.float32(1e-3))
        out = []
        for Z, tol in ((store32(c["store"], X), 1e-5), (X.astype(float), 1e-8)):
            m = G.glr(family=O.make_family(fam), link=link, alpha=alpha, solver="irls-ls", gradient_tol=tol)
            out.append(G.quiet_fit(m, Z, y.astype(np.float32 if tol == 1e-5 else float)))
        (m, conv), (d, cd) = out
        what = f"{fam}, {n} x {p} float32 values as {c['store']}"
        if not cd:
            continue
        if not conv:
            stuck.append(f"{what} ({m.n_iter_} iterations, {d.n_iter_} in double precision)")
        O.assert_close(np.r_[m.intercept_, m.coef_], np.r_[d.intercept_, d.coef_], rtol=0, atol=5e-3, what=what)
    if len(stuck) > 2:
        fail(f"{len(stuck)} of 60 float32 fits did not converge: {stuck}")
    ctx.mark()


@st.composite
def extremes(draw):
    return dict(seed=draw(G.SEEDS), n=draw(st.integers(1, 6)), f32=draw(st.booleans()), phi=draw(st.sampled_from([1.0, 0.3, 5.0])))


@check("C18", extremes(), quick=400, rule="logistic models of both precisions at predictors up to the range of their type: the inverse variances of the rows are finite, and equal w (2 + e^eta + e^-eta) / phi where that is representable; non-trivial = some |eta| above 80")
def inverse_variance(c, ctx):
    from glum import BinomialDistribution, LogitLink, _distribution

    f = getattr(_distribution, "get_one_over_variance", None)
    if f is None:
        return
    rng = np.random.default_rng(c["seed"])
    t = np.float32 if c["f32"] else np.float64
    eta = (rng.choice([-1, 1], size=c["n"]) * np.exp(rng.uniform(-3, np.log(2000), size=c["n"]))).astype(t)
    w = rng.uniform(0.5, 1, size=c["n"]).astype(t)
    with np.errstate(all="ignore"):
        v = np.asarray(f(BinomialDistribution(), LogitLink(), O.L.inv("logit", eta.astype(float)).astype(t), eta, c["phi"], w))
        want = w * (2 + np.exp(eta.astype(float)) + np.exp(-eta.astype(float))) / c["phi"]
    if not np.all(np.isfinite(v)):
        fail(f"inverse variances {v} at {eta} in {t.__name__}")
    ok = np.abs(eta) < (80 if c["f32"] else 700)
    O.assert_close(v[ok], want[ok], rtol=3e-5 if c["f32"] else 1e-12, what="inverse variance")
    ctx.mark(bool(np.any(np.abs(eta) > 80)))
