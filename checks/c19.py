"""C19: covariance matrices match their definitions."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c06 import KINDS, store, vec
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "normal", "uniform", "binary", "sparse", "shifted", "skew", "ints", "big", "small"]
FAMS = [fl for fl in G.FAM_LINKS if fl != ("tweedie:0", "identity")] + [("normal", "log"), ("binomial", "cloglog"), ("negbin:1.0", "log")]
ARGS = [(None, None), (True, None), (False, None), (True, True), (True, False), (None, True), (False, True)]
LABELS = ["ints", "gaps", "strings", "floats", "negative", "singletons", "series", "list", "two", "bool"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=FAMS, cols=COLS, min_n=12, max_n=60, max_p=4, l1=(0.0,), alphas=(0.0, 0.0, 0.05, 0.3),
                                  weights=("none", "uniform", "zeros", "ints")), **kw}))
    c["n"] = max(c["n"], 4 * len(c["cols"]) + 8)
    if c["alpha"] == 0:
        c["n"] = max(c["n"], 10 * len(c["cols"]) + 10)
    c["kind"] = draw(st.sampled_from(KINDS))
    c["args"] = draw(st.integers(0, len(ARGS) - 1))
    c["labels"] = draw(st.sampled_from([None, None] + LABELS))
    c["disp"] = draw(st.sampled_from([None, None, 1.0, 0.37]))
    c["mu"] = draw(st.booleans())
    c["vec"] = [draw(st.sampled_from(["array", "list", "series", "strided"])) for _ in range(3)]
    c["rob"] = draw(st.sampled_from([True, False]))
    c["exp"] = draw(st.sampled_from([False, True]))
    c["search"] = draw(st.sampled_from([False, False, False, "path", "cv"]))
    return c


def labels_of(kind, rng, n):
    m = int(rng.integers(3, max(4, n // 2)))
    g = np.r_[np.arange(m), rng.integers(0, m, size=n - m)]
    g = rng.permutation(g)
    if kind == "gaps":
        return g * 7 + 3, g
    if kind == "strings":
        return np.array([f"g{i}" for i in g]), g
    if kind == "floats":
        return g / 3.0 - 1, g
    if kind == "negative":
        return g - m, g
    if kind == "singletons":
        g = rng.permutation(n)
        return g, g
    if kind == "series":
        return pd.Series(g * 2, index=rng.permutation(n) + 5), g
    if kind == "list":
        return [f"c{i}" for i in g], g
    if kind in ("two", "bool"):
        g = rng.permutation(np.r_[0, 1, rng.integers(0, 2, size=n - 2)])
        return (g.astype(bool) if kind == "bool" else g + 1), g
    return g, g


def score_row(fam, link, y, eta, w, phi):
    """d log-likelihood / d eta of every observation."""
    mu = O.L.inv(link, eta)
    return w * (y - mu) * O.L.dinv(link, eta) / (phi * O.var(fam, mu))


def reference(pb, b0, b, robust, expected, g=None, phi=None):
    """The documented estimator from first principles; (matrix, conditioning of the bread)."""
    n = len(pb.y)
    w = np.ones(n) if pb.w is None else pb.w
    Z = np.column_stack([np.ones(n), pb.X]) if pb.fi else pb.X
    p = Z.shape[1]
    eta = Z @ (np.r_[b0, b] if pb.fi else b) + (0 if pb.off is None else pb.off)
    mu = O.L.inv(pb.link, eta)
    if phi is None:
        phi = w @ ((pb.y - mu) ** 2 / O.var(pb.fam, mu)) / (w.sum() - p)
    fisher = w * O.L.dinv(pb.link, eta) ** 2 / (phi * O.var(pb.fam, mu))
    sw = w.sum()
    if g is None and not robust:
        H = (Z.T * fisher) @ Z
        if not well(H):
            return None, H, phi
        return np.linalg.inv(H) * sw / (sw - p), H, phi
    if expected:
        rows = fisher
    else:
        # minus the derivative of the score, by a five-point difference
        h = 2e-3
        s = lambda e: score_row(pb.fam, pb.link, pb.y, e, w, phi)  # noqa: E731
        rows = -(8 * (s(eta + h) - s(eta - h)) - (s(eta + 2 * h) - s(eta - 2 * h))) / (12 * h)
    H = (Z.T * rows) @ Z
    if not well(H):
        return None, H, phi
    S = Z * score_row(pb.fam, pb.link, pb.y, eta, w, phi)[:, None]
    if g is not None:
        lab = np.unique(g)
        S = np.array([S[g == a].sum(0) for a in lab])
        corr = len(lab) / (len(lab) - 1) * (sw - 1) / (sw - p)
    else:
        corr = sw / (sw - p)
    Hi = np.linalg.inv(H)
    return corr * Hi @ (S.T @ S) @ Hi, H, phi


def regular(pb, b0, b):
    n = len(pb.y)
    o = pb.objective()
    if not np.all(np.isfinite(np.r_[b0, b])):
        return False
    eta = o.eta(b0, b)
    w = np.ones(n) if pb.w is None else pb.w
    if w.sum() <= pb.p + pb.fi + 1 or n <= pb.p + pb.fi + 1:
        return False
    return np.abs(eta).max() < {"cloglog": 2.5, "logit": 9, "log": 9}.get(pb.link, 1e6)


def well(H):
    d = np.sqrt(np.abs(np.diag(H)))
    if np.any(d == 0) or not np.all(np.isfinite(H)):
        return False
    e = np.abs(np.linalg.eigvalsh(H / np.outer(d, d)))
    return e.min() > 1e-4 * e.max()


def est_of(pb, c, **kw):
    import glum

    par = pb.params(max_iter=80, **kw)
    if c["search"] == "path":
        par["alpha"] = [1.0, max(pb.alpha, 1e-3)]
        return glum.GeneralizedLinearRegressor(alpha_search=True, **par)
    if c["search"] == "cv":
        par.pop("alpha")
        return glum.GeneralizedLinearRegressorCV(alphas=[1.0, max(pb.alpha, 1e-3)], cv=2, **par)
    return glum.GeneralizedLinearRegressor(**par)


def fit(est, *a, **kw):
    try:
        return G.quiet_fit(est, *a, **kw)[0]
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and not any(t in str(e) for t in ("infs or NaNs", "ingular", "No variation")):
            raise
        return None


def compare(V, ref, what, rtol=2e-6):
    V = np.asarray(V)
    s = np.sqrt(np.abs(np.diag(ref))) + 1e-300
    if V.shape != ref.shape:
        fail(f"{what}: shape {V.shape}, expected {ref.shape}")
    d = np.abs(V - ref) / np.outer(s, s)
    if not np.all(d <= rtol):
        fail(f"{what}: off by {np.nanmax(d):.1e} relative to the variances:\n{V}\ninstead of\n{ref}")
    if not np.all(np.abs(V - V.T) / np.outer(s, s) <= 1e-8):
        fail(f"{what}: not symmetric:\n{V}")


@check("C19", cases(), quick=2500, rule="covariance_matrix of fitted models of 19 family-link pairs for every estimator, given/default options, labels, dispersion and mean, against inverses of differenced scores; non-trivial = well-conditioned information")
def definition(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 5)
    robust, expected = ARGS[(c["args"] + c["seed"]) % len(ARGS)]
    m = fit(est_of(pb, c, robust=c["rob"], expected_information=c["exp"]), pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    if m is None or not regular(pb, m.intercept_, m.coef_):
        return
    labels, g = labels_of(c["labels"], rng, len(pb.y)) if c["labels"] else (None, None)
    r, e = c["rob"] if robust is None else robust, c["exp"] if expected is None else expected
    X = store(c["kind"], pb.X, rng)
    if X is None:
        X = pb.X
    kw = dict(sample_weight=vec(c["vec"][1], pb.w, rng), offset=vec(c["vec"][2], pb.off, rng), clusters=labels, robust=robust, expected_information=expected)
    if c["disp"] is not None:
        kw["dispersion"] = c["disp"]
    if c["mu"]:
        o = pb.objective()
        kw["mu"] = o.mu(float(m.intercept_), m.coef_)
    ref, H, phi = reference(pb, float(m.intercept_), m.coef_, r, e, g, c["disp"])
    if not well(H) or not 1e-8 < phi < 1e6:
        return
    what = f"{pb.fam}/{pb.link} {c['kind']} robust={robust} expected={expected} clusters={c['labels']} dispersion={c['disp']} (model: {c['rob']}, {c['exp']})"
    V = m.covariance_matrix(X, vec(c["vec"][0], pb.y, rng), **kw)
    compare(V, ref, what)
    se = m.std_errors(X, pb.y, **kw)
    if not np.allclose(se, np.sqrt(np.diag(V)), rtol=1e-10):
        fail(f"{what}: std_errors {se} are not the square roots of the variances {np.diag(V)}")
    if m.covariance_matrix_ is not None:
        fail("covariance_matrix_ was set although store_covariance_matrix is False")
    ctx.label(f"fam:{pb.fam}/{pb.link}", f"estimator:{'cluster' if g is not None else 'robust' if r else 'plain'}", f"expected:{e}", f"kind:{c['kind']}", f"search:{c['search']}")
    ctx.mark(True)


@check("C19", cases(), quick=1200, rule="row order, cluster names, singleton clusters, integer weights as repetition (plain) and storage in fit or later: the same matrix; non-trivial = well-conditioned information and every relation compared")
def relations(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 6)
    n = len(pb.y)
    labels, g = labels_of(c["labels"], rng, n) if c["labels"] else (None, None)
    base = dict(sample_weight=pb.w, offset=pb.off)
    m = fit(est_of(pb, c, robust=c["rob"], expected_information=c["exp"]), pb.X, pb.y, **base, store_covariance_matrix=True, clusters=labels)
    if m is None or not regular(pb, m.intercept_, m.coef_):
        return
    ref, H, phi = reference(pb, float(m.intercept_), m.coef_, c["rob"], c["exp"], g)
    if not well(H) or not 1e-8 < phi < 1e6:
        return
    what = f"{pb.fam}/{pb.link} search={c['search']} model robust={c['rob']} expected={c['exp']} clusters={c['labels']}"
    compare(m.covariance_matrix_, ref, what + ": stored by fit")
    compare(m.covariance_matrix(), m.covariance_matrix_, what + ": covariance_matrix() without data", 1e-12)
    compare(m.covariance_matrix(pb.X, pb.y, clusters=labels, **base), ref, what + ": recomputed")
    # another estimator, given on call, is stored on request only
    other = not c["rob"]
    V = m.covariance_matrix(pb.X, pb.y, robust=other, **base)
    alt = reference(pb, float(m.intercept_), m.coef_, other, c["exp"])[0]
    if alt is not None:
        compare(V, alt, what + f": robust={other} on call")
    compare(m.covariance_matrix(), ref, what + ": covariance_matrix() after computing another one")
    V = m.covariance_matrix(pb.X, pb.y, robust=other, store_covariance_matrix=True, **base)
    compare(m.covariance_matrix(), V, what + ": covariance_matrix() after storing another one", 1e-12)
    if not np.allclose(m.std_errors(), np.sqrt(np.diag(V)), rtol=1e-10):
        fail(what + ": std_errors() do not follow the stored matrix")
    # order of the rows
    q = rng.permutation(n)
    pick = lambda v: None if v is None else v[q]  # noqa: E731
    lab = rng.permutation(np.r_[np.arange(4), rng.integers(0, 4, size=n - 4)])
    for kw in (dict(robust=True), dict(robust=False), dict(clusters=lab)):
        V = m.covariance_matrix(pb.X, pb.y, **base, **kw)
        kq = {**kw, **({"clusters": lab[q]} if "clusters" in kw else {})}
        compare(m.covariance_matrix(pb.X[q], pb.y[q], sample_weight=pick(pb.w), offset=pick(pb.off), **kq), V, what + f": rows reordered, {list(kw)}", 1e-6)
    # names of the clusters
    names = rng.permutation(4)[lab]
    a = m.covariance_matrix(pb.X, pb.y, clusters=lab, **base)
    compare(m.covariance_matrix(pb.X, pb.y, clusters=names, **base), a, what + ": clusters renamed", 1e-6)
    compare(m.covariance_matrix(pb.X, pb.y, clusters=np.array(["b", "aa", "C", "_"])[lab], **base), a, what + ": clusters as strings", 1e-6)
    # every observation its own cluster
    sw = n if pb.w is None else pb.w.sum()
    V = m.covariance_matrix(pb.X, pb.y, robust=True, **base)
    compare(m.covariance_matrix(pb.X, pb.y, clusters=np.arange(n)[::-1], **base), V * (n / (n - 1)) * (sw - 1) / sw, what + ": singleton clusters against robust", 1e-6)
    # integer weights as repeated rows
    if c["w"] == "ints":
        k = pb.w.astype(int)
        rep = lambda v: None if v is None else np.repeat(v, k, axis=0)  # noqa: E731
        compare(m.covariance_matrix(rep(pb.X), rep(pb.y), offset=rep(pb.off), robust=False), m.covariance_matrix(pb.X, pb.y, robust=False, **base), what + ": weights as repetitions", 1e-6)
        compare(m.covariance_matrix(rep(pb.X), rep(pb.y), offset=rep(pb.off), clusters=rep(lab)), a, what + ": weights as repetitions, clustered", 1e-6)
    # refitting forgets the stored matrix
    m2 = fit(m, pb.X, pb.y, **base)
    if m2 is not None and m2.covariance_matrix_ is not None:
        fail(what + ": the stored matrix survives a refit without store_covariance_matrix")
    ctx.label(f"search:{c['search']}", f"w:{c['w']}", f"labels:{c['labels']}")
    ctx.mark(True)


@check("C19", st.fixed_dictionaries(dict(seed=G.SEEDS, n=st.integers(20, 60), drop=st.booleans(), form=st.sampled_from(["frame", "formula", "polars", "twosided"]),
                                         fam=st.sampled_from(["normal", "poisson", "gamma"]), missing=st.booleans(), args=st.integers(0, 3), clusters=st.booleans(), w=st.booleans())),
       quick=500, rule="covariance_matrix from data frames with categorical columns and formulas against the explicit indicator design; non-trivial = full-rank design")
def frames(c, ctx):
    import glum
    import polars as pl

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    lv = np.array(["b", "a", "c"])
    k = rng.permutation(np.r_[0, 1, 2, rng.integers(0, 3, size=n - 3)])
    x = rng.normal(size=n)
    eta = 0.3 * x + 0.4 * (k == 1) - 0.2 * (k == 2)
    y = O.random_y(rng, c["fam"], np.exp(eta)) if c["fam"] != "normal" else eta + rng.normal(size=n)
    if c["fam"] == "poisson":
        y[:3] = [3, 1, 0]
    w = rng.uniform(0.5, 2, size=n) if c["w"] else None
    cat = pd.Categorical(lv[k], categories=["a", "b", "c"])
    df = pd.DataFrame({"x": x, "k": cat, "y": y})
    miss = np.zeros(n, bool)
    if c["missing"]:
        miss[rng.choice(n, 4, replace=False)] = True
        df.loc[miss, "k"] = None
    if (df["k"].value_counts() < 2).any():
        return
    form = c["form"]
    D = [(np.asarray(lv[k] == a) & ~miss).astype(float) for a in "abc"] + ([miss.astype(float)] if c["missing"] else [])
    par = dict(family=c["fam"], link="log" if c["fam"] != "normal" else "identity", alpha=0, cat_missing_method="convert", max_iter=60)
    fi = c["drop"]
    X = np.column_stack([x] + (D[1:] if fi else D))
    if form in ("formula", "twosided"):
        X = np.column_stack(D[1:] + [x]) if fi else np.column_stack(D + [x])
        m = glum.GeneralizedLinearRegressor(formula=("y ~ " if form == "twosided" else "") + "k + x", drop_first=fi, fit_intercept=fi, **par)
    else:
        m = glum.GeneralizedLinearRegressor(drop_first=fi, fit_intercept=fi, **par)
    data = df if form == "twosided" else df.drop(columns="y")
    if form == "polars":
        data = pl.from_pandas(data)
    yy = None if form == "twosided" else y
    m = fit(m, data, yy, sample_weight=w)
    if m is None:
        return
    if len(m.coef_) != X.shape[1]:
        fail(f"{form}: {list(m.feature_names_)} for a design of {X.shape[1]} columns")
    pb = G.Problem(dict(fam=c["fam"], link=par["link"], n=n, seed=1, cols=["normal"]))
    pb.X, pb.y, pb.w, pb.off, pb.fi = X, y, w, None, fi
    if not regular(pb, m.intercept_, m.coef_):
        return
    robust, expected = [(True, False), (True, True), (False, False), (None, None)][c["args"]]
    g = rng.permutation(np.arange(n) % 5) if c["clusters"] else None
    ref, H, phi = reference(pb, float(m.intercept_), m.coef_, robust is not False, bool(expected), g)
    if not well(H):
        return
    V = m.covariance_matrix(data, yy, sample_weight=w, robust=robust, expected_information=expected, clusters=g)
    compare(V, ref, f"{form} {list(m.feature_names_)} {c['fam']} robust={robust} expected={expected} clusters={c['clusters']}")
    ctx.label(form)
    ctx.mark(True)
