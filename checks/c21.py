"""C21: predictions, scores and information criteria are consistent."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c06 import KINDS, store, vec
from checks.c15 import pearson, unit_ll
from checks.c19 import fit
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints", "big", "small"]
EXTRA = [("gamma", "identity"), ("poisson", "identity"), ("normal", "tweedie1"), ("gamma", "tweedie2"), ("igauss", "tweedie3"), ("tweedie:1.5", "tweedie1.5")]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(cols=COLS, min_n=6, max_n=40, max_p=5, alphas=(0.01, 0.1, 0.5, 1.0)), **kw}))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["m"] = draw(st.integers(1, 12))
    c["noff"] = draw(st.sampled_from([None, "vec", "vec", "zero"]))
    c["nw"] = draw(st.sampled_from([None, "vec", "ints", "scalar"]))
    c["vec"] = [draw(st.sampled_from(["array", "list", "series", "strided"])) for _ in range(3)]
    c["how"] = draw(st.sampled_from(["one", "one", "path", "cv"]))
    c["inty"] = draw(st.booleans())
    return c


def model(pb, c):
    import glum

    par = pb.params(max_iter=100)
    off = None if c["how"] == "cv" else pb.off
    if c["how"] == "path":
        par["alpha"] = [1.0, pb.alpha]
        est = glum.GeneralizedLinearRegressor(alpha_search=True, **par)
    elif c["how"] == "cv" and len(pb.y) >= 10:
        par.pop("alpha")
        est = glum.GeneralizedLinearRegressorCV(alphas=[1.0, pb.alpha], cv=2, **par)
    else:
        est = glum.GeneralizedLinearRegressor(**par)
    m = fit(est, pb.X, pb.y, sample_weight=pb.w, offset=off)
    if m is None or not np.all(np.isfinite(np.r_[float(m.intercept_), m.coef_])):
        return None
    return m


def new_data(pb, c, rng):
    """Fresh rows with responses, offsets and weights."""
    if c["m"] == 12:
        X = pb.X.copy()
    else:
        X = np.column_stack([G.column(rng, k, c["m"], [np.zeros(c["m"])]) for k in c["cols"]])
    n = len(X)
    off = None if c["noff"] is None else np.zeros(n) if c["noff"] == "zero" else rng.uniform(-1, 1, size=n)
    w = {None: None, "vec": rng.uniform(0.1, 3, size=n), "ints": rng.integers(1, 5, size=n), "scalar": 2.5}[c["nw"]]
    return X, off, w


@check("C21", cases(), quick=2500, rule="linear_predictor and predict of models of all families, links, paths and CV on new rows in 32 containers with offsets and weights against X coef + intercept + offset, the inverse link and the weights; non-trivial = a non-zero coefficient and finite means")
def predictions(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 9)
    m = model(pb, c)
    if m is None:
        return
    Xn, off, w = new_data(pb, c, rng)
    kind = c["kind"]
    S = store(kind, Xn, rng)
    if S is None:
        S, kind = Xn, "C"
    b0, b = float(m.intercept_), np.asarray(m.coef_)
    eta = Xn @ b + b0 + (0 if off is None else off)
    size = np.abs(Xn) @ np.abs(b) + abs(b0) + 1
    what = f"{pb.fam}/{pb.link} {kind} {c['how']}"
    ov, wv = vec(c["vec"][0], off, rng), w if np.isscalar(w) else vec(c["vec"][1], w, rng)
    got = m.linear_predictor(S, offset=ov)
    if np.shape(got) != (len(Xn),):
        fail(f"{what}: linear_predictor has shape {np.shape(got)} for {len(Xn)} rows")
    O.assert_close(got, eta, rtol=0, atol=1e-12, scale=size.max(), what=f"{what}: linear_predictor")
    mu = m.predict(S, offset=ov)
    want = O.L.inv(pb.link, eta)
    if pb.link in ("logit", "cloglog"):
        want = np.clip(want, 50 * np.finfo(float).eps, 1 - 50 * np.finfo(float).eps)
    if pb.link == "log" and eta.max() > 600:
        return
    O.assert_close(mu, want, rtol=1e-9 * size.max(), atol=1e-13, what=f"{what}: predict")
    if w is not None:
        O.assert_close(m.predict(S, sample_weight=wv, offset=ov), want * w, rtol=1e-9 * size.max(), atol=1e-12, what=f"{what}: predict with weights {c['nw']}")
    # every row on its own
    i = int(rng.integers(len(Xn)))
    O.assert_close(m.predict(Xn[i : i + 1], offset=None if off is None else off[i : i + 1]), mu[i : i + 1], rtol=1e-9 * size.max(), atol=1e-13, what=f"{what}: predict of row {i} alone")
    # the shape of the data is checked
    try:
        m.predict(np.column_stack([Xn, Xn[:, :1]]))
    except ValueError:
        pass
    else:
        fail(f"{what}: predict accepts an additional column")
    ctx.label(f"kind:{kind}", f"fam:{pb.fam}/{pb.link}", f"how:{c['how']}")
    ctx.mark(bool(np.any(b != 0)))


@check("C21", cases(fams=[fl for fl in G.FAM_LINKS if fl[0] != "tweedie:0"]), quick=2500, rule="score on training and new data with weights and offsets against one minus the ratio of the family's deviances of the model and of the weighted mean; non-trivial = null deviance positive")
def score(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 10)
    m = model(pb, c)
    if m is None:
        return
    b0, b = float(m.intercept_), np.asarray(m.coef_)
    if c["m"] >= 11:
        X, y, off, w = pb.X, pb.y, (None if c["noff"] is None else pb.off), pb.w
    else:
        X, off, w = new_data(pb, c, rng)
        eta = X @ b + b0 + (0 if off is None else off)
        mu = O.L.inv(pb.link, np.clip(eta, -5, 5))
        if pb.fam == "normal":
            y = mu + rng.normal(size=len(mu))
        else:
            y = O.random_y(rng, pb.fam, np.where(O.var(pb.fam, mu) > 1e-6, mu, mu + 1e-3))
    eta = X @ b + b0 + (0 if off is None else off)
    mu = O.L.inv(pb.link, eta)
    if not np.all(np.isfinite(mu)) or np.abs(mu).max() > 1e6 or pb.fam == "binomial" and np.minimum(mu, 1 - mu).min() < 1e-9 or pb.link == "log" and mu.min() < 1e-9:
        return
    wv = np.ones(len(y)) if w is None else np.broadcast_to(np.asarray(w, float), y.shape)
    ybar = float(wv @ y / wv.sum())
    dev, null = (float(wv @ O.unit_dev(pb.fam, y, np.broadcast_to(a, y.shape))) for a in (mu, ybar))
    if pb.fam == "binomial":
        # the saturated model of fractional responses cancels or not together
        dev, null = (v - float(wv @ O.binomial_entropy(y)) for v in (dev, null))
    if not null > 1e-6 * wv.sum():
        return
    yy = y.astype(int) if c["inty"] and np.all(y == np.round(y)) else vec(c["vec"][1], y, rng)
    S = store(c["kind"], X, rng)
    S = X if S is None else S
    got = m.score(S, yy, sample_weight=w if np.isscalar(w) else vec(c["vec"][2], w, rng), offset=vec(c["vec"][0], off, rng))
    what = f"{pb.fam}/{pb.link} {c['kind']} {c['how']} weights {c['nw']} offset {c['noff']}: score"
    O.assert_close(got, 1 - dev / null, rtol=1e-8, atol=1e-8 * (1 + float(wv @ (np.abs(y) + np.abs(mu) + 1) ** 2) / null), what=what)
    ctx.label(f"fam:{pb.fam}", f"how:{c['how']}", f"new:{c['m'] < 11}", f"int:{c['inty']}")
    ctx.mark(True)


IC = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("igauss", "log"), ("negbin:1.0", "log"), ("negbin:0.3", "log"),
      ("tweedie:1.5", "log"), ("tweedie:1.2", "log"), ("normal", "log"), ("binomial", "cloglog"), ("tweedie:1", "log"), ("tweedie:2", "log"), ("tweedie:0", "identity"), ("tweedie:3", "log")]


@check("C21", cases(fams=IC, max_n=25, offsets=(False,), alphas=(0.0, 0.01, 0.05, 0.2, 0.5), l1=(0.0, 1.0, 1.0, 0.5)), quick=2000,
       rule="aic, aicc and bic of models with dropped coefficients, weights, paths, and of other responses and weights of the same length in any call order, against reference densities and the number of non-zero coefficients; non-trivial = criteria compared")
def criteria(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 11)
    c = {**c, "how": "one" if c["how"] == "cv" else c["how"]}
    if c["how"] == "path" and pb.alpha == 0:
        c["how"] = "one"
    m = model(pb, c)
    if m is None:
        return
    n, b0, b = len(pb.y), float(m.intercept_), np.asarray(m.coef_)
    mu = O.L.inv(pb.link, pb.X @ b + b0)
    if not np.all(np.isfinite(mu)) or np.abs(mu).max() > 1e5 or O.var(pb.fam, mu).min() < 1e-6:
        return
    k = int(np.sum(np.abs(b) > np.finfo(float).eps)) + pb.fi
    name, par = O.fam_param(pb.fam)
    S = store(c["kind"], pb.X, rng) if c["kind"] != "list" else None
    S = pb.X if S is None else S
    calls = []
    for v in range(2):
        y = pb.y if v == 0 else pb.y[rng.permutation(n)]
        w = pb.w if v == 0 else (rng.uniform(0.5, 2, size=n) if rng.integers(2) else None)
        wv = np.ones(n) if w is None else w
        phi = 1.0
        if name in ("normal", "gamma", "igauss") or name == "tweedie" and par != 1:
            phi = pearson(pb.fam, y, mu, wv, 1)
            if not 1e-3 < phi < 1e3 or wv.sum() <= 1.3:
                return
        u = unit_ll(pb.fam, y, mu, phi)
        ll = float(np.sum(np.where(wv > 0, wv * u, 0)))
        calls.append((y, w, ll, float(wv @ (np.abs(u) + 1)) * (1 + 1 / phi)))
    what = f"{pb.fam}/{pb.link} {c['how']}: "
    todo = [(crit, v) for crit in ("aic", "aicc", "bic") for v in range(2)]
    for i in rng.permutation(len(todo)):
        crit, v = todo[i]
        y, w, ll, scale = calls[v]
        pen = 2 * k if crit != "bic" else k * np.log(n)
        if crit == "aicc":
            if n <= k + 1:
                try:
                    m.aicc(S, y, sample_weight=w)
                except ValueError:
                    continue
                fail(what + f"aicc exists with {n} observations and {k} parameters")
            pen += 2 * k * (k + 1) / (n - k - 1)
        got = getattr(m, crit)(S, vec(c["vec"][0], y, rng), sample_weight=vec(c["vec"][1], w, rng))
        O.assert_close(got, -2 * ll + pen, rtol=1e-7, atol=1e-8 * scale, what=what + f"{crit} with {k} parameters, {n} rows, {'training' if v == 0 else 'other'} responses")
    for short in (pb.X[:-1], np.vstack([pb.X, pb.X])):
        try:
            m.aic(short, np.resize(pb.y, len(short)))
        except ValueError:
            continue
        fail(what + f"aic of {len(short)} rows for a model of {n}")
    ctx.label(f"fam:{pb.fam}", f"how:{c['how']}", f"dropped:{int(np.sum(b == 0))}")
    ctx.mark(True)
