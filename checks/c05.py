"""C05: monotonic constraints give monotone predictions."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c01 import saturated
from checks.c02 import curvature
from checks.c04 import better
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

# formula, constrained variables, whether the coefficient constraints describe exactly the monotone models
FORMULAS = [
    ("x", "x", True), ("x + z", "x", True), ("x + z", "xz", True), ("e", "e", True), ("e + x", "e", True), ("e + x", "ex", True), ("C(e) + z", "e", True),
    ("e + g", "e", True), ("e:g", "e", True), ("x:g + z", "x", True), ("x:g", "x", True), ("e*g", "e", False), ("x*g", "x", False),
    ("e*g + x", "ex", False), ("e:g + h", "e", True), ("e:g:h", "e", True), ("e*g*h", "e", False), ("C(e):C(g)", "e", True),
    ("bs(x, df=4)", "x", False), ("bs(x, df=5, include_intercept=True)", "x", False), ("bs(x, df=4):g", "x", False), ("bs(x, df=4)*g + z", "x", False),
    ("bs(x, df=4, degree=2) + e", "xe", False), ("bs(x, df=4, degree=1) + z", "xz", False), ("np.exp(x) + e", "x", True), ("x + np.log(x + 2) + g", "x", False),
    ("C(k)", "k", True), ("C(k)*g", "k", False), ("C(k):g + e", "ke", True), ("e:z + x", "x", True), ("x + x:g + x:h", "x", False), ("g + e:h", "e", True), ("s", "s", True), ("s:g", "s", True),
    ("bs(x, df=4) + x", "x", False), ("x + bs(x, df=5) + z", "x", False), ("x + np.exp(x)", "x", False), ("bs(x, df=4) + x:g", "x", False), ("x + np.exp(x):g + e", "xe", False),
]
FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1.0", "log")]
LEVELS = [["low", "mid", "high"], ["z", "a", "m", "b"], ["1", "2", "10"], ["b", "a"], ["10-20", "5-10", "<5"], ["A", "B", "C", "D", "E"]]


@st.composite
def cases(draw):
    return dict(
        f=draw(st.integers(0, len(FORMULAS) - 1)), fam=draw(st.sampled_from(FAMS)), n=draw(st.integers(20, 80)), seed=draw(G.SEEDS),
        levels=draw(st.integers(0, len(LEVELS) - 1)), dirs=draw(st.lists(st.sampled_from(["increasing", "decreasing"]), min_size=2, max_size=2)),
        drop=draw(st.booleans()), fi=draw(st.sampled_from([True, True, False])), alpha=draw(st.sampled_from([0.001, 0.01, 0.1])),
        scale=draw(st.sampled_from([False, False, True])), solver=draw(st.sampled_from(["auto", "auto", "irls-ls-monotonic", "trust-constr"])),
        tol=draw(st.sampled_from([None, None, 1e-6])), w=draw(st.booleans()), off=draw(st.booleans()), ordered=draw(st.booleans()),
        back=draw(st.sampled_from(["pandas", "pandas", "polars"])), sep=draw(st.sampled_from([":", "__x__"])), mode=draw(st.sampled_from(["plain", "plain", "plain", "path", "cv"])),
        twosided=draw(st.booleans()), unused=draw(st.sampled_from([False, False, True])), start=draw(st.sampled_from([None, None, None, "warm", "params"])), shrink=draw(st.sampled_from([0, 2, 4, 6, 8])), ratio=draw(st.sampled_from([0.2, 0.5, 0.8])),
    )


def data(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    lv = LEVELS[c["levels"]]
    codes = rng.integers(0, len(lv), n)
    codes[: len(lv)] = np.arange(len(lv))
    if c["unused"] and len(lv) > 2:
        codes[codes == 1] = 0
    d = dict(x=rng.uniform(0, 1, n), z=rng.normal(size=n), e=codes, g=rng.integers(0, 2, n), h=rng.integers(0, 3, n), k=rng.integers(0, 4, n), s=rng.integers(0, 3, n))
    d["g"][:2], d["h"][:3], d["k"][:4], d["s"][:3] = [0, 1], [0, 1, 2], [0, 1, 2, 3], [0, 1, 2]
    d["x"][:2] = 0, 1
    # effects that go the wrong way now and then
    lin = rng.normal(size=len(lv))[codes] * 0.7 + rng.normal() * d["x"] + rng.choice([0, 3.0]) * (d["x"] - 0.5) ** 2 + 0.3 * rng.normal() * d["z"]
    lin = lin + rng.normal(size=2)[d["g"]] * 0.3 + rng.normal(size=4)[d["k"]] * 0.4 + rng.normal(size=3)[d["s"]] * 0.4
    off = rng.uniform(-0.3, 0.3, n) if c["off"] else None
    fam, link = c["fam"]
    mu = O.L.inv(link, np.clip(lin + (0 if off is None else off), -2.5, 2.5))
    y = O.random_y(rng, fam, mu)
    if fam == "binomial":
        y[:4] = 0, 1, 0, 1
    elif link == "log":
        y[0], y[-1] = 2.0, 1.0
    w = rng.uniform(0.3, 2, n) if c["w"] else None
    return d, y, w, off, lv


def frame(d, lv, c, extra=None):
    """Data frame of the coded columns (e with its own level order)."""
    names = dict(e=lv, g=["a", "b"], h=["u", "v", "w"], s=["q1", "q2", "q3"])
    if c["back"] == "pandas":
        df = pd.DataFrame({k: pd.Categorical.from_codes(v, names[k], ordered=c["ordered"] and k == "e") if k in "egh" else np.array(names["s"])[v] if k == "s" else v for k, v in d.items()})
        if extra is not None:
            df["y"] = extra
        return df
    import polars as pl

    df = pl.DataFrame({k: pl.Series(np.array(names[k])[v].tolist(), dtype=pl.Enum(names[k])) if k in "egh" else pl.Series(np.array(names["s"])[v].tolist()) if k == "s" else v for k, v in d.items()})
    if extra is not None:
        df = df.with_columns(pl.Series("y", extra))
    return df


def steps(var, d, lv, rng):
    """Coded rows where only ``var`` moves, in increasing order within each block of equal others."""
    m = 6
    rows = rng.integers(0, len(d["x"]), m)
    if var == "x":
        vals = np.linspace(0, 1, 25)
    elif var == "z":
        vals = np.linspace(d["z"].min(), d["z"].max(), 5)
    else:
        vals = np.unique(d[var])  # unused levels are not part of the model
    out = {}
    for k, v in d.items():
        out[k] = np.tile(vals, m) if k == var else np.repeat(v[rows], len(vals))
    return out, m, len(vals)


@check("C05", cases(), quick=1500, rule="random formulas (numeric, spline, categorical with any level order, interactions with categoricals), directions, coding, families, weights, offsets and estimators: predictions on grids moving only the constrained variable are monotone, and where the cone is exact no better monotone model is found; non-trivial = converged with an active constraint")
def monotone(c, ctx):
    import glum
    from sklearn.exceptions import ConvergenceWarning

    f, vs, exact = FORMULAS[c["f"]]
    d, y, w, off, lv = data(c)
    df = frame(d, lv, c, y if c["twosided"] else None)
    exact = exact and not (f == "e:g:h" and c["drop"])  # then coded as e:g + e:g:h
    dirs = dict(zip(vs, c["dirs"]))
    fam, link = c["fam"]
    par = dict(
        family=O.make_family(fam), link=O.make_link(link), formula=("y ~ " if c["twosided"] else "") + f, monotonic_constraints=dirs, l1_ratio=0,
        drop_first=c["drop"], fit_intercept=c["fi"], solver=c["solver"], gradient_tol=c["tol"], scale_predictors=c["scale"] and c["fi"],
        interaction_separator=c["sep"], max_iter=300 if c["solver"] != "trust-constr" else 2000,
    )
    if c["solver"] == "trust-constr":
        par["gradient_tol"] = None
    if c["mode"] == "cv":
        m = glum.GeneralizedLinearRegressorCV(alphas=[0.1, 0.01], cv=2, **par)
    elif c["mode"] == "path":
        m = glum.GeneralizedLinearRegressor(alpha=par_alphas(c), alpha_search=True, **par)
    else:
        m = glum.GeneralizedLinearRegressor(alpha=c["alpha"], **par)
    try:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if c["start"]:  # from a model that moves the other way
                pre = glum.GeneralizedLinearRegressor(alpha=0.02, **{**par, "max_iter": 30, "solver": "auto", "monotonic_constraints": {k: "increasing" if a == "decreasing" else "decreasing" for k, a in dirs.items()}})
                pre.fit(df, None if c["twosided"] else y, sample_weight=w, offset=off)
                if c["start"] == "warm":
                    m.coef_, m.intercept_, m.warm_start = pre.coef_ * 10.0 ** -c["shrink"], pre.intercept_, True
                else:
                    m.start_params = np.r_[pre.intercept_, pre.coef_ * 10.0 ** -c["shrink"]][1 - int(c["fi"]):]
                rec.clear()
            m.fit(df, None if c["twosided"] else y, sample_weight=w, offset=off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, np.linalg.LinAlgError) or "infs or NaNs" in str(e) or "No variation" in str(e) or "singular" in str(e).lower():
            ctx.label("gave-up")
            return
        raise
    msgs = [str(r.message) for r in rec if issubclass(r.category, ConvergenceWarning)]
    clean = not msgs
    what = f"{'CV ' if c['mode'] == 'cv' else ''}{fam}/{c['solver']} '{f}' {dirs} drop_first={c['drop']}"
    ctx.label(f"formula:{f}", f"clean:{clean}", f"solver:{c['solver']}", f"mode:{c['mode']}")
    if any("Line search failed" not in t for t in msgs):
        ctx.label("not-converged")
        return
    if c["mode"] == "cv" and not clean:
        return
    rng = np.random.default_rng(c["seed"] + 9)
    entries = [None] if c["mode"] == "plain" else list(range(6)) if c["mode"] == "path" else [None, 0, 1]
    D, active = [], False
    for v in vs:
        sign = 1 if dirs[v] == "increasing" else -1
        grid, blocks, k = steps(v, d, lv, rng)
        gf = frame(grid, lv, c)
        for i in entries:
            kw = {} if i is None else dict(alpha_index=i)
            eta = np.asarray(m.linear_predictor(gf, **kw), float).reshape(blocks, k)
            if not np.all(np.isfinite(eta)):
                if clean:
                    fail(f"{what}: non-finite predictions")
                return
            worst = (sign * np.diff(eta, axis=1)).min()
            if worst < -2e-5 * (1 + np.abs(m.coef_).max() * 0.01):
                j = np.unravel_index(np.argmin(sign * np.diff(eta, axis=1)), (blocks, k - 1))
                fail(f"{what}: linear predictor moves by {sign * worst:.3g} between two steps of {v}: {eta[j[0]]} (entry {i})")
            active |= bool((sign * np.diff(eta, axis=1)).min() < 1e-5)
        # predict is monotone too (all links here are increasing)
        p = np.asarray(m.predict(gf), float).reshape(blocks, k)
        if (sign * np.diff(p, axis=1)).min() < -1e-4 * (1 + np.abs(p).max()):
            fail(f"{what}: predictions not monotone in {v}")
        if exact:
            M = np.asarray(m.X_model_spec_.get_model_matrix(gf).toarray() if c["back"] == "pandas" else m.X_model_spec_.get_model_matrix(gf).toarray(), float)
            M = M.reshape(blocks, k, -1)
            D.append(-sign * (M[:, 1:] - M[:, :-1]).reshape(-1, M.shape[2]))
    ctx.label(f"active:{active}")
    ctx.label(f"start:{c['start']}")
    if not exact or not clean:
        ctx.mark(active)
        return
    A = np.vstack(D)
    A = np.unique(np.round(A, 12), axis=0)
    A = A[np.abs(A).sum(1) > 0]
    X = np.asarray(m.X_model_spec_.get_model_matrix(df).toarray(), float)
    if X.shape[1] != len(m.coef_):
        X, A = X[:, 1:], A[:, 1:]
    if c["mode"] == "path":
        entries = [(a, float(b0), np.asarray(b, float)) for a, b0, b in zip(par_alphas(c), m.intercept_path_, m.coef_path_)]
    else:
        entries = [(m.alpha_ if c["mode"] == "cv" else c["alpha"], float(m.intercept_), np.asarray(m.coef_, float))]
    compared = False
    for alpha, b0, b in entries:
        obj = O.Objective(X, y, fam, link, w=w, off=off, alpha=alpha, fit_intercept=c["fi"], scale=c["scale"] and c["fi"])
        if saturated(obj, b0, b):
            continue
        # all combinations of the other variables matter for exactness of the cone
        best = better(obj, A, np.zeros(len(A)), b0, b, int(c["fi"]))
        if best is None:
            ctx.label("no-reference")
            continue
        kap = curvature(obj, best[1], best[2])
        if not kap > 1e-6:
            continue
        # the sampled rows may miss combinations: the reference must be monotone everywhere
        if "g" in f or "h" in f or ":" in f:
            combos = all_rows(vs, d, lv, dirs, m, c, X.shape[1], rng)
            if (combos @ best[2]).max(initial=0) > 1e-8:
                ctx.label("reference-incomplete")
                continue
        tol = 1e-4 if c["tol"] is None and c["solver"] != "trust-constr" else 1e-6
        val = obj.value(b0, b)
        if val > best[0] + 1e-6 * (1 + abs(best[0])) + 2 * tol**2 / kap:
            fail(f"{what}, start {c['start']}: objective {val!r} at {b0}, {b} (alpha={alpha}), but the monotone model {best[1]}, {best[2]} has {best[0]!r}")
        compared = True
    if compared:
        ctx.label("optimal")
    ctx.mark(active and compared)


def par_alphas(c):
    return [0.5 * c["ratio"] ** k for k in range(6)]


def all_rows(vs, d, lv, dirs, m, c, p, rng):
    out = []
    for v in vs:
        sign = 1 if dirs[v] == "increasing" else -1
        vals = dict(x=np.linspace(0, 1, 3), z=np.array([-1.0, 1.0]), e=np.unique(d["e"]), k=np.arange(4), s=np.arange(3))
        for g in range(2):
            for h in range(3):
                grid = {k: np.full(len(vals[v]), dict(g=g, h=h, x=0.5, z=0.0).get(k, 0), dtype=float if k in "xz" else int) for k in d}
                grid[v] = vals[v]
                M = np.asarray(m.X_model_spec_.get_model_matrix(frame(grid, lv, c)).toarray(), float)[:, -p:]
                out.append(-sign * (M[1:] - M[:-1]))
    return np.vstack(out)
