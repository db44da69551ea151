"""C31: the benchmark tooling reports what it says it measures."""
import contextlib
import io
import os
import pickle
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import sparse

from pbt import gens as G
from pbt import oracle as O
from pbt.build import REPO
from pbt.core import check, fail

os.environ.pop("GLM_BENCHMARKS_CACHE", None)
if str(REPO) not in sys.path:
    sys.path.append(str(REPO))

DIST = {"gaussian": "normal", "poisson": "poisson", "gamma": "gamma", "binomial": "binomial", "tweedie-p=1.5": "tweedie:1.5"}
PENALTY = {"l2": 0.0, "net": 0.5, "lasso": 1.0}


def fam_of(dist):
    if dist.startswith("tweedie"):
        return f"tweedie:{float(dist.split('=')[1])}"
    return DIST[dist]


def deflink(fam):
    return "log" if fam.startswith("tweedie") else O.default_link(fam)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def near(got, want, what, tol=1e-8):
    if not abs(got - want) <= tol * (1 + abs(want)):
        fail(f"{what}: {got!r} instead of {want!r}")


# ------------------------------------------------------------- objective value
def domain(fam, y, rng):
    p = O.tweedie_power(fam)
    if fam == "binomial":
        return (y > 0).astype(float)
    if fam == "poisson":
        return rng.poisson(1.5, size=len(y)).astype(float)
    if p is not None and p >= 2:
        return np.abs(y) + 0.1
    if p is not None and p > 0:
        return np.where(rng.random(len(y)) < 0.4, 0.0, np.abs(y))
    return y


def hold(X, kind):
    import tabmat as tm

    return {
        "array": lambda: X,
        "frame": lambda: pd.DataFrame(X, columns=[f"c{i}" for i in range(X.shape[1])]),
        "boolframe": lambda: pd.DataFrame(X, columns=[f"c{i}" for i in range(X.shape[1])]).astype({"c0": bool}) if set(np.unique(X[:, 0])) <= {0.0, 1.0} else pd.DataFrame(X),
        "csr": lambda: sparse.csr_matrix(X),
        "csc": lambda: sparse.csc_matrix(X),
        "dense": lambda: tm.DenseMatrix(np.asfortranarray(X)),
        "sparse": lambda: tm.SparseMatrix(sparse.csc_matrix(X)),
        "split": lambda: tm.from_csc(sparse.csc_matrix(X), 0.4),
    }[kind]()


@st.composite
def objective_cases(draw):
    return dict(
        dist=draw(st.sampled_from(["gaussian", "poisson", "gamma", "binomial", "tweedie-p=1.5", "tweedie-p=1.1", "tweedie-p=1.9"])),
        n=draw(st.integers(1, 40)), p=draw(st.integers(1, 6)), seed=draw(st.integers(0, 2**32 - 1)),
        kind=draw(st.sampled_from(["array", "frame", "boolframe", "csr", "csc", "dense", "sparse", "split"])),
        wname=draw(st.sampled_from([None, "sample_weight", "weights"])), wint=draw(st.booleans()),
        off=draw(st.booleans()), alpha=draw(st.sampled_from([0.0, 1e-3, 0.1, 2.0])), l1=draw(st.sampled_from([0.0, 0.3, 1.0])),
    )


@check("C31", objective_cases(), quick=1500, rule="get_obj_val on random coefficients against the documented penalised objective computed independently: 5 distributions, 8 matrix holders, weights under either name, offset, alpha, l1_ratio, arguments unchanged; non-trivial = a penalty, weights or an offset")
def objective(c, ctx):
    from glum_benchmarks.util import get_obj_val

    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    X[:, 0] = rng.random(n) < 0.5
    X[rng.random((n, p)) < 0.3] = 0
    fam = fam_of(c["dist"])
    y = domain(fam, rng.standard_normal(n) * 2, rng)
    b0, b = rng.normal() * 0.5, rng.standard_normal(p) * 0.7
    dat = dict(X=hold(X, c["kind"]), y=y)
    w = off = None
    if c["wname"]:
        w = rng.integers(1, 5, size=n) if c["wint"] else rng.uniform(0.2, 3, size=n)
        dat[c["wname"]] = w
    if c["off"]:
        off = rng.standard_normal(n)
        dat["offset"] = off
    before = {k: v.copy() for k, v in [("y", y), ("b", b), ("w", w), ("off", off)] if v is not None}
    got = float(get_obj_val(dat, c["dist"], c["alpha"], c["l1"], b0, b))
    for k, v in [("y", y), ("b", b), ("w", w), ("off", off)]:
        if v is not None and not np.array_equal(before[k], v):
            fail(f"get_obj_val changed {k}")
    want = O.Objective(X, y, fam, deflink(fam), w=w, off=off, alpha=c["alpha"], l1_ratio=c["l1"]).value(b0, b)
    # constants that do not depend on the coefficients are not part of the promise
    b0z, bz = 0.1, np.full(p, 0.2)
    got_z = float(get_obj_val(dat, c["dist"], c["alpha"], c["l1"], b0z, bz))
    want_z = O.Objective(X, y, fam, deflink(fam), w=w, off=off, alpha=c["alpha"], l1_ratio=c["l1"]).value(b0z, bz)
    scale = 1 + abs(want) + abs(want_z)
    if not abs((got - got_z) - (want - want_z)) <= 1e-9 * scale:
        fail(f"get_obj_val differs by {got - got_z!r} between two coefficient vectors, the objective by {want - want_z!r}")
    ctx.label(c["dist"], c["kind"])
    ctx.mark(c["alpha"] > 0 or w is not None or off is not None)


# ------------------------------------------- exposure and offset as sample weights
@st.composite
def exposure_cases(draw):
    return dict(
        power=draw(st.sampled_from([0.0, 1.0, 1.3, 1.5, 1.9, 2.0, 2.5, 3.0])), n=draw(st.integers(6, 40)), p=draw(st.integers(1, 3)),
        seed=draw(st.integers(0, 2**32 - 1)), how=draw(st.sampled_from(["exposure", "offset", "both"])), w=draw(st.booleans()),
        kind=draw(st.sampled_from(["array", "list", "series"])), fit=draw(st.booleans()),
    )


@check("C31", exposure_cases(), quick=700, rule="exposure_and_offset_to_weights: the score of every feature of the log-link Tweedie problem with exposure as offset equals the score of the converted problem at random coefficients, and (half the cases) the two glum fits agree; non-trivial = exposure varies")
def exposure(c, ctx):
    from glum_benchmarks.util import exposure_and_offset_to_weights as convert

    rng = np.random.default_rng(c["seed"])
    n, p, power = c["n"], c["p"], c["power"]
    X = rng.standard_normal((n, p))
    e = rng.uniform(0.2, 4, size=n)
    fam = "normal" if power == 0 else f"tweedie:{power}"
    y = np.abs(domain(fam, rng.standard_normal(n) * 2, rng)) + (0.1 if power == 0 else 0)
    if power == 1:
        y = rng.poisson(e * 2).astype(float)
    y[0] = 1.5
    w = rng.uniform(0.3, 2, size=n) if c["w"] else None
    wrap = {"array": lambda a: a, "list": list, "series": lambda a: pd.Series(a, index=np.arange(len(a))[::-1] + 3)}[c["kind"]]
    kw = {"exposure": dict(exposure=wrap(e)), "offset": dict(offset=wrap(np.log(e))), "both": dict(offset=wrap(np.log(e)), exposure=wrap(rng.uniform(1, 2, size=n)))}[c["how"]]
    if w is not None:
        kw["sample_weight"] = wrap(w)
    y2, w2 = (np.asarray(a, float) for a in convert(power, wrap(y), **kw))
    if y2.shape != (n,) or w2.shape != (n,):
        fail(f"converted shapes {y2.shape}, {w2.shape}")
    ww = np.ones(n) if w is None else w
    for _ in range(2):
        eta = rng.normal() * 0.3 + X @ (rng.standard_normal(p) * 0.4)
        mu1, mu2 = np.exp(eta + np.log(e)), np.exp(eta)
        s1 = ww * (y - mu1) * mu1 ** (1 - power)
        s2 = w2 * (y2 - mu2) * mu2 ** (1 - power)
        if not np.allclose(s1, s2, rtol=1e-9, atol=1e-9 * np.abs(s1).max()):
            fail(f"contributions to the score differ after the conversion: {s1} and {s2}")
    ctx.mark()
    if c["fit"] and 1 <= power <= 2 and p < n / 4:
        kw = dict(family=O.make_family(fam), link="log", alpha=0, gradient_tol=1e-9, max_iter=300)
        try:
            m1, ok1 = G.quiet_fit(G.glr(**kw), X, y, sample_weight=w, offset=np.log(e))
            m2, ok2 = G.quiet_fit(G.glr(**kw), X, y2, sample_weight=w2)
        except np.linalg.LinAlgError:
            return
        if ok1 and ok2 and max(np.abs(m1.coef_).max(), abs(m1.intercept_)) < 4:
            d = max(np.abs(m1.coef_ - m2.coef_).max(), abs(m1.intercept_ - m2.intercept_))
            if d > 1e-5:
                fail(f"fit with offset {m1.intercept_}, {m1.coef_}; with exposure weights {m2.intercept_}, {m2.coef_}")
            ctx.label("fits")


# -------------------------------------------------------------- simulated data
@st.composite
def simulation_cases(draw):
    return dict(
        family=draw(st.sampled_from(["poisson", "gamma", "normal", "binomial", "tweedie_p=1.5", "tweedie_p=1.2"])),
        n=draw(st.integers(1, 400)), dense=draw(st.integers(0, 13)), sparse=draw(st.integers(0, 4)), cat=draw(st.integers(0, 3)),
        levels=draw(st.integers(1, 12)), ohe=draw(st.booleans()), drop=draw(st.booleans()), intercept=draw(st.sampled_from([-0.5, 0.0, 0.2, 1.0])),
        density=draw(st.sampled_from([0.0, 0.05, 0.5, 1.0])), seed=draw(st.integers(0, 10**6)),
    )


@check("C31", simulation_cases(), quick=500, rule="simulate_mixed_data with random shapes: the same seed gives the same data, shapes, names, densities, category codes and support are as asked, one-hot and categorical form describe the same rows, and the mean of y is the inverse link of intercept + X @ coefs (7-sigma test); non-trivial = some features")
def simulation(c, ctx):
    from glum_benchmarks.data import simulate_mixed_data

    kw = dict(family=c["family"], n_rows=c["n"], dense_features=c["dense"], sparse_features=c["sparse"], sparse_density=c["density"],
              categorical_features=c["cat"], categorical_levels=c["levels"], drop_first=c["drop"], intercept=c["intercept"], random_seed=c["seed"])
    n = c["n"]
    with np.errstate(all="ignore"):
        d1, d2 = simulate_mixed_data(ohe_categorical=c["ohe"], **kw), simulate_mixed_data(ohe_categorical=c["ohe"], **kw)
        one, raw = (d1, simulate_mixed_data(ohe_categorical=False, **kw)) if c["ohe"] else (simulate_mixed_data(ohe_categorical=True, **kw), d1)
    for k in d1:
        a, b = d1[k], d2[k]
        if not (a.equals(b) if hasattr(a, "equals") else np.array_equal(a, b)):
            fail(f"{k} differs between two calls with random_seed={c['seed']}")
    for k in ["y", "sample_weight", "offset"]:
        if np.shape(d1[k]) != (n,):
            fail(f"{k} has shape {np.shape(d1[k])}")
        if not np.array_equal(one[k], raw[k]):
            fail(f"{k} depends on ohe_categorical")
    X, y = one["X"], np.asarray(one["y"], float)
    names = [f"dense{i}" for i in range(c["dense"])] + [f"sparse{i}" for i in range(c["sparse"])]
    cats = [f"cat{i}" for i in range(c["cat"])]
    if list(raw["X"].columns) != names + cats:
        fail(f"columns {list(raw['X'].columns)}")
    want = raw["X"][names].copy()
    for k in cats:
        lv = sorted(set(raw["X"][k]))
        if raw["X"][k].dtype.name != "category" or not set(lv) <= set(range(c["levels"])):
            fail(f"categorical column {k} has dtype {raw['X'][k].dtype} and levels {lv}")
        for v in lv[1 if c["drop"] else 0:]:
            want[f"{k}_{v}"] = (raw["X"][k] == v).astype(float)
    if list(X.columns) != list(want.columns) or not np.array_equal(X.to_numpy(float), want.to_numpy(float)):
        fail("the one-hot encoded design does not describe the categorical one")
    co = one["coefs"]
    if list(co.index) != list(X.columns) or one["intercept"] != c["intercept"]:
        fail(f"coefficients {list(co.index)} for columns {list(X.columns)}, intercept {one['intercept']}")
    if c["sparse"]:
        nnz = int((raw["X"][[k for k in names if k.startswith("sparse")]].to_numpy() != 0).sum())
        if abs(nnz - c["density"] * n * c["sparse"]) > 1:
            fail(f"{nnz} non-zeros for density {c['density']} of {n * c['sparse']}")
    if not (np.all(one["sample_weight"] >= 0) and np.all(np.isfinite(one["offset"]))):
        fail("weights or offset out of range")
    ok = {"poisson": np.all((y >= 0) & (y == np.round(y))), "gamma": np.all(y >= 0), "normal": np.all(np.isfinite(y)), "binomial": set(np.unique(y)) <= {0.0, 1.0}}
    if not ok.get(c["family"], np.all(y >= 0)):
        fail(f"{c['family']} responses out of range: {y}")
    fam = "tweedie:%s" % c["family"].split("=")[1] if "=" in c["family"] else c["family"]
    eta = c["intercept"] + (X.to_numpy(float) @ co.to_numpy(float) if X.shape[1] else np.zeros(n))
    if c["dense"] or c["sparse"] or c["cat"]:
        ctx.mark()
    mu = O.L.inv(deflink(fam), eta)
    sd = {"normal": np.ones(n), "gamma": np.sqrt(mu), "poisson": np.sqrt(mu), "binomial": np.sqrt(mu * (1 - mu))}.get(c["family"])
    if sd is None:
        sd = mu ** (float(c["family"].split("=")[1]) / 2)
    z = (y - mu) / np.maximum(sd, 1e-12)
    keep = (mu > 1e-3) & ((mu < 1e6) | (fam == "normal")) & ((mu < 1 - 1e-3) | (fam != "binomial"))
    if keep.sum() >= 100:
        if abs(z[keep].sum()) > 7 * np.sqrt(keep.sum()) + 40:
            fail(f"the mean of y is not the inverse link of intercept + X @ coefs: standardised sum {z[keep].sum():.1f} over {keep.sum()} rows")
        if fam == "normal" and np.abs(z).max() > 8:
            fail(f"normal responses are {np.abs(z).max():.1f} standard deviations from intercept + X @ coefs")
        ctx.label("mean tested")


# ------------------------------------------------------------------ load_data
@st.composite
def loading_cases(draw):
    return dict(
        n=draw(st.integers(4, 40)), num=draw(st.integers(1, 3)), binary=draw(st.integers(0, 1)), cat=draw(st.integers(0, 2)), levels=draw(st.integers(2, 5)),
        setup=draw(st.sampled_from(["weights", "offset", "no-weights"])), dist=draw(st.sampled_from(list(DIST))), std=draw(st.booleans()),
        storage=draw(st.sampled_from(["dense", "csr", "csc", "cat", "auto", "split0.1", "split0.9"])), seed=draw(st.integers(0, 2**32 - 1)),
        order=draw(st.integers(0, 5)),
    )


def dense(X):
    if hasattr(X, "toarray"):
        return np.asarray(X.toarray(), float)
    return np.asarray(X, float)


@check("C31", loading_cases(), quick=600, rule="load_data on generated frames: the design of every storage is the standardised (or raw) frame with categoricals one-hot encoded, and response, weights and offset follow the data_setup; non-trivial = a categorical column or a data_setup with exposure")
def loading(c, ctx):
    from glum_benchmarks.problems import load_data

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    cols = {}
    for i in range(c["num"]):
        v = rng.standard_normal(n) * 3 + 2
        v[:3] = [0.0, 1.0, 2.5]
        cols[f"x{i}"] = v
    for i in range(c["binary"]):
        v = (rng.random(n) < 0.5).astype(float)
        v[:2] = [0.0, 1.0]
        cols[f"b{i}"] = v
    for i in range(c["cat"]):
        lv = [f"v{j}" for j in range(c["levels"])]
        cols[f"k{i}"] = pd.Categorical(rng.choice(lv, size=n), categories=lv)
    names = list(cols)
    np.random.default_rng(c["order"]).shuffle(names)
    df = pd.DataFrame({k: cols[k] for k in names})
    e = rng.uniform(0.3, 3, size=n)
    y = domain(fam_of(c["dist"]), rng.standard_normal(n), rng)

    def loader(num_rows=None, noise=None, distribution=None):
        if distribution != c["dist"]:
            fail(f"the loader was called with distribution={distribution!r}")
        return df.copy(), y.copy(), e.copy()

    d = load_data(loader, num_rows=n, storage=c["storage"], distribution=c["dist"], data_setup=c["setup"], standardize=c["std"])
    parts = []
    for k in names:
        if k[0] == "k":
            first = 0 if c["storage"] in ("cat", "auto") else 1
            parts += [(df[k] == lv).to_numpy(float) for lv in df[k].cat.categories[first:]]
        else:
            v = df[k].to_numpy(float)
            if c["std"] and k[0] == "x":
                v = (v - v.mean()) / v.std()
            parts.append(v)
    want = np.column_stack(parts)
    got = dense(d["X"])
    if got.shape != want.shape:
        fail(f"storage {c['storage']}: design of shape {got.shape} instead of {want.shape}")
    if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
        fail(f"storage {c['storage']}, columns {names}: design differs in columns {np.flatnonzero(np.abs(got - want).max(axis=0) > 1e-9)}")
    keys = {"weights": {"X", "y", "sample_weight"}, "offset": {"X", "y", "offset"}, "no-weights": {"X", "y"}}[c["setup"]]
    if set(d) != keys:
        fail(f"{c['setup']}: keys {set(d)}")
    p = {"gaussian": 0, "poisson": 1, "gamma": 2, "tweedie-p=1.5": 1.5}.get(c["dist"])
    wy, ww = y, None
    if c["setup"] == "offset":
        wy = y * e
        if not np.allclose(d["offset"], np.log(e)):
            fail("the offset is not the log exposure")
    if c["setup"] == "weights":
        ww = e if c["dist"] in ("gaussian", "binomial") else e ** (2 - p)
        if not np.allclose(d["sample_weight"], ww):
            fail(f"sample weights for {c['dist']} are not exposure ** (2 - p)")
    if not np.allclose(d["y"], wy):
        fail(f"response changed: {d['y']} instead of {wy}")
    ctx.label(c["storage"], c["setup"])
    ctx.mark(c["cat"] > 0 or c["setup"] != "no-weights")


# ----------------------------------------------------------- whole benchmark runs
@st.composite
def run_cases(draw):
    return dict(
        data=draw(st.sampled_from(["simulated-glm", "simulated-glm", "categorical-simulated"])), pen=draw(st.sampled_from(list(PENALTY))),
        dist=draw(st.sampled_from(["gaussian", "poisson", "gamma", "binomial"])), lib=draw(st.sampled_from(["glum", "glum", "sklearn", "celer", "zeros"])),
        n=draw(st.integers(20, 90)), ratio=draw(st.sampled_from([0.05, 0.1, 0.3, 1.5])), alpha=draw(st.sampled_from([None, 0.003, 0.01, 0.1, 1.0])),
        storage=draw(st.sampled_from(["dense", "csr", "csc", "split0.1"])), iters=draw(st.integers(1, 2)), std=draw(st.booleans()),
        seed=draw(st.integers(0, 2**32 - 1)),
    )


@check("C31", run_cases(), quick=220, rule="execute_problem_library on the simulated problems with glum, scikit-learn, celer and the zero baseline: reported rows, applied alpha and obj_val match the loaded data and the returned coefficients, and solving libraries are within the benchmark tolerance of the best objective; non-trivial = a solving library ran")
def runs(c, ctx):
    from glum_benchmarks.problems import get_all_problems
    from glum_benchmarks.util import BenchmarkParams, execute_problem_library, get_all_libraries

    name = f"{c['data']}-no-weights-{c['pen']}-{c['dist']}"
    if c["lib"] not in get_all_libraries() or c["ratio"] > 1 and c["lib"] == "celer":
        return
    prob = get_all_problems()[name]
    params = BenchmarkParams(problem_name=name, library_name=c["lib"], num_rows=c["n"], k_over_n_ratio=c["ratio"], storage=c["storage"], threads=1, alpha=c["alpha"])
    with quiet():
        res, used = execute_problem_library(params, iterations=c["iters"], diagnostics_level=None, standardize=c["std"])
        dat = prob.data_loader(num_rows=c["n"], k_over_n_ratio=c["ratio"], storage=c["storage"], standardize=c["std"])
    alpha = 0.001 if c["alpha"] is None else c["alpha"]
    if used != alpha:
        fail(f"alpha {used} reported instead of {alpha}")
    l1 = PENALTY[c["pen"]]
    if prob.l1_ratio != l1 or prob.distribution != c["dist"]:
        fail(f"problem {name} has l1_ratio {prob.l1_ratio}, distribution {prob.distribution}")
    if not res:
        if c["lib"] in ("glum", "zeros"):
            fail(f"{c['lib']} returned nothing for {name}")
        return
    if res["num_rows"] != c["n"]:
        fail(f"num_rows {res['num_rows']}")
    X, y = dense(dat["X"]), np.asarray(dat["y"], float)
    fam = fam_of(c["dist"])
    obj = O.Objective(X, y, fam, deflink(fam), alpha=alpha, l1_ratio=l1)
    b0, b = float(res["intercept"]), np.asarray(res["coef"], float)
    if b.shape != (X.shape[1],):
        fail(f"{b.shape} coefficients for {X.shape[1]} columns")
    b0z, bz = 0.1, np.full(X.shape[1], 0.2 / X.shape[1])
    from glum_benchmarks.util import get_obj_val

    # up to the constant of the log-likelihood
    const = float(get_obj_val(dat, c["dist"], alpha, l1, b0z, bz)) - obj.value(b0z, bz)
    near(float(res["obj_val"]) - const, obj.value(b0, b), f"{name} {c['lib']}: obj_val at alpha {alpha}", 1e-7)
    ctx.label(c["lib"], c["dist"], c["pen"])
    if c["lib"] == "zeros":
        if b0 != 0 or b.any():
            fail("the zero baseline has coefficients")
        return
    ctx.mark()
    # a certificate of optimality: convexity bounds the gap by the subgradient
    m, ok = G.quiet_fit(G.glr(family=O.make_family(fam), alpha=alpha, l1_ratio=l1, gradient_tol=1e-8, max_iter=500), X, y)
    if not ok:
        return
    best = obj.value(float(m.intercept_), m.coef_)
    here = obj.value(b0, b)
    null = obj.value(float(m.intercept_) + float((X @ m.coef_).mean()), 0 * b)
    # saga stops early on some problems; that is scikit-learn's affair
    judged = c["lib"] != "sklearn" or c["dist"] != "binomial" or l1 == 0
    if judged and here - best > 0.02 * max(null - best, 0) + 2e-2 * (1 + abs(best)):
        fail(f"{name} {c['lib']} (alpha {alpha}): objective {here}, the optimum is {best}, the null model {null}")
    if best - here > 1e-6 * (1 + abs(best)):
        fail(f"{name}: {c['lib']} reached {here}, a converged glum fit only {best}")
    g0, g = obj.kkt(b0, b)
    if c["lib"] == "glum" and abs(g0) + np.abs(g).sum() > 2e-3 * (1 + obj.grad_scale(b0, b)) and res["n_iter"] < res["max_iter"]:
        fail(f"{name}: the benchmarked glum fit (n_iter {res['n_iter']}) has a subgradient of {abs(g0) + np.abs(g).sum():.2e}")


# ----------------------------------------------------------------- timing runs
@st.composite
def timing_cases(draw):
    k = draw(st.integers(1, 7))
    return dict(
        times=draw(st.lists(st.integers(1, 30), min_size=k, max_size=k)),
        timeouts=draw(st.lists(st.booleans(), min_size=k, max_size=k)) if draw(st.booleans()) else [False] * k,
        limit=draw(st.sampled_from([None, 50])),
    )


@check("C31", timing_cases(), quick=500, rule="runtime() under a simulated clock and simulated time-outs: the first successful run of several is discarded, the reported time is that of the run closest to the median of the rest and comes with that run's output, and only all-time-out raises; non-trivial = two or more measured runs")
def timing(c, ctx):
    import signal

    from glum_benchmarks import util

    class Clock:
        now = 1000.0

        def time(self):
            return Clock.now

        perf_counter = monotonic = time

    calls = []

    def job(a, b=0):
        i = len(calls)
        calls.append((a, b))
        Clock.now += c["times"][i]
        if c["timeouts"][i]:
            raise TimeoutError("simulated")
        return ("result", i)

    real, handler = util.time, signal.getsignal(signal.SIGALRM)
    util.time = Clock()
    try:
        try:
            got = util.runtime(job, len(c["times"]), "x", timeout=c["limit"], b=3)
        except TimeoutError:
            got = None
    finally:
        util.time = real
    if signal.getsignal(signal.SIGALRM) != handler or signal.alarm(0) != 0:
        fail("runtime() left an alarm or its handler behind")
    if calls != [("x", 3)] * len(c["times"]):
        fail(f"{len(calls)} calls {calls[:2]}")
    good = [(t, i) for i, (t, bad) in enumerate(zip(c["times"], c["timeouts"])) if not bad]
    if not good:
        if got is not None:
            fail("no error although every run timed out")
        return
    if got is None:
        fail("TimeoutError although some run succeeded")
    measured = good[1:] if len(good) > 1 else good
    med = float(np.median([t for t, _ in measured]))
    best = min(abs(t - med) for t, _ in measured)
    t, out = got
    if (t, out[1]) not in [(float(a), i) for a, i in measured] or abs(abs(t - med) - best) > 1e-9:
        fail(f"times {c['times']}, time-outs {c['timeouts']}: reported {t} from run {out[1]}, the measured runs have median {med}")
    ctx.mark(len(measured) > 1)


# ------------------------------------------------- file names, grids and summaries
@st.composite
def name_cases(draw):
    return dict(
        which=draw(st.integers(0, 10**6)), lib=draw(st.sampled_from([None, "glum", "sklearn", "zeros"])), rows=draw(st.sampled_from([None, 1, 100, 10**7])),
        ratio=draw(st.sampled_from([None, 0.5, 1.0, 2.0, 0.1])), storage=draw(st.sampled_from([None, "dense", "split0.1", "cat", "csr"])),
        threads=draw(st.sampled_from([None, 1, 16])), alpha=draw(st.one_of(st.none(), st.floats(1e-8, 10.0))), hess=draw(st.sampled_from([None, 0.0, 0.01])),
        diag=draw(st.sampled_from([None, "basic", "full", "none"])), ext=draw(st.booleans()), power=draw(st.floats(1.01, 1.99).map(lambda v: round(v, 3))),
    )


@check("C31", name_cases(), quick=600, rule="get_params_from_fname(get_result_fname()) gives back every field with its type for problems x settings; Tweedie powers and families from problem names; non-trivial = all")
def names(c, ctx):
    from glum_benchmarks.problems import get_all_problems
    from glum_benchmarks.util import BenchmarkParams, get_params_from_fname, get_sklearn_family, get_tweedie_p

    allp = sorted(get_all_problems())
    kw = dict(problem_name=allp[c["which"] % len(allp)], library_name=c["lib"], num_rows=c["rows"], k_over_n_ratio=c["ratio"], storage=c["storage"],
              threads=c["threads"], alpha=c["alpha"], hessian_approx=c["hess"], diagnostics_level=c["diag"])
    p = BenchmarkParams(**kw)
    q = get_params_from_fname(p.get_result_fname() + (".pkl" if c["ext"] else ""))
    for k, v in kw.items():
        g = getattr(q, k)
        if g != v or type(g) is not type(v):
            fail(f"{k}={v!r} comes back from {p.get_result_fname()!r} as {g!r}")
    near(get_tweedie_p(f"tweedie-p={c['power']}"), c["power"], "get_tweedie_p")
    near(float(get_sklearn_family(f"tweedie-p={c['power']}").power), c["power"], "get_sklearn_family", 1e-6)
    for d, v in [("gaussian", 0), ("poisson", 1), ("gamma", 2)]:
        if get_tweedie_p(d) != v:
            fail(f"get_tweedie_p({d!r}) = {get_tweedie_p(d)}")
    ctx.mark()


@st.composite
def summary_cases(draw):
    k = draw(st.integers(1, 14))
    return dict(
        rows=[dict(
            pen=draw(st.sampled_from(["l2", "l2", "l2", "net"])), dist=draw(st.sampled_from(["gaussian", "gaussian", "poisson"])), lib=draw(st.sampled_from(["glum", "sklearn", "celer"])),
            n=draw(st.sampled_from([50, 50, 50, 100])), ratio=draw(st.sampled_from([0.5, 0.5, 0.5, 2.0])), alpha=draw(st.sampled_from([0.001, 0.001, 0.1])),
            obj=draw(st.sampled_from([0.0, 1.0, 1.5, -2.0, -2.5, 3.0])), it=draw(st.sampled_from([0, 1, 7, 100])), t=draw(st.sampled_from([0.0, 0.5, 2.0])),
            kind=draw(st.sampled_from(["ok", "ok", "ok", "timeout", "skipped"])),
        ) for _ in range(k)],
    )


@check("C31", summary_cases(), quick=250, rule="analyze_results over generated result pickles in a scratch directory: one row per finished run with its own settings, convergence flag, coefficient counts and the gap to the best objective of the same problem, rows, K/N and alpha; non-trivial = two libraries on one problem")
def summary(c, ctx):
    from glum_benchmarks.config import BenchmarkConfig
    from glum_benchmarks.run_benchmarks import analyze_results
    from glum_benchmarks.util import BenchmarkParams

    with tempfile.TemporaryDirectory(prefix="glumbench") as tmp:
        cfg = BenchmarkConfig(script_dir=Path(tmp), run_name="r")
        cfg.pickle_dir.mkdir(parents=True)
        want = {}
        for i, r in enumerate(c["rows"]):
            key = (f"simulated-glm-no-weights-{r['pen']}-{r['dist']}", r["n"], r["ratio"], r["alpha"], r["lib"])
            p = BenchmarkParams(problem_name=key[0], library_name=r["lib"], num_rows=r["n"], k_over_n_ratio=r["ratio"], storage="dense", threads=1, alpha=r["alpha"])
            coef = np.array([0.0, 1e-9, 0.5, -2.0 - i])
            data = {
                "ok": dict(runtime=r["t"], intercept=0.25, coef=coef, n_iter=r["it"], max_iter=100, num_rows=r["n"], obj_val=r["obj"], timed_out=False),
                "timeout": dict(runtime=9.0, timed_out=True, intercept=None, coef=None, n_iter=None, num_rows=r["n"]),
                "skipped": {},
            }[r["kind"]]
            with open(cfg.pickle_dir / (p.get_result_fname() + ".pkl"), "wb") as f:
                pickle.dump(data, f)
            want[key] = (r, coef)
        want = {k: v for k, v in want.items() if v[0]["kind"] != "skipped"}
        with quiet(), contextlib.redirect_stderr(io.StringIO()):
            df = analyze_results(cfg)
        csv = pd.read_csv(cfg.csv_file) if want else None
    if not want:
        if len(df):
            fail(f"{len(df)} rows from skipped runs")
        return
    if len(df) != len(want) or len(csv) != len(want):
        fail(f"{len(df)} rows ({len(csv)} in the CSV file) for {len(want)} runs")
    shared = False
    for _, row in df.iterrows():
        key = tuple(row[k] for k in ["problem_name", "num_rows", "k_over_n_ratio", "alpha", "library_name"])
        if key not in want:
            fail(f"no run {key}")
        r, coef = want[key]
        line = csv[(csv[["problem_name", "num_rows", "k_over_n_ratio", "alpha", "library_name"]] == list(key)).all(axis=1)]
        if len(line) != 1:
            fail(f"{len(line)} CSV lines for {key}")
        bad = r["kind"] == "timeout"
        if bool(row["converged"]) != (not bad and r["it"] < 100):
            fail(f"converged={row['converged']} for {r}")
        if bad:
            continue
        near(row["runtime"], r["t"], "runtime")
        near(row["runtime per iter"], r["t"] / r["it"] if r["it"] else r["t"], "runtime per iteration")
        near(row["l1"], np.abs(coef).sum(), "l1")
        near(row["l2"], (coef ** 2).sum(), "l2")
        if row["num_nonzero_coef"] != 2 or row["n_iter"] != r["it"] or row["intercept"] != 0.25:
            fail(f"row {dict(row)} for {r}")
        peers = [v[0]["obj"] for k, v in want.items() if k[:4] == key[:4] and v[0]["kind"] == "ok"]
        shared = shared or len(peers) > 1
        best = min(peers)
        near(row["obj_val"], r["obj"], "obj_val")
        near(row["obj_gap"], r["obj"] - best, f"gap of {r['obj']} among {peers}")
        near(float(line["obj_gap"].iloc[0]), r["obj"] - best, "gap in the CSV file")
        if r["obj"] == best:
            near(row["rel_obj_val"], 0.0, "relative gap of the best run")
        elif best != 0:
            near(row["rel_obj_val"], (r["obj"] - best) / abs(best), f"relative gap of {r['obj']} among {peers}")
        elif not np.isnan(row["rel_obj_val"]):
            fail(f"relative gap {row['rel_obj_val']} from a best objective of zero")
    ctx.mark(shared)


@st.composite
def regression_cases(draw):
    k = draw(st.integers(1, 6))
    t = st.sampled_from([0.0, 0.01, 0.1, 0.5, 1.0, 1.1, 1.2, 2.0])
    return dict(pairs=draw(st.lists(st.tuples(t, t), min_size=k, max_size=k)), extra=draw(st.booleans()),
                rel=draw(st.sampled_from([0.07, 0.15, 0.6])), ab=draw(st.sampled_from([0.04, 0.3])), cases=draw(st.integers(0, 2)))


@check("C31", regression_cases(), quick=300, rule="compare_results on generated base and head CSV files: the exit code and the count are those of the runs that got slower by more than both thresholds; non-trivial = some run regressed and some did not")
def regressions(c, ctx):
    from glum_benchmarks import compare_results

    bad = []
    rows = []
    for i, (a, b) in enumerate(c["pairs"]):
        key = dict(problem_name=f"p{i % 3}", library_name="glum" if i < 3 else "sklearn", num_rows=100, alpha=0.01)
        rows.append((dict(key, runtime=a), dict(key, runtime=b)))
        bad.append(b - a > c["ab"] and (a == 0 or (b - a) / a > c["rel"]))
    base, head = [r[0] for r in rows], [r[1] for r in rows][::-1]
    if c["extra"]:
        base = base + [dict(problem_name="q", library_name="glum", num_rows=7, alpha=0.01, runtime=1.0)]
        head = [dict(problem_name="z", library_name="glum", num_rows=7, alpha=0.01, runtime=9.0)] + head
    with tempfile.TemporaryDirectory(prefix="glumbench") as tmp:
        pd.DataFrame(base).to_csv(f"{tmp}/b.csv", index=False)
        pd.DataFrame(head).to_csv(f"{tmp}/h.csv", index=False)
        Path(f"{tmp}/c.yaml").write_text(f"max_rel_slowdown: {c['rel']}\nmax_abs_slowdown_sec: {c['ab']}\nmax_regressed_cases: {c['cases']}\n")
        argv = sys.argv
        sys.argv = ["x", "--base", f"{tmp}/b.csv", "--head", f"{tmp}/h.csv", "--config", f"{tmp}/c.yaml", "--summary-out", f"{tmp}/s/out.md"]
        try:
            with quiet():
                code = compare_results.main()
        finally:
            sys.argv = argv
        text = Path(f"{tmp}/s/out.md").read_text()
    if code != int(sum(bad) > c["cases"]):
        fail(f"exit code {code} with {sum(bad)} regressed runs of {c['pairs']} and {c['cases']} allowed (thresholds {c['rel']}, {c['ab']})")
    yes = sum(line.rstrip().rstrip("|").rstrip().endswith("yes") for line in text.splitlines() if line.startswith("|"))
    if yes != sum(bad):
        fail(f"{yes} rows marked as regressed instead of {sum(bad)}")
    ctx.mark(0 < sum(bad) < len(bad))
