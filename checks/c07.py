"""C07: data and hyperparameters given by the user are never modified."""
import copy
import warnings

import numpy as np
import pandas as pd
import polars as pl
import sklearn.base
import tabmat as tm
from hypothesis import strategies as st
from scipy import sparse

from checks.c03 import make_bounds
from checks.c06 import KINDS as KINDS6
from checks.c06 import store
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

KINDS = [k for k in KINDS6 if k not in ("list",)]


def snap(o):
    """A comparable deep snapshot of what a user can see of an object."""
    if o is None or isinstance(o, (str, int, float, bool, np.generic)):
        return ("v", type(o).__name__, repr(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("ao", o.shape, [snap(v) for v in o.ravel()])
        return ("a", o.dtype.str, o.shape, o.strides, o.tobytes(), o.flags.writeable)
    if sparse.issparse(o):
        # the entries as a user sees them: canonicalising the order of stored entries keeps the matrix
        c = o.tocoo()
        q = np.lexsort((c.col, c.row))
        return ("s", type(o).__name__, o.dtype.str, o.shape, o.nnz, c.row[q].tobytes(), c.col[q].tobytes(), c.data[q].tobytes())
    if isinstance(o, tm.SplitMatrix):
        return ("split", [snap(np.asarray(i)) for i in o.indices], [snap(m) for m in o.matrices])
    if isinstance(o, tm.MatrixBase):
        a = o.toarray() if hasattr(o, "toarray") else o.A
        return ("tm", type(o).__name__, str(o.dtype), o.shape, np.ascontiguousarray(a).tobytes(), list(getattr(o, "column_names", []) or []), list(getattr(o, "term_names", []) or []))
    if isinstance(o, pd.DataFrame):
        return ("df", [str(c) for c in o.columns], [str(t) for t in o.dtypes], snap(o.index.to_numpy()), [snap_series(o.iloc[:, j]) for j in range(o.shape[1])])
    if isinstance(o, pd.Series):
        return snap_series(o) + (snap(o.index.to_numpy()), str(o.name))
    if isinstance(o, pl.DataFrame):
        return ("pldf", o.columns, [str(t) for t in o.dtypes], [repr(o[c].to_list()) for c in o.columns])
    if isinstance(o, pl.Series):
        return ("pls", str(o.dtype), repr(o.to_list()))
    if isinstance(o, dict):
        return ("d", [(snap(k), snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v) for v in o])
    if isinstance(o, np.random.RandomState):
        return ("rs",)  # a generator is meant to advance
    if hasattr(o, "__dict__"):
        return ("o", type(o).__name__, [(k, snap(v)) for k, v in sorted(vars(o).items())])
    return ("r", repr(o))


def snap_series(s):
    if isinstance(s.dtype, pd.CategoricalDtype):
        return ("cat", list(map(repr, s.cat.categories)), bool(s.cat.ordered), s.cat.codes.to_numpy().tobytes())
    if isinstance(s.dtype, pd.SparseDtype):
        return ("sp", str(s.dtype), np.asarray(s).tobytes())
    return ("ser", str(s.dtype), [repr(v) for v in s.tolist()])


class Watch:
    """Objects of the user with the snapshots taken before the calls."""

    def __init__(self):
        self.items = []

    def add(self, name, o):
        if o is not None:
            self.items.append((name, o, snap(o)))
        return o

    def verify(self, after):
        for name, o, s in self.items:
            t = snap(o)
            if t != s:
                fail(f"{after} modified {name}: {str(s)[:200]} became {str(t)[:200]}")


OPS = ["predict", "linear_predictor", "score", "covariance", "covariance_stored", "coef_table", "wald", "std_errors", "ic", "refit", "refit_warm", "clone", "diagnostics", "predict_path", "get_params"]


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["plain", "plain", "bounds", "ineq", "path", "path_auto", "cv", "start", "bounds_path"]))
    c = draw(G.problems(fams=G.CONVEX + [("igauss", "log")], min_n=10, max_n=30, max_p=4))
    if draw(st.booleans()):
        c["cols"] = [draw(st.sampled_from(["ints", "binary"])) for _ in c["cols"]]
    c["mode"] = mode
    c["kind"] = KINDS[(draw(st.integers(0, len(KINDS) - 1)) + c["seed"]) % len(KINDS)]
    c["vk"] = draw(st.lists(st.sampled_from(["array", "series", "strided", "list", "int", "f32"]), min_size=3, max_size=3))
    c["p2sparse"] = draw(st.booleans())
    c["solver"] = draw(st.sampled_from(["auto", "auto", "irls-cd", "irls-ls", "lbfgs", "trust-constr"]))
    c["copy"] = draw(st.sampled_from([None, None, True]))
    c["check_input"] = draw(st.sampled_from([True, True, True, False]))
    c["ops"] = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=5))
    c["f32"] = draw(st.sampled_from([False, False, True]))
    return c


def make_vec(kind, v, rng):
    if v is None:
        return None
    if kind == "f32":
        return v.astype(np.float32)
    from checks.c06 import vec

    return vec(kind, v, rng)


REFUSED = ("infs or NaNs", "singular", "No variation", "integer", "copy_X", "Factorization", "exceeded", "Eigenvalues", "SVD")


def attempt(f, what):
    """Run a call whose numerical failure is not this property's business."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return f()
        except (np.linalg.LinAlgError, ZeroDivisionError, FloatingPointError, NotImplementedError):
            return None
        except ValueError:
            return None


@check("C07", cases(), quick=2500, rule="random estimator kinds (plain, bounds, inequalities, start values, paths, cross-validation) on random containers and number types, then a random sequence of calls; every object handed over is compared byte for byte with its snapshot after every call; non-trivial = the fit succeeded")
def arrays(c, ctx):
    import glum

    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 5)
    W = Watch()
    Xv = pb.X.astype(np.float32) if c["f32"] else pb.X
    X = store(c["kind"], Xv, rng)
    if X is None:
        X = np.asfortranarray(Xv)
        ctx.label("fallback")
    ints = c["kind"] in ("int64", "int32")
    W.add("X", X)
    y = W.add("y", make_vec(c["vk"][0], pb.y, rng))
    w = W.add("sample_weight", make_vec(c["vk"][1], pb.w, rng))
    off = W.add("offset", make_vec(c["vk"][2], pb.off, rng))
    mode, solver = c["mode"], c["solver"]
    par = pb.params(copy_X=c["copy"], max_iter=30, check_input=True)
    if pb.alpha * pb.l1 > 0 and solver in ("irls-ls", "lbfgs", "trust-constr"):
        solver = "auto"
    if par["P2"] is not None and not isinstance(par["P2"], str) and par["P2"].ndim == 2 and c["p2sparse"]:
        par["P2"] = sparse.csc_matrix((par["P2"] + par["P2"].T) / 2)
    p = pb.p
    if mode in ("bounds", "bounds_path"):
        lb, ub = make_bounds(rng, str(rng.choice(["box", "mixed", "exclude0", "nonneg"])), p)
        par["lower_bounds"], par["upper_bounds"] = lb, ub
        solver = "irls-cd"
    if mode == "ineq":
        par["A_ineq"], par["b_ineq"] = rng.normal(size=(2, p)), rng.uniform(0.1, 1, size=2)
        par["l1_ratio"], solver = 0.0, "trust-constr"
        if par["P1"] is not None and not isinstance(par["P1"], str):
            par["P1"] = np.abs(par["P1"])
    if mode == "start" or rng.uniform() < 0.2:
        par["start_params"] = rng.normal(size=p + pb.fi) * 0.1
        if c["f32"]:
            par["start_params"] = par["start_params"].astype(np.float32)
    if mode in ("path", "bounds_path"):
        par["alpha_search"] = True
        par["alpha"] = rng.permutation([0.5, 0.1, 0.02]) if rng.integers(2) else [0.5, 0.1, 0.02]
    if mode == "path_auto":
        par.update(alpha_search=True, alpha=None, n_alphas=4, min_alpha_ratio=0.1)
    if mode == "cv":
        par.pop("alpha")
        par["alphas"] = rng.permutation([0.5, 0.1, 0.02]) if rng.integers(2) else [0.02, 0.5, 0.1]
        par["l1_ratio"] = [0.5, par["l1_ratio"]] if solver in ("auto", "irls-cd") else 0.0
        par["cv"] = 3
    par["solver"] = solver
    given = {k: W.add(f"the constructor argument {k}", v) for k, v in par.items()}
    est = (glum.GeneralizedLinearRegressorCV if mode == "cv" else glum.GeneralizedLinearRegressor)(**par)

    def verify(after):
        what = f"{after} ({mode}, X as {c['kind']}, solver {solver})"
        W.verify(what)
        now = est.get_params(deep=False)
        for k, v in given.items():
            if k in ("check_input",) or k == "warm_start":
                continue
            if now[k] is not v and snap(now[k]) != snap(v):
                fail(f"{what}: get_params()[{k!r}] is {now[k]!r}, not what was set")

    fitted = attempt(lambda: est.fit(X, y, sample_weight=w, offset=off), "fit")
    verify("fit")
    ctx.label(f"mode:{mode}", f"kind:{c['kind']}", f"fitted:{fitted is not None}")
    if fitted is None or not np.all(np.isfinite(est.coef_)):
        return
    ctx.mark()
    n = len(pb.y)
    mu = W.add("mu", np.abs(rng.normal(size=n)) * 0.3 + 0.2)
    clusters = W.add("clusters", rng.integers(0, 4, size=n))
    R = W.add("R", rng.normal(size=(1, p + pb.fi)))
    r = W.add("r", np.array([0.1]))
    kept = [(k, getattr(est, k)) for k in ("coef_", "coef_path_") if isinstance(getattr(est, k, None), np.ndarray)]
    for op in c["ops"]:
        for k, v in kept:
            W.add(f"the {k} array read before", v)
        kept = []
        d = dict(sample_weight=w, offset=off)
        if op == "predict":
            attempt(lambda: est.predict(X, **d), op)
        elif op == "linear_predictor":
            attempt(lambda: est.linear_predictor(X, offset=off), op)
        elif op == "predict_path":
            if mode in ("path", "path_auto", "bounds_path"):
                a = W.add("alpha_index", [0, 1])
                attempt(lambda: est.predict(X, offset=off, alpha_index=a), op)
                b = W.add("alpha", [float(v) for v in est._alphas] if hasattr(est, "_alphas") else None)
                if b:
                    attempt(lambda: est.linear_predictor(X, offset=off, alpha=b), op)
        elif op == "score":
            attempt(lambda: est.score(X, y, **d), op)
        elif op == "covariance":
            attempt(lambda: est.covariance_matrix(X, y, robust=bool(rng.integers(2)), expected_information=bool(rng.integers(2)), mu=mu if rng.integers(2) else None, clusters=clusters if rng.integers(2) else None, **d), op)
        elif op == "covariance_stored":
            attempt(lambda: est.covariance_matrix(X, y, store_covariance_matrix=True, **d), op)
            V = getattr(est, "covariance_matrix_", None)
            if isinstance(V, np.ndarray):
                W.add("the stored covariance matrix", V)
        elif op == "coef_table":
            attempt(lambda: est.coef_table(X=X, y=y, **d), op)
        elif op == "std_errors":
            attempt(lambda: est.std_errors(X=X, y=y, **d), op)
        elif op == "wald":
            attempt(lambda: est.wald_test(X=X, y=y, R=R, r=r, **d), op)
        elif op == "ic" and hasattr(est, "aic"):
            attempt(lambda: (est.aic(X, y, sample_weight=w), est.bic(X, y, sample_weight=w)), op)
        elif op == "refit":
            attempt(lambda: est.fit(X, y, **d), op)
        elif op == "refit_warm":
            est.warm_start = True
            attempt(lambda: est.fit(X, y, **d), op)
            est.warm_start = False
        elif op == "clone":
            attempt(lambda: (sklearn.base.clone(est), copy.deepcopy(est)), op)
        elif op == "diagnostics":
            attempt(lambda: est.get_formatted_diagnostics(full_report=True), op)
        elif op == "get_params":
            est.get_params()
        ctx.label(f"op:{op}")
        verify(op)
        if not hasattr(est, "coef_"):
            return


FORMS = ["x + g", "x*g + z", "bs(x, df=4) + g", "C(k) + x", "e + z", None, None]


@st.composite
def frames(draw):
    return dict(
        seed=draw(G.SEEDS), n=draw(st.integers(20, 40)), f=draw(st.sampled_from(FORMS)), back=draw(st.sampled_from(["pandas", "pandas", "polars"])),
        missing=draw(st.sampled_from(["fail", "zero", "convert"])), drop=draw(st.booleans()), mono=draw(st.booleans()), cv=draw(st.sampled_from([False, False, True])),
        fam=draw(st.sampled_from(["normal", "poisson"])), pen=draw(st.sampled_from([None, "vec", "full"])), copy=draw(st.sampled_from([None, True])),
        twosided=draw(st.booleans()), newlevels=draw(st.sampled_from(["same", "reordered", "subset"])), obj=draw(st.booleans()),
        ops=draw(st.lists(st.sampled_from(["predict", "score", "covariance", "wald", "coef_table", "refit"]), min_size=1, max_size=4)),
    )


@check("C07", frames(), quick=700, rule="estimators on pandas/polars frames with numeric, text and categorical columns (missing values, reordered levels), formulas, per-column penalties and monotonic constraints: frames, context, penalties and constraint dictionaries unchanged after every call; non-trivial = the fit succeeded")
def data_frames(c, ctx):
    import glum

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    cats = ["b", "a", "c"]
    g = rng.integers(0, 3, n)
    g[:3] = [0, 1, 2]
    e, k = rng.integers(0, 2, n), rng.integers(0, 3, n)
    e[:2], k[:3] = [0, 1], [0, 1, 2]
    x, z = rng.uniform(size=n), rng.normal(size=n)
    x[:2] = 0, 1
    yv = rng.poisson(2, size=n) + 0.0
    yv[:2] = 1, 3
    formula = c["f"]
    miss = c["missing"] if formula is None else "fail"

    def frame(g, e, x, z, k, levels, y=None, missing=False):
        gl = [cats[i] for i in g]
        if missing:
            gl[1] = None
        if c["back"] == "pandas":
            d = pd.DataFrame(dict(x=x, g=pd.Categorical(gl, categories=levels), z=z, e=pd.Categorical([["lo", "hi"][i] for i in e], categories=["lo", "hi"], ordered=True), k=k))
            if c["obj"] and formula is None:
                d["g"] = d["g"].astype(object)
            d.index = rng.permutation(len(x))
            if y is not None:
                d["y"] = y
            return d
        d = pl.DataFrame(dict(x=x, g=pl.Series(gl, dtype=pl.Enum(levels)), z=z, e=pl.Series([["lo", "hi"][i] for i in e], dtype=pl.Enum(["lo", "hi"])), k=k))
        return d if y is None else d.with_columns(pl.Series("y", y))

    two = c["twosided"] and formula is not None
    df = frame(g, e, x, z, k, cats, yv if two else None, missing=miss != "fail")
    lv = cats if c["newlevels"] == "same" else cats[::-1]
    gn = rng.integers(0, 3, 5) if c["newlevels"] != "subset" else np.ones(5, int)
    if c["newlevels"] == "subset" and c["back"] == "pandas":
        lv = ["a"]
    new = frame(gn, np.ones(5, int), rng.uniform(size=5), rng.normal(size=5), rng.integers(0, 3, 5), lv, missing=miss != "fail") if not (c["newlevels"] == "subset" and c["back"] == "polars") else frame(gn, np.ones(5, int), rng.uniform(size=5), rng.normal(size=5), rng.integers(0, 3, 5), cats, missing=miss != "fail")
    W = Watch()
    W.add("the data frame", df), W.add("the new data frame", new)
    y = None if two else W.add("y", pd.Series(yv, index=rng.permutation(n)) if rng.integers(2) else yv)
    w = W.add("sample_weight", rng.uniform(0.5, 2, n))
    par = dict(family=c["fam"], drop_first=c["drop"], cat_missing_method=miss, copy_X=c["copy"], max_iter=50)
    ncol = 5
    if formula is not None:
        par["formula"] = ("y ~ " if two else "") + formula
        if c["mono"] and ("x" in formula or "e" in formula) and "C(" not in formula:
            par["monotonic_constraints"] = {"x" if "x" in formula else "e": "increasing"}
    elif c["pen"] == "vec":
        par["P1"], par["P2"] = rng.uniform(0.5, 1, ncol), rng.uniform(0.5, 1, ncol)
    elif c["pen"] == "full":
        par["P2"] = np.diag(rng.uniform(0.5, 1, ncol))
    if c["cv"]:
        par.update(alphas=[0.01, 0.1], cv=3)
    else:
        par["alpha"] = 0.05
    given = {k_: W.add(f"the constructor argument {k_}", v) for k_, v in par.items()}
    est = (glum.GeneralizedLinearRegressorCV if c["cv"] else glum.GeneralizedLinearRegressor)(**par)
    def verify(after):
        W.verify(f"{after} ({c['back']}, formula {formula}, missing {miss})")
        now = est.get_params(deep=False)
        for k_, v in given.items():
            if now[k_] is not v and snap(now[k_]) != snap(v):
                fail(f"{after}: get_params()[{k_!r}] is {now[k_]!r}, not what was set")

    fitted = attempt(lambda: est.fit(df, y, sample_weight=w), "fit")
    verify("fit")
    ctx.label(f"fitted:{fitted is not None}", f"back:{c['back']}", f"formula:{formula}")
    if fitted is None:
        return
    ctx.mark()
    for op in c["ops"]:
        if op == "predict":
            attempt(lambda: est.predict(new), op)
        elif op == "score":
            attempt(lambda: est.score(df, yv, sample_weight=w), op)
        elif op == "covariance":
            attempt(lambda: est.covariance_matrix(df, y, sample_weight=w, clusters=g), op)
        elif op == "wald":
            attempt(lambda: est.wald_test(X=df, y=y, sample_weight=w, features=W.add("features", list(est.feature_names_[:2]))), op)
        elif op == "coef_table":
            attempt(lambda: est.coef_table(X=df, y=y, sample_weight=w), op)
        elif op == "refit":
            attempt(lambda: est.fit(df, y, sample_weight=w), op)
        verify(op)
