"""C06: the storage of the design does not matter."""
import numpy as np
import pandas as pd
import polars as pl
import tabmat as tm
from hypothesis import strategies as st
from scipy import sparse

from checks.common import conditioning, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

COLS = ["normal", "uniform", "binary", "sparse", "shifted", "skew", "ints", "ints", "binary", "sparse"]
KINDS = ["C", "F", "strided-rows", "strided-cols", "reversed", "list", "csc", "csr", "coo", "csc_array", "csr_array", "lil", "csc_unsorted", "csr_zeros", "tm.dense", "tm.denseF",
         "tm.sparse", "tm.split", "tm.split3", "pandas", "pandas-index", "pandas-dup-index", "pandas-mixed", "pandas-sparse", "pandas-nullable", "polars", "polars-mixed", "int64", "int32", "readonly", "fortran-slice", "csc_int64", "bool", "uint8", "object", "float16", "pandas-pyarrow", "pandas-floats", "polars-floats"]


def store(kind, X, rng):
    """The same numbers in another container; None if the numbers do not fit it."""
    n, p = X.shape
    if kind == "C":
        return np.ascontiguousarray(X)
    if kind == "F":
        return np.asfortranarray(X)
    if kind == "strided-rows":
        B = rng.normal(size=(2 * n, p))
        B[::2] = X
        return B[::2]
    if kind == "strided-cols":
        B = rng.normal(size=(n, 2 * p))
        B[:, ::2] = X
        return B[:, ::2]
    if kind == "reversed":
        return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    if kind == "fortran-slice":
        B = np.asfortranarray(rng.normal(size=(n + 3, p + 2)))
        B[1 : n + 1, 1 : p + 1] = X
        return B[1 : n + 1, 1 : p + 1]
    if kind == "list":
        return X.tolist()
    if kind == "readonly":
        X = X.copy()
        X.flags.writeable = False
        return X
    if kind in ("csc", "csr", "coo", "lil", "csc_array", "csr_array"):
        return getattr(sparse, kind if "array" in kind else kind + "_matrix")(X)
    if kind == "csc_int64":
        S = sparse.csc_matrix(X)
        S.indices, S.indptr = S.indices.astype(np.int64), S.indptr.astype(np.int64)
        return S
    if kind == "csc_unsorted":
        S = sparse.csc_matrix(X)
        idx, dat = S.indices.copy(), S.data.copy()
        for j in range(p):
            s = slice(S.indptr[j], S.indptr[j + 1])
            idx[s], dat[s] = idx[s][::-1].copy(), dat[s][::-1].copy()
        return sparse.csc_matrix((dat, idx, S.indptr), shape=X.shape)
    if kind == "csr_zeros":
        S = sparse.csr_matrix(np.where(X == 0, 7.0, X))  # explicit zeros
        S.data[S.data == 7.0] = 0.0
        return S if not np.any(X == 7.0) else None
    if kind == "tm.dense":
        return tm.DenseMatrix(X)
    if kind == "tm.denseF":
        return tm.DenseMatrix(np.asfortranarray(X))
    if kind == "tm.sparse":
        return tm.SparseMatrix(sparse.csc_matrix(X))
    if kind in ("tm.split", "tm.split3"):
        if p < 2:
            return None
        q = rng.permutation(p)
        k = 2 if kind == "tm.split" else min(3, p)
        parts = [np.sort(s) for s in np.array_split(q, k)]
        mats = [tm.DenseMatrix(np.asfortranarray(X[:, s])) if i % 2 == 0 else tm.SparseMatrix(sparse.csc_matrix(X[:, s])) for i, s in enumerate(parts)]
        return tm.SplitMatrix(mats, [np.asarray(s) for s in parts])
    names = [f"c{j}" for j in range(p)]
    isint = [np.all(X[:, j] == np.round(X[:, j])) and np.abs(X[:, j]).max() < 100 for j in range(p)]
    if kind.startswith("pandas"):
        df = pd.DataFrame(X, columns=names)
        if kind == "pandas-index":
            df.index = rng.permutation(n) + 100
        if kind == "pandas-dup-index":
            df.index = rng.integers(0, 3, size=n)
        if kind in ("pandas-mixed", "pandas-nullable"):
            for j in range(p):
                if isint[j]:
                    if kind == "pandas-mixed":
                        df[names[j]] = df[names[j]].astype(rng.choice(["int64", "int32", "int8", "bool"] if set(X[:, j]) <= {0.0, 1.0} else ["int64", "int32", "int8"]))
                    else:
                        df[names[j]] = df[names[j]].astype("Int64")
                elif kind == "pandas-nullable":
                    df[names[j]] = df[names[j]].astype("Float64")
        if kind == "pandas-pyarrow":
            df = df.convert_dtypes(dtype_backend="pyarrow")
        if kind == "pandas-floats":
            for j in range(p):
                if isint[j]:
                    df[names[j]] = df[names[j]].astype(rng.choice(["float16", "float32", "uint8" if X[:, j].min() >= 0 else "int16"]))
        if kind == "pandas-sparse":
            for j in range(p):
                if rng.uniform() < 0.6:
                    df[names[j]] = df[names[j]].astype(pd.SparseDtype(float, 0.0))
        return df
    if kind.startswith("polars"):
        df = pl.DataFrame({names[j]: X[:, j] for j in range(p)})
        if kind == "polars-floats":
            df = df.with_columns([pl.col(names[j]).cast([pl.Float32, pl.UInt8 if X[:, j].min() >= 0 else pl.Int16, pl.Float64][rng.integers(3)]) for j in range(p) if isint[j]])
        if kind == "polars-mixed":
            df = df.with_columns([pl.col(names[j]).cast(pl.Int32) for j in range(p) if isint[j]])
        return df
    if kind in ("int64", "int32"):
        return X.astype(kind) if all(isint) else None
    if kind == "bool":
        return X.astype(bool) if set(np.unique(X)) <= {0.0, 1.0} else None
    if kind == "uint8":
        return X.astype("uint8") if all(isint) and X.min() >= 0 else None
    if kind == "float16":
        return X.astype("float16") if all(isint) else None
    if kind == "object":
        return X.astype(kind)
    raise KeyError(kind)


def vec(kind, v, rng):
    if v is None or kind == "array":
        return v
    if kind == "list":
        return v.tolist()
    if kind == "series":
        return pd.Series(v, index=rng.permutation(len(v)) + 7)
    if kind == "strided":
        b = rng.normal(size=3 * len(v))
        b[::3] = v
        return b[::3]
    if kind == "polars":
        return pl.Series(v)
    if kind == "int":
        return v.astype(int) if np.all(v == np.round(v)) else v
    if kind == "tuple":
        return tuple(v.tolist())
    if kind == "object":
        return v.astype(object)
    if kind == "uint8":
        return v.astype("uint8") if np.all(v == np.round(v)) and v.min() >= 0 and v.max() < 256 else v
    if kind == "nullable":
        return pd.Series(v).convert_dtypes()
    if kind == "pyarrow":
        return pd.Series(v).convert_dtypes(dtype_backend="pyarrow")
    if kind == "float32":
        return v.astype("float32") if np.all(v == np.round(v)) else v
    raise KeyError(kind)


VK = ["array", "list", "series", "strided", "int", "tuple", "polars", "object", "uint8", "nullable", "pyarrow", "float32"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX + [("igauss", "log"), ("ghs", "identity")], cols=COLS, min_n=8), **kw}))
    if draw(st.booleans()):
        c["cols"] = [draw(st.sampled_from(["ints", "binary"])) for _ in c["cols"]]
    # (spread evenly by the data seed: drawn lists favour the first few kinds)
    c["kinds"] = [KINDS[(k + c["seed"]) % len(KINDS)] for k in draw(st.lists(st.integers(0, len(KINDS) - 1), min_size=2, max_size=3, unique=True))]
    c["vk"] = draw(st.lists(st.sampled_from(VK), min_size=3, max_size=3))
    c["solver"] = draw(st.sampled_from(["auto", "auto", "irls-cd", "irls-ls", "lbfgs"]))
    c["copy"] = draw(st.sampled_from([None, None, True]))
    return c


def fitted(pb, X, y, w, off, **kw):
    try:
        return G.quiet_fit(G.glr(**pb.params(**kw)), X, y, sample_weight=w, offset=off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
            raise
        return None, False


@check("C06", cases(), quick=2500, rule="the same design, response, weights and offset in 2-3 random containers (array layouts, lists, integer and nullable types, scipy and tabmat matrices, pandas and polars frames): same fit, predictions, score and linear predictor, also when predicting from another container; non-trivial = all fits converged to a finite model")
def storage(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    s = c["solver"]
    if pb.alpha * pb.l1 > 0 and s in ("irls-ls", "lbfgs"):
        s = "auto"
    kw = dict(solver=s, gradient_tol=1e-8, max_iter=300, copy_X=c["copy"])
    X0 = pb.X.copy()
    m, c1 = fitted(pb, np.asfortranarray(pb.X), pb.y, pb.w, pb.off, **kw)
    ok = bool(c1)
    kap = conditioning(pb, m) if c1 else None
    newX = rng.normal(size=(5, pb.p)) if c["cols"][0] not in ("ints", "binary") else rng.integers(0, 2, size=(5, pb.p)).astype(float)
    noff = rng.normal(size=5) * 0.1
    for kind in c["kinds"]:
        Xs = store(kind, pb.X, rng)
        if Xs is None:
            continue
        vk = c["vk"]
        what = f"{pb.fam}/{pb.link}/{s} with X as {kind}, y/w/offset as {vk}"
        n, c2 = fitted(pb, Xs, vec(vk[0], pb.y, rng), vec(vk[1], pb.w, rng), vec(vk[2], pb.off, rng), **kw)
        ctx.label(f"kind:{kind}", f"y:{vk[0]}")
        if m is None or n is None:
            if (m is None) != (n is None) and not G.rank_deficient(pb) and pb.fam == "normal":
                fail(f"{what}: only one of the two fits fails")
            ok = False
            continue
        if np.asarray(n.coef_).dtype != np.float64:
            fail(f"{what}: coefficients have type {n.coef_.dtype}")
        if c1 and c2 and kap:
            same(pb, m, n.intercept_, n.coef_, what, kappa=kap, extra=3e-7 if s == "lbfgs" else 1e-9)
        else:
            ok = False
        # the same model evaluated on different containers
        for k2 in (kind, c["kinds"][0]):
            Xn = store(k2, newX, rng)
            if Xn is None:
                continue
            want = newX @ n.coef_ + n.intercept_ + noff
            if not np.all(np.isfinite(want)):
                continue
            scale = np.abs(newX) @ np.abs(n.coef_) + abs(float(n.intercept_)) + 1
            O.assert_close(n.linear_predictor(Xn, offset=vec(vk[1], noff, rng)), want, rtol=1e-12, atol=0, scale=scale, what=what + f": linear predictor of {k2}")
            with np.errstate(all="ignore"):
                mu = np.asarray(n.predict(Xn, offset=noff), float)
            O.assert_close(mu, n.link_instance.inverse(want), rtol=1e-9 + 1e-12 * scale.max(), atol=1e-12, scale=None, what=what + f": predict of {k2}")
        if c1 and c2 and kap and not np.any(np.abs(pb.objective().eta(float(m.intercept_), m.coef_)) > 30):
            a = n.score(Xs, vec(vk[0], pb.y, rng), sample_weight=vec(vk[1], pb.w, rng), offset=vec(vk[2], pb.off, rng))
            b = n.score(np.asfortranarray(pb.X), pb.y, sample_weight=pb.w, offset=pb.off)
            t = 1e-9 if "float32" not in vk[:2] else 1e-4
            O.assert_close(a, b, rtol=t, atol=t, what=what + ": score")
        if hasattr(n, "feature_names_") and (kind.startswith("pandas") or kind.startswith("polars")):
            if list(n.feature_names_) != [f"c{j}" for j in range(pb.p)]:
                fail(f"{what}: feature_names_ {n.feature_names_}")
    if not np.array_equal(X0, pb.X):
        fail("the design was modified")
    ctx.mark(ok)


@check("C06", cases(fams=[("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log")], alphas=(0.0, 0.01), l1=(0.0,), min_n=20, max_p=4, P2s=("identity",), P1s=("identity",)), quick=500,
       rule="covariance matrices (classical, robust, clustered; recomputed and stored) and the coefficient table from each container against the dense one; non-trivial = converged, well conditioned")
def covariance(c, ctx):
    pb = G.Problem(c)
    if G.rank_deficient(pb, False):
        return
    rng = np.random.default_rng(c["seed"] + 1)
    m, c1 = fitted(pb, np.asfortranarray(pb.X), pb.y, pb.w, pb.off, solver="irls-ls", gradient_tol=1e-8, max_iter=300)
    kap = conditioning(pb, m) if c1 else None
    if not kap or kap < 1e-3:
        return
    rob, exp = bool(rng.integers(2)), bool(rng.integers(2))
    kk = dict(clusters=rng.integers(0, 5, size=len(pb.y))) if rng.integers(2) and rob else {}
    A = m.covariance_matrix(np.asfortranarray(pb.X), pb.y, sample_weight=pb.w, offset=pb.off, robust=rob, expected_information=exp, **kk)
    sc = np.sqrt(np.abs(np.outer(np.diag(A), np.diag(A))))
    for kind in c["kinds"]:
        Xs = store(kind, pb.X, rng)
        if Xs is None:
            continue
        vk = c["vk"]
        what = f"{pb.fam} with X as {kind}: covariance (robust={rob}, expected={exp}, {list(kk)})"
        B = m.covariance_matrix(Xs, vec(vk[0], pb.y, rng), sample_weight=vec(vk[1], pb.w, rng), offset=vec(vk[2], pb.off, rng), robust=rob, expected_information=exp, **kk)
        O.assert_close(B, A, rtol=1e-7, atol=1e-14, scale=sc, what=what)
        ctx.label(f"kind:{kind}")
        est = G.glr(**pb.params(solver="irls-ls", gradient_tol=1e-8, max_iter=300, robust=rob, expected_information=exp))
        est, c2 = G.quiet_fit(est, Xs, pb.y, sample_weight=pb.w, offset=pb.off, store_covariance_matrix=True, **kk)
        if c2:
            O.assert_close(est.covariance_matrix(), A, rtol=3e-4, atol=1e-12, scale=sc, what=what + " stored in fit")
    ctx.mark()


@check("C06", cases(fams=[("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit")], alphas=(0.1,), l1=(0.0, 0.5), min_n=24, max_n=40, max_p=4, P2s=("identity",), P1s=("identity",)), quick=150,
       rule="cross-validation and regularization paths from each container against the dense one; non-trivial = converged")
def paths(c, ctx):
    import glum

    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    cv = bool(rng.integers(2))
    par = pb.params(gradient_tol=1e-8, max_iter=300)
    par.pop("alpha")
    mk = (lambda: glum.GeneralizedLinearRegressorCV(alphas=[0.5, 0.05], cv=3, **par)) if cv else (lambda: glum.GeneralizedLinearRegressor(alpha_search=True, alpha=[0.5, 0.05, 0.01], **par))

    def go(X):
        try:
            return G.quiet_fit(mk(), X, pb.y, sample_weight=pb.w, offset=pb.off)
        except (np.linalg.LinAlgError, ValueError) as e:
            if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower() and "No variation" not in str(e):
                raise
            return None, False

    m, c1 = go(np.asfortranarray(pb.X))
    for kind in c["kinds"]:
        Xs = store(kind, pb.X, rng)
        if Xs is None:
            continue
        n, c2 = go(Xs)
        ctx.label(f"kind:{kind}", f"cv:{cv}", f"conv:{c1}:{c2}")
        if not (c1 and c2):
            continue
        what = f"{'CV' if cv else 'path'} {pb.fam} with X as {kind}"
        if cv:
            d = np.asarray(m.deviance_path_)
            if not np.all(np.isfinite(d)) or np.abs(m.coef_path_).max() > 20 or np.abs(d).max() > 1e3:
                continue
            O.assert_close(n.deviance_path_, d, rtol=1e-4, atol=1e-5, what=what + ": deviances")
        if np.abs(m.coef_path_).max() < 20:
            O.assert_close(n.coef_path_, m.coef_path_, rtol=1e-4, atol=2e-4, what=what + ": coefficients")
        ctx.mark()
