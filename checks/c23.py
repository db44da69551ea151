"""C23: penalties given per original column act on every indicator of the column."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from checks import c22 as K
from pbt import oracle as O
from pbt.core import check, fail

PEN = ["col", "col", "col", "exp", "exp", "full", "sparse", "identity"]
SPARSE = [sparse.csc_matrix, sparse.csr_matrix, sparse.coo_matrix, sparse.dia_matrix, sparse.csc_array]


@st.composite
def cases(draw):
    c = draw(K.cases(ncat=(1, 1, 2, 3)))
    c.update(
        p1=draw(st.sampled_from(["col", "col", "exp", "identity"])), p2=draw(st.sampled_from(PEN)), cont=draw(st.sampled_from(["array", "array", "list", "tuple", "int"])),
        l1=draw(st.sampled_from([0.0, 0.3, 0.6, 1.0])), zero=draw(st.booleans()), same=draw(st.booleans()),
    )
    return c


def groups(d, lv, wm, c):
    """Number of design columns of every frame column."""
    out = []
    for name, kind, v, _ in d.cols:
        out.append(1 if kind == "num" else len(lv[name]) + (c["method"] == "convert" and wm[name]) - c["drop"])
    return np.array(out)


def wrap(v, cont):
    return {"array": lambda: v.copy(), "list": v.tolist, "tuple": lambda: tuple(v.tolist()), "int": lambda: v.copy()}[cont]()


@check("C23", cases(), quick=1600, rule="frames (pandas, polars; missing as category, drop_first; also CV) with P1 and P2 given per column, per indicator, as dense or sparse matrices, lists or arrays, against the explicit indicator design with the repeated penalty; non-trivial = a penalty per column met a column with several indicators and the penalty vectors are not constant")
def expansion(c, ctx):
    rng, d, lv, wm, X, names, terms, y, w = K.prepare(c, c["method"] != "fail" and any(k["miss"] for k in c["cats"]))
    p, q = X.shape[1], len(d.cols)
    if p == 0:
        return
    g = groups(d, lv, wm, c)
    if g.sum() != p:
        raise AssertionError("groups")

    def vector(kind, ridge):
        """(what is passed, expanded vector)."""
        n = q if kind == "col" else p
        lo = 0.3
        v = rng.integers(1, 4, size=n).astype(float) if c["cont"] == "int" else np.round(rng.uniform(lo, 3, size=n), 3)
        if c["zero"] and not ridge:
            v[int(rng.integers(n))] = 0.0
        if kind == "exp" and p == q and not np.all(g == 1):
            return None, None  # ambiguous: read as a penalty per column
        full = np.repeat(v, g) if kind == "col" else v
        if c["cont"] == "int":
            v = v.astype(int)
        return wrap(v, c["cont"]), full

    def matrix(kind):
        A = rng.normal(size=(p, p))
        full = np.round(A @ A.T / p + 0.4 * np.eye(p), 6)
        return (full.copy() if kind == "full" else SPARSE[int(rng.integers(len(SPARSE)))](full)), full

    P1, P1f = ("identity", np.ones(p)) if c["p1"] == "identity" else vector(c["p1"], False)
    if c["p2"] == "identity":
        P2, P2f = "identity", np.ones(p)
    else:
        P2, P2f = matrix(c["p2"]) if c["p2"] in ("full", "sparse") else vector(c["p2"], True)
    if P1 is None or P2 is None:
        return
    what = f"{c['back']} {c['method']} drop_first={c['drop']} columns {list(g)} P1={P1 if c['p1'] != 'identity' else 'identity'} P2={c['p2']}:{P2 if c['p2'] in ('col', 'exp') else ''}"
    kw = dict(cat_missing_method=c["method"], cat_missing_name=c["mname"], categorical_format=c["fmt"])
    m, c1 = K.attempt(K.estimator(c, P1=P1, P2=P2, **kw), d.frame(c["back"]), y, sample_weight=w)
    e, c2 = K.attempt(K.estimator({**c, "drop": False}, P1=P1f, P2=P2f), X, y, sample_weight=w)
    if not (c1 and c2):
        return
    if list(m.feature_names_) != names:
        fail(f"{what}: feature_names_ {list(m.feature_names_)}, expected {names}")
    tol = 2e-5
    if c["cv"]:
        if not np.isclose(m.alpha_, e.alpha_):
            return
    O.assert_close(m.predict(d.frame(c["back"])), e.predict(X), rtol=tol, atol=tol, what=f"{what}: fitted means of the frame and of the indicators")
    if c["l1"] < 1:
        O.assert_close(m.coef_, e.coef_, rtol=0, atol=tol * (1 + np.abs(e.coef_).max()) / c["alpha"], what=f"{what}: coefficients of {names}")
    ctx.label(f"P1:{c['p1']}", f"P2:{c['p2']}", f"cont:{c['cont']}", f"drop:{c['drop']}", f"missing level:{c['method'] == 'convert' and any(wm.values())}", f"widest:{g.max()}", f"cv:{c['cv']}")
    ctx.mark(("col" in (c["p1"], c["p2"])) and g.max() > 1 and q > 1 and c["cont"] != "int" or c["p2"] in ("exp", "full", "sparse"))


@check("C23", cases(), quick=500, rule="penalty vectors of any other length, and two-dimensional penalties of the length before expansion, raise ValueError; the fit with the right length succeeds; non-trivial = an error was provoked")
def lengths(c, ctx):
    c = {**c, "cv": False}
    rng, d, lv, wm, X, names, terms, y, w = K.prepare(c, c["method"] != "fail" and any(k["miss"] for k in c["cats"]))
    p, q = X.shape[1], len(d.cols)
    if p == 0:
        return
    kw = dict(cat_missing_method=c["method"], cat_missing_name=c["mname"], categorical_format=c["fmt"])
    n = int([k for k in range(1, p + q + 3) if k not in (p, q)][int(rng.integers(p + q + 2 - len({p, q})))])
    v = rng.uniform(0.5, 2, size=n)
    bad = [("P1", v), ("P2", v), ("P2", np.diag(v))]
    if p != q:
        u = rng.uniform(0.5, 2, size=q)
        bad += [("P2", np.diag(u)), ("P2", sparse.csc_matrix(np.diag(u)))]
    name, val = bad[int(rng.integers(len(bad)))]
    shape = val.shape
    l1 = 0.5
    try:
        K.estimator({**c, "l1": l1}, **{name: val}, **kw).fit(d.frame(c["back"]), y)
    except ValueError:
        pass
    else:
        fail(f"{c['back']} {c['method']} drop_first={c['drop']}: {name} of shape {shape} accepted for {q} columns with {p} indicators")
    for good in ([q, p] if name == "P1" or len(shape) == 1 else [p]):
        ok = rng.uniform(0.5, 2, size=good)
        K.attempt(K.estimator({**c, "l1": l1}, **{name: np.diag(ok) if len(shape) == 2 else ok}, **kw), d.frame(c["back"]), y)
    ctx.label(f"{name}:{len(shape)}d:{'original' if shape[0] == q else 'other'}")
    ctx.mark(True)
