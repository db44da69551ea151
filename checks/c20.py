"""C20: hypothesis tests and coefficient tables agree with the covariance."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from checks.c19 import ARGS, COLS, FAMS, cases as cov_cases, est_of, fit, labels_of, reference, regular, well
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

WAYS = ["R", "features", "terms", "formula"]


@st.composite
def cases(draw):
    c = draw(cov_cases(weights=("none", "uniform", "ints")))
    c["q"] = draw(st.integers(1, 3))
    c["rhs"] = draw(st.sampled_from(["none", "zero", "values", "list"]))
    c["stored"] = draw(st.sampled_from([False, False, True]))
    c["frame"] = draw(st.booleans())
    c["level"] = draw(st.sampled_from([0.95, 0.5, 0.9, 0.999, 0.0]))
    c["scale_r"] = draw(st.sampled_from([1.0, 0.1, 10.0]))
    return c


def expected_test(V, beta, R, r):
    d = R @ beta - r
    A = R @ V @ R.T
    stat = float(d @ np.linalg.solve(A, d))
    return stat, float(stats.chi2.sf(stat, R.shape[0])), R.shape[0]


def same_test(got, want, what):
    stat, p, df = want
    g = [float(np.ravel(v)[0]) for v in (got.test_statistic, got.p_value)]
    if np.size(got.test_statistic) != 1 or np.size(got.p_value) != 1:
        fail(f"{what}: statistic {got.test_statistic}, p-value {got.p_value}")
    if not abs(g[0] - stat) <= 1e-6 * abs(stat) + 1e-10:
        fail(f"{what}: statistic {g[0]}, expected {stat}")
    if int(got.df) != df:
        fail(f"{what}: {got.df} degrees of freedom, expected {df}")
    if not abs(g[1] - p) <= 1e-6 * stat * p + 1e-9:
        fail(f"{what}: p-value {g[1]}, expected {p} (statistic {stat}, {df} df)")


def setup(c):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 7)
    p = pb.p
    names = [f"x{j}" for j in range(p)]
    X = pd.DataFrame(pb.X, columns=names) if c["frame"] else pb.X
    labels, g = labels_of(c["labels"], rng, len(pb.y)) if c["labels"] else (None, None)
    m = fit(est_of(pb, c, robust=c["rob"], expected_information=c["exp"]), X, pb.y, sample_weight=pb.w, offset=pb.off,
            store_covariance_matrix=c["stored"], clusters=labels if c["stored"] else None)
    if m is None or not regular(pb, m.intercept_, m.coef_):
        return None
    robust, expected = (None, None) if c["stored"] else ARGS[(c["args"] + c["seed"]) % len(ARGS)]
    r, e = c["rob"] if robust is None else robust, c["exp"] if expected is None else expected
    disp = None if c["stored"] else c["disp"]
    V, H, phi = reference(pb, float(m.intercept_), m.coef_, r, e, g, disp)
    if V is None or not 1e-8 < phi < 1e6:
        return None
    d = np.sqrt(np.abs(np.diag(V)))
    if not d.min() > 1e-9:
        return None
    ev = np.linalg.eigvalsh(V / np.outer(d, d))
    if ev[0] < 1e-4:
        return None
    if c["stored"]:
        data, kw = (), {}
    else:
        data = (X, pb.y)
        kw = dict(sample_weight=pb.w, offset=pb.off, clusters=labels, robust=robust, expected_information=expected, dispersion=disp)
        if c["mu"]:
            kw["mu"] = pb.objective().mu(float(m.intercept_), m.coef_)
    beta = np.r_[float(m.intercept_), m.coef_] if pb.fi else np.array(m.coef_)
    fn = (["intercept"] if pb.fi else []) + (names if c["frame"] else list(m.feature_names_))
    if len(fn) != len(beta):
        fail(f"names {fn} for {len(beta)} coefficients")
    return pb, rng, m, V, beta, fn, data, kw


def mixed(rng, a):
    """The number in one of the types a user may have at hand."""
    a = float(a)
    if a == round(a) and rng.integers(4):
        return [int, np.int64, np.int8][rng.integers(3)](a) if abs(a) < 100 else int(a)
    return a if rng.integers(2) else np.float64(a)


@check("C20", cases(), quick=1200, rule="wald_test by matrix, feature names, term names and formula with and without right-hand sides, on given or stored covariances of 19 family-link pairs with weights, offsets, clusters, dispersion and means, against the quadratic form of the reference covariance; non-trivial = all ways compared")
def wald(c, ctx):
    s = setup(c)
    if s is None:
        return
    pb, rng, m, V, beta, names, data, kw = s
    p = len(beta)
    what = f"{pb.fam}/{pb.link} stored={c['stored']} clusters={c['labels']} {kw.get('robust')},{kw.get('expected_information')}: "
    q = min(c["q"], p)
    se = np.sqrt(np.diag(V))
    # a general restriction matrix
    R = rng.normal(size=(q, p)) / se
    if np.linalg.cond(R * se) < 1e3:
        r = None if c["rhs"] == "none" else R @ (beta + c["scale_r"] * se * rng.normal(size=p)) if c["rhs"] != "zero" else np.zeros(q)
        want = expected_test(V, beta, R, np.zeros(q) if r is None else r)
        same_test(m.wald_test(*data, R=R, r=None if r is None else list(r) if c["rhs"] == "list" else r, **kw), want, what + "R")
        # the hypothesis, not its basis, matters
        T = np.triu(rng.uniform(0.5, 2, size=(q, q)))
        same_test(m.wald_test(*data, R=T @ R, r=None if r is None else T @ r, **kw), want, what + "transformed R")
    # some coefficients equal to values
    idx = rng.permutation(p)[:q]
    vals = None if c["rhs"] == "none" else np.zeros(q) if c["rhs"] == "zero" else np.round(beta[idx] + c["scale_r"] * se[idx] * rng.normal(size=q), 6)
    if c["rhs"] == "list":  # integers, or a mixture of numbers of several types
        whole = rng.uniform(size=q) < 0.4
        vals[whole] = np.round(vals[whole]) + 0.0
    R = np.eye(p)[idx]
    want = expected_test(V, beta, R, np.zeros(q) if vals is None else vals)
    v = vals if c["rhs"] != "list" else [mixed(rng, a) for a in vals]
    feats = [names[i] for i in idx]
    same_test(m.wald_test(*data, R=R, r=v, **kw), want, what + "selection matrix")
    same_test(m.wald_test(*data, features=feats, r=v, **kw), want, what + f"features {feats} = {vals}")
    same_test(m.wald_test(*data, terms=feats, r=v, **kw), want, what + f"terms {feats} = {vals}")
    if q == 1:
        same_test(m.wald_test(*data, features=feats[0], r=v, **kw), want, what + f"feature {feats[0]} = {vals}")
        same_test(m.wald_test(*data, terms=feats[0], r=v, **kw), want, what + f"term {feats[0]} = {vals}")
    z = np.zeros(q) if vals is None else vals
    if all(n.isidentifier() for n in names):
        f = ", ".join(f"{n} = {a:.6f}" if a >= 0 else f"{n} + {abs(a):.6f} = 0" for n, a in zip(feats, z))
        same_test(m.wald_test(*data, formula=f, **kw), want, what + f"formula {f}")
        if p > 1:
            i, j = rng.permutation(p)[:2]
            R2 = np.zeros((1, p))
            R2[0, i], R2[0, j] = 2, -1
            want2 = expected_test(V, beta, R2, np.array([0.5]))
            f = f"2 * {names[i]} - {names[j]} = 0.5"
            same_test(m.wald_test(*data, formula=f, **kw), want2, what + f"formula {f}")
    # misuse
    for bad in (dict(), dict(R=R, features=feats), dict(features=feats, terms=feats), dict(features=["no such"]), dict(terms=["no such"]),
                dict(features=feats, r=np.zeros(q + 1)), dict(terms=feats, r=np.zeros(q + 1)), dict(R=R, r=np.zeros(q + 1)), dict(R=np.ones((1, p + 1)))):
        try:
            m.wald_test(*data, **bad, **kw)
        except ValueError:
            continue
        fail(what + f"wald_test accepts {sorted(bad)} of the wrong number, size or name")
    ctx.label(f"stored:{c['stored']}", f"rhs:{c['rhs']}", f"q:{q}", f"search:{c['search']}")
    ctx.mark(True)


@check("C20", cases(), quick=1200, rule="coef_table and std_errors at several confidence levels on given or stored covariances: estimates, errors, t and p values and limits from the reference covariance; consistency with single-coefficient Wald tests; non-trivial = table compared")
def table(c, ctx):
    s = setup(c)
    if s is None:
        return
    pb, rng, m, V, beta, names, data, kw = s
    what = f"{pb.fam}/{pb.link} stored={c['stored']} clusters={c['labels']}: "
    se = np.sqrt(np.diag(V))
    lv = c["level"]
    t = m.coef_table(*data, confidence_level=lv, **kw)
    if list(t.index) != names:
        fail(what + f"rows {list(t.index)}, expected {names}")
    if list(t.columns) != ["coef", "se", "t_value", "p_value", "ci_lower", "ci_upper"]:
        fail(what + f"columns {list(t.columns)}")
    z = stats.norm.ppf((1 + lv) / 2)
    tv = beta / se
    for col, want, tol in (("coef", beta, 1e-13 * np.abs(beta)), ("se", se, 3e-6 * se), ("t_value", tv, 3e-6 * np.abs(tv)),
                           ("p_value", 2 * stats.norm.sf(np.abs(tv)), 1e-5), ("ci_lower", beta - z * se, 1e-5 * (1 + z) * se), ("ci_upper", beta + z * se, 1e-5 * (1 + z) * se)):
        got = t[col].to_numpy(float)
        if not np.all(np.abs(got - want) <= tol + 1e-13 * np.abs(beta)):
            fail(what + f"{col} {got}, expected {want} (level {lv})")
    if lv == 0.95:
        d = m.coef_table(*data, **kw)
        if not np.array_equal(d.to_numpy(), t.to_numpy()):
            fail(what + "the default confidence level is not 0.95")
    s2 = m.std_errors(*data, **kw)
    if not np.allclose(s2, t["se"], rtol=1e-10, atol=0):
        fail(what + f"std_errors {s2} but the table has {t['se'].to_numpy()}")
    j = int(rng.integers(len(names)))
    w = m.wald_test(*data, features=names[j], **kw)
    if not np.isclose(np.ravel(w.test_statistic)[0], t["t_value"].iloc[j] ** 2, rtol=1e-6, atol=1e-9) or not np.isclose(np.ravel(w.p_value)[0], t["p_value"].iloc[j], rtol=0, atol=1e-7):
        fail(what + f"wald_test of {names[j]} {w} but t {t['t_value'].iloc[j]}, p {t['p_value'].iloc[j]}")
    ctx.label(f"level:{lv}", f"frame:{c['frame']}", f"search:{c['search']}")
    ctx.mark(True)


@check("C20", st.fixed_dictionaries(dict(seed=G.SEEDS, n=st.integers(30, 70), drop=st.booleans(), form=st.sampled_from(["frame", "formula", "inter"]),
                                         rhs=st.booleans(), robust=st.sampled_from([None, True, False]))), quick=500,
       rule="terms of categorical columns, interactions and formulas restrict all their coefficients to the given value; feature names and terms line up with the coefficients; non-trivial = a term with several coefficients tested")
def terms(c, ctx):
    import glum

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    k = rng.permutation(np.r_[0, 1, 2, 0, 1, 2, rng.integers(0, 3, size=n - 6)])
    g = rng.permutation(np.r_[0, 1, rng.integers(0, 2, size=n - 2)])
    df = pd.DataFrame({"x": rng.normal(size=n), "k": pd.Categorical(np.array(["u", "v", "w"])[k]), "g": pd.Categorical(np.array(["p", "q"])[g]), "z": rng.uniform(size=n)})
    y = rng.normal(size=n) + 0.3 * k + df["x"].to_numpy()
    if c["form"] == "inter" and (pd.crosstab(df["k"], df["g"]).to_numpy() < 3).any():
        return
    fi = c["drop"]
    par = dict(alpha=0, fit_intercept=fi, drop_first=fi)
    lev = "vw" if fi else "uvw"
    if c["form"] == "frame":
        df = df.drop(columns="g") if not fi else df
        m = glum.GeneralizedLinearRegressor(**par)
        groups = {"x": ["x"], "k": [f"k[{a}]" for a in lev], "z": ["z"], **({"g": ["g[q]"]} if fi else {})}
    elif c["form"] == "formula":
        m = glum.GeneralizedLinearRegressor(formula="x + k + z", **par)
        groups = {"x": ["x"], "k": [f"k[{a}]" for a in lev], "z": ["z"]}
    else:
        par["fit_intercept"] = par["drop_first"] = fi = True
        m = glum.GeneralizedLinearRegressor(formula="k * g + x", **par)
        groups = {"k": ["k[v]", "k[w]"], "g": ["g[q]"], "x": ["x"], "k:g": ["k[v]:g[q]", "k[w]:g[q]"]}
    m.fit(df, y)
    names = list(m.feature_names_)
    if sorted(names) != sorted(a for v in groups.values() for a in v):
        fail(f"{c['form']}: feature names {names}, expected {groups}")
    V = np.asarray(m.covariance_matrix(df, y, robust=c["robust"]))
    beta = np.r_[float(m.intercept_), m.coef_] if fi else np.array(m.coef_)
    allnames = (["intercept"] if fi else []) + names
    d = np.sqrt(np.diag(V))
    if np.linalg.eigvalsh(V / np.outer(d, d))[0] < 1e-6:
        return
    for t, members in groups.items():
        idx = [allnames.index(a) for a in members]
        if [m.term_names_[i - fi] for i in idx] != [t] * len(idx):
            fail(f"terms {list(m.term_names_)} for features {names}")
    pick = list(rng.permutation(list(groups))[: int(rng.integers(1, len(groups) + 1))])
    if "k" not in pick:
        pick.insert(int(rng.integers(len(pick) + 1)), "k")
    r = rng.normal(size=len(pick)) if c["rhs"] else None
    if r is not None and rng.integers(2):
        r = [mixed(rng, a if rng.integers(2) else np.round(a) + 0.0) for a in r]
    idx = [allnames.index(a) for t in pick for a in groups[t]]
    R = np.eye(len(beta))[idx]
    rr = np.zeros(len(idx)) if r is None else np.concatenate([np.full(len(groups[t]), a) for t, a in zip(pick, r)])
    want = expected_test(V, beta, R, rr)
    same_test(m.wald_test(df, y, terms=pick, r=r, robust=c["robust"]), want, f"{c['form']}: terms {pick} = {r}")
    same_test(m.wald_test(df, y, features=[allnames[i] for i in idx], r=rr, robust=c["robust"]), want, f"{c['form']}: features of {pick} = {rr}")
    f = ", ".join(f"`{allnames[i]}` = {a:.8f}" if a >= 0 else f"`{allnames[i]}` + {abs(a):.8f} = 0" for i, a in zip(idx, rr))
    got = m.wald_test(df, y, formula=f, robust=c["robust"])
    if abs(float(np.ravel(got.test_statistic)[0]) - want[0]) > 1e-4 * (1 + want[0]):
        fail(f"formula {f}: {got}, expected {want}")
    ctx.label(c["form"], f"terms:{len(pick)}")
    ctx.mark(True)
