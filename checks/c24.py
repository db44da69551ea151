"""C24: fitting a formula fits the design matrix the formula denotes."""
import itertools

import numpy as np
import pandas as pd
import polars as pl
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log")]


def dbl(v):
    return 2 * v + 1


SHIFT = 1.75
CTX = {"dbl": dbl, "shift0": SHIFT}


def spline(v, lo, hi, mid):
    """Cubic B-splines on [lo, hi] with one inner knot, without the first."""
    from scipy.interpolate import BSpline

    t = np.r_[[lo] * 4, mid, [hi] * 4]
    out = np.empty((len(v), 5))
    for i in range(5):
        out[:, i] = BSpline(t, np.eye(5)[i], 3, extrapolate=False)(v)
    last = v == hi
    out[last] = [0, 0, 0, 0, 1]
    return out[:, 1:]


# text, name, columns of the training/new data from (training column, column)
NUM = {
    "x": ("x", "x", lambda t, v: v),
    "z": ("z", "z", lambda t, v: v),
    "sp": ("sp", "sp", lambda t, v: v),
    "`a b`": ("a b", "a b", lambda t, v: v),
    "np.log(u)": ("u", "np.log(u)", lambda t, v: np.log(v)),
    "log(u)": ("u", "log(u)", lambda t, v: np.log(v)),
    "{x + 1}": ("x", "x + 1", lambda t, v: v + 1),
    "{z**2}": ("z", "z ** 2", lambda t, v: v**2),
    "I(x**2)": ("x", "I(x ** 2)", lambda t, v: v**2),
    "center(z)": ("z", "center(z)", lambda t, v: v - t.mean()),
    "scale(u)": ("u", "scale(u)", lambda t, v: (v - t.mean()) / t.std(ddof=1)),
    "bs(x, df=4)": ("x", "bs(x, df=4)", lambda t, v: spline(v, t.min(), t.max(), np.quantile(t, 0.5))),
    "dbl(x)": ("x", "dbl(x)", lambda t, v: dbl(v)),
    "{z * shift0}": ("z", "z * shift0", lambda t, v: v * SHIFT),
}
CAT = {"k": "k", "s": "s", "C(j)": "j", "C(s)": "s", "g": "g", "C(k)": "k", "C(j, levels=[2, 0, 1, 3])": "j"}
ATOMS = ["x", "z", "k", "s", "g", "C(j)", "x", "k"] + list(NUM) + list(CAT)


@st.composite
def trees(draw, depth=3):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return draw(st.sampled_from(ATOMS))
    op = draw(st.sampled_from(["+", "+", "+", ":", "*", "*", "/", "**", "-"]))
    a = draw(trees(depth=depth - 1))
    if op == "**":
        return [op, a, draw(st.sampled_from([2, 2, 3]))]
    return [op, a, draw(trees(depth=depth - 1))]


def text(t):
    if isinstance(t, str):
        return t
    op, a, b = t
    if op == "**":
        return f"({text(a)})**{b}"
    return f"({text(a)}) {op} ({text(b)})"


class Degenerate(Exception):
    """Formulas that have no meaning, such as (x - x) / z."""


def terms(t):
    """Set of terms (frozensets of atoms) of an expression."""
    if isinstance(t, str):
        return {frozenset([t])}
    op, a, b = t
    A = terms(a)
    if op == "**":
        out = set(A)
        for _ in range(b - 1):
            out |= {u | v for u in out for v in A}
        return out
    B = terms(b)
    if op == "+":
        return A | B
    if op == "-":
        return A - B
    prod = {u | v for u in A for v in B}
    if op == ":":
        return prod
    if op == "*":
        return A | B | prod
    if op == "/":
        if not A:
            raise Degenerate
        whole = frozenset().union(*A)
        return A | {whole | v for v in B}
    raise KeyError(op)


@st.composite
def cases(draw):
    tree = draw(trees(depth=draw(st.sampled_from([1, 2, 2, 3]))))
    extra = draw(st.lists(st.sampled_from(ATOMS), max_size=2))
    for a in extra:
        tree = ["+", tree, a]
    fam, link = draw(st.sampled_from(FAMS))
    return dict(
        tree=tree, fam=fam, link=link, seed=draw(G.SEEDS), n=draw(st.integers(20, 60)), fi=draw(st.booleans()), mark=draw(st.booleans()), drop=draw(st.booleans()),
        back=draw(st.sampled_from(["pandas", "pandas", "polars"])), lhs=draw(st.sampled_from([None, None, None, "y", "{y * 2}", "np.sqrt(y)", "dbl(y)"])), ctx=draw(st.sampled_from(["map", "frame"])),
        miss=draw(st.sampled_from(["none", "none", "convert", "zero"])), sep=draw(st.sampled_from([":", ":", " % "])), fmt=draw(st.sampled_from(["{name}[{category}]", "{name}[{category}]", "{name}__{category}"])),
        w=draw(st.booleans()), form=draw(st.sampled_from(["same", "cat", "str", "subset", "other"])), cv=draw(st.sampled_from([False, False, False, True])), scale=draw(st.booleans()),
        spec=draw(st.booleans()),
    )


def usable(c):
    """Terms of the formula, or None if two atoms clash or the design is too wide."""
    try:
        T = terms(c["tree"])
    except Degenerate:
        return None
    if not T or len(T) > 9 or max(len(t) for t in T) > 4:
        return None
    # an atom per column, so that structural full rank is what the names say
    used = set().union(*T)
    cols = [CAT[a] for a in used if a in CAT]
    if len(cols) != len(set(cols)):
        return None
    return T


class Frame:
    """Columns (categorical ones as lists of strings, numbers or None)."""

    LEVELS = {"k": ["c", "a", "b"], "s": ["p", "q"], "g": ["lo", "mid", "hi"], "j": [0, 1, 2, 3]}

    def __init__(self, rng, n, miss, full=True):
        self.n = n
        self.d = dict(x=rng.uniform(0, 1, size=n), z=rng.normal(size=n), u=rng.gamma(2.0, size=n) + 0.1, sp=np.where(rng.uniform(size=n) < 0.08, rng.normal(size=n), 0.0))
        self.d["a b"] = rng.normal(size=n)
        self.d["sp"][0] = 1.0
        for k, lv in self.LEVELS.items():
            v = list(rng.choice(np.array(lv, dtype=object), size=n))
            if full:
                v[: len(lv)] = lv
            if miss and k in ("k", "g"):
                v[-1] = None
                v = [None if rng.uniform() < 0.15 and i > 4 else a for i, a in enumerate(v)]
            self.d[k] = v

    def native(self, back, form, rng, y=None):
        out = {}
        for k, v in self.d.items():
            if k in ("k", "g"):
                lv = list(self.LEVELS[k])
                if form == "other":
                    lv = list(rng.permutation(lv))
                if form == "subset":
                    lv = sorted({a for a in v if a is not None})
                if form == "str":
                    out[k] = pd.Series(v, dtype=object) if back == "pandas" else pl.Series(v, dtype=pl.String)
                else:
                    out[k] = pd.Categorical(v, categories=lv) if back == "pandas" else pl.Series(v, dtype=pl.Enum(lv))
            elif k == "s":
                out[k] = v
            else:
                out[k] = np.array(v)
        if y is not None:
            out["y"] = y
        return pd.DataFrame(out) if back == "pandas" else pl.DataFrame(out)


def levels(atom, c, fr):
    col = CAT[atom]
    lv = Frame.LEVELS[col]
    if atom.startswith("C(j, levels"):
        lv = [2, 0, 1, 3]
    elif col == "s":
        lv = sorted(lv)
    out = [str(a) for a in lv]
    if c["miss"] == "convert" and any(a is None for a in fr.d[col]):
        out.append(absent(atom))
    return out


def absent(atom):
    """Name of the level of missing values (C() has an own default)."""
    return "(MISSING)" if atom.startswith("C(") else "none given"


def columns(atom, c, train, fr):
    """{column name: values} of an atom (categorical ones with all levels)."""
    if atom in NUM:
        col, name, f = NUM[atom]
        v = f(train.d[col], fr.d[col])
        return {name: v} if v.ndim == 1 else {f"{name}[{i + 1}]": v[:, i] for i in range(v.shape[1])}
    out = {}
    for lv in levels(atom, c, train):
        v = [(absent(atom) if c["miss"] == "convert" else "\0") if a is None else str(a) for a in fr.d[CAT[atom]]]
        out[c["fmt"].format(name=atom, category=lv)] = np.array([a == lv for a in v], float)
    return out


def full_columns(T, c, train, fr):
    """{(atom, column) set: (term, values)} of all columns of the terms without dropping."""
    out = {}
    for t in T:
        parts = [list(columns(a, c, train, fr).items()) for a in sorted(t)]
        for combo in itertools.product(*parts):
            key = frozenset(n for n, _ in combo)
            v = np.ones(fr.n)
            for _, b in combo:
                v = v * b
            out[key] = (t, v)
    return out


def structural(T, T_all, c, train, rng):
    """The columns on data without any relations the formula does not impose."""
    used = sorted(set().union(*T))
    cats = [a for a in used if a in CAT]
    lv = [levels(a, c, train) for a in cats]
    missing = [c["miss"] == "zero" and any(b is None for b in train.d[CAT[a]]) for a in cats]
    if any(missing):
        return None
    cells = list(itertools.product(*lv)) or [()]
    reps = 60 if len(cells) < 20 else 14
    rows = cells * reps
    n = len(rows)
    col = {}
    for a in used:
        if a in NUM:
            col[a] = {k: rng.normal(size=n) for k in columns(a, c, train, train)}
        else:
            i = cats.index(a)
            col[a] = {c["fmt"].format(name=a, category=b): np.array([r[i] == b for r in rows], float) for b in lv[i]}
    need, out = set(), {}
    for t in T_all:
        for combo in itertools.product(*[list(col[a].items()) for a in sorted(t)]):
            v = np.ones(n)
            for _, b in combo:
                v = v * b
            key = frozenset(k for k, _ in combo)
            out[key] = v
            if t in T:
                need.add(key)
    return n, out, need


def estimator(c, T, formula, **kw):
    import glum

    par = dict(family=O.make_family(c["fam"]), link=c["link"], formula=formula, fit_intercept=c["fi"], drop_first=c["drop"], scale_predictors=c["scale"] and c["fi"], gradient_tol=1e-8,
               max_iter=300, cat_missing_method="fail" if c["miss"] == "none" else c["miss"], cat_missing_name="none given", interaction_separator=c["sep"], categorical_format=c["fmt"])
    par.update(kw)
    if c["cv"]:
        return glum.GeneralizedLinearRegressorCV(alphas=[1.0, 0.1], cv=3, **par)
    return glum.GeneralizedLinearRegressor(alpha=0.1, **par)


def context(c, depth=0):
    return dict(CTX) if c["ctx"] == "map" else depth


def response(rng, c, lin):
    eta = np.clip(lin, -1.5, 1.5)
    if c["fam"] == "normal":
        return np.abs(eta + 4 + rng.normal(size=len(eta)))
    y = O.random_y(rng, c["fam"], O.L.inv(c["link"], eta))
    y[:3] = [2.0, 1.0, 3.0]
    return y


LHS = {None: lambda y: y, "y": lambda y: y, "{y * 2}": lambda y: 2 * y, "np.sqrt(y)": np.sqrt, "dbl(y)": dbl}


@check("C24", cases(), quick=2200, rule="random formulas (nested +, :, *, /, **, -; 14 numeric atoms with transformations, splines and context variables; 7 categorical atoms; drop_first; missing levels; two-sided; pandas and polars; strings and Formula objects; CV) against an independent evaluator of the formula: feature and term names, structural full rank and span, coefficients against the explicit design, predictions on new rows; non-trivial = at least two terms or a categorical or transformed column")
def denotes(c, ctx):
    dbl, shift0 = CTX["dbl"], CTX["shift0"]  # noqa: F841 (found by context=0)
    T = usable(c)
    if T is None:
        return
    rng = np.random.default_rng(c["seed"])
    miss = c["miss"] != "none"
    if any(len(t) > 1 and not any(a in CAT for a in t) for t in T):
        # tabmat cannot apply interactions of numeric columns with another separator to new data
        c = {**c, "sep": ":"}
    tr = Frame(rng, c["n"], miss)
    full = full_columns(T, c, tr, tr)
    if len(full) > 70:
        return
    rhs = text(c["tree"]) + ((" + 1" if c["fi"] else " - 1") if c["mark"] else "")
    if not c["fi"] and c["mark"] and c["seed"] % 2:
        rhs = "0 + " + text(c["tree"])
    formula = rhs if c["lhs"] is None else f"{c['lhs']} ~ {rhs}"
    lin = sum(rng.normal() * 0.4 * v for _, v in list(full.values())[:6])
    raw = response(rng, c, lin)
    if c["fam"] == "poisson" and c["lhs"] == "np.sqrt(y)":
        raw = raw.astype(float)
    y = LHS[c["lhs"]](raw)
    w = rng.uniform(0.3, 2, size=c["n"]) if c["w"] else None
    what = f"formula {formula!r} ({c['back']}, drop_first={c['drop']}, fit_intercept={c['fi']}, {c['miss']})"
    frame = tr.native(c["back"], "same", rng, raw if c["lhs"] else None)
    arg = formula
    if c["spec"] and c["lhs"] is None:
        # the same formula as an object
        import formulaic

        arg = formulaic.Formula(formulaic.parser.DefaultFormulaParser(include_intercept=c["fi"]).get_terms(formula))
    m, c1 = G.quiet_fit(estimator(c, T, arg), frame, None if c["lhs"] else y, sample_weight=w, context=context(c, 1))

    # names
    names = [frozenset(a.split(c["sep"])) for a in m.feature_names_]
    if len(set(names)) != len(names):
        fail(f"{what}: duplicate columns in {m.feature_names_}")
    unknown = [m.feature_names_[i] for i, a in enumerate(names) if a not in full]
    if unknown and c["drop"]:
        # a contrast coded interaction may be split into margins of its factors
        margins = {t - set(q) for t in T for r in range(len(t)) for q in itertools.combinations(t & set(CAT), r + 1)} - T - {frozenset()}
        ext = full_columns(margins, c, tr, tr)
        unknown = [m.feature_names_[i] for i, a in enumerate(names) if a not in full and a not in ext]
        full = {**ext, **full}
        T_all = T | margins
    else:
        T_all = T
    if unknown:
        fail(f"{what}: columns {unknown} do not belong to the formula")
    if not c["drop"] and set(names) != set(full):
        fail(f"{what}: columns {[set(a) for a in set(full) - set(names)]} are absent")
    if len(m.term_names_) != len(names):
        fail(f"{what}: {len(m.term_names_)} term names for {len(names)} columns")
    shown = {a: NUM[a][1] if a in NUM else a for t in T for a in t}
    for i, a in enumerate(names):
        want = {shown[b] for b in full[a][0]}
        got = set(m.term_names_[i].split(":"))
        if got != want if full[a][0] in T else not (want < got and any(got == {shown[b] for b in t} for t in T)):
            fail(f"{what}: column {m.feature_names_[i]} belongs to term {m.term_names_[i]!r}, expected {want}")
    if c["drop"]:
        s = structural(T, T_all, c, tr, rng)
        if s is not None and len(s[1]) <= s[0] // 2:
            n, cols, need = s
            A = np.column_stack([np.ones(n)] * c["fi"] + [cols[a] for a in names]) if names or c["fi"] else np.zeros((n, 0))
            B = np.column_stack([np.ones(n)] * c["fi"] + [cols[a] for a in sorted(need, key=sorted)])
            ra, rb, rab = (np.linalg.matrix_rank(M, tol=1e-7 * n) for M in (A, B, np.hstack([A, B])))
            if ra != A.shape[1]:
                fail(f"{what}: drop_first leaves a rank deficient design ({ra} of {A.shape[1]} columns): {m.feature_names_}")
            if not ra == rb == rab:
                fail(f"{what}: the columns {m.feature_names_} do not span the formula (rank {ra}, {rb} needed)")
    if m.coef_.shape != (len(names),) or m.n_features_in_ != len(names):
        fail(f"{what}: {m.coef_.shape} coefficients for {len(names)} columns")
    D = np.column_stack([full[a][1] for a in names]) if names else np.zeros((c["n"], 0))
    if D.shape[1] == 0:
        return
    e, c2 = G.quiet_fit(estimator({**c, "drop": False}, T, None, categorical_format="{name}[{category}]"), D, y, sample_weight=w)
    if not (c1 and c2):
        return
    O.assert_close(m.linear_predictor(frame, context=context(c)), e.linear_predictor(D), rtol=2e-5, atol=2e-5, what=f"{what}: linear predictor of the formula and of its design")
    sc = 1 + np.abs(e.coef_).max()
    O.assert_close(m.coef_, e.coef_, rtol=0, atol=2e-4 * sc, what=f"{what}: coefficients of {m.feature_names_}")

    # new rows
    te = Frame(rng, int(rng.integers(1, 8)), miss and rng.uniform() < 0.5 and all(any(b is None for b in tr.d[k]) for k in ("k", "g")), full=False)
    for k in ("x",):
        te.d[k] = np.clip(te.d[k], tr.d[k].min(), tr.d[k].max())
    new = full_columns(T_all, c, tr, te)
    D2 = np.column_stack([new[a][1] for a in names])
    back = c["back"]
    f2 = te.native(back, c["form"], rng)
    eta = D2 @ m.coef_ + float(m.intercept_)
    O.assert_close(m.linear_predictor(f2, context=context(c)), eta, rtol=1e-9, atol=1e-9 * sc, what=f"{what}: linear predictor of new rows ({c['form']})")
    O.assert_close(m.predict(f2, context=context(c)), O.L.inv(c["link"], eta), rtol=1e-8, atol=1e-9 * sc, what=f"{what}: predictions of new rows ({c['form']})")
    # every other entry point sees the same design
    s1, s2 = m.score(frame, y, sample_weight=w, context=context(c)), e.score(D, y, sample_weight=w)
    O.assert_close(s1, s2, rtol=1e-4, atol=1e-4, what=f"{what}: score")
    ctx.label(f"back:{c['back']}", f"lhs:{c['lhs']}", f"drop:{c['drop']}", f"miss:{c['miss']}", f"form:{c['form']}", f"terms:{min(len(T), 5)}", f"ctx:{c['ctx']}", f"spec:{c['spec']}", *{f"atom:{a}" for t in T for a in t})
    ctx.mark(len(T) > 1 or any(a in CAT or a != NUM[a][0] for t in T for a in t))


SIMPLE = [("dbl(x) + k", ["x", "k"]), ("x * k", ["x", "k"]), ("{z * shift0} + g", ["z", "g"]), ("np.log(u) + dbl(z):s", ["u", "z", "s"])]


@check("C24", st.fixed_dictionaries(dict(
    i=st.integers(0, len(SIMPLE) - 1), seed=G.SEEDS, ctx=st.sampled_from(["map", "frame"]), lhs=st.sampled_from([None, "y", "dbl(y)"]), robust=st.booleans(), cl=st.booleans(), off=st.booleans(),
    w=st.booleans(), back=st.sampled_from(["pandas", "polars"]), store=st.booleans(), cv=st.sampled_from([False, False, True]))),
       quick=350, rule="unpenalised formula fits with variables from the context (mapping or caller's scope, one- and two-sided): predict, linear_predictor, score, covariance_matrix, std_errors, coef_table, wald_test by feature and term, aic/aicc/bic equal those of the explicit design; non-trivial = all compared")
def methods(c, ctx):
    import glum

    dbl, shift0 = CTX["dbl"], CTX["shift0"]  # noqa: F841
    rng = np.random.default_rng(c["seed"])
    n = 80
    tr = Frame(rng, n, False)
    rhs, _ = SIMPLE[c["i"]]
    raw = rng.poisson(3.0, size=n) + 1.0
    y = LHS[c["lhs"]](raw)
    w = rng.uniform(0.5, 2, size=n) if c["w"] else None
    off = rng.uniform(-0.3, 0.3, size=n) if c["off"] else None
    cl = rng.integers(0, 12, size=n) if c["cl"] else None
    formula = rhs if c["lhs"] is None else f"{c['lhs']} ~ {rhs}"
    what = f"formula {formula!r} with context {c['ctx']}, {c['back']}"
    par = dict(family="poisson", drop_first=True, gradient_tol=1e-9, max_iter=100)
    cls = glum.GeneralizedLinearRegressor
    if c["cv"]:
        cls, par = glum.GeneralizedLinearRegressorCV, {**par, "alphas": [0.0], "cv": 3}
    else:
        par["alpha"] = 0.0
    frame = tr.native(c["back"], "same", rng, raw if c["lhs"] else None)
    yarg = None if c["lhs"] else y
    k = dict(store_covariance_matrix=True, clusters=cl) if c["store"] else {}
    par["robust"] = c["robust"]
    m, c1 = G.quiet_fit(cls(formula=formula, **par), frame, yarg, sample_weight=w, offset=off, context=context(c, 1), **k)
    cs = dict(fmt="{name}[{category}]", miss="none")
    T = terms_of(rhs)
    full = full_columns(T, cs, tr, tr)
    D = np.column_stack([full[frozenset(a.split(":"))][1] for a in m.feature_names_])
    e, c2 = G.quiet_fit(cls(**{**par, "drop_first": False}), D, y, sample_weight=w, offset=off, **k)
    if not (c1 and c2):
        return
    t = dict(rtol=1e-5, atol=1e-6)
    x = dict(context=context(c))
    O.assert_close(m.predict(frame, offset=off, **x), e.predict(D, offset=off), **t, what=f"{what}: predict")
    O.assert_close(m.linear_predictor(frame, offset=off, **x), e.linear_predictor(D, offset=off), **t, what=f"{what}: linear_predictor")
    O.assert_close(m.score(frame, y, offset=off, sample_weight=w, **x), e.score(D, y, offset=off, sample_weight=w), **t, what=f"{what}: score")
    cov = dict(sample_weight=w, offset=off, robust=c["robust"], clusters=cl)
    if c["store"]:
        O.assert_close(m.covariance_matrix(), e.covariance_matrix(), rtol=1e-4, atol=1e-8, what=f"{what}: stored covariance")
    O.assert_close(m.covariance_matrix(frame, yarg, **cov, **x), e.covariance_matrix(D, y, **cov), rtol=1e-4, atol=1e-8, what=f"{what}: covariance")
    O.assert_close(m.std_errors(frame, yarg, **cov, **x), e.std_errors(D, y, **cov), rtol=1e-4, atol=1e-7, what=f"{what}: std_errors")
    a, b = m.coef_table(frame, yarg, **cov, **x), e.coef_table(D, y, **cov)
    if list(a.index) != ["intercept"] + list(m.feature_names_):
        fail(f"{what}: rows {list(a.index)} of coef_table")
    O.assert_close(a.to_numpy(float), b.to_numpy(float), rtol=1e-4, atol=1e-5, what=f"{what}: coef_table")
    f = m.feature_names_[-1]
    R = np.zeros((1, len(m.feature_names_) + 1))
    R[0, -1] = 1
    wa, wb = m.wald_test(frame, yarg, features=[f], **cov, **x), e.wald_test(D, y, R=R, r=np.zeros(1), **cov)
    O.assert_close(float(np.squeeze(wa.test_statistic)), float(np.squeeze(wb.test_statistic)), rtol=1e-3, atol=1e-5, what=f"{what}: Wald statistic of {f}")
    term = m.term_names_[-1]
    idx = [i for i, v in enumerate(m.term_names_) if v == term]
    R = np.zeros((len(idx), len(m.feature_names_) + 1))
    for r, i in enumerate(idx):
        R[r, i + 1] = 1
    wa, wb = m.wald_test(frame, yarg, terms=[term], **cov, **x), e.wald_test(D, y, R=R, r=np.zeros(len(idx)), **cov)
    O.assert_close(float(np.squeeze(wa.test_statistic)), float(np.squeeze(wb.test_statistic)), rtol=1e-3, atol=1e-5, what=f"{what}: Wald statistic of term {term}")
    if wa.df != len(idx):
        fail(f"{what}: {wa.df} degrees of freedom for term {term} with columns {idx}")
    if not c["cv"]:
        for k in ("aic", "aicc", "bic"):
            O.assert_close(getattr(m, k)(frame, y, sample_weight=w, **x), getattr(e, k)(D, y, sample_weight=w), rtol=1e-6, atol=1e-5, what=f"{what}: {k}")
    ctx.label(f"ctx:{c['ctx']}", f"lhs:{c['lhs']}", f"store:{c['store']}", f"cv:{c['cv']}")
    ctx.mark(True)


def terms_of(rhs):
    return {
        "dbl(x) + k": {frozenset(["dbl(x)"]), frozenset(["k"])}, "x * k": {frozenset(["x"]), frozenset(["k"]), frozenset(["x", "k"])},
        "{z * shift0} + g": {frozenset(["{z * shift0}"]), frozenset(["g"])}, "np.log(u) + dbl(z):s": {frozenset(["np.log(u)"]), frozenset(["dbl(z)", "s"])},
    }[rhs]


NUM["dbl(z)"] = ("z", "dbl(z)", lambda t, v: dbl(v))


@check("C24", cases(), quick=350, rule="contradictory intercepts, a response given twice or not at all, unknown variables, several responses and unseen levels raise an error; the repaired call succeeds; non-trivial = an error was provoked")
def errors(c, ctx):
    T = usable(c)
    if T is None or not T:
        return
    rng = np.random.default_rng(c["seed"])
    tr = Frame(rng, c["n"], False)
    c = {**c, "cv": False, "miss": "none", "lhs": None}
    if len(full_columns(T, c, tr, tr)) > 40:
        return
    y = np.abs(rng.normal(size=c["n"])) + 0.5
    rhs = text(c["tree"])
    frame = tr.native(c["back"], "same", rng)
    fy = tr.native(c["back"], "same", rng, y)
    kind = ["intercept", "twice", "absent", "unknown", "two", "none"][c["seed"] % 6]

    def go(formula, f, y):
        return estimator(c, T, formula).fit(f, y, context=CTX)

    bad, good = {
        "intercept": ((rhs + (" - 1" if c["fi"] else " + 1"), frame, y), (rhs + (" + 1" if c["fi"] else " - 1"), frame, y)),
        "twice": (("y ~ " + rhs, fy, y), ("y ~ " + rhs, fy, None)),
        "absent": ((rhs, fy, None), (rhs, fy, y)),
        "unknown": ((rhs + " + nonexistent", frame, y), (rhs, frame, y)),
        "two": (("y + x ~ " + rhs, fy, None), ("y ~ " + rhs, fy, None)),
        "none": (("y ~ " + rhs, frame, None), ("y ~ " + rhs, fy, None)),
    }[kind]
    try:
        go(*bad)
    except Exception as e:
        if isinstance(e, (AttributeError, AssertionError, IndexError)):
            raise
    else:
        fail(f"{kind}: formula {bad[0]!r} with y {'given' if bad[2] is not None else 'not given'} and fit_intercept={c['fi']} accepted")
    m = go(*good)
    cats = [a for t in T for a in t if a in CAT and CAT[a] in ("k", "g", "s")]
    if cats:
        te = Frame(rng, 4, False, full=False)
        te.d[CAT[cats[0]]][1] = "unheard of"
        f2 = te.native(c["back"], "str", rng)
        for k, v in (("x", "x"),):
            pass
        try:
            m.predict(f2, context=CTX)
        except Exception as e:
            if isinstance(e, (AttributeError, AssertionError, IndexError)):
                raise
        else:
            fail(f"formula {good[0]!r}: predict accepts an unseen level of {cats[0]}")
    ctx.label(kind)
    ctx.mark(True)
