"""C22: categorical features mean one indicator per level."""
import numpy as np
import pandas as pd
import polars as pl
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log")]
NAMES = {
    "plain": ["b", "a", "e", "c", "d", "g", "f", "h"],
    "numbers": ["10", "9", "1", "2", "-1", "0.5", "100", "7"],
    "odd": ["a b", "A", "a", "", "ä", "[x]", "nan", "None"],
    "long": ["lvl_" + c * 3 for c in "zyxwvuts"],
}
BACK = ["pandas", "pandas", "pandas-ordered", "pl-enum", "pl-cat"]
# how the same rows may be written down at prediction time
FORMS = BACK + ["pandas-str", "pl-str", "pandas-fresh", "pandas-extra", "pl-enum-extra"]
CONTAIN = [2, 3, 4, 5, 6, 1]


@st.composite
def cases(draw, missing=("fail", "zero", "convert"), ncat=(1, 2, 3)):
    fam, link = draw(st.sampled_from(FAMS))
    k = draw(st.sampled_from(list(ncat)))
    return dict(
        fam=fam, link=link, seed=draw(G.SEEDS), n=draw(st.integers(12, 50)),
        cats=[dict(levels=draw(st.integers(1, 7)), names=draw(st.sampled_from(list(NAMES))), unused=draw(st.integers(0, 2)), miss=draw(st.booleans())) for _ in range(k)],
        nums=draw(st.integers(0, 2)), order=draw(st.booleans()), back=draw(st.sampled_from(BACK)), method=draw(st.sampled_from(list(missing))),
        drop=draw(st.booleans()), fi=draw(st.sampled_from([True, True, False])), alpha=draw(st.sampled_from([0.01, 0.1, 0.5])), l1=draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
        w=draw(st.booleans()), cv=draw(st.sampled_from([False, False, False, True])), scale=draw(st.booleans()), mname=draw(st.sampled_from(["(MISSING)", "zzz missing"])),
        form=draw(st.sampled_from(FORMS)), pmiss=draw(st.booleans()), fmt=draw(st.sampled_from(["{name}[{category}]", "{name}[{category}]", "{name}__{category}"])),
    )


class Data:
    """Level names (None = missing) of every categorical column and the numeric columns."""

    def __init__(self, c, rng, n, miss, ref=None):
        self.c = c
        self.cols = []  # (name, kind, values, declared levels)
        for i, k in enumerate(c["cats"]):
            names = NAMES[k["names"]]
            if ref is None:
                decl = list(rng.permutation(names[: min(k["levels"] + k["unused"], 8)]))
                used = list(rng.permutation(decl)[: k["levels"]])
                v = np.array(used * (n // len(used) + 1), dtype=object)[:n]
                v = rng.permutation(np.r_[v[: len(used)], rng.choice(np.array(used, dtype=object), n - len(used))]) if n >= len(used) else v
            else:
                decl = ref[i]
                v = rng.choice(np.array(decl[: max(1, int(rng.integers(1, len(decl) + 1)))], dtype=object), n)
            if miss and k["miss"]:
                v = np.where(rng.uniform(size=n) < 0.2, None, v)
                if ref is None:
                    v[int(rng.integers(n))] = None
            self.cols.append((f"k{i}", "cat", v, decl))
        for j in range(c["nums"]):
            self.cols.append((f"x{j}", "num", rng.normal(size=n), None))
        if c["order"]:
            q = np.random.default_rng(c["seed"] + 77).permutation(len(self.cols))
            self.cols = [self.cols[i] for i in q]
        self.n = n

    def frame(self, form, rng=None):
        d = {}
        ext = ["zz_extra"]
        for name, kind, v, decl in self.cols:
            if kind == "num":
                d[name] = v
                continue
            lst = [None if a is None else str(a) for a in v]
            decl = [str(a) for a in decl]
            if form in ("pandas", "pandas-ordered"):
                d[name] = pd.Categorical(lst, categories=decl, ordered=form == "pandas-ordered")
            elif form == "pandas-extra":
                d[name] = pd.Categorical(lst, categories=list(rng.permutation(decl + ext)))
            elif form == "pandas-fresh":
                d[name] = pd.Categorical(lst)
            elif form == "pandas-str":
                d[name] = pd.Series(lst, dtype=object)
            elif form == "pl-str":
                d[name] = pl.Series(lst, dtype=pl.String)
            elif form == "pl-cat":
                d[name] = pl.Series(lst, dtype=pl.Categorical)
            elif form == "pl-enum":
                d[name] = pl.Series(lst, dtype=pl.Enum(decl))
            elif form == "pl-enum-extra":
                d[name] = pl.Series(lst, dtype=pl.Enum(list(rng.permutation(decl + ext))))
        return pl.DataFrame(d) if form.startswith("pl") else pd.DataFrame(d)

    def levels(self, back):
        """Levels in the order of the indicators."""
        out = []
        for name, kind, v, decl in self.cols:
            if kind == "cat":
                out.append((name, sorted({str(a) for a in v if a is not None}) if back == "pl-cat" else [str(a) for a in decl]))
        return dict(out)

    def missing(self):
        return {name: any(a is None for a in v) for name, kind, v, _ in self.cols if kind == "cat"}

    def design(self, levels, method, withmiss, drop, mname, fmt):
        X, names, terms = [], [], []
        for name, kind, v, _ in self.cols:
            if kind == "num":
                X.append(v[:, None].astype(float))
                names.append(name)
                terms.append(name)
                continue
            lv = list(levels[name])
            D = [np.array([a is not None and str(a) == b for a in v], float) for b in lv]
            if method == "convert" and withmiss[name]:
                lv.append(mname)
                D.append(np.array([a is None for a in v], float))
            D, lv = (D[1:], lv[1:]) if drop else (D, lv)
            if D:
                X.append(np.column_stack(D))
            names += [fmt.format(name=name, category=b) for b in lv]
            terms += [name] * len(lv)
        return (np.hstack(X) if X else np.zeros((self.n, 0))), names, terms


def estimator(c, **kw):
    import glum

    par = dict(family=O.make_family(c["fam"]), link=c["link"], l1_ratio=c["l1"], fit_intercept=c["fi"], scale_predictors=c["scale"] and c["fi"],
               gradient_tol=1e-8, max_iter=300, drop_first=c["drop"], **kw)
    if c["cv"]:
        return glum.GeneralizedLinearRegressorCV(alphas=[1.0, c["alpha"]], cv=3, **par)
    return glum.GeneralizedLinearRegressor(alpha=c["alpha"], **par)


def response(c, rng, X):
    eta = np.clip(X @ (0.4 * rng.normal(size=X.shape[1])), -2, 2)
    n = len(X)
    if c["fam"] == "normal":
        return eta + rng.normal(size=n)
    y = O.random_y(rng, c["fam"], O.L.inv(c["link"], eta))
    if c["fam"] == "binomial":
        y[:6] = [0, 1, 0, 1, 0, 1]
    elif c["fam"] != "gamma":
        y[:3] = [2, 1, 3]
    return y


def prepare(c, miss):
    rng = np.random.default_rng(c["seed"])
    d = Data(c, rng, c["n"], miss)
    lv, wm = d.levels(c["back"]), d.missing()
    X, names, terms = d.design(lv, c["method"], wm, c["drop"], c["mname"], c["fmt"])
    y = response(c, rng, X)
    w = rng.uniform(0.3, 2, size=c["n"]) if c["w"] else None
    return rng, d, lv, wm, X, names, terms, y, w


def attempt(est, *a, **kw):
    try:
        return G.quiet_fit(est, *a, **kw)
    except np.linalg.LinAlgError:
        return None, False


@check("C22", cases(), quick=1500, rule="frames (pandas, ordered pandas, polars Enum and Categorical) with up to 3 categorical columns of 1 to 7 levels in any order, unused and missing levels, 3 missing methods, drop_first, against the explicit indicator design: names, terms, coefficients, and predictions on new rows in 10 forms with other level orders and subsets; non-trivial = a categorical coefficient is non-zero and new rows predicted")
def indicators(c, ctx):
    miss = c["method"] != "fail" and any(k["miss"] for k in c["cats"])
    rng, d, lv, wm, X, names, terms, y, w = prepare(c, miss)
    if X.shape[1] == 0:
        return
    what = f"{c['back']} {c['method']} drop_first={c['drop']} {c['fam']}"
    kw = dict(cat_missing_method=c["method"], cat_missing_name=c["mname"], categorical_format=c["fmt"])
    m, c1 = attempt(estimator(c, **kw), d.frame(c["back"]), y, sample_weight=w)
    e, c2 = attempt(estimator({**c, "drop": False}), X, y, sample_weight=w)
    if m is None or e is None:
        if (m is None) != (e is None):
            fail(f"{what}: only one of the frame and the indicators gives a singular problem")
        return
    if list(m.feature_names_) != names:
        fail(f"{what}: feature_names_ {list(m.feature_names_)}, expected {names}")
    if list(m.term_names_) != terms:
        fail(f"{what}: term_names_ {list(m.term_names_)}, expected {terms}")
    if m.n_features_in_ != X.shape[1] or m.coef_.shape != (X.shape[1],):
        fail(f"{what}: {m.coef_.shape} coefficients, {m.n_features_in_} features for {names}")
    if not (c1 and c2):
        return
    tol = 2e-5 if c["l1"] == 1.0 or c["drop"] is False else 1e-5
    mu1, mu2 = m.predict(d.frame(c["back"])), e.predict(X)
    O.assert_close(mu1, mu2, rtol=tol, atol=tol, what=f"{what}: fitted means of the frame and of the indicators")
    if c["l1"] < 1:
        O.assert_close(m.coef_, e.coef_, rtol=0, atol=tol * (1 + np.abs(e.coef_).max()) / c["alpha"], what=f"{what}: coefficients of {names}")
    # the frame's own coefficients on new rows
    d2 = Data(c, rng, int(rng.integers(1, 9)), c["pmiss"], ref=[[a for a in dict(zip(lv, lv.values()))[f"k{i}"]] for i in range(len(c["cats"]))])
    wm2 = d2.missing()
    bad = [k for k in wm2 if wm2[k] and (c["method"] == "fail" or c["method"] == "convert" and not wm[k])]
    form = c["form"]
    if form in ("pl-enum", "pandas", "pandas-ordered"):
        # declared in another order
        d2.cols = [(a, k, v, None if k == "num" else list(rng.permutation(lv[a]))) for a, k, v, _ in d2.cols]
    f = d2.frame(form, rng)
    ctx.label(f"fit:{c['back']}", f"predict:{form}", f"method:{c['method']}", f"missing-at-predict:{any(wm2.values())}", f"bad:{bool(bad)}", f"drop:{c['drop']}")
    if bad:
        try:
            m.predict(f)
        except Exception as ex:
            if not isinstance(ex, (ValueError, TypeError)) and "polars" not in type(ex).__module__:
                raise
        else:
            fail(f"{what}: predict accepts missing values in {bad} ({form})")
        return
    X2, _, _ = d2.design(lv, c["method"], wm, c["drop"], c["mname"], c["fmt"])
    O.assert_close(m.linear_predictor(f), X2 @ m.coef_ + float(m.intercept_), rtol=1e-10, atol=1e-11, what=f"{what}: linear_predictor of new rows as {form}")
    O.assert_close(m.predict(f), O.L.inv(c["link"], X2 @ m.coef_ + float(m.intercept_)), rtol=1e-9, atol=1e-11, what=f"{what}: predict of new rows as {form}")
    if c["fam"] == "normal":
        y2 = rng.normal(size=len(X2))
        mu = X2 @ m.coef_ + float(m.intercept_)
        if y2.std() > 0.1:
            O.assert_close(m.score(f, y2), 1 - ((y2 - mu) ** 2).sum() / ((y2 - y2.mean()) ** 2).sum(), rtol=1e-8, atol=1e-8, what=f"{what}: score of new rows as {form}")
    ctx.mark(bool(np.any(m.coef_ != 0)))


@check("C22", cases(), quick=600, rule="missing values at fit under 'fail', levels unseen at fit and the name of the missing level used as a level raise errors; the same frames without the defect are accepted and predicted as before; non-trivial = an error was provoked")
def unseen(c, ctx):
    rng, d, lv, wm, X, names, terms, y, w = prepare(c, c["method"] != "fail" and any(k["miss"] for k in c["cats"]))
    if X.shape[1] == 0:
        return
    what = f"{c['back']} {c['method']} drop_first={c['drop']}"
    kw = dict(cat_missing_method=c["method"], cat_missing_name=c["mname"], categorical_format=c["fmt"])
    m, ok = attempt(estimator({**c, "cv": False}, **kw), d.frame(c["back"]), y, sample_weight=w)
    if m is None:
        return
    before = m.predict(d.frame(c["back"]))
    cats = [i for i, col in enumerate(d.cols) if col[1] == "cat"]
    j = cats[int(rng.integers(len(cats)))]
    name, kind, v, decl = d.cols[j]

    def raises(f, why):
        try:
            m.predict(f)
        except Exception as ex:
            if not isinstance(ex, (ValueError, TypeError)) and "polars" not in type(ex).__module__:
                raise
            return
        fail(f"{what}: predict accepts {why}")

    # a level that was not there
    d2 = Data.__new__(Data)
    d2.n, d2.cols = d.n, list(d.cols)
    v2 = v.copy()
    v2[int(rng.integers(d.n))] = "never seen"
    d2.cols[j] = (name, kind, v2, decl + ["never seen"])
    form = c["form"]
    if form in ("pandas-extra", "pl-enum-extra"):
        form = form[:-6]
    raises(d2.frame(form, rng), f"an unseen level of {name} ({form})")
    # a level that was declared but is new to the sorted observed levels
    if c["method"] == "fail":
        v3 = v.copy()
        v3[int(rng.integers(d.n))] = None
        d2.cols[j] = (name, kind, v3, decl)
        raises(d2.frame(form, rng), f"a missing value of {name} ({form})")
        try:
            estimator({**c, "cv": False}, **kw).fit(d2.frame(c["back"]), y)
        except ValueError:
            pass
        else:
            fail(f"{what}: fit accepts a missing value of {name}")
    elif c["method"] == "convert":
        v3 = v.copy()
        v3[0], v3[1] = None, c["mname"]
        d2.cols[j] = (name, kind, v3, decl + [c["mname"]])
        try:
            estimator({**c, "cv": False}, **kw).fit(d2.frame(c["back"]), y)
        except ValueError:
            pass
        else:
            fail(f"{what}: fit accepts the level {c['mname']!r} besides missing values")
    O.assert_close(m.predict(d.frame(c["back"])), before, rtol=1e-12, atol=1e-12, what=f"{what}: predictions after the errors")
    ctx.label(f"form:{form}", f"method:{c['method']}")
    ctx.mark(True)


@check("C22", cases(), quick=500, rule="the same model whatever the order of the levels, the backend, the order of rows, or unused levels (ridge problems without drop_first); non-trivial = coefficients matched level by level")
def level_order(c, ctx):
    c = {**c, "drop": False, "cv": False, "fmt": "{name}[{category}]"}
    rng, d, lv, wm, X, names, terms, y, w = prepare(c, c["method"] != "fail" and any(k["miss"] for k in c["cats"]))
    kw = dict(cat_missing_method=c["method"], cat_missing_name=c["mname"])
    m, c1 = attempt(estimator(c, **kw), d.frame(c["back"]), y, sample_weight=w)
    if not c1:
        return
    q = rng.permutation(d.n)
    other = BACK[int(rng.integers(len(BACK)))]
    d2 = Data.__new__(Data)
    d2.n = d.n
    d2.cols = [(a, k, v[q], None if k == "num" else list(rng.permutation([b for b in decl if b in set(v) or rng.uniform() < 0.5]))) for a, k, v, decl in d.cols]
    m2, c2 = attempt(estimator(c, **kw), d2.frame(other), y[q], sample_weight=None if w is None else w[q])
    if not c2:
        return
    what = f"{c['back']} against {other} with reordered rows and levels, {c['method']}"
    O.assert_close(m2.predict(d2.frame(other)), m.predict(d.frame(c["back"]))[q], rtol=3e-5, atol=3e-5, what=what + ": fitted means")
    O.assert_close(m2.predict(d.frame(c["back"])), m.predict(d2.frame(other))[np.argsort(q)], rtol=3e-5, atol=3e-5, what=what + ": predictions on each other's frame")
    if c["l1"] < 1:
        a, b = dict(zip(m.feature_names_, m.coef_)), dict(zip(m2.feature_names_, m2.coef_))
        for k in set(a) | set(b):
            if abs(a.get(k, 0.0) - b.get(k, 0.0)) > 3e-5 * (1 + np.abs(m.coef_).max()) / c["alpha"]:
                fail(f"{what}: coefficient of {k}: {a.get(k)} and {b.get(k)}")
    ctx.label(f"{c['back']}->{other}")
    ctx.mark(bool(np.any(m.coef_ != 0)))
