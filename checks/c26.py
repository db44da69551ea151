"""C26: invalid input raises an error; the same call without the defect works."""
import numpy as np
import pandas as pd
import tabmat as tm
from hypothesis import strategies as st
from scipy import sparse

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("igauss", "log"), ("negbin:1.0", "log")]
RAISES = (ValueError, TypeError, NotImplementedError)


class Call:
    """A valid call: estimator parameters, data and fit arguments."""

    def __init__(self, c):
        self.c = c
        self.cv = c["cv"]
        self.rng = np.random.default_rng(c["seed"])
        rng = self.rng
        self.fam, self.link = c["fam"]
        self.n, self.p = c["n"], c["p"]
        self.A = rng.normal(size=(self.n, self.p))
        eta = 0.3 * self.A[:, 0]
        if self.fam == "normal":
            y = eta + rng.normal(size=self.n)
        else:
            y = O.random_y(rng, self.fam, O.L.inv(self.link, eta))
        if self.fam == "binomial":
            y[:6] = [0, 1, 0, 1, 0, 1]
        elif self.fam not in ("normal", "gamma", "igauss"):
            y[:3] = [2, 1, 3]
        self.y = y
        self.args = {}
        if c["w"]:
            self.args["sample_weight"] = rng.uniform(0.5, 2, size=self.n)
        if c["off"]:
            self.args["offset"] = rng.uniform(-0.2, 0.2, size=self.n)
        self.par = dict(family=O.make_family(self.fam), link=self.link, fit_intercept=c["fi"])
        if self.cv:
            self.par.update(alphas=[0.5, 0.1], cv=3)
        else:
            self.par.update(alpha=0.1)
        self.kind = c["kind"]
        self.formula = False

    def copy(self):
        d = Call(self.c)
        return d

    def X(self):
        A = self.A
        if self.kind == "csc" and A.ndim == 2:
            return sparse.csc_matrix(A)
        if self.kind == "csr" and A.ndim == 2:
            return sparse.csr_matrix(A)
        if self.kind == "frame" and A.ndim == 2:
            return pd.DataFrame(A, columns=[f"x{i}" for i in range(A.shape[1])])
        if self.kind == "tabmat" and A.ndim == 2:
            return tm.DenseMatrix(A)
        if self.kind == "list":
            return A.tolist()
        return A

    def make(self):
        import glum

        return (glum.GeneralizedLinearRegressorCV if self.cv else glum.GeneralizedLinearRegressor)(**self.par)

    def fit(self):
        return G.quiet_fit(self.make(), self.X(), self.y, **self.args)[0]


def par(**kw):
    def f(k):
        k.par.update({a: (v(k) if callable(v) else v) for a, v in kw.items()})

    return f


def arg(**kw):
    def f(k):
        k.args.update({a: (v(k) if callable(v) else v) for a, v in kw.items()})

    return f


def at(v, value):
    def f(k):
        o = getattr(k, v)
        i = tuple(k.rng.integers(s) for s in o.shape)
        o = o.astype(float).copy()
        o[i] = value
        setattr(k, v, o)

    return f


def wat(name, value):
    def f(k):
        a = k.rng.uniform(0.5, 1, size=k.n)
        a[k.rng.integers(k.n)] = value
        k.args[name] = a

    return f


def put(name, g):
    def f(k):
        setattr(k, name, g(k))

    return f


def both(*fs):
    def f(k):
        for g in fs:
            g(k)

    return f


def frame_cat(k):
    k.kind = "own"
    f = pd.DataFrame(k.A, columns=[f"x{i}" for i in range(k.p)])
    f["k"] = pd.Categorical(k.rng.choice(["a", "b"], size=k.n))
    k.X = lambda: f
    k.frame = f


def formula(text, **kw):
    def f(k):
        frame_cat(k)
        k.par.update(formula=text, **kw)

    return f


NOT_CV = lambda k: not k.cv  # noqa: E731
CV = lambda k: k.cv  # noqa: E731
ANY = lambda k: True  # noqa: E731
IRLS = lambda k: k.fam != "normal"  # noqa: E731
ONE = lambda k: k.p > 1  # noqa: E731

DEFECTS = {
    # hyperparameters
    "alpha negative": (NOT_CV, par(alpha=lambda k: -k.rng.uniform(1e-9, 1))),
    "alpha string": (NOT_CV, par(alpha="0.1")),
    "alpha list without search": (NOT_CV, par(alpha=[0.5, 0.1])),
    "alpha list negative": (NOT_CV, par(alpha=[0.5, -0.1], alpha_search=True)),
    "alpha scalar with search": (NOT_CV, par(alpha=0.5, alpha_search=True)),
    "alpha list of strings": (NOT_CV, par(alpha=["a", "b"], alpha_search=True)),
    "alpha nan": (NOT_CV, par(alpha=np.nan)),
    "alphas negative": (CV, par(alphas=[0.5, -0.1])),
    "alphas strings": (CV, par(alphas=["a", "b"])),
    "l1_ratio negative": (ANY, par(l1_ratio=-0.01)),
    "l1_ratio above one": (ANY, par(l1_ratio=1.0001)),
    "l1_ratio string": (ANY, par(l1_ratio="0.5")),
    "l1_ratio list": (NOT_CV, par(l1_ratio=[0.5])),
    "l1_ratio one of list": (CV, par(l1_ratio=[0.5, 1.5])),
    "P1 negative": (ANY, par(P1=lambda k: -np.eye(k.p)[0])),
    "P1 length": (ANY, par(P1=lambda k: np.ones(k.p + 1))),
    "P1 short": (ONE, par(P1=lambda k: np.ones(k.p - 1))),
    "P1 string": (ANY, par(P1="unity")),
    "P1 2d": (ONE, par(P1=lambda k: np.eye(k.p))),
    "P2 string": (ANY, par(P2="unity")),
    "P2 length": (ANY, par(P2=lambda k: np.ones(k.p + 1))),
    "P2 shape": (ANY, par(P2=lambda k: np.eye(k.p + 1))),
    "P2 oblong": (ANY, par(P2=lambda k: np.ones((k.p, k.p + 1)))),
    "P2 sparse shape": (ANY, par(P2=lambda k: sparse.identity(k.p + 1, format="csc"))),
    "P2 negative": (ANY, par(P2=lambda k: np.r_[np.ones(k.p - 1), -1e-3])),
    "P2 indefinite": (ONE, par(P2=lambda k: np.eye(k.p) - 1.2 * (np.ones((k.p, k.p)) / k.p))),
    "P2 sparse indefinite": (ONE, par(P2=lambda k: sparse.csc_matrix(np.eye(k.p) - 1.2 * (np.ones((k.p, k.p)) / k.p)))),
    "P2 nan": (ANY, par(P2=lambda k: np.full(k.p, np.nan))),
    "P2 3d": (ANY, par(P2=lambda k: np.ones((k.p, k.p, 1)))),
    "fit_intercept string": (ANY, par(fit_intercept="True")),
    "fit_intercept number": (ANY, par(fit_intercept=1)),
    "solver unknown": (ANY, par(solver="irls")),
    "solver newton": (ANY, par(solver="newton-cg")),
    "solver number": (ANY, par(solver=3)),
    "max_iter zero": (ANY, par(max_iter=0)),
    "max_iter negative": (ANY, par(max_iter=-5)),
    "max_iter float": (ANY, par(max_iter=10.5)),
    "max_iter string": (ANY, par(max_iter="10")),
    "gradient_tol zero": (ANY, par(gradient_tol=0)),
    "gradient_tol negative": (ANY, par(gradient_tol=-1e-4)),
    "gradient_tol string": (ANY, par(gradient_tol="tight")),
    "step_size_tol zero": (ANY, par(step_size_tol=0)),
    "step_size_tol negative": (ANY, par(step_size_tol=-1e-4)),
    "step_size_tol string": (ANY, par(step_size_tol="tight")),
    "warm_start string": (ANY, par(warm_start="no")),
    "warm_start number": (ANY, par(warm_start=1)),
    "start_params length": (ANY, par(start_params=lambda k: np.zeros(k.p + k.c["fi"] + 1))),
    "start_params short": (ONE, par(start_params=lambda k: np.zeros(k.p + k.c["fi"] - 1))),
    "start_params nan": (ANY, par(start_params=lambda k: np.full(k.p + k.c["fi"], np.nan))),
    "start_params 2d": (ANY, par(start_params=lambda k: np.zeros((k.p + k.c["fi"], 2)))),
    "start_params strings": (ANY, par(start_params=lambda k: ["a"] * (k.p + k.c["fi"]))),
    "selection unknown": (ANY, par(selection="fastest")),
    "random_state string": (ANY, par(selection="random", random_state="seed")),
    "copy_X string": (ANY, par(copy_X="yes")),
    "check_input number": (ANY, par(check_input=1)),
    "scale without intercept": (ANY, par(scale_predictors=True, fit_intercept=False)),
    "lower_bounds length": (ANY, par(lower_bounds=lambda k: np.zeros(k.p + 1))),
    "upper_bounds length": (ANY, par(upper_bounds=lambda k: np.zeros(k.p + 1))),
    "lower_bounds 2d": (ANY, par(lower_bounds=lambda k: np.zeros((k.p, 1)))),
    "bounds crossed": (ANY, par(lower_bounds=lambda k: np.full(k.p, 0.1), upper_bounds=lambda k: np.full(k.p, -0.1))),
    "bounds one crossed": (ONE, par(lower_bounds=lambda k: np.r_[np.full(k.p - 1, -1.0), 0.2], upper_bounds=lambda k: np.full(k.p, 0.1))),
    "bounds strings": (ANY, par(lower_bounds=lambda k: ["a"] * k.p)),
    "bounds with lbfgs": (NOT_CV, par(lower_bounds=lambda k: np.zeros(k.p), solver="lbfgs")),
    "bounds with irls-ls": (ANY, par(upper_bounds=lambda k: np.zeros(k.p), solver="irls-ls")),
    "bounds with trust-constr": (NOT_CV, par(upper_bounds=lambda k: np.zeros(k.p), solver="trust-constr")),
    "bounds and inequalities": (ANY, par(upper_bounds=lambda k: np.zeros(k.p), A_ineq=lambda k: np.eye(k.p), b_ineq=lambda k: np.zeros(k.p))),
    "A without b": (ANY, par(A_ineq=lambda k: np.eye(k.p))),
    "b without A": (ANY, par(b_ineq=lambda k: np.zeros(k.p))),
    "A columns": (ANY, par(A_ineq=lambda k: np.eye(k.p + 1), b_ineq=lambda k: np.zeros(k.p + 1))),
    "A and b rows": (ANY, par(A_ineq=lambda k: np.ones((2, k.p)), b_ineq=lambda k: np.zeros(3))),
    "b 2d": (ANY, par(A_ineq=lambda k: np.ones((2, k.p)), b_ineq=lambda k: np.zeros((2, 1)))),
    "A 1d": (ANY, par(A_ineq=lambda k: np.ones(k.p), b_ineq=lambda k: np.zeros(1))),
    "A with irls-cd": (ANY, par(A_ineq=lambda k: np.eye(k.p), b_ineq=lambda k: np.ones(k.p), solver="irls-cd")),
    "A with lbfgs": (ANY, par(A_ineq=lambda k: np.eye(k.p), b_ineq=lambda k: np.ones(k.p), solver="lbfgs")),
    "A with L1": (ANY, par(A_ineq=lambda k: np.eye(k.p), b_ineq=lambda k: np.ones(k.p), l1_ratio=0.5)),
    "family unknown": (ANY, par(family="possion")),
    "family number": (ANY, par(family=1)),
    "link unknown": (ANY, par(link="logarithm")),
    "family tweedie between": (ANY, par(family="tweedie (0.5)", link="log")),
    "family tweedie text": (ANY, par(family="tweedie (power)", link="log")),
    "family negbin negative": (ANY, par(family="negative.binomial (-1)", link="log")),
    "family negbin zero": (ANY, par(family="negative.binomial (0)", link="log")),
    "link tweedie between": (ANY, par(link="tweedie (0.5)")),
    "L1 with irls-ls": (ANY, par(l1_ratio=0.5, solver="irls-ls")),
    "L1 with lbfgs": (ANY, par(l1_ratio=0.5, solver="lbfgs")),
    "L1 with trust-constr": (ANY, par(l1_ratio=1.0, solver="trust-constr")),
    "L1 with closed-form": (lambda k: k.fam == "normal", par(l1_ratio=0.5, solver="closed-form")),
    "closed-form for other families": (IRLS, par(solver="closed-form")),
    "L1 on path with irls-ls": (NOT_CV, par(alpha=[0.5, 0.1], alpha_search=True, l1_ratio=0.5, solver="irls-ls")),
    "cv one fold": (CV, par(cv=1)),
    "cv string": (CV, par(cv="five")),
    "cv too many folds": (CV, par(cv=1000)),
    "monotonic without formula": (ANY, par(monotonic_constraints={"x0": "increasing"})),
    "monotonic not mapping": (ANY, formula("x0", monotonic_constraints=["x0"])),
    "monotonic empty": (ANY, formula("x0", monotonic_constraints={})),
    "monotonic direction": (ANY, formula("x0", monotonic_constraints={"x0": "up"})),
    "monotonic unknown": (ANY, formula("x0", monotonic_constraints={"x9": "increasing"})),
    "monotonic with L1": (ANY, formula("x0", monotonic_constraints={"x0": "increasing"}, l1_ratio=0.5)),
    "monotonic with inequalities": (ANY, formula("x0", monotonic_constraints={"x0": "increasing"}, A_ineq=np.ones((1, 1)), b_ineq=np.ones(1))),
    "monotonic with irls-cd": (ANY, formula("x0", monotonic_constraints={"x0": "increasing"}, solver="irls-cd")),
    "monotonic poly": (ANY, formula("poly(x0, degree=2)", monotonic_constraints={"x0": "increasing"})),
    "formula number": (ANY, formula(3)),
    "formula unknown column": (ANY, formula("x0 + nothing")),
    "formula syntax": (ANY, formula("x0 + ")),
    "cat_missing_method unknown": (ANY, both(frame_cat, par(cat_missing_method="drop"))),
    # data
    "X nan": (ANY, at("A", np.nan)),
    "X inf": (ANY, at("A", np.inf)),
    "X -inf": (ANY, at("A", -np.inf)),
    "X 1d": (ANY, put("A", lambda k: k.A[:, 0])),
    "X 3d": (lambda k: k.kind != "list", put("A", lambda k: k.A[:, :, None])),
    "X rows": (ANY, put("A", lambda k: k.A[:-1])),
    "X more rows": (ANY, put("A", lambda k: np.vstack([k.A, k.A[:1]]))),
    "X no rows": (ANY, put("A", lambda k: k.A[:0])),
    "X strings": (lambda k: k.kind in ("array", "list"), put("A", lambda k: np.full(k.A.shape, "a"))),
    "y nan": (ANY, at("y", np.nan)),
    "y inf": (ANY, at("y", np.inf)),
    "y length": (ANY, put("y", lambda k: k.y[:-1])),
    "y longer": (ANY, put("y", lambda k: np.r_[k.y, k.y[:1]])),
    "y two columns": (ANY, put("y", lambda k: np.column_stack([k.y, k.y]))),
    "y none": (ANY, put("y", lambda k: None)),
    "y strings": (ANY, put("y", lambda k: np.array(["a"] * k.n))),
    "y below range": (lambda k: k.fam != "normal", at("y", -0.5)),
    "y zero": (lambda k: k.fam in ("gamma", "igauss"), at("y", 0.0)),
    "y above range": (lambda k: k.fam == "binomial", at("y", 1.0001)),
    "y below range with weight zero": (lambda k: k.fam != "normal", lambda k: (k.args.update(sample_weight=np.r_[0.0, np.ones(k.n - 1)]), k.y.__setitem__(0, -1.0))),
    "weights negative": (ANY, wat("sample_weight", -0.1)),
    "weights nan": (ANY, wat("sample_weight", np.nan)),
    "weights inf": (ANY, wat("sample_weight", np.inf)),
    "weights length": (ANY, arg(sample_weight=lambda k: np.ones(k.n - 1))),
    "weights longer": (ANY, arg(sample_weight=lambda k: np.ones(k.n + 1))),
    "weights 2d": (ANY, arg(sample_weight=lambda k: np.ones((k.n, 1)))),
    "weights all zero": (ANY, arg(sample_weight=lambda k: np.zeros(k.n))),
    "weights scalar zero": (ANY, arg(sample_weight=0)),
    "weights scalar negative": (ANY, arg(sample_weight=-1.0)),
    "weights strings": (ANY, arg(sample_weight=lambda k: ["a"] * k.n)),
    "offset nan": (ANY, wat("offset", np.nan)),
    "offset inf": (ANY, wat("offset", np.inf)),
    "offset length": (ANY, arg(offset=lambda k: np.ones(k.n - 1))),
    "offset 2d": (ANY, arg(offset=lambda k: np.ones((k.n, 1)))),
    "offset strings": (ANY, arg(offset=lambda k: ["a"] * k.n)),
}
NAMES = list(DEFECTS)


@st.composite
def calls(draw, names=NAMES):
    return dict(
        defect=draw(st.integers(0, len(names) - 1)), fam=draw(st.sampled_from(FAMS)), seed=draw(G.SEEDS), n=draw(st.integers(20, 60)), p=draw(st.sampled_from([3, 2, 5, 1])), fi=draw(st.booleans()),
        w=draw(st.booleans()), off=draw(st.booleans()), cv=draw(st.booleans()), kind=draw(st.sampled_from(["array", "csc", "csr", "frame", "tabmat", "list"])),
    )


def pick(c, names):
    return names[(c["defect"] + c["seed"]) % len(names)]


@check("C26", calls(), quick=4000, rule=f"one of {len(NAMES)} defects (hyperparameters, data, weights, offsets, penalties, bounds, constraints, responses, combinations) injected into a random valid fit of either estimator raises ValueError, TypeError or NotImplementedError, and the call without the defect works before and after; non-trivial = error raised")
def fitting(c, ctx):
    name = pick(c, NAMES)
    applies, spoil = DEFECTS[name]
    good, bad = Call(c), Call(c)
    if not applies(bad):
        return
    spoil(bad)
    what = f"{name}: {'CV ' if c['cv'] else ''}{c['fam'][0]} on {c['kind']}"
    m = bad.make()
    try:
        m.fit(bad.X(), bad.y, **bad.args)
    except RAISES:
        pass
    except Exception as e:
        # formulaic and polars have error classes of their own
        if type(e).__module__.split(".")[0] in ("formulaic", "polars", "narwhals"):
            pass
        elif type(e).__name__ in ("AttributeError", "IndexError", "AssertionError", "KeyError", "UnboundLocalError"):
            fail(f"{what} raises the unrelated {type(e).__name__}: {e}")
        else:
            raise
    else:
        fail(f"{what}: accepted, coefficients {np.asarray(m.coef_)[:5]}")
    a = good.fit()
    if not np.all(np.isfinite(a.coef_)):
        fail(f"{what}: the call without the defect gives {a.coef_}")
    ctx.label(name)
    ctx.mark(True)


# Queries of a fitted estimator


class Fitted:
    """A fitted estimator with valid data for its queries."""

    def __init__(self, c):
        self.k = Call(c)
        k = self.k
        k.args = {}
        self.search = c["w"] and not c["cv"]
        if c["off"]:
            frame_cat(k)
        if self.search:
            k.par.update(alpha=[0.5, 0.1], alpha_search=True)
        self.m = k.fit()
        self.n, self.rng = k.n, k.rng
        self.width = k.p + 2 * c["off"]
        self.cats = c["off"]

    def answers(self):
        k, m = self.k, self.m
        return np.r_[m.predict(k.X()), m.linear_predictor(k.X()), m.score(k.X(), k.y), m.coef_, m.intercept_]


def ask(method, **kw):
    def f(s):
        a = dict(X=s.k.X())
        if method not in ("predict", "linear_predictor"):
            a["y"] = s.k.y
        a.update({x: (v(s) if callable(v) else v) for x, v in kw.items()})
        getattr(s.m, method)(**a)

    return f


def spoiled(method, value):
    """The data with one entry of the numeric columns or one row or column changed."""

    def f(s):
        k = s.k
        if s.cats:
            d = k.X().copy()
            d.iloc[int(k.rng.integers(k.n)), int(k.rng.integers(k.p))] = value
            a = dict(X=d)
        else:
            A = k.A.copy()
            A[k.rng.integers(k.n), k.rng.integers(k.p)] = value
            o = k.A
            k.A = A
            a = dict(X=k.X())
            k.A = o
        if method not in ("predict", "linear_predictor"):
            a["y"] = k.y
        getattr(s.m, method)(**a)

    return f


def reshaped(method, g):
    def f(s):
        k = s.k
        if s.cats:
            X = g(k.X().to_numpy(), k)
        else:
            o = k.A
            k.A = g(o, k)
            X = k.X()
            k.A = o
        getattr(s.m, method)(X=X, **({} if method in ("predict", "linear_predictor") else {"y": k.y}))

    return f


def cov(**kw):
    def f(s):
        a = dict(X=s.k.X(), y=s.k.y)
        a.update({x: (v(s) if callable(v) else v) for x, v in kw.items()})
        s.m.covariance_matrix(**a)

    return f


def wald(**kw):
    def f(s):
        a = dict(X=s.k.X(), y=s.k.y)
        a.update({x: (v(s) if callable(v) else v) for x, v in kw.items()})
        s.m.wald_test(**a)

    return f


def unlike(s):
    """One coefficient more than fitted, counting the intercept."""
    return s.width + 1 + s.k.c["fi"]


S_ANY = lambda s: True  # noqa: E731
S_SEARCH = lambda s: s.search  # noqa: E731
S_ONE = lambda s: not s.search and not s.k.cv  # noqa: E731
S_PLAIN = lambda s: not s.cats  # noqa: E731
S_CATS = lambda s: s.cats  # noqa: E731
QUERY = {}
for _m in ("predict", "linear_predictor", "score"):
    QUERY.update(
        {
            f"{_m}: X nan": (S_ANY, spoiled(_m, np.nan)),
            f"{_m}: X inf": (S_ANY, spoiled(_m, np.inf)),
            f"{_m}: column missing": (lambda s: s.k.p > 1, reshaped(_m, lambda A, k: A[:, :-1])),
            f"{_m}: column added": (S_PLAIN, reshaped(_m, lambda A, k: np.column_stack([A, A[:, 0]]))),
            f"{_m}: X 1d": (S_ANY, reshaped(_m, lambda A, k: A[:, 0])),
            f"{_m}: offset length": (S_ANY, ask(_m, offset=lambda s: np.zeros(s.n - 1))),
            f"{_m}: offset 2d": (S_ANY, ask(_m, offset=lambda s: np.zeros((s.n, 1)))),
            f"{_m}: category column missing": (S_CATS, ask(_m, X=lambda s: s.k.X().drop(columns="k"))),
            f"{_m}: numeric column missing": (S_CATS, ask(_m, X=lambda s: s.k.X().drop(columns="x0"))),
        }
    )
for _m in ("predict", "linear_predictor"):
    QUERY.update(
        {
            f"{_m}: alpha without search": (S_ONE, ask(_m, alpha=0.1)),
            f"{_m}: alpha_index without search": (S_ONE, ask(_m, alpha_index=0)),
            f"{_m}: alpha and alpha_index": (S_SEARCH, ask(_m, alpha=0.1, alpha_index=1)),
        }
    )
QUERY.update(
    {
        "predict: alpha off the path": (S_SEARCH, ask("predict", alpha=0.2)),
        "predict: alpha_index off the path": (S_SEARCH, ask("predict", alpha_index=5)),
        "linear_predictor: alpha off the path": (S_SEARCH, ask("linear_predictor", alpha=0.1001)),
        "predict: weights negative": (S_ANY, ask("predict", sample_weight=lambda s: -np.ones(s.n))),
        "predict: weights length": (S_ANY, ask("predict", sample_weight=lambda s: np.ones(s.n + 1))),
        "score: weights negative": (S_ANY, ask("score", sample_weight=lambda s: np.r_[-1.0, np.ones(s.n - 1)])),
        "score: weights length": (S_ANY, ask("score", sample_weight=lambda s: np.ones(s.n - 1))),
        "score: weights nan": (S_ANY, ask("score", sample_weight=lambda s: np.r_[np.nan, np.ones(s.n - 1)])),
        "score: y length": (S_ANY, ask("score", y=lambda s: s.k.y[:-1])),
        "score: y two columns": (S_ANY, ask("score", y=lambda s: np.column_stack([s.k.y, s.k.y]))),
        "covariance: y length": (S_ANY, cov(y=lambda s: s.k.y[:-1])),
        "covariance: y nan": (S_ANY, cov(y=lambda s: np.r_[np.nan, s.k.y[1:]])),
        "covariance: weights length": (S_ANY, cov(sample_weight=lambda s: np.ones(s.n - 1))),
        "covariance: weights negative": (S_ANY, cov(sample_weight=lambda s: np.r_[-1.0, np.ones(s.n - 1)])),
        "covariance: offset length": (S_ANY, cov(offset=lambda s: np.zeros(s.n + 1))),
        "covariance: clusters length": (S_ANY, cov(clusters=lambda s: np.arange(s.n - 1) % 4)),
        "covariance: X without y": (S_ANY, cov(y=None)),
        "covariance: nothing stored, no data": (S_ANY, cov(X=None, y=None)),
        "covariance: columns": (lambda s: not s.cats and s.k.p > 1, lambda s: s.m.covariance_matrix(X=s.k.A[:, 1:], y=s.k.y)),
        "wald: no hypothesis": (S_ANY, wald()),
        "wald: R columns": (S_ANY, wald(R=lambda s: np.eye(1, unlike(s)), r=np.zeros(1))),
        "wald: R and r": (S_ANY, wald(R=lambda s: np.eye(1, unlike(s) - 1), r=np.zeros(2))),
        "wald: unknown feature": (S_ANY, wald(features="nothing")),
        "wald: unknown term": (S_ANY, wald(terms="nothing")),
        "wald: features and R": (S_ANY, wald(features=lambda s: s.m.feature_names_[0], R=lambda s: np.eye(1, unlike(s) - 1))),
        "wald: features and r": (S_ANY, wald(features=lambda s: [s.m.feature_names_[0]], r=np.zeros(2))),
        "wald: formula unknown name": (S_ANY, wald(formula="nothing = 0")),
        "wald: nothing stored, no data": (S_ANY, lambda s: s.m.wald_test(R=np.eye(1, unlike(s) - 1))),
    }
)
QNAMES = list(QUERY)
UNRELATED = (AttributeError, AssertionError, UnboundLocalError, ZeroDivisionError, RecursionError, MemoryError, SystemError)


@check("C26", calls(QNAMES), quick=2500, rule=f"one of {len(QNAMES)} defective calls of predict, linear_predictor, score, covariance_matrix or wald_test on a fitted estimator (array, sparse, frame with categorical, path, CV) raises, and afterwards the estimator answers as before; non-trivial = error raised")
def querying(c, ctx):
    name = pick(c, QNAMES)
    applies, call = QUERY[name]
    s = Fitted(c)
    if not applies(s):
        return
    what = f"{name}: {'CV ' if c['cv'] else ''}{c['fam'][0]} on {'categorical frame' if s.cats else c['kind']}{' with path' if s.search else ''}"
    before = s.answers()
    try:
        call(s)
    except UNRELATED as e:
        fail(f"{what} raises the unrelated {type(e).__name__}: {e}")
    except Exception:
        pass
    else:
        fail(f"{what}: accepted")
    if not np.array_equal(before, s.answers()):
        fail(f"{what}: different answers after the error")
    ctx.label(name)
    ctx.mark(True)


UNFITTED = {
    "predict": lambda k, m: m.predict(k.X()),
    "linear_predictor": lambda k, m: m.linear_predictor(k.X()),
    "score": lambda k, m: m.score(k.X(), k.y),
    "covariance_matrix": lambda k, m: m.covariance_matrix(k.X(), k.y),
    "std_errors": lambda k, m: m.std_errors(k.X(), k.y),
    "aic": lambda k, m: m.aic(k.X(), k.y),
    "aicc": lambda k, m: m.aicc(k.X(), k.y),
    "bic": lambda k, m: m.bic(k.X(), k.y),
}


@check("C26", calls(list(UNFITTED)), quick=400, rule="every query of an estimator that was never fitted, or whose only fit failed on invalid data, raises scikit-learn's NotFittedError (a ValueError); fitting it then gives exactly the result of a new estimator; non-trivial = error raised")
def unfitted(c, ctx):
    from sklearn.exceptions import NotFittedError

    name = pick(c, list(UNFITTED))
    k = Call(c)
    m = k.make()
    if not hasattr(m, name):
        return
    what = f"{name} of {'CV ' if c['cv'] else ''}{c['fam'][0]}"
    if c["off"]:
        try:
            m.fit(k.X(), k.y, sample_weight=-np.ones(k.n))
        except ValueError:
            what += " after a failed fit"
        else:
            fail(f"{what}: negative weights accepted")
    try:
        UNFITTED[name](k, m)
    except NotFittedError:
        pass
    except Exception as e:
        fail(f"{what} on an unfitted estimator raises {type(e).__name__}: {e}")
    else:
        fail(f"{what} on an unfitted estimator does not raise")
    G.quiet_fit(m, k.X(), k.y, **k.args)
    new = Call(c).fit()
    if not (np.array_equal(m.coef_, new.coef_) and m.intercept_ == new.intercept_):
        fail(f"{what}: a later fit differs from that of a new estimator")
    ctx.label(name)
    ctx.mark(True)


# family (argument), values of y outside its support, values inside
RANGES = [
    ("normal", "normal", [], [-3.0, 0.0]), ("tweedie (0)", "tweedie:0", [], [-3.0, 0.0]), ("gaussian", "normal", [], [-3.0, 0.0]), ("generalized.hyperbolic.secant", "ghs", [], [-3.0, 0.0]),
    ("poisson", "poisson", [-0.5, -1e-12], [0.0, 0.5, 1e-300]), ("tweedie (1)", "tweedie:1", [-0.5, -1e-12], [0.0, 0.5]), ("tweedie (1.5)", "tweedie:1.5", [-0.5, -1e-12], [0.0, 0.5]), ("tweedie (1.99)", "tweedie:1.99", [-1e-12, -2.0], [0.0, 0.5]), ("tweedie", "tweedie:1.5", [-1e-12], [0.0]),
    ("gamma", "gamma", [-0.5, 0.0, -1e-12], [1e-3, 0.5]), ("tweedie (2)", "tweedie:2", [-0.5, 0.0, -1e-12], [1e-3, 0.5]), ("tweedie (2.5)", "tweedie:2.5", [-0.5, 0.0, -1e-12], [1e-2, 0.5]), ("tweedie (3)", "tweedie:3", [-0.5, 0.0], [1e-2, 0.5]), ("inverse.gaussian", "igauss", [-0.5, 0.0, -1e-12], [1e-2, 0.5]),
    ("negative.binomial", "negbin:1.0", [-0.5, -1e-12], [0.0, 0.5]), ("negative.binomial (2.5)", "negbin:2.5", [-0.5, -1e-12], [0.0, 3.0]),
    ("binomial", "binomial", [-1e-9, 1 + 1e-9, 2.0, -1.0], [0.0, 1.0, 0.5]),
]


@st.composite
def responses(draw):
    return dict(fam=draw(st.integers(0, len(RANGES) - 1)), which=draw(st.integers(0, 3)), bad=draw(st.booleans()), seed=draw(G.SEEDS), n=draw(st.integers(12, 30)), cv=draw(st.booleans()), obj=draw(st.booleans()), f32=draw(st.booleans()), link=draw(st.booleans()))


@check("C26", responses(), quick=1200, rule="one response value on either side of the support of 17 families (by name or as objects; float64 or float32 data; both estimators): values outside raise a ValueError, values inside fit; non-trivial = value outside, or on the boundary")
def response_range(c, ctx):
    import glum

    name, spec, outside, inside = RANGES[c["fam"]]
    bad = c["bad"] and bool(outside)
    vals = outside if bad else inside
    v = vals[c["which"] % len(vals)]
    rng = np.random.default_rng(c["seed"])
    X = rng.normal(size=(c["n"], 2))
    y = rng.uniform(0.1, 0.9, size=c["n"])
    y[rng.integers(c["n"])] = v
    if c["f32"] and abs(v) > 1e-6 and abs(v - 1) > 1e-6:
        X, y = X.astype(np.float32), y.astype(np.float32)
    fam = O.make_family(spec) if c["obj"] or spec == "ghs" else name
    est = glum.GeneralizedLinearRegressorCV(family=fam, alphas=[1.0, 0.3], cv=3) if c["cv"] else glum.GeneralizedLinearRegressor(family=fam, alpha=0.5)
    if c["link"] and name not in ("binomial",) and not (name in ("normal", "tweedie (0)", "gaussian") or "hyper" in name):
        est.set_params(link="log")
    what = f"{'CV ' if c['cv'] else ''}{name} with a response value {v}"
    try:
        G.quiet_fit(est, X, y)
    except ValueError as e:
        if not bad:
            fail(f"{what}: {e}")
    except np.linalg.LinAlgError:
        if bad:
            fail(f"{what}: LinAlgError instead of a ValueError")
    else:
        if bad:
            fail(f"{what} accepted: coefficients {est.coef_}")
    ctx.mark(bad or v in (0.0, 1.0))
    ctx.label(f"family:{name}", f"bad:{bad}")
