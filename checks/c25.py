"""C25: estimators carry no state from one fit to the next."""
import copy
import pickle
import warnings

import numpy as np
import pandas as pd
import polars as pl
import sklearn.base
import tabmat as tm
from hypothesis import strategies as st
from scipy import sparse

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

DATA = ["array", "array2", "csc", "tabmat", "frame", "frame-levels", "frame-missing", "numeric-frame", "polars", "formula", "formula2", "two-sided", "one-column"]
FORMULA = {"formula": "x * k", "formula2": "z + k + bs(x, df=4)", "two-sided": "y ~ z + k"}
FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1.0", "log")]


class World:
    """The datasets of a history."""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.cache = {}

    def get(self, kind, fam):
        key = (kind, fam)
        if key not in self.cache:
            rng = np.random.default_rng([self.seed, DATA.index(kind), sum(map(ord, fam))])
            n = 30 + 4 * DATA.index(kind)
            x, z = rng.uniform(0, 1, size=n), rng.normal(size=n)
            lv = ["v", "u", "w"] if kind != "frame-levels" else ["q", "u", "v", "w"]
            k = [lv[i] for i in rng.integers(0, len(lv), size=n)]
            k[: len(lv)] = lv
            eta = 0.5 * x - 0.3 * z + 0.4 * np.array([a == "u" for a in k])
            if fam == "binomial":
                y = (rng.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float)
                y[:4] = [0, 1, 0, 1]
            elif fam == "normal":
                y = eta + rng.normal(size=n)
            elif fam == "gamma":
                y = rng.gamma(2, np.exp(eta) / 2) + 0.05
            else:
                y = rng.poisson(np.exp(eta)).astype(float)
                y[:3] = [1, 2, 0]
            if kind == "frame-missing":
                k = [None if rng.uniform() < 0.2 and i > 5 else a for i, a in enumerate(k)]
                k[5] = None
            if kind in ("array", "array2"):
                X = np.column_stack([x, z, rng.normal(size=n)])
                X = X if kind == "array" else np.asfortranarray(X * 3 + 1)
            elif kind == "one-column":
                X = z[:, None].copy()
            elif kind == "csc":
                X = sparse.csc_matrix(np.column_stack([x, np.where(rng.uniform(size=n) < 0.3, z, 0), rng.integers(0, 2, size=n), z]))
            elif kind == "tabmat":
                X = tm.SplitMatrix([tm.DenseMatrix(np.column_stack([x, z])), tm.CategoricalMatrix(pd.Categorical(k))])
            elif kind == "numeric-frame":
                X = pd.DataFrame(dict(z=z, x=x))
            elif kind == "polars":
                X = pl.DataFrame(dict(x=x, k=pl.Series(k, dtype=pl.Enum(lv)), z=z))
            else:
                X = pd.DataFrame(dict(x=x, k=pd.Categorical(k, categories=lv), z=z))
            w = rng.uniform(0.5, 2, size=n)
            off = rng.uniform(-0.2, 0.2, size=n)
            cl = rng.integers(0, 6, size=n)
            yarg = y
            if kind == "two-sided":
                X, yarg = X.assign(y=y), None
            self.cache[key] = (X, yarg, y, w, off, cl)
        return self.cache[key]


FITOPS = st.fixed_dictionaries(dict(
    op=st.just("fit"), data=st.sampled_from(DATA), w=st.booleans(), off=st.booleans(), store=st.sampled_from([False, False, True]), change=st.booleans(),
    fam=st.integers(0, len(FAMS) - 1), alpha=st.sampled_from([0.0, 0.05, 0.3]), l1=st.sampled_from([0.0, 0.0, 0.5]), path=st.sampled_from([None, None, None, "list", "auto"]),
    fi=st.sampled_from([True, True, False]), scale=st.booleans(), drop=st.booleans(), solver=st.sampled_from(["auto", "auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"]), warm=st.sampled_from([False, False, False, True]),
    P=st.sampled_from([None, None, "vec", "mat"]), bounds=st.sampled_from([None, None, None, True]), mono=st.sampled_from([False, False, True]), start=st.sampled_from([None, None, True]),
    robust=st.booleans(), sel=st.sampled_from(["cyclic", "random"]), tol=st.sampled_from([None, 1e-7]),
))
OTHER = st.sampled_from([
    dict(op="predict"), dict(op="cov"), dict(op="cov-robust"), dict(op="cov-cluster"), dict(op="store"), dict(op="wald"), dict(op="table"), dict(op="score"), dict(op="aic"), dict(op="diag"),
    dict(op="pickle"), dict(op="deepcopy"), dict(op="copy"), dict(op="clone"), dict(op="roundtrip"),
    dict(op="bad", kind="nan-y"), dict(op="bad", kind="shape"), dict(op="bad", kind="weights"), dict(op="bad", kind="alpha"), dict(op="bad", kind="solver"), dict(op="bad", kind="formula"), dict(op="bad", kind="P2"),
    dict(op="bad", kind="range"), dict(op="bad", kind="predict"), dict(op="crash", at=0), dict(op="crash", at=2), dict(op="crash", at=5), dict(op="crash", at=11), dict(op="strict"), dict(op="alter"),
])


@st.composite
def histories(draw):
    ops = [draw(FITOPS)]
    for _ in range(draw(st.integers(1, 4))):
        ops += draw(st.lists(OTHER, max_size=3))
        ops.append(draw(FITOPS))
    ops += draw(st.lists(OTHER, max_size=3))
    return dict(seed=draw(G.SEEDS), cv=draw(st.sampled_from([False, False, True])), ops=ops)


class Boom(Exception):
    pass


def crashing(at):
    """A Poisson family that fails at its at-th use."""
    import glum

    class Crash(glum.PoissonDistribution):
        left = at

        def _tick(self):
            if self.left <= 0:
                raise Boom()
            self.left -= 1

        def unit_variance(self, mu):
            self._tick()
            return super().unit_variance(mu)

        def unit_deviance(self, y, mu):
            self._tick()
            return super().unit_deviance(y, mu)

        def eta_mu_deviance(self, *a, **k):
            self._tick()
            return super().eta_mu_deviance(*a, **k)

        def rowwise_gradient_hessian(self, *a, **k):
            self._tick()
            return super().rowwise_gradient_hessian(*a, **k)

    return Crash()


def settings_of(o, world, cv, warm_ok):
    """(params, fit arguments) of a fit operation."""
    fam, link = FAMS[o["fam"]]
    kind = o["data"]
    X, yarg, y, w, off, cl = world.get(kind, fam)
    p = dict(family=O.make_family(fam), link=link, fit_intercept=o["fi"], scale_predictors=o["scale"] and o["fi"], drop_first=o["drop"], formula=FORMULA.get(kind), cat_missing_method="convert" if kind == "frame-missing" else "fail",
             robust=o["robust"], max_iter=200, gradient_tol=o["tol"], selection=o["sel"], random_state=7 if o["sel"] == "random" else None)
    l1 = o["l1"]
    solver = o["solver"]
    if l1 or o["sel"] == "random":
        solver = "irls-cd" if solver != "auto" else "auto"
    lb = ub = None
    mono = None
    nums = {"array": 3, "array2": 3, "one-column": 1, "csc": 4}.get(kind)
    if o["bounds"] and nums and solver in ("auto", "irls-cd"):
        lb, ub = np.full(nums, -0.1), np.full(nums, 0.25)
    if o["mono"] and kind == "formula2" and not l1:
        mono, solver = {"x": "increasing"}, "auto"
    if mono is not None and cv:
        mono = None
    P1 = P2 = "identity"
    if o["P"] and nums:
        v = np.linspace(0.5, 1.5, nums)
        P1, P2 = v, (v if o["P"] == "vec" else np.diag(v) + 0.1)
    start = None
    if o["start"] and nums:
        start = np.full(nums + o["fi"], 0.02)
    alpha = o["alpha"]
    if alpha == 0 and not o["drop"] and kind not in ("array", "array2", "one-column"):
        alpha = 0.05
    p.update(l1_ratio=l1, solver=solver, lower_bounds=lb, upper_bounds=ub, monotonic_constraints=mono, P1=P1, P2=P2, start_params=start, warm_start=o["warm"] and warm_ok)
    if cv:
        p.update(alphas=[0.5, 0.05] if o["path"] != "auto" else None, n_alphas=4, min_alpha_ratio=0.01, cv=3, l1_ratio=[0.0, 0.5] if o["path"] == "list" and solver in ("auto", "irls-cd") else l1)
    elif o["path"] == "list":
        p.update(alpha=[0.5, 0.1, 0.05], alpha_search=True)
    elif o["path"] == "auto":
        p.update(alpha=None, alpha_search=True, n_alphas=4, min_alpha_ratio=0.01)
    else:
        p.update(alpha=alpha, alpha_search=False)
    if p.get("alpha_search") or cv:
        if solver not in ("auto", "irls-cd", "irls-ls"):
            p["solver"] = "auto"
    args = dict(sample_weight=w if o["w"] else None, offset=off if o["off"] else None, store_covariance_matrix=o["store"])
    return p, (X, yarg), args, (y, cl)


def run(f, *a, **k):
    """(value, None) or (None, error type)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return f(*a, **k), None
        except Exception as e:
            if isinstance(e, (AttributeError, AssertionError)) and not isinstance(e, sklearn.exceptions.NotFittedError):
                raise
            return None, type(e).__name__


def public_state(m):
    out = {}
    for k, v in vars(m).items():
        if k.endswith("_") and not k.startswith("_"):
            if isinstance(v, (np.ndarray, float, int, str, bool, np.generic, type(None))):
                out[k] = v
            elif isinstance(v, (list, dict)) and k != "diagnostics_":  # which has run times
                out[k] = repr(v)
            else:
                out[k] = type(v).__name__
    return out


def compare(a, b, what, tol=1e-9):
    if a is None or b is None:
        if (a is None) != (b is None):
            fail(f"{what}: {type(a).__name__} and {type(b).__name__}")
        return
    if isinstance(a, str):
        if a != b:
            fail(f"{what}: {a[:200]} and {b[:200]}")
        return
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        fail(f"{what}: shapes {a.shape} and {b.shape}")
    O.assert_close(a, b, rtol=tol, atol=tol * (1 + np.abs(b[np.isfinite(b)]).max(initial=0)), what=what)


def answers(m, fit, y, cl, cv):
    """Everything a user can ask about the last fit."""
    (X, yarg), args = fit
    w, off = args["sample_weight"], args["offset"]
    q = dict(sample_weight=w, offset=off)
    out = {}
    for name, f in dict(
        predict=lambda: m.predict(X, offset=off), linear_predictor=lambda: m.linear_predictor(X), score=lambda: m.score(X, y, **q),
        cov=lambda: m.covariance_matrix(X, yarg, **q), cov_r=lambda: m.covariance_matrix(X, yarg, robust=True, **q), cov_n=lambda: m.covariance_matrix(X, yarg, robust=False, **q),
        cov_c=lambda: m.covariance_matrix(X, yarg, clusters=cl, **q), stored=lambda: m.covariance_matrix(), se=lambda: m.std_errors(X, yarg, **q), table=lambda: m.coef_table(X, yarg, **q).to_numpy(float),
        stored_table=lambda: m.coef_table().to_numpy(float),
        aic=lambda: m.aic(X, y, w) if hasattr(m, "aic") else 0.0, bic=lambda: m.bic(X, y, w) if hasattr(m, "bic") else 0.0,
        p0=lambda: m.predict(X, alpha_index=0), p_all=lambda: m.predict(X, alpha_index=list(range(len(m._alphas)))) if hasattr(m, "_alphas") else None, pa=lambda: m.predict(X, alpha=0.5),
        wald=lambda: np.squeeze(m.wald_test(X, yarg, features=[m.feature_names_[-1]], **q).test_statistic), names=lambda: repr(list(m.feature_names_)), terms=lambda: repr(list(m.term_names_)),
        diag=lambda: m.get_formatted_diagnostics(full_report=True).filter(regex="^(?!.*runtime)").to_numpy(float) if not isinstance(m.get_formatted_diagnostics(), str) else m.get_formatted_diagnostics(),
        family=lambda: type(m.family_instance).__name__, link=lambda: type(m.link_instance).__name__,
    ).items():
        out[name] = run(f)
    return out


def same_answers(a, b, what, tol=1e-9):
    for k in b:
        (va, ea), (vb, eb) = a[k], b[k]
        if ea != eb:
            fail(f"{what}: {k} gives {ea or 'a result'} instead of {eb or 'a result'}")
        compare(va, vb, f"{what}: {k}", tol)


def make(is_cv, **kw):
    import glum

    return (glum.GeneralizedLinearRegressorCV if is_cv else glum.GeneralizedLinearRegressor)(**kw)


def one(c, ctx):
    cv = c["cv"]
    world = World(c["seed"])
    m = make(cv)
    fit = None  # arguments of the last successful fit
    prev_p = None
    trace = []
    n_fits = n_after = 0
    stored = None
    for o in c["ops"]:
        op = o["op"]
        if op == "fit":
            p, xy, args, (y, cl) = settings_of(o, world, cv, True)
            trace.append(f"fit({o['data']}, {FAMS[o['fam']][0]}, solver={p['solver']}, {'path ' if p.get('alpha_search') else ''}{'warm' if p['warm_start'] else ''})")
            what = ("CV " if cv else "") + " -> ".join(trace)
            m.set_params(**p)
            got = m.get_params(deep=False)
            for k, v in p.items():
                if got[k] is not v and k != "family":
                    fail(f"{what}: get_params()[{k!r}] is not what was set")
            warm = p["warm_start"] and hasattr(m, "coef_")
            r, e1 = run(m.fit, *xy, **args)
            f = make(cv, **{**p, "warm_start": False})
            # attributes of the constructor that an earlier history left must not matter
            f.set_params(**{k: v for k, v in got.items() if k not in p})
            f.set_params(warm_start=False)
            _, e2 = run(f.fit, *xy, **args)
            if warm:
                if e1 is not None or e2 is not None:
                    if e1 is not None and e2 is None and p["solver"] == "auto" and np.shape(m.coef_) == np.shape(f.coef_) and np.all(np.isfinite(m.coef_)):
                        fail(f"{what}: warm start raised {e1}, a fresh fit works")
                    fit = None
                    continue
                if p.get("gradient_tol") and (np.all(np.asarray(p.get("alpha") or 1.0) > 0)) and not cv and p["monotonic_constraints"] is None and p["solver"] not in ("lbfgs", "trust-constr") and f.n_iter_ < 150 and m.n_iter_ < 150:
                    scale = np.abs(f.coef_).max(initial=0) + 1
                    O.assert_close(m.coef_, f.coef_, rtol=0, atol=1e-3 * scale, what=f"{what}: warm started coefficients against fresh ones")
                    ctx.label("warm compared")
                fit = (xy, args, y, cl, p)
                ref = copy.deepcopy(m)
            else:
                if e1 != e2:
                    fail(f"{what}: fit gives {e1 or 'a model'}, a fresh estimator {e2 or 'a model'}")
                if e1 is not None:
                    fit = None
                    continue
                a, b = public_state(m), public_state(f)
                if set(a) != set(b):
                    fail(f"{what}: attributes {sorted(set(a) ^ set(b))} differ from those of a fresh estimator")
                for k in b:
                    compare(a[k], b[k], f"{what}: {k} against a fresh estimator")
                fit = (xy, args, y, cl, p)
                same_answers(answers(m, (xy, args), y, cl, cv), answers(f, (xy, args), y, cl, cv), f"{what} against a fresh estimator")
                ref = f
            n_fits += 1
            n_after += n_fits > 1
            stored = np.array(m.covariance_matrix_) if o["store"] else None
            continue
        trace.append(op + (":" + o["kind"] if "kind" in o else ""))
        what = ("CV " if cv else "") + " -> ".join(trace)
        if op == "bad":
            before = m.get_params(deep=False)
            X, yarg, y, w, off, cl = world.get("array", "poisson")
            bad = {
                "nan-y": lambda: m.set_params(formula=None, monotonic_constraints=None).fit(X, np.where(np.arange(len(y)) == 3, np.nan, y)), "shape": lambda: m.set_params(formula=None, monotonic_constraints=None).fit(X, y[:-1]),
                "weights": lambda: m.set_params(formula=None, monotonic_constraints=None).fit(X, y, sample_weight=-w), "alpha": lambda: m.set_params(**({"alphas": [-1.0]} if cv else {"alpha": -1.0, "alpha_search": False})).fit(X, y),
                "solver": lambda: m.set_params(solver="nonsense").fit(X, y), "formula": lambda: m.set_params(formula="nothing + x").fit(world.get("frame", "poisson")[0], y),
                "P2": lambda: m.set_params(P2=np.ones((9, 9)), formula=None).fit(world.get("frame", "poisson")[0], y), "range": lambda: m.set_params(family="gamma", link="log", formula=None, monotonic_constraints=None).fit(X, -y - 1.0),
                "predict": lambda: m.predict(np.ones((3, 17))),
            }[o["kind"]]
            _, e = run(bad)
            if e is None:
                fail(f"{what}: no error")
            m.set_params(**before)
            if o["kind"] != "predict":
                fit = None
            continue
        if op in ("crash", "strict"):
            before = m.get_params(deep=False)
            X, yarg, y, w, off, cl = world.get("array", "poisson")
            plain = dict(formula=None, monotonic_constraints=None, P1="identity", P2="identity", lower_bounds=None, upper_bounds=None, start_params=None, warm_start=False, link="log")
            with warnings.catch_warnings():
                warnings.simplefilter("error" if op == "strict" else "ignore")
                try:
                    m.set_params(**{**plain, **(dict(family=crashing(o["at"])) if op == "crash" else dict(max_iter=1, family="poisson", gradient_tol=1e-12))}).fit(X, y, sample_weight=w)
                    ctx.label(f"{op}: no interruption")
                except Exception as e:
                    if not isinstance(e, (Boom, Warning, ValueError)):
                        raise
                    ctx.label(f"{op}: {type(e).__name__}")
            m.set_params(**before)
            fit = None
            continue
        if op == "alter":
            # parameters changed after the fit only matter for the next fit
            if fit is None:
                continue
            b = answers(ref, fit[:2], fit[2], fit[3], cv)
            before = m.get_params(deep=False)
            m.set_params(solver="lbfgs", max_iter=3, gradient_tol=0.5, selection="random", start_params=np.ones(2), P1=np.ones(7), random_state=4)
            a = answers(m, fit[:2], fit[2], fit[3], cv)
            m.set_params(**before)
            for k in ("stored", "stored_table"):
                a.pop(k), b.pop(k)
            same_answers(a, b, what)
            continue
        if op == "clone":
            d = sklearn.base.clone(m)
            if hasattr(d, "coef_") or any(k.endswith("_") and not k.startswith("_") for k in vars(d)):
                fail(f"{what}: the clone is fitted: {sorted(vars(d))}")
            pa, pb = m.get_params(deep=False), d.get_params(deep=False)
            for k in pa:
                if repr(pa[k]) != repr(pb[k]) and k != "family":
                    fail(f"{what}: parameter {k} of the clone is {pb[k]!r}, not {pa[k]!r}")
            if fit is not None and not fit[4]["warm_start"]:
                r, e = run(d.fit, *fit[0], **fit[1])
                same_answers(answers(d, fit[:2], fit[2], fit[3], cv), answers(ref, fit[:2], fit[2], fit[3], cv), what + ": refitted clone")
                ctx.label("clone refitted")
            continue
        if fit is None:
            continue
        X, yarg = fit[0]
        q = dict(sample_weight=fit[1]["sample_weight"], offset=fit[1]["offset"])
        if op in ("pickle", "deepcopy", "copy", "roundtrip"):
            if op == "pickle":
                d = pickle.loads(pickle.dumps(m, protocol=[2, 4, 5][c["seed"] % 3]))
            elif op == "deepcopy":
                d = copy.deepcopy(m)
            elif op == "copy":
                d = copy.copy(m)
            else:
                d = m.set_params(**m.get_params())
            a, b = public_state(d), public_state(m)
            if set(a) != set(b):
                fail(f"{what}: attributes {sorted(set(a) ^ set(b))} differ")
            for k in b:
                compare(a[k], b[k], f"{what}: {k}", 1e-15)
            same_answers(answers(d, fit[:2], fit[2], fit[3], cv), answers(m, fit[:2], fit[2], fit[3], cv), what)
            m = d
            continue
        f = {
            "predict": lambda: m.predict(X), "cov": lambda: m.covariance_matrix(X, yarg, **q), "cov-robust": lambda: m.covariance_matrix(X, yarg, robust=True, expected_information=True, **q),
            "cov-cluster": lambda: m.covariance_matrix(X, yarg, clusters=fit[3], **q), "store": lambda: m.covariance_matrix(X, yarg, robust=not m.robust, store_covariance_matrix=True, **q),
            "wald": lambda: m.wald_test(X, yarg, features=[m.feature_names_[0]], r=[0.3], **q), "table": lambda: m.coef_table(X, yarg, confidence_level=0.5, **q), "score": lambda: m.score(X, fit[2], **q),
            "aic": lambda: m.aic(X, fit[2]) if not cv else None, "diag": lambda: m.get_formatted_diagnostics(),
        }[op]
        v, e = run(f)
        if op == "store" and e is None:
            stored = np.array(v)
        # the answers do not depend on earlier questions
        a, b = answers(m, fit[:2], fit[2], fit[3], cv), answers(ref, fit[:2], fit[2], fit[3], cv)
        for k in ("stored", "stored_table"):
            s, t = a.pop(k), b.pop(k)
            if k == "stored":
                if (s[0] is None) != (stored is None):
                    fail(f"{what}: stored covariance {'absent' if s[0] is None else 'present'} ({s[1]})")
                if stored is not None:
                    compare(s[0], stored, f"{what}: stored covariance")
        same_answers(a, b, f"{what}, later answers")
        ctx.label(f"asked:{op}")
    ctx.label(f"fits:{n_fits}", f"cv:{cv}")
    ctx.mark(n_after >= 1)


@check("C25", histories(), quick=420, rule="histories of up to 5 fits on 13 kinds of data (arrays, sparse, tabmat, frames, formulas) with changing family, solver, penalties, paths, bounds, start values, mixed with failed fits (invalid input, a family raising at its n-th use, warnings as errors), queries, clone, copy and pickle; after every fit all answers and attributes equal those of a fresh estimator; non-trivial = a fit after an earlier one was compared")
def history(c, ctx):
    one(c, ctx)


@check("C25", st.fixed_dictionaries(dict(pb=G.problems(fams=[f for f in G.CONVEX if f[1] != "cloglog"], alphas=(0.01, 0.1, 0.5), l1=(0.0, 0.0, 0.5, 1.0), min_n=15, P1s=("identity", "vec"), P2s=("identity", "vec", "full")), solver=st.sampled_from(["auto", "irls-cd", "irls-ls"]))),
       quick=800, rule="a warm start (or start_params) at the optimum of the same problem stays there, from another problem's coefficients reaches the optimum; non-trivial = the cold fit needed at least two iterations")
def warm(c, ctx):
    pb = G.Problem(c["pb"])
    solver = "irls-cd" if pb.l1 and c["solver"] == "irls-ls" else c["solver"]
    kw = dict(solver=solver, gradient_tol=1e-7, max_iter=300)
    m, ok = G.fit_pb(pb, **kw)
    if not ok:
        return
    b0, b, it = float(m.intercept_), m.coef_.copy(), m.n_iter_
    closed = pb.fam in ("normal", "tweedie:0") and pb.link == "identity"
    m.set_params(warm_start=True, gradient_tol=1e-6)
    m, _ = G.quiet_fit(m, pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    sc = 1 + np.abs(b).max()
    what = f"{pb.fam} {pb.link} {solver}"
    O.assert_close(np.r_[m.intercept_, m.coef_], np.r_[b0, b], rtol=0, atol=1e-4 * sc / min(1, pb.alpha), what=f"{what}: warm start at the optimum")
    if not closed and m.n_iter_ > 0:
        fail(f"{what}: {m.n_iter_} iterations from the optimum of the same problem (fit_intercept={pb.fi}, scale_predictors={pb.scale})")
    s, _ = G.fit_pb(pb, **{**kw, "gradient_tol": 1e-6}, start_params=np.r_[b0, b] if pb.fi else b)
    if s is not None and not closed and s.n_iter_ > 0:
        fail(f"{what}: {s.n_iter_} iterations with start_params at the optimum (fit_intercept={pb.fi}, scale_predictors={pb.scale})")
    ctx.label(f"{solver}:{'no ' if not pb.fi else ''}intercept")
    ctx.mark(it >= 2)


OLD = st.fixed_dictionaries(dict(
    seed=G.SEEDS, n=st.integers(8, 40), names=st.sampled_from(["str", "int", "float", "bool"]), ncat=st.integers(1, 2), levels=st.integers(2, 5), order=st.booleans(), ordered=st.booleans(),
    missing=st.sampled_from(["fail", "fail", "zero", "convert"]), drop=st.booleans(), cv=st.booleans(), age=st.sampled_from(["3.0", "3.1", "now"]), fam=st.integers(0, len(FAMS) - 1), twice=st.booleans()))


def aged(m, X, age):
    """m as a model that an earlier 3.x version wrote: feature_dtypes_ instead of the levels, later parameters missing."""
    old = copy.copy(m)
    d = old.__dict__
    if age != "now":
        d.pop("monotonic_constraints", None)
    if age == "3.0":
        d.pop("max_inner_iter", None)
        if "_categorical_levels_" in d:
            d.pop("_categorical_levels_")
            d.pop("_feature_dtypes_", None)
            d["feature_dtypes_"] = X.dtypes.to_dict()
    return pickle.loads(pickle.dumps(old))


@check("C25", OLD, quick=260, rule="models on frames with categorical columns (levels of four types, in any order), written as 3.0 or 3.1 wrote them or as now, and loaded: same predictions (also for re-ordered, fewer or plain levels), tables and refits; non-trivial = the levels are not sorted")
def old_models(c, ctx):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    lv0 = dict(str=["z", "b", "a", "m", "B"], int=[3, 10, 1, 2, -4], float=[2.5, 0.5, 10.0, 1.0, -1.0], bool=[True, False])[c["names"]]
    X = pd.DataFrame(dict(x=rng.uniform(size=n)))
    unsorted = False
    for j in range(c["ncat"]):
        lv = lv0[: c["levels"]]
        if c["order"]:
            lv = [lv[i] for i in rng.permutation(len(lv))]
        codes = rng.integers(0, len(lv), size=n)
        codes[: len(lv)] = np.arange(len(lv))
        if c["missing"] != "fail":
            codes[len(lv)] = -1
        X[f"k{j}"] = pd.Categorical.from_codes(codes, categories=lv, ordered=c["ordered"])
        unsorted |= lv != sorted(lv)
    X["z"] = rng.normal(size=n)
    fam, link = FAMS[c["fam"]]
    y = rng.integers(0, 2, size=n).astype(float) if fam == "binomial" else rng.uniform(0.2, 3, size=n)
    y[:2] = [0.0, 1.0] if fam == "binomial" else [0.5, 2.0]
    p = dict(family=O.make_family(fam), link=link, alphas=[0.5, 0.1], cv=3) if c["cv"] else dict(family=O.make_family(fam), link=link, alpha=0.1)
    p.update(cat_missing_method=c["missing"], drop_first=c["drop"])
    m = make(c["cv"], **p)
    _, e = run(m.fit, X, y)
    if e is not None:
        return
    d = aged(m, X, c["age"])
    if c["twice"]:
        d = pickle.loads(pickle.dumps(d))
    what = f"{'CV ' if c['cv'] else ''}{fam} model of version {c['age']} with {c['names']} levels {[list(X[k].cat.categories) for k in X if k.startswith('k')]}"
    if d.get_params(deep=False).keys() != m.get_params(deep=False).keys():
        fail(f"{what}: parameters differ")
    for k, v in m.get_params(deep=False).items():
        if k != "family" and repr(v) != repr(getattr(d, k)):
            fail(f"{what}: parameter {k} is {getattr(d, k)!r}, not {v!r}")
    other = X.iloc[::-1].reset_index(drop=True).copy()
    plain = X.copy()
    for k in [k for k in X if k.startswith("k")]:
        cats = list(X[k].cat.categories)
        other[k] = other[k].cat.reorder_categories([cats[i] for i in rng.permutation(len(cats))])
        plain[k] = plain[k].cat.remove_categories(cats[-1:]) if c["missing"] != "fail" else plain[k]
    few = X.iloc[:2].copy()
    for k in [k for k in X if k.startswith("k")]:
        few[k] = few[k].cat.remove_unused_categories()
    text = X.iloc[: len(lv)].copy()
    for k in [k for k in X if k.startswith("k")]:
        text[k] = text[k].astype(object)
    foreign = few.copy()
    foreign["k0"] = pd.Categorical(["never", "never"] if c["names"] == "str" else [77, 77])
    for name, F in dict(same=X, reordered=other, fewer=few, missing=plain, objects=text, foreign=foreign).items():
        (a, ea), (b, eb) = run(d.predict, F), run(m.predict, F)
        if ea != eb:
            fail(f"{what}: predicting the {name} frame gives {ea or 'a result'} instead of {eb or 'a result'}")
        compare(a, b, f"{what}: predictions for the {name} frame", 1e-14)
    zero = np.zeros(n, dtype=int)
    same_answers(answers(d, ((X, y), dict(sample_weight=None, offset=None)), y, zero + np.arange(n) % 4, c["cv"]), answers(m, ((X, y), dict(sample_weight=None, offset=None)), y, zero + np.arange(n) % 4, c["cv"]), what)
    Y = X.drop(columns="z").iloc[::-1]
    for est in (d, m):
        est.fit(Y, y[::-1])
    compare(d.coef_, m.coef_, f"{what}: refitted coefficients", 1e-10)
    compare(d.predict(Y), m.predict(Y), f"{what}: refitted predictions", 1e-10)
    ctx.label(f"version:{c['age']}", f"levels:{c['names']}")
    ctx.mark(unsorted)
