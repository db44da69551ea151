"""C33: families and links written by the user behave like built-in ones."""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.c01 import kkt_check, saturated
from checks.common import conditioning, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

# (lower, upper, lower included, upper included)
SUPPORT = {
    "normal": (-np.inf, np.inf, False, False), "poisson": (0, np.inf, True, False), "gamma": (0, np.inf, False, False), "igauss": (0, np.inf, False, False),
    "binomial": (0, 1, True, True), "negbin": (0, np.inf, True, False), "ghs": (-np.inf, np.inf, False, False), "wedderburn": (0, 1, False, False),
}


def custom_family(fam, properties=True):
    """The family in plain NumPy on top of the public base class: abstract methods only."""
    import glum

    lo, hi, ilo, ihi = SUPPORT.get(fam.split(":")[0]) or (0, np.inf, float(fam.split(":")[1]) < 2, False)

    class Custom(glum.ExponentialDispersionModel):
        lower_bound, upper_bound, include_lower_bound, include_upper_bound = lo, hi, ilo, ihi

        def unit_variance(self, mu):
            return O.var(fam, mu)

        def unit_variance_derivative(self, mu):
            return O.dvar(fam, mu)

        def unit_deviance(self, y, mu):
            return O.unit_dev(fam, y, mu)

    return Custom()


def custom_link(link):
    import glum

    class CustomLink(glum.Link):
        def link(self, mu):
            return O.L.fwd(link, mu)

        def derivative(self, mu):
            return 1 / O.L.dinv(link, O.L.fwd(link, mu))

        def inverse(self, lin_pred):
            mu = O.L.inv(link, lin_pred)
            if link in ("logit", "cloglog", "probit"):
                eps = 50 * np.finfo(np.float64).eps
                mu = np.clip(mu, eps, 1 - eps)
            return mu

        def inverse_derivative(self, lin_pred):
            return O.L.dinv(link, lin_pred)

        def inverse_derivative2(self, lin_pred):
            return O.L.d2inv(link, lin_pred)

    return CustomLink()


BUILTIN = [f for f in G.CONVEX if not f[0].startswith("tweedie:") or "." in f[0]] + [("normal", "log"), ("gamma", "identity"), ("poisson", "identity"), ("igauss", "log"), ("tweedie:2.5", "log"), ("ghs", "identity")]
BUILTIN = [f for f in BUILTIN if f in G.FAM_LINKS or f in G.CONVEX]
NEW = [("binomial", "probit"), ("poisson", "softplus"), ("gamma", "softplus"), ("negbin:1.0", "softplus"), ("wedderburn", "logit"), ("wedderburn", "probit"), ("wedderburn", "cloglog")]


@st.composite
def cases(draw, fams, **kw):
    c = draw(G.problems(fams=fams, max_n=40, max_p=4, **kw))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd", "irls-ls", "lbfgs", "trust-constr"]))
    c["own"] = draw(st.sampled_from(["family", "link", "both"]))
    c["sparse"] = draw(st.booleans())
    return c


def fit(pb, family, link, solver, **kw):
    kw = dict(dict(gradient_tol=1e-8, max_iter=500 if solver != "trust-constr" else 2000, solver=solver, random_state=0), **kw)
    try:
        return G.quiet_fit(G.glr(**pb.params(family=family, link=link, **kw)), pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    except np.linalg.LinAlgError:
        return None, False
    except ValueError as e:
        if "infs or NaNs" in str(e) or "singular" in str(e).lower() or "No variation" in str(e):
            return None, False
        raise


def numbers(pb, m, y, w):
    """Everything reported about the model."""
    X, off = pb.X, pb.off
    out = dict(predict=m.predict(X, offset=off), eta=m.linear_predictor(X, offset=off), score=m.score(X, y, sample_weight=w, offset=off))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for robust in (False, True):
            for expected in (False, True):
                try:
                    out[f"covariance robust={robust} expected={expected}"] = m.covariance_matrix(X, y, w, off, robust=robust, expected_information=expected)
                except np.linalg.LinAlgError:
                    pass
    fam, mu = m.family_instance, out["predict"]
    ww = np.ones(len(y)) if w is None else w
    out["deviance"] = fam.deviance(y, mu, ww)
    out["pearson"] = fam.dispersion(y, mu, ww, ddof=1)
    out["deviance dispersion"] = fam.dispersion(y, mu, ww, ddof=1, method="deviance")
    out["variance"] = fam.variance(mu, 1.3, ww + 0.1)
    return out


@check("C33", cases(BUILTIN), quick=1200, rule="a built-in family and/or link rewritten in NumPy as a subclass of the public base class against the built-in one on random problems and solvers: estimates, path, predictions, score, four covariance matrices, deviances, dispersions and the accepted responses agree; non-trivial = both fits converged to comparable estimates")
def rewritten(c, ctx):
    pb = G.Problem(c)
    solver = c["solver"]
    if pb.alpha * pb.l1 > 0 and solver not in ("auto", "irls-cd"):
        solver = "irls-cd"
    ref_f, ref_l = O.make_family(pb.fam), O.make_link(pb.link)
    own_f = custom_family(pb.fam) if c["own"] != "link" else ref_f
    own_l = custom_link(pb.link) if c["own"] != "family" else ref_l
    m1, ok1 = fit(pb, ref_f, ref_l, solver)
    m2, ok2 = fit(pb, own_f, own_l, solver)
    ctx.label(f"{pb.fam}/{pb.link}", solver, c["own"])
    if not (ok1 and ok2):
        return
    obj = pb.objective()
    what = f"{c['own']} of {pb.fam}/{pb.link} rewritten, {solver}"
    loose = solver in ("lbfgs", "trust-constr")
    kappa = conditioning(pb, m1)
    if kappa is None or saturated(obj, m2.intercept_, m2.coef_):
        return
    if not same(pb, m1, m2.intercept_, m2.coef_, what, kappa, tol=1e-4 if loose else 1e-8):
        return
    # the same numbers for the same coefficients
    m2.coef_, m2.intercept_ = m1.coef_, m1.intercept_
    y, w = pb.y, pb.w
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            a, b = numbers(pb, m1, y, w), numbers(pb, m2, y, w)
        except np.linalg.LinAlgError:
            return
    cut = O.binomial_entropy(y) if pb.fam == "binomial" else 0
    for k in a:
        if k not in b or k == "deviance" and np.any(cut != 0):
            continue
        x, z = np.asarray(a[k], float), np.asarray(b[k], float)
        if not np.all(np.isfinite(x)):
            continue
        if x.shape != z.shape:
            fail(f"{what}: {k}: shapes {x.shape} and {z.shape}")
        if k.startswith("cov"):
            plain = a.get(k.replace("robust=True", "robust=False"))
            sd = np.sqrt(np.diag(plain)) if plain is not None and np.all(np.diag(plain) > 0) else None
            if sd is None or not np.all(np.isfinite(plain)) or np.linalg.cond(plain / np.outer(sd, sd)) > 1e6:
                continue
        tol = 1e-6 / min(1.0, kappa) if k.startswith("cov") else 1e-8
        if tol > 1e-2:
            continue
        s = np.sqrt(np.abs(np.outer(np.diag(x), np.diag(x)))) + np.abs(x).max() * 1e-9 if k.startswith("cov") else np.abs(x) + 1e-3 * np.abs(x).max(initial=0) + 1e-9
        if not np.all(np.abs(x - z) <= tol * s + (1e-12 if k.startswith("cov") else 1e-7 if k == "score" else 1e-10 * (1 + np.sum(w if w is not None else len(y))) if "dev" in k or k == "pearson" else 0)):
            fail(f"{what}: {k}: {z} instead of {x}")
    # what is a valid response
    probe = np.array([-1.0, -1e-300, 0.0, 1e-300, 0.5, 1.0, 1.0 + 1e-9, 7.0, np.inf, -np.inf])
    if not np.array_equal(np.asarray(ref_f.in_y_range(probe)), np.asarray(own_f.in_y_range(probe))):
        fail(f"{what}: accepted responses {own_f.in_y_range(probe)} instead of {ref_f.in_y_range(probe)} for {probe}")
    if c["own"] != "link":
        try:
            m2.aic(pb.X, y)
            fail(f"{what}: an information criterion without a likelihood")
        except NotImplementedError:
            pass
    ctx.mark()


@check("C33", cases(BUILTIN), quick=400, rule="the same for the regularisation path with automatic alphas, and for cross-validation: grid, path, deviances of the held-out rows, selected alpha; non-trivial = the whole path converged, with different entries")
def paths(c, ctx):
    import glum

    # without an offset: the automatic grid starts from a guessed intercept, which
    # glum can only adjust for an offset if it knows the family and link
    pb = G.Problem(dict(c, off=False))
    if not pb.fi and pb.link in ("identity",) and pb.fam not in ("normal", "ghs"):
        return
    ref_f, ref_l = O.make_family(pb.fam), O.make_link(pb.link)
    own_f = custom_family(pb.fam) if c["own"] != "link" else ref_f
    own_l = custom_link(pb.link) if c["own"] != "family" else ref_l
    cv = c["seed"] % 2 == 0 and len(pb.y) >= 12
    par = dict(l1_ratio=[0.0, 0.5, 0.9][c["seed"] % 3], n_alphas=4, min_alpha_ratio=0.05, fit_intercept=pb.fi, gradient_tol=1e-8, max_iter=200, scale_predictors=pb.scale)
    out = []
    for f, l in ((ref_f, ref_l), (own_f, own_l)):
        est = glum.GeneralizedLinearRegressorCV(family=f, link=l, cv=3, **par) if cv else glum.GeneralizedLinearRegressor(family=f, link=l, alpha_search=True, **par)
        try:
            m, ok = G.quiet_fit(est, pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
        except (ValueError, np.linalg.LinAlgError, ZeroDivisionError):
            return  # a fold without variation, weights that vanish
        if not ok:
            return
        out.append(m)
    a, b = out
    what = f"{c['own']} of {pb.fam}/{pb.link} rewritten, {'cross-validation' if cv else 'path'}"
    ctx.label(f"{pb.fam}/{pb.link}", what.split()[-1])
    al = [np.asarray(m.alphas_ if cv else m._alphas, float) for m in out]
    if al[0].min() < 1e-10:
        return  # every automatic alpha is rounding error
    if al[0].shape != al[1].shape or not np.allclose(al[0], al[1], rtol=1e-6):
        fail(f"{what}: alphas {al[1]} instead of {al[0]}")
    pa, pb_ = (np.asarray(m.coef_path_, float) for m in out)
    if pa.shape != pb_.shape:
        fail(f"{what}: path of shape {pb_.shape} instead of {pa.shape}")
    if not np.all(np.isfinite(pa)) or not pb.fi and not np.any(pa):
        return
    k = conditioning(pb, a)
    if k is None or k < 1e-4:
        return
    if np.any(np.abs(pa) * np.abs(pb.X).max(axis=0) > 50):
        return
    d = np.abs(pa - pb_) * np.r_[pb.X.std(axis=0) + 1e-3 * np.abs(pb.X).max(initial=0)]
    if np.any(d > 1e-4 / min(k, 1.0) ** 0.5):
        fail(f"{what}: path {pb_} instead of {pa}")
    if cv:
        da, db = np.asarray(a.deviance_path_, float), np.asarray(b.deviance_path_, float)
        if pb.fam != "binomial" and np.all(np.isfinite(da)) and not np.allclose(da, db, rtol=1e-3, atol=1e-6 * np.abs(da).max()):
            fail(f"{what}: deviances {db} instead of {da}")
    ctx.mark(np.ptp(pa.reshape(-1, pa.shape[-1]), axis=0).max(initial=0) > 1e-6)


@check("C33", cases(NEW, alphas=(0.0, 0.001, 0.01, 0.1, 1.0)), quick=1200, rule="families and links glum does not have (probit and softplus links, Wedderburn's family) on random problems and solvers: stationary points of the documented objective, deviance, score, Pearson dispersion and covariance from the reference formulas; non-trivial = converged with a non-zero coefficient")
def new(c, ctx):
    pb = G.Problem(c)
    solver = c["solver"]
    if pb.alpha * pb.l1 > 0 and solver not in ("auto", "irls-cd"):
        solver = "irls-cd"
    own_f = custom_family(pb.fam) if pb.fam == "wedderburn" or c["own"] != "link" else O.make_family(pb.fam)
    own_l = custom_link(pb.link) if pb.link in ("probit", "softplus") or c["own"] == "link" else O.make_link(pb.link)
    m, ok = fit(pb, own_f, own_l, solver)
    what = f"{pb.fam}/{pb.link}/{solver}"
    ctx.label(what)
    if not ok:
        return
    obj = pb.objective()
    mu = obj.mu(float(m.intercept_), m.coef_)
    if pb.fam in ("binomial", "wedderburn") and np.any((mu < 1e-6) | (mu > 1 - 1e-6)) or np.any(np.abs(obj.eta(float(m.intercept_), m.coef_)) > 30) or pb.link == "softplus" and np.any(mu < 1e-6):
        return
    loose = solver in ("lbfgs", "trust-constr")
    kkt_check(m, obj, max(1e-4, 1e-5 * (pb.p + 1)) if loose else 1e-8, what)
    w = np.ones(len(pb.y)) if pb.w is None else pb.w
    got = m.family_instance.deviance(pb.y, m.predict(pb.X, offset=pb.off), w)
    O.assert_close(got, w @ O.unit_dev(pb.fam, pb.y, mu), 1e-8, 1e-10 * w.sum(), f"{what}: deviance")
    null = np.average(pb.y, weights=w)
    dev0 = w @ O.unit_dev(pb.fam, pb.y, np.full(len(pb.y), null))
    if dev0 > 1e-10 * w.sum():
        want = 1 - (w @ O.unit_dev(pb.fam, pb.y, mu)) / dev0
        O.assert_close(m.score(pb.X, pb.y, sample_weight=pb.w, offset=pb.off), want, 1e-7, 1e-7, f"{what}: score")
    if pb.w is None or np.all(w > 0):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                V = m.covariance_matrix(pb.X, pb.y, pb.w, pb.off, robust=False, expected_information=True)
            except np.linalg.LinAlgError:
                V = None
        k = pb.p + pb.fi
        if V is not None and len(pb.y) > k and w.sum() > k:
            Z = np.column_stack([np.ones(len(pb.y)), pb.X]) if pb.fi else pb.X
            h = w * O.L.dinv(pb.link, obj.eta(float(m.intercept_), m.coef_)) ** 2 / O.var(pb.fam, mu)
            F = (Z.T * h) @ Z
            s = 1 / np.sqrt(np.diag(F))
            Fs = F * np.outer(s, s)
            if np.all(np.isfinite(Fs)) and np.linalg.cond(Fs) < 1e7:
                phi = (w @ ((pb.y - mu) ** 2 / O.var(pb.fam, mu))) / (w.sum() - k)
                want = np.linalg.inv(Fs) * np.outer(s, s) * phi * w.sum() / (w.sum() - k)
                sd = np.sqrt(np.diag(want))
                if not np.allclose(V / np.outer(sd, sd), want / np.outer(sd, sd), rtol=1e-5, atol=1e-5):
                    fail(f"{what}: covariance {V} instead of {want}")
    ctx.mark(np.any(m.coef_ != 0))


@st.composite
def contracts(draw):
    lo = draw(st.sampled_from([-np.inf, -1.0, 0.0, 0.5]))
    hi = draw(st.sampled_from([np.inf, 1.0, 2.0]))
    return dict(lo=lo, hi=hi, ilo=draw(st.booleans()), ihi=draw(st.booleans()), q=draw(st.sampled_from([0, 1, 1.5, 2, 3])), shift=draw(st.sampled_from([-5.0, -1.0, 0.0, 2.0])),
                n=draw(st.integers(2, 12)), seed=draw(G.SEEDS), w=draw(st.sampled_from(["none", "default", "array", "scalar", "ints"])), off=draw(st.booleans()))


@check("C33", contracts(), quick=1200, rule="families with bounds of any kind (finite or not, included or not), a power variance and unit deviances of either sign: accepted responses, deviance as the weighted sum of unit deviances, its derivative, variance and both dispersions follow from the seven definitions, and fit accepts exactly the responses in range; non-trivial = always")
def contract(c, ctx):
    import glum

    lo, hi, q = c["lo"], c["hi"], c["q"]

    class Own(glum.ExponentialDispersionModel):
        lower_bound, upper_bound, include_lower_bound, include_upper_bound = lo, hi, c["ilo"], c["ihi"]

        def unit_variance(self, mu):
            return 1.0 + np.abs(mu) ** q

        def unit_variance_derivative(self, mu):
            return q * np.sign(mu) * np.abs(mu) ** max(q - 1, 0) if q else np.zeros_like(np.asarray(mu, float))

        def unit_deviance(self, y, mu):
            return (y - mu) ** 2 + c["shift"]

    f, rng, n = Own(), np.random.default_rng(c["seed"]), c["n"]
    what = f"bounds {lo}, {hi} (included: {c['ilo']}, {c['ihi']})"
    probe = np.array([lo, hi, np.nextafter(lo, 0), np.nextafter(hi, 0), np.nextafter(lo, -np.inf), np.nextafter(hi, np.inf), -3.0, 0.0, 0.7, 1.0, 5.0, -np.inf, np.inf])
    want = ((probe >= lo) if c["ilo"] else (probe > lo)) & ((probe <= hi) if c["ihi"] else (probe < hi))
    got = f.in_y_range(probe)
    if not np.array_equal(np.asarray(got), want):
        fail(f"{what}: {probe[np.asarray(got) != want]} wrongly accepted or rejected")
    for v, k in zip(probe, want):
        if bool(f.in_y_range(v)) != bool(k):
            fail(f"{what}: {v} as a scalar: {not k}")
    y, mu = rng.normal(size=n), rng.normal(size=n) + 0.1
    w = {"none": None, "default": 1, "array": rng.uniform(0, 3, size=n), "scalar": 2.5, "ints": rng.integers(0, 4, size=n)}[c["w"]]
    args = () if c["w"] == "default" else (w,)
    ww = np.ones(n) * (1 if w is None else w)
    V, dV, d = 1 + np.abs(mu) ** q, f.unit_variance_derivative(mu), (y - mu) ** 2 + c["shift"]
    close = lambda a, b, t: O.assert_close(a, b, 1e-12, 1e-12 * (1 + np.abs(b).max()), f"{t}, weights {c['w']}")
    close(f.deviance(y, mu, *args), (ww * d).sum(), "deviance")
    close(f.unit_deviance_derivative(y, mu), -2 * (y - mu) / V, "unit_deviance_derivative")
    if w is not None:
        close(f.deviance_derivative(y, mu, *args), -2 * (y - mu) / V * ww, "deviance_derivative")
        if np.all(ww > 0):
            close(f.variance(mu, 1.7, w), V * 1.7 / ww, "variance")
            close(f.variance_derivative(mu, 1.7, w), dV * 1.7 / ww, "variance_derivative")
    if ww.sum() > 1.5 and c["w"] in ("none", "array", "ints"):
        for ddof in (0, 1):
            close(f.dispersion(y, mu, w, ddof=ddof), (ww * (y - mu) ** 2 / V).sum() / (ww.sum() - ddof), "Pearson dispersion")
            close(f.dispersion(y, mu, w, ddof=ddof, method="deviance"), (ww * d).sum() / (ww.sum() - ddof), "deviance dispersion")
    # fit: a response is accepted if and only if it is in the range
    k = rng.integers(len(probe))
    bad = probe[k]
    if np.isfinite(bad):
        inner = (max(lo, -2.0) * 0.6 + min(hi, 3.0) * 0.4) + rng.uniform(-0.05, 0.05, size=11)
        yy = np.r_[inner, bad]
        X = rng.normal(size=(12, 1))
        try:
            G.quiet_fit(glum.GeneralizedLinearRegressor(family=f, link="identity", alpha=1.0, max_iter=3), X, yy)
            ok = True
        except ValueError as e:
            if "valid range" not in str(e) and "range" not in str(e).lower():
                raise
            ok = False
        if ok != bool(want[k]):
            fail(f"{what}: a response of {bad} is {'accepted' if ok else 'rejected'} by fit")
    ctx.label(f"w:{c['w']}")
    ctx.mark()


def power_link(power, _cache={}):
    import glum

    if "cls" not in _cache:

        class Power(glum.Link):
            def __init__(self, power):
                self.power = power

            def link(self, mu):
                return mu**self.power

            def derivative(self, mu):
                return self.power * mu ** (self.power - 1)

            def inverse(self, lin_pred):
                return np.abs(lin_pred) ** (1 / self.power)

            def inverse_derivative(self, lin_pred):
                return np.abs(lin_pred) ** (1 / self.power - 1) / self.power

            def inverse_derivative2(self, lin_pred):
                return np.abs(lin_pred) ** (1 / self.power - 2) / self.power * (1 / self.power - 1)

        _cache["cls"] = Power
    return _cache["cls"](power)


@check("C33", st.fixed_dictionaries(dict(seed=G.SEEDS, k=st.integers(2, 4), what=st.sampled_from(["tweedie link", "own link", "negative binomial", "tweedie", "family and link"]), cv=st.booleans())), quick=300,
       rule="several models in one process whose links or families are instances of one class with different parameters (built-in and user-defined), constructed and used in turn: each one keeps its own link and family, in fit, predict, score and after all the others were fitted; non-trivial = parameters differ")
def successive(c, ctx):
    import glum

    rng = np.random.default_rng(c["seed"])
    n = 40
    X = rng.uniform(-0.3, 0.3, size=(n, 2))
    y = np.exp(X @ [0.3, -0.2]) + rng.gamma(2.0, 0.3, size=n)
    if c["what"] == "negative binomial":
        y = rng.poisson(y).astype(float) + (np.arange(n) == 0)
    pars = list(rng.choice([0.5, 1.25, 1.5, 1.75, 2.0, 2.5, 3.0], size=c["k"], replace=False))
    made = []
    for p in pars:
        p = float(p)
        fam, link = {
            "tweedie link": lambda: (glum.GammaDistribution(), glum.TweedieLink(p if p > 1 else 1.1)), "own link": lambda: (glum.GammaDistribution(), power_link(p)),
            "negative binomial": lambda: (glum.NegativeBinomialDistribution(p), "log"), "tweedie": lambda: (glum.TweedieDistribution(max(p, 1.1)), "log"),
            "family and link": lambda: (glum.TweedieDistribution(max(p, 1.1)), power_link(p)),
        }[c["what"]]()
        kw = dict(family=fam, link=link, gradient_tol=1e-6, max_iter=300)
        est = glum.GeneralizedLinearRegressorCV(alphas=[0.1, 0.01], cv=2, l1_ratio=0, **kw) if c["cv"] else glum.GeneralizedLinearRegressor(alpha=0.01, **kw)
        try:
            m, ok = G.quiet_fit(est, X, y)
        except (ValueError, np.linalg.LinAlgError):
            return
        if not ok or not np.all(np.isfinite(m.coef_)):
            return
        made.append((p, fam, link, m, m.predict(X), m.score(X, y)))
    for p, fam, link, m, mu, score in made:
        what = f"{c['what']} {p} among {pars}"
        eta = m.linear_predictor(X)
        inv = np.exp if isinstance(link, str) else link.inverse
        O.assert_close(mu, inv(eta), 1e-6, 1e-9, f"{what}: predict")
        O.assert_close(m.predict(X), mu, 0, 0, f"{what}: predict after the other models were fitted")
        l = (lambda e: np.exp(e)) if isinstance(link, str) else link.inverse_derivative
        g = (y - mu) / fam.unit_variance(mu) * l(eta) / n
        alpha = float(m.alpha_) if c["cv"] else 0.01
        sd = X.std(0)
        res = np.abs(np.r_[g.sum(), ((X - X.mean(0)).T @ g - alpha * m.coef_) / sd])
        if res.sum() > 2e-5:
            fail(f"{what}: not a stationary point of its own objective: {res}")
        null = np.full(n, y.mean())
        O.assert_close(score, 1 - fam.unit_deviance(y, mu).sum() / fam.unit_deviance(y, null).sum(), 1e-5, 1e-6, f"{what}: score")
    ctx.label(c["what"])
    ctx.mark()
