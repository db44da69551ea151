"""C14: deviances follow from the family's variance function."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = ["normal", "poisson", "gamma", "igauss", "binomial", "ghs",
        "tweedie:0", "tweedie:1", "tweedie:2", "tweedie:3", "tweedie:1.5", "tweedie:1.1", "tweedie:1.9", "tweedie:1.0",
        "tweedie:2.0", "tweedie:2.5", "tweedie:4.0", "tweedie:3.0", "tweedie:-1", "tweedie:-0.5", "tweedie:-2.0",
        "negbin:1.0", "negbin:0.1", "negbin:3.0", "negbin:0.7"]


def mean_values(rng, fam, n, spread):
    name, par = O.fam_param(fam)
    if name in ("normal", "ghs") or par == 0 and name == "tweedie":
        return rng.normal(size=n) * spread
    if name == "binomial":
        return rng.uniform(0.02, 0.98, size=n)
    return np.exp(rng.normal(size=n) * min(spread, 1.5))


def y_values(rng, fam, mu, kind):
    n = len(mu)
    name, par = O.fam_param(fam)
    if kind == "equal":
        return mu.copy()
    if kind == "edge":
        y = O.random_y(rng, fam, mu)
        if name in ("poisson", "negbin") or name == "tweedie" and 1 <= par < 2:
            y[rng.uniform(size=n) < 0.5] = 0.0
        if name == "binomial":
            y = np.where(rng.uniform(size=n) < 0.5, 0.0, rng.uniform(size=n))
        return y
    if kind == "frac":
        if name == "binomial":
            return rng.uniform(size=n)
        if name in ("normal", "ghs") or name == "tweedie" and par <= 0:
            return rng.normal(size=n) * 2
        return np.exp(rng.normal(size=n))
    return O.random_y(rng, fam, mu)


@st.composite
def points(draw):
    return dict(fam=draw(st.sampled_from(FAMS)), n=draw(st.integers(1, 12)), seed=draw(G.SEEDS),
                y=draw(st.sampled_from(["sample", "equal", "edge", "frac"])),
                spread=draw(st.sampled_from([0.3, 1.0, 2.0])),
                w=draw(st.sampled_from([None, "uniform", "ints", "scalar", "zeros"])),
                kind=draw(st.sampled_from(["array", "list", "f32", "int-y", "strided"])))


def setup(c):
    rng = np.random.default_rng(c["seed"])
    mu = mean_values(rng, c["fam"], c["n"], c["spread"])
    y = y_values(rng, c["fam"], mu, c["y"])
    n = c["n"]
    w = {None: None, "uniform": rng.uniform(0.1, 3, size=n), "ints": rng.integers(1, 5, size=n),
         "scalar": 2.5, "zeros": (rng.uniform(size=n) < 0.7) * 1.5}[c["w"]]
    return rng, y, mu, w


def single(fam, y, mu):
    """Rounding of unit_deviance where the parameter is kept in single precision
    on purpose (the weighted deviance works in double precision)."""
    name, p = O.fam_param(fam)
    if name == "negbin":
        return 3e-7 * np.max(np.abs(y) + mu + 1 / p)
    if name != "tweedie" or p in (0, 1, 2, 3):
        return 0.0
    y = np.maximum(y, 0)
    with np.errstate(divide="ignore"):
        yp = np.where(y > 0, y ** (2 - p), 0)
    return 1e-6 * np.max(yp / abs((1 - p) * (2 - p)) + np.abs(y) * mu ** (1 - p) / abs(1 - p) + mu ** (2 - p) / abs(2 - p))


@check("C14", points(), quick=6000, rule="random family, responses (sampled, equal to the mean, at the edge of the support, fractional), means, weights and argument kinds; non-trivial = some weighted y differs from mu")
def deviance_value(c, ctx):
    rng, y, mu, w = setup(c)
    fam = c["fam"]
    if c["kind"] == "int-y" and c["y"] == "sample" and O.fam_param(fam)[0] in ("poisson", "negbin", "binomial"):
        ya, ma, wa = y.astype(int), mu, w
        ctx.label("int-y")
    elif c["kind"] == "list":
        ya, ma, wa = y.tolist(), mu.tolist(), w.tolist() if isinstance(w, np.ndarray) else w
    elif c["kind"] == "strided":
        def s(a):
            b = np.empty(2 * len(a), a.dtype)
            b[::2] = a
            b[1::2] = 77
            return b[::2]
        ya, ma, wa = s(y), s(mu), s(w) if isinstance(w, np.ndarray) else w
    elif c["kind"] == "f32":
        y, mu = y.astype(np.float32), mu.astype(np.float32)
        if fam == "binomial":
            y = np.clip(y, 0, 1)
        ya, ma, wa = y, mu, w.astype(np.float32) if isinstance(w, np.ndarray) else w
        w = wa
        y, mu = y.astype(float), mu.astype(float)
    else:
        ya, ma, wa = y, mu, w
    f = O.make_family(fam)
    wv = np.ones(len(y)) if w is None else np.broadcast_to(np.asarray(w, float), y.shape)
    unit = O.unit_dev(fam, y, mu)
    if fam == "binomial":
        unit = unit - O.binomial_entropy(y)
    want = float(wv @ unit)
    terms = float(wv @ np.abs(unit)) + float(wv @ (np.abs(y) + np.abs(mu))) * 1e-3
    ctx.label(f"fam:{fam}", f"y:{c['y']}", f"kind:{c['kind']}")
    ctx.mark((wv * np.abs(y - mu)).sum() > 0)
    tol = 1e-9 if c["kind"] != "f32" else 2e-4
    # lists are only documented for deviance
    if c["kind"] == "list" and fam in ("ghs", "binomial"):
        ya, ma = np.asarray(ya), np.asarray(ma)
        wa = None if wa is None else np.asarray(wa)
    got = f.deviance(ya, ma, wa)
    big = np.max(np.abs(mu), initial=1) + np.max(np.abs(y), initial=1)
    amp = 1.0 + float(wv @ (big ** 2 / np.minimum(1, O.var(fam, mu)))) * 1e-3
    O.assert_close(got, want, rtol=tol, atol=tol * amp, what=f"deviance {fam}", scale=terms)
    if c["kind"] in ("array", "strided", "int-y"):
        ud = f.unit_deviance(ya, ma)
        O.assert_close(ud, unit, rtol=1e-8, atol=1e-9 * big**2 * max(1, 1 / O.var(fam, mu).min()) + single(fam, y, mu), what=f"unit_deviance {fam}", scale=1)
    if fam != "binomial":
        if not got >= -1e-7 * amp * (1 if c["kind"] != "f32" else 1e4):
            fail(f"{fam}: negative deviance {got}")
    if wa is None:
        O.assert_close(f.deviance(ya, ma), got, what=f"{fam}: deviance without weights", rtol=1e-12)
        # unit weights are no weights
        O.assert_close(f.deviance(ya, ma, np.ones(len(y))), got, what=f"{fam}: deviance with unit weights", rtol=1e-12, atol=tol)


@check("C14", points(), quick=2500, rule="scalar y, mu pairs of every family; the unit deviance is compared with twice the integral of (y-t)/v(t); non-trivial = y differs from mu")
def deviance_integral(c, ctx):
    rng, y, mu, w = setup(c)
    fam = c["fam"]
    name, par = O.fam_param(fam)
    if name == "tweedie" and par < 0:
        y = np.abs(y) + 0.1
    f = O.make_family(fam)
    y, mu = y[:2], mu[:2]
    ud = np.asarray(f.unit_deviance(y, mu), float)
    for yi, mi, d in zip(y, mu, ud):
        if name == "binomial":
            d = d + O.binomial_entropy(yi)
        lo_open = yi == 0 and name in ("poisson", "negbin", "tweedie", "binomial")

        def integrand(t):
            v = np.asarray(f.unit_variance(np.array([t])), float)[0]
            return (yi - t) / v

        start = yi
        if lo_open or name == "binomial" and yi in (0, 1):
            start = yi + (1e-12 if yi == 0 else -1e-12)
        val, err = integrate.quad(integrand, mi, start, epsabs=1e-11, epsrel=1e-10, limit=200)
        ctx.mark(yi != mi)
        O.assert_close(d, 2 * val, rtol=2e-6, atol=3e-6 + 10 * err + single(fam, y, mu), what=f"{fam}: unit deviance against the integral of its variance at y={yi}, mu={mi}")
    ctx.label(f"fam:{fam}")


@check("C14", points(), quick=3000, rule="variance, its derivative, deviance derivative with weights and dispersion for every family; the derivative is also compared with a central difference of the code's own unit deviance; non-trivial = always")
def derivatives(c, ctx):
    rng, y, mu, w = setup(c)
    fam = c["fam"]
    f = O.make_family(fam)
    disp = float(rng.uniform(0.2, 3))
    ctx.label(f"fam:{fam}")
    ctx.mark()
    O.assert_close(f.unit_variance(mu), O.var(fam, mu), rtol=1e-9, what=f"{fam}: unit_variance")
    O.assert_close(f.unit_variance_derivative(mu), O.dvar(fam, mu), rtol=1e-6, atol=1e-7, what=f"{fam}: unit_variance_derivative")
    wv = 1.0 if w is None else np.asarray(w, float)
    ud = -2 * (y - mu) / O.var(fam, mu)
    O.assert_close(f.unit_deviance_derivative(y, mu), ud, rtol=1e-8, what=f"{fam}: unit_deviance_derivative", scale=np.abs(ud).max())
    if w is not None:
        O.assert_close(f.deviance_derivative(y, mu, w), ud * wv, rtol=1e-8, what=f"{fam}: deviance_derivative", scale=np.abs(ud).max())
    pos = np.broadcast_to(np.asarray(wv) > 0, mu.shape)
    wp = np.where(np.broadcast_to(wv, mu.shape) > 0, wv, 1.0)
    O.assert_close(f.variance(mu, disp, wp)[pos], (O.var(fam, mu) * disp / wp)[pos], rtol=1e-9, what=f"{fam}: variance")
    O.assert_close(f.variance_derivative(mu, disp, wp)[pos], (O.dvar(fam, mu) * disp / wp)[pos], rtol=1e-6, atol=1e-7 * disp / wp.min(), what=f"{fam}: variance_derivative")
    h = 1e-5 * np.maximum(np.minimum(np.abs(mu), 1), 1e-2)
    up, dn = np.asarray(f.unit_deviance(y, mu + h)), np.asarray(f.unit_deviance(y, mu - h))
    fd = (up - dn) / (2 * h)
    curv = (1 + np.abs(y - mu)) * (1 + 1 / np.abs(mu) ** 3 if not fam.startswith(("normal", "ghs", "tweedie:0")) else 4) / np.minimum(O.var(fam, mu), 1)
    if fam == "binomial":
        curv = 1 / np.minimum(mu, 1 - mu) ** 3
    noise = (1e-13 + 1e-9 * (single(fam, y, mu) > 0)) * (np.abs(up) + np.abs(y) * 10 + np.abs(mu) * 10 + 1) / np.minimum(O.var(fam, mu), 1) / h
    bad = ~(np.abs(fd - ud) <= 1e-5 * np.abs(ud) + 1e-6 * curv + 100 * noise)
    if bad.any():
        i = np.argmax(bad)
        fail(f"{fam}: d(unit deviance)/dmu at y={y[i]}, mu={mu[i]}: difference quotient {fd[i]}, documented derivative {ud[i]}")


TW = {0: "normal", 1: "poisson", 2: "gamma", 3: "igauss"}


@st.composite
def tweedie_cases(draw):
    return dict(p=draw(st.sampled_from([0, 1, 2, 3])), float=draw(st.booleans()), n=draw(st.integers(2, 12)), seed=draw(G.SEEDS),
                spread=draw(st.sampled_from([0.3, 1.0])), w=draw(st.sampled_from([None, "uniform", "ints"])), y=draw(st.sampled_from(["sample", "edge"])))


@check("C14", tweedie_cases(), quick=1500, rule="Tweedie with power 0, 1, 2, 3 (int or float) against the named family on the same data: deviances, variances, likelihood, dispersion, support; non-trivial = y differs from mu")
def tweedie_special_cases(c, ctx):
    import glum

    named = TW[c["p"]]
    c = dict(c, fam=named)
    rng, y, mu, w = setup(c)
    t = glum.TweedieDistribution(float(c["p"]) if c["float"] else c["p"])
    f = O.make_family(named)
    ctx.mark(np.any(y != mu))
    ctx.label(f"p:{c['p']}")
    kw = dict(rtol=1e-9, atol=1e-9)
    for name, args in [("deviance", (y, mu, w)), ("dispersion", (y, mu, w, 0, "pearson")), ("dispersion", (y, mu, w, 0, "deviance")),
                       ("log_likelihood", (y, mu, w, 0.7))]:
        O.assert_close(getattr(t, name)(*args), getattr(f, name)(*args), what=f"Tweedie({c['p']}).{name} against {named}", **kw)
    O.assert_close(t.unit_deviance(y, mu), f.unit_deviance(y, mu), what=f"Tweedie({c['p']}).unit_deviance", **kw)
    O.assert_close(t.unit_variance(mu), f.unit_variance(mu), what=f"Tweedie({c['p']}).unit_variance", **kw)
    for v in (-np.inf, -1.0, 0.0, 0.5, 1.0, 3.0, np.inf):
        O.assert_true(bool(t.in_y_range(v)) == bool(f.in_y_range(v)), f"Tweedie({c['p']}).in_y_range({v}) differs from {named}")
    O.assert_true(f.to_tweedie() == t, f"{named}.to_tweedie() is not Tweedie({c['p']})")


@check("C14", st.fixed_dictionaries(dict(fam=st.sampled_from(FAMS), x=st.sampled_from([-np.inf, -3.0, -1e-300, 0.0, 1e-300, 0.5, 1.0, 1 + 1e-12, 2.0, 1e300, np.inf, np.nan]), n=st.integers(0, 3))),
       quick=600, rule="support membership of boundary, interior and non-finite values for every family; non-trivial = always")
def support(c, ctx):
    name, par = O.fam_param(c["fam"])
    x = c["x"]
    if name in ("normal", "ghs") or name == "tweedie" and par <= 0:
        want = np.isfinite(x)
    elif name == "binomial":
        want = 0 <= x <= 1
    elif name in ("poisson", "negbin") or name == "tweedie" and par < 2:
        want = 0 <= x < np.inf
    else:
        want = 0 < x < np.inf
    f = O.make_family(c["fam"])
    ctx.mark()
    ctx.label(f"fam:{c['fam']}")
    got = f.in_y_range(np.array([x] * (c["n"] + 1)))
    O.assert_true(got.shape == (c["n"] + 1,) and bool(got.all()) == want and bool(got.any()) == want, f"{c['fam']}.in_y_range({x}) = {got}, expected {want}")
