"""C17: links are consistent smooth bijections."""
import numpy as np
from hypothesis import strategies as st
from scipy import special

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

LINKS = ["identity", "log", "logit", "cloglog", "tweedie0", "tweedie1", "tweedie1.5", "tweedie2", "tweedie3", "tweedie2.5", "tweedie1.25", "tweedie-1", "tweedie4"]


def mu_range(link):
    if link in ("identity", "tweedie0"):
        return "real"
    if link in ("logit", "cloglog"):
        return "unit"
    return "positive"


def draw_mu(rng, link, n, far):
    k = mu_range(link)
    if k == "real":
        return rng.normal(size=n) * (1e3 if far else 2)
    if k == "unit":
        m = rng.uniform(0.02, 0.98, size=n)
        return 1 / (1 + np.exp(-rng.uniform(-14, 14, size=n))) if far else m
    return np.exp(rng.normal(size=n) * (2.5 if far else 0.7))


@st.composite
def cases(draw):
    return dict(link=draw(st.sampled_from(LINKS)), n=draw(st.integers(0, 6)), seed=draw(G.SEEDS), far=draw(st.booleans()),
                kind=draw(st.sampled_from(["array", "scalar", "npscalar", "f32", "2d", "int"])))


def shaped(c, a):
    k = c["kind"]
    if k == "scalar":
        return float(a[0])
    if k == "npscalar":
        return np.float64(a[0])
    if k == "f32":
        return a.astype(np.float32)
    if k == "2d":
        return a.reshape(1, -1)
    return a


def single(c):
    # a python float meets a parameter kept in single precision
    return c["kind"] == "f32" or c["kind"] == "scalar" and c["link"].startswith("tweedie")


def exponent32(link):
    # the exponents 1/(1-p), ... of a float power are rounded to single precision
    return link.startswith("tweedie") and float(link[7:]) not in (0, 1)


def shape_ok(out, inp, what):
    if np.shape(out) != np.shape(inp):
        fail(f"{what}: shape {np.shape(out)} for an argument of shape {np.shape(inp)}")


@check("C17", cases(), quick=6000, rule="all links and several Tweedie powers, scalar/array/2-d/float32/integer arguments: closed form, g(h(x))=x, h(g(m))=m, monotone, shape kept, arguments unchanged; non-trivial = at least one value")
def bijection(c, ctx):
    rng = np.random.default_rng(c["seed"])
    link = c["link"]
    l = O.make_link(link)
    n = max(c["n"], 1) if c["kind"] in ("scalar", "npscalar") else c["n"]
    mu0 = draw_mu(rng, link, n, c["far"])
    if c["kind"] == "int":
        if mu_range(link) == "unit":
            return
        mu0 = rng.integers(1, 9, size=n)
        if isinstance(l.__class__.__name__, str) and link.startswith("tweedie") and link not in ("tweedie0", "tweedie1"):
            return
    mu = shaped(c, mu0)
    keep = np.array(mu, copy=True)
    tol = 5e-5 if single(c) else 1e-6 if exponent32(link) else 1e-8
    ctx.label(f"link:{link}", f"kind:{c['kind']}")
    ctx.mark(n > 0)
    eta = l.link(mu)
    shape_ok(eta, mu, f"{link}.link")
    m64 = np.asarray(mu, float)
    want = O.L.fwd(link, m64)
    if mu_range(link) == "unit" and c["kind"] == "f32":
        sel = (m64 > 1e-3) & (m64 < 1 - 1e-3)
    else:
        sel = np.ones(m64.shape, bool)
    O.assert_close(np.asarray(eta, float)[sel], want[sel], rtol=tol, atol=tol * 10, what=f"{link}.link")
    back = l.inverse(eta)
    shape_ok(back, eta, f"{link}.inverse")
    amp = 40 if mu_range(link) != "real" else 1
    O.assert_close(np.asarray(back, float)[sel], m64[sel], rtol=tol * amp, atol=tol * 10, what=f"{link}: inverse(link(mu))")
    again = l.link(back)
    O.assert_close(np.asarray(again, float)[sel], np.asarray(eta, float)[sel], rtol=tol * amp * 10, atol=tol * amp * (1e3 if c["far"] else 10), what=f"{link}: link(inverse(eta))")
    O.assert_true(np.array_equal(keep, mu), f"{link}: argument changed")
    # strictly monotone
    if np.ndim(mu) == 1 and n > 1 and c["kind"] != "int":
        o = np.argsort(m64)
        d = np.diff(np.asarray(eta, float)[o])
        inc = not (link.startswith("tweedie") and float(link[7:]) > 1)
        gap = np.diff(m64[o]) > 1e-4 * np.abs(m64[o][1:])
        O.assert_true(np.all((d if inc else -d)[gap] > 0), f"{link} is not monotone")


@check("C17", cases(), quick=6000, rule="derivative, inverse_derivative and inverse_derivative2 of all links against closed forms and against difference quotients of the code's own functions; non-trivial = at least one value")
def derivatives(c, ctx):
    rng = np.random.default_rng(c["seed"])
    link = c["link"]
    l = O.make_link(link)
    n = max(c["n"], 1)
    mu0 = draw_mu(rng, link, n, False)
    eta0 = O.L.fwd(link, mu0)
    if c["kind"] == "int":
        return
    mu, eta = shaped(c, mu0), shaped(c, eta0)
    tol = 1e-4 if single(c) else 3e-6 if exponent32(link) else 1e-7
    ctx.label(f"link:{link}", f"kind:{c['kind']}")
    ctx.mark()
    m64, e64 = np.asarray(mu, float), np.asarray(eta, float)
    d, i1, i2 = l.derivative(mu), l.inverse_derivative(eta), l.inverse_derivative2(eta)
    for o, a, nm in [(d, mu, "derivative"), (i1, eta, "inverse_derivative"), (i2, eta, "inverse_derivative2")]:
        shape_ok(o, a, f"{link}.{nm}")
    w1, w2 = O.L.dinv(link, e64), O.L.d2inv(link, e64)
    O.assert_close(i1, w1, rtol=tol, atol=tol, what=f"{link}.inverse_derivative")
    O.assert_close(i2, w2, rtol=tol, atol=tol, scale=np.abs(w1), what=f"{link}.inverse_derivative2")
    O.assert_close(d, 1 / w1, rtol=tol * 10, atol=tol, what=f"{link}.derivative")
    if single(c):
        for o, nm in [(d, "derivative"), (i1, "inverse_derivative"), (i2, "inverse_derivative2")]:
            if isinstance(o, np.ndarray) and c["kind"] == "f32":
                O.assert_true(o.dtype == np.float32, f"{link}.{nm} turns float32 into {o.dtype}")
        return
    h = 1e-5 * np.maximum(1e-2, np.minimum(1, np.abs(e64)))
    fd = (np.asarray(l.inverse(eta + h), float) - np.asarray(l.inverse(eta - h), float)) / (2 * h)
    sc = 1 + np.abs(w1) + np.abs(w2) * (1 + 1 / np.minimum(np.abs(e64), 1))
    O.assert_close(fd, i1, rtol=1e-5, atol=1e-5, scale=sc, what=f"{link}: difference quotient of the inverse against inverse_derivative")
    fd2 = (np.asarray(l.inverse_derivative(eta + h), float) - np.asarray(l.inverse_derivative(eta - h), float)) / (2 * h)
    sc2 = 1 + np.abs(w2) * (1 + 1 / np.minimum(np.abs(e64), 1)) * (1 + 1 / np.minimum(np.abs(e64), 1))
    O.assert_close(fd2, i2, rtol=1e-5, atol=1e-5, scale=sc2, what=f"{link}: difference quotient of inverse_derivative against inverse_derivative2")


@check("C17", st.fixed_dictionaries(dict(link=st.sampled_from(["logit", "cloglog"]), eta=st.lists(st.one_of(st.floats(-700, 700), st.floats(-40, 40), st.floats(-1e300, 1e300)), min_size=1, max_size=5), f32=st.booleans())),
       quick=3000, rule="binomial links at arbitrarily large linear predictors: inverse strictly inside (0,1), finite, monotone, within the clipping tolerance of the exact value, derivatives finite and non-negative; non-trivial = some |eta| > 30")
def extremes(c, ctx):
    l = O.make_link(c["link"])
    dt = np.float32 if c["f32"] else np.float64
    eta = np.array(c["eta"])
    if c["f32"]:
        eta = np.clip(eta, -1e37, 1e37)
    eta = eta.astype(dt)
    eps = 50 * np.finfo(dt).eps
    ctx.mark(np.any(np.abs(eta) > 30))
    ctx.label(c["link"], f"f32:{c['f32']}")
    with np.errstate(all="ignore"):
        mu = l.inverse(eta)
        d1, d2 = l.inverse_derivative(eta), l.inverse_derivative2(eta)
        want = O.L.inv(c["link"], eta.astype(float))
    O.assert_true(mu.dtype == dt, f"{c['link']}: inverse turns {dt} into {mu.dtype}")
    O.assert_true(np.all((mu > 0) & (mu < 1)), f"{c['link']}: inverse {mu} leaves (0, 1) at {eta}")
    O.assert_close(mu, want, rtol=1e-5 if c["f32"] else 1e-10, atol=2 * eps, what=f"{c['link']}.inverse at {eta}")
    O.assert_true(np.all(np.isfinite(d1) & (d1 >= 0)), f"{c['link']}: inverse_derivative {d1} at {eta}")
    if c["link"] == "logit" or np.all(eta < (80 if c["f32"] else 600)):
        O.assert_true(np.all(np.isfinite(d2)), f"{c['link']}: inverse_derivative2 {d2} at {eta}")
    o = np.argsort(eta)
    O.assert_true(np.all(np.diff(mu[o]) >= 0), f"{c['link']}: inverse not monotone at {eta}")


@check("C17", st.fixed_dictionaries(dict(p=st.sampled_from([0, 1, 0.0, 1.0]), seed=G.SEEDS, n=st.integers(1, 5))), quick=400,
       rule="TweedieLink with power 0/1 (int or float) against identity and log in all five methods; non-trivial = always")
def tweedie_specials(c, ctx):
    import glum

    rng = np.random.default_rng(c["seed"])
    t = glum.TweedieLink(c["p"])
    o = glum.IdentityLink() if c["p"] == 0 else glum.LogLink()
    x = np.exp(rng.normal(size=c["n"]))
    ctx.mark()
    for m in ("link", "derivative", "inverse", "inverse_derivative", "inverse_derivative2"):
        O.assert_close(getattr(t, m)(x), getattr(o, m)(x), rtol=1e-12, what=f"TweedieLink({c['p']}).{m}")
        O.assert_close(getattr(t, m)(float(x[0])), getattr(o, m)(float(x[0])), rtol=1e-12, what=f"TweedieLink({c['p']}).{m} of a scalar")
    O.assert_true(o.to_tweedie() == t, f"{o}.to_tweedie() is not TweedieLink({c['p']})")
    for other in (glum.LogitLink(), glum.CloglogLink()):
        O.assert_true(other.to_tweedie(safe=False) is None, f"{other}.to_tweedie(safe=False) is not None")
        try:
            other.to_tweedie()
            fail(f"{other} has a Tweedie representation")
        except ValueError:
            pass
    O.assert_true(glum.TweedieLink(c["p"]) == t and not t == glum.TweedieLink(1.5), "TweedieLink equality")


@check("C17", st.fixed_dictionaries(dict(p=st.sampled_from([1.5, 2, 3, 2.5, 1.25]), seed=G.SEEDS, n=st.integers(1, 5), m=st.sampled_from(["inverse", "inverse_derivative", "inverse_derivative2"]))), quick=400,
       rule="Tweedie links with fractional exponents refuse linear predictors outside their domain with a ValueError; non-trivial = exponent is fractional")
def tweedie_domain(c, ctx):
    import glum

    rng = np.random.default_rng(c["seed"])
    p = c["p"]
    t = glum.TweedieLink(p)
    e = np.array([1.0] * c["n"] + [-abs(rng.normal()) - 0.1])
    ex = {"inverse": 1 / (1 - p), "inverse_derivative": p / (1 - p), "inverse_derivative2": (2 * p - 1) / (1 - p)}[c["m"]]
    frac = abs(ex - round(ex)) > 1e-9
    ctx.mark(frac)
    ctx.label(f"fractional:{frac}")
    try:
        out = getattr(t, c["m"])(e)
    except ValueError:
        O.assert_true(frac, f"TweedieLink({p}).{c['m']} rejects a negative linear predictor with integer exponent")
        return
    O.assert_true(not frac, f"TweedieLink({p}).{c['m']} of a negative linear predictor gave {out}")
