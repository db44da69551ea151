"""C27: family and link names resolve to the documented objects."""
import string

import numpy as np
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

# documented name -> family and link in the notation of the oracle
FAMILY = {
    "binomial": "binomial", "gamma": "gamma", "gaussian": "normal", "normal": "normal", "inverse.gaussian": "igauss", "poisson": "poisson", "tweedie": "tweedie:1.5", "negative.binomial": "negbin:1.0",
}
LINK = {"identity": "identity", "log": "log", "logit": "logit", "cloglog": "cloglog", "tweedie": "tweedie1.5"}
CLASS = {
    "binomial": "BinomialDistribution", "gamma": "GammaDistribution", "normal": "NormalDistribution", "igauss": "InverseGaussianDistribution", "poisson": "PoissonDistribution", "tweedie": "TweedieDistribution", "negbin": "NegativeBinomialDistribution",
    "ghs": "GeneralizedHyperbolicSecant",
}
LINK_CLASS = {"identity": "IdentityLink", "log": "LogLink", "logit": "LogitLink", "cloglog": "CloglogLink", "tweedie": "TweedieLink"}
NAMED = list(FAMILY) + ["tweedie p", "negative.binomial p"]
LINKED = list(LINK) + ["tweedie p", "auto"]


@st.composite
def cases(draw):
    # a number, and how it is written in the name
    kind = draw(st.sampled_from(["float", "short", "int", "exp", "fixed", "plus"]))
    return dict(family=draw(st.integers(0, len(NAMED) - 1)), link=draw(st.integers(0, len(LINKED) - 1)), number=kind, space=draw(st.booleans()), cv=draw(st.booleans()), seed=draw(G.SEEDS))


def written(rng, kind, x):
    """x in some notation, and the number this notation stands for."""
    s = {"float": repr(float(x)), "short": f"{x:.3g}", "int": str(int(round(x))), "exp": f"{x:.4e}", "fixed": f"{x:.2f}", "plus": f"+{x:.3f}"}[kind]
    if kind == "plus" and x < 0:
        s = s[1:]
    return s, float(s)


def power(rng, kind):
    """A power for which a Tweedie distribution exists."""
    while True:
        x = [rng.uniform(1, 2), rng.uniform(2, 5), -rng.uniform(0.01, 3), rng.integers(-2, 6)][rng.integers(4)]
        s, v = written(rng, kind, float(x))
        # not in (0, 1), and not next to 0, 1 or 2, where the formulas cancel
        if not 0 < np.float32(v) < 1 and all(v == k or abs(v - k) > 0.02 for k in (0, 1, 2)):
            return s, v


def name_family(c, rng):
    """A documented family string with the family of the oracle it stands for."""
    name = NAMED[(c["family"] + c["seed"]) % len(NAMED)]
    if name == "tweedie p":
        s, v = power(rng, c["number"])
        return f"tweedie{' ' * c['space']}({s})", f"tweedie:{v}"
    if name == "negative.binomial p":
        while True:
            s, v = written(rng, c["number"], float(np.exp(rng.normal())))
            if v > 0:
                return f"negative.binomial{' ' * c['space']}({s})", f"negbin:{v}"
    return name, FAMILY[name]


def name_link(c, rng):
    name = LINKED[(c["link"] + c["seed"] // 7) % len(LINKED)]
    if name == "tweedie p":
        s, v = power(rng, c["number"])
        return f"tweedie{' ' * c['space']}({s})", f"tweedie{v}"
    return name, LINK.get(name)


def estimator(c, **kw):
    import glum

    return (glum.GeneralizedLinearRegressorCV if c["cv"] else glum.GeneralizedLinearRegressor)(**kw)


def check_family(obj, fam, rng, what):
    import glum

    if not isinstance(obj, getattr(glum, CLASS[fam.partition(":")[0]])):
        fail(f"{what} gives a {type(obj).__name__}")
    mu = rng.uniform(0.1, 0.9, size=4)
    O.assert_close(obj.unit_variance(mu), O.var(fam, mu), 1e-5, 1e-8, f"{what}: variance function")
    y = np.where(rng.random(4) < 0.5, rng.integers(0, 2, size=4), rng.uniform(0.05, 0.95, size=4))
    if fam.split(":")[0] in ("gamma", "igauss") or (O.tweedie_power(fam) or 0) >= 2:
        y = np.maximum(y, 0.05)
    if fam == "binomial":
        y = np.round(y)
    d = O.unit_dev(fam, y, mu)
    if np.all(np.isfinite(d)):
        O.assert_close(obj.unit_deviance(y, mu), d, 1e-4, 1e-5, f"{what}: deviance")
    t = np.array([-1.0, 0.0, 0.5, 1.0, 2.0])
    p = O.tweedie_power(fam)
    if fam == "binomial":
        want = (t >= 0) & (t <= 1)
    elif fam.startswith("negbin"):
        want = t >= 0
    elif p <= 0:
        want = np.full(5, True)
    else:
        want = t >= 0 if p < 2 else t > 0
    if not np.array_equal(np.asarray(obj.in_y_range(t)), want):
        fail(f"{what}: admits responses {t[np.asarray(obj.in_y_range(t))]} of {t}")


def check_link(obj, link, rng, what):
    import glum

    if not isinstance(obj, getattr(glum, LINK_CLASS["tweedie" if link.startswith("tweedie") else link])):
        fail(f"{what} gives a {type(obj).__name__}")
    mu = rng.uniform(0.1, 0.9, size=4)
    O.assert_close(obj.link(mu), O.L.fwd(link, mu), 1e-4, 1e-5, f"{what}: link")
    eta = rng.uniform(0.4, 1.6, size=4)
    O.assert_close(obj.inverse(eta), O.L.inv(link, eta), 1e-4, 1e-5, f"{what}: inverse link")


def auto(fam):
    if fam == "binomial":
        return "logit"
    if fam.startswith("negbin"):
        return "log"
    return "log" if O.tweedie_power(fam) > 0 else "identity"


@check("C27", cases(), quick=6000, rule="documented family and link names, Tweedie powers and negative binomial parameters in 6 notations with and without a space, automatic links: class, variance function, deviance, support, link and inverse link against the closed forms; non-trivial = parametrised name or automatic link")
def names(c, ctx):
    rng = np.random.default_rng(c["seed"])
    text, fam = name_family(c, rng)
    ltext, link = name_link(c, rng)
    m = estimator(c, family=text, link=ltext)
    check_family(m.family_instance, fam, rng, f"family {text!r}")
    check_link(m.link_instance, link or auto(fam), rng, f"link {ltext!r}" + (f" for {text!r}" if link is None else ""))
    if m.get_params()["family"] != text or m.get_params()["link"] != ltext:
        fail(f"parameters {text!r}, {ltext!r} are stored as {m.get_params()['family']!r}, {m.get_params()['link']!r}")
    ctx.label(text.split("(")[0])
    ctx.label("link " + ltext.split("(")[0])
    ctx.mark("(" in text or "(" in ltext or link is None)


BASES = list(FAMILY) + list(LINK) + ["tweedie (1.5)", "negative.binomial (2)", "auto"]


@st.composite
def wrong(draw):
    return dict(seed=draw(G.SEEDS), base=draw(st.integers(0, len(BASES) - 1)), edits=draw(st.integers(1, 3)), which=draw(st.sampled_from(["edit", "text", "case", "space", "number"])), cv=draw(st.booleans()), link=draw(st.booleans()))


def spoil(c, rng):
    s = BASES[(c["base"] + c["seed"]) % len(BASES)]
    if c["which"] == "text":
        return "".join(rng.choice(list(string.ascii_lowercase + " ._-"), size=rng.integers(0, 12)))
    if c["which"] == "case":
        return [s.upper(), s.capitalize(), s.title()][rng.integers(3)]
    if c["which"] == "space":
        return [s + " ", " " + s, s.replace(".", " "), s.replace(".", "_"), s.replace(".", "")][rng.integers(5)]
    if c["which"] == "number":
        n = ["", "a", "1,5", "0.5", "0.01", "0.99", "1.5)(", "--1", "one"][rng.integers(9)]
        return f"tweedie ({n})" if c["link"] or rng.random() < 0.6 else "negative.binomial (%s)" % ["", "a", "0", "-1", "1,5", "-0.001"][rng.integers(6)]
    for _ in range(c["edits"]):
        i = rng.integers(len(s) + 1)
        ch = rng.choice(list(string.ascii_lowercase + "._"))
        k = rng.integers(3)
        s = s[:i] + ch + s[i:] if k == 0 else s[:i] + s[i + 1 :] if k == 1 else s[:i] + ch + s[i + 1 :]
    return s


@check("C27", wrong(), quick=4000, rule="strings that are no names (edited names, random text, other capitalisation and spacing, impossible parameters) are rejected by ValueError as family or link in fit; non-trivial = rejected")
def others(c, ctx):
    rng = np.random.default_rng(c["seed"])
    text = spoil(c, rng)
    known = LINK if c["link"] else FAMILY
    if text in known or c["link"] and text == "auto":
        return
    # anything around a parametrised name is not part of the claim
    head, _, tail = text.partition("(")
    if tail and c["which"] != "number" and ("tweedie" in head or "negative" in head):
        return
    X = rng.normal(size=(12, 2))
    y = rng.uniform(0.2, 0.8, size=12)
    m = estimator(c, **({"family": "normal", "link": text} if c["link"] else {"family": text}))
    try:
        G.quiet_fit(m, X, y)
    except ValueError:
        pass
    except Exception as e:
        fail(f"{'link' if c['link'] else 'family'} {text!r}: {type(e).__name__}: {e}")
    else:
        fail(f"{'link' if c['link'] else 'family'} {text!r} is accepted as {m.link_instance if c['link'] else m.family_instance}")
    ctx.label(c["which"])
    ctx.mark(True)


@check("C27", cases(), quick=1000, rule="fitting with names gives bit for bit the coefficients, predictions and score of fitting with the instances they stand for, the explicit link those of the automatic link, and instances are used as they are and pass through clones; non-trivial = coefficients not all zero")
def fitting(c, ctx):
    from sklearn.base import clone

    rng = np.random.default_rng(c["seed"])
    text, fam = name_family(c, rng)
    p = O.tweedie_power(fam)
    link = auto(fam)
    X = rng.normal(size=(40, 3))
    mu = O.L.inv(link, 0.4 * X[:, 0] + 0.2)
    y = mu * np.exp(0.3 * rng.normal(size=40)) if fam != "binomial" else (rng.random(40) < mu).astype(float)
    if p is not None and p <= 0:
        # one outlier-free response around zero; negative powers need positive means
        y = mu + 0.3 * rng.normal(size=40) if p == 0 else 3 + 0.2 * X[:, 0] + 0.2 * rng.normal(size=40)
    F, Lk = O.make_family(fam), O.make_link(link)
    par = dict(alphas=[0.3, 0.02], cv=3) if c["cv"] else dict(alpha=0.02)
    if p == 1.5 and c["cv"] is False:
        par["l1_ratio"] = 0.5
    combos = [dict(family=text), dict(family=text, link=link), dict(family=text, link=Lk), dict(family=F), dict(family=F, link=Lk), dict(family=F, link="auto"), dict(family=F, link=None)]
    if text in ("normal", "gaussian"):
        combos.append(dict(family={"normal": "gaussian", "gaussian": "normal"}[text]))
    first = None
    for k in combos:
        m = estimator(c, **k, **par)
        if rng.random() < 0.3:
            m = clone(m)
        G.quiet_fit(m, X, y)
        if k["family"] is F and not (m.family_instance is F or m.family_instance == F):
            fail(f"the instance {F} becomes {m.family_instance}")
        if k.get("link") is Lk and not (m.link_instance is Lk or m.link_instance == Lk):
            fail(f"the instance {Lk} becomes {m.link_instance}")
        got = np.r_[m.intercept_, m.coef_, m.predict(X), m.score(X, y)]
        if first is None:
            first = got
        elif not np.array_equal(first, got, equal_nan=True):
            fail(f"{k} gives {got[:4]}, {combos[0]} gives {first[:4]}")
    ctx.label(text.split("(")[0])
    ctx.mark(np.any(first[1:4] != 0))
