"""C15: likelihoods and dispersion match their definitions."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate, special, stats

from checks.c14 import mean_values, y_values
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

FAMS = ["normal", "poisson", "gamma", "igauss", "binomial", "tweedie:0", "tweedie:1", "tweedie:2", "tweedie:3", "tweedie:1.5",
        "tweedie:1.1", "tweedie:1.3", "tweedie:1.9", "tweedie:2.0", "negbin:1.0", "negbin:0.1", "negbin:3.0"]


def log_w(y, p, phi, j):
    a = (2 - p) / (1 - p)
    logz = -a * np.log(y) + a * np.log(p - 1) - (1 - a) * np.log(phi) - np.log(2 - p)
    return j * logz - special.gammaln(1 + j) - special.gammaln(-a * j)


def tweedie_logpdf(y, mu, p, phi):
    """Density of the compound Poisson-gamma sum, summed over the number of jumps."""
    lam = mu ** (2 - p) / (phi * (2 - p))
    if y == 0:
        return -lam
    shape = (2 - p) / (p - 1)
    scale = phi * (p - 1) * mu ** (p - 1)
    jm = y ** (2 - p) / (phi * (2 - p))
    top = int(jm + 60 * np.sqrt(jm + 10) + 200)
    j = np.arange(1, top + 1)
    t = stats.poisson.logpmf(j, lam) + stats.gamma.logpdf(y, shape * j, scale=scale)
    return special.logsumexp(t)


def unit_ll(fam, y, mu, phi):
    name, par = O.fam_param(fam)
    name = {0: "normal", 1: "poisson", 2: "gamma", 3: "igauss"}.get(par, name) if name == "tweedie" else name
    if name == "normal":
        return stats.norm.logpdf(y, mu, np.sqrt(phi))
    if name == "poisson":
        return special.xlogy(y, mu) - mu - special.gammaln(y + 1)
    if name == "gamma":
        return stats.gamma.logpdf(y, 1 / phi, scale=mu * phi)
    if name == "igauss":
        return stats.invgauss.logpdf(y, mu * phi, scale=1 / phi)
    if name == "binomial":
        return special.xlogy(y, mu) + special.xlogy(1 - y, 1 - mu)
    if name == "negbin":
        r = 1 / par
        return special.gammaln(y + r) - special.gammaln(r) - special.gammaln(y + 1) + special.xlogy(r, 1 / (1 + par * mu)) + special.xlogy(y, par * mu / (1 + par * mu))
    return np.array([tweedie_logpdf(a, b, par, phi) for a, b in zip(y, mu)])


@st.composite
def cases(draw, fams=FAMS):
    return dict(fam=draw(st.sampled_from(fams)), n=draw(st.integers(2, 15)), seed=draw(G.SEEDS),
                y=draw(st.sampled_from(["sample", "sample", "edge", "frac"])), spread=draw(st.sampled_from([0.3, 1.0])),
                w=draw(st.sampled_from([None, "uniform", "ints", "zeros", "scalar"])),
                phi=draw(st.sampled_from([None, None, 0.01, 0.1, 0.5, 1.0, 2.0, 10.0])), ddof=draw(st.integers(0, 3)),
                method=draw(st.sampled_from(["pearson", "pearson", "deviance"])), int=draw(st.booleans()))


def setup(c):
    rng = np.random.default_rng(c["seed"])
    mu = mean_values(rng, c["fam"], c["n"], c["spread"])
    y = y_values(rng, c["fam"], mu, c["y"])
    n = c["n"]
    w = {None: None, "uniform": rng.uniform(0.5, 3, size=n), "ints": rng.integers(1, 5, size=n), "scalar": 2.0,
         "zeros": np.r_[1.5, 0.0, np.full(n - 2, 2.0)]}[c["w"]]
    return rng, y, mu, w


def pearson(fam, y, mu, w, ddof):
    return float(w @ ((y - mu) ** 2 / O.var(fam, mu))) / (w.sum() - ddof)


@check("C15", cases(), quick=6000, rule="log_likelihood of every family offering it at given or estimated dispersion against scipy densities (compound Poisson sum for 1<p<2); non-trivial = some response off its mean")
def likelihood(c, ctx):
    rng, y, mu, w = setup(c)
    fam, phi = c["fam"], c["phi"]
    name, par = O.fam_param(fam)
    wv = np.ones(len(y)) if w is None else np.broadcast_to(np.asarray(w, float), y.shape)
    if fam == "binomial" and c["w"] == "scalar":
        wv = w = np.full(len(y), 2.0)
    tw = name == "tweedie"
    takes_phi = name in ("normal", "gamma", "igauss") or tw and par != 1
    use = phi
    if takes_phi and phi is None:
        use = pearson(fam, y, mu, wv, 1)
        if not 1e-3 < use < 1e4:
            ctx.label("degenerate-dispersion")
            return
    # a large dispersion or shape makes the densities themselves ill-conditioned
    u = unit_ll(fam, y, mu, use)
    want = float(np.sum(np.where(wv > 0, wv * u, 0)))
    f = O.make_family(fam)
    ya = y.astype(int) if c["int"] and np.all(y == np.round(y)) and fam != "normal" else y
    got = f.log_likelihood(ya, mu, w, **({"dispersion": phi} if phi is not None else {}))
    ctx.label(f"fam:{fam}", f"phi:{phi}", f"y:{c['y']}")
    ctx.mark(np.any(wv * np.abs(y - mu) > 0))
    O.assert_close(got, want, rtol=1e-7, atol=1e-8, scale=float(wv @ (np.abs(u) + 1 + (np.abs(y) + mu**2 + 1) / (use or 1) * 1e-2)), what=f"log_likelihood {fam}, dispersion {phi}")
    if w is None:
        O.assert_close(f.log_likelihood(ya, mu, np.ones(len(y)), **({"dispersion": phi} if phi is not None else {})), got, what="unit weights", rtol=1e-10)


@check("C15", cases([f for f in FAMS if f not in ("binomial",)] + ["ghs", "binomial", "tweedie:2.5", "tweedie:4.0", "negbin:0.7"]), quick=4000, rule="dispersion of every family, Pearson or deviance, any ddof and weights against the definition; non-trivial = some response off its mean")
def dispersion(c, ctx):
    rng, y, mu, w = setup(c)
    fam = c["fam"]
    wv = np.ones(len(y)) if w is None else np.broadcast_to(np.asarray(w, float), y.shape)
    if abs(wv.sum() - c["ddof"]) < 0.3:
        return
    if c["method"] == "pearson":
        want = pearson(fam, y, mu, wv, c["ddof"])
        tol = 0
    else:
        u = O.unit_dev(fam, y, mu)
        if fam == "binomial":
            u = u - O.binomial_entropy(y)
        want = float(wv @ u) / (wv.sum() - c["ddof"])
        tol = 1e-8 * float(wv @ (np.abs(y) + np.abs(mu) + 1) ** 2) / np.minimum(O.var(fam, mu).min(), 1)
    f = O.make_family(fam)
    kw = dict(sample_weight=w, ddof=c["ddof"], method=c["method"])
    if w is None:
        kw.pop("sample_weight")
    got = f.dispersion(y.tolist() if c["int"] else y, mu, **kw)
    ctx.label(f"fam:{fam}", c["method"], f"ddof:{c['ddof']}", f"w:{c['w']}")
    ctx.mark(np.any(wv * np.abs(y - mu) > 0))
    O.assert_close(got, want, rtol=1e-6 if fam.startswith("tweedie:4") else 1e-8, atol=1e-10 + tol, what=f"{c['method']} dispersion {fam}, ddof {c['ddof']}, weights {c['w']}")
    if c["ddof"] == 1 and c["method"] == "pearson":
        O.assert_close(f.dispersion(y, mu, w), want, rtol=1e-6, what=f"default dispersion {fam}")


@check("C15", cases([f for f in FAMS if f not in ("binomial",)]), quick=3000, rule="twice the dispersion times the log-likelihood difference between two means equals the difference of the deviances; non-trivial = the two means differ")
def likelihood_vs_deviance(c, ctx):
    rng, y, mu, w = setup(c)
    fam = c["fam"]
    name, par = O.fam_param(fam)
    phi = c["phi"] or 0.7
    if name in ("poisson", "negbin") or name == "tweedie" and par == 1:
        phi = 1.0
    f = O.make_family(fam)
    m2 = mean_values(rng, fam, c["n"], c["spread"])
    a, b = f.log_likelihood(y, mu, w, dispersion=phi), f.log_likelihood(y, m2, w, dispersion=phi)
    d1, d2 = f.deviance(y, mu, w), f.deviance(y, m2, w)
    ctx.mark()
    ctx.label(f"fam:{fam}")
    O.assert_close(2 * phi * (a - b), d2 - d1, rtol=1e-7, atol=1e-8, scale=abs(d1) + abs(d2) + phi * (abs(a) + abs(b)), what=f"{fam}: likelihood ratio against deviance difference")


@st.composite
def densities(draw):
    return dict(fam=draw(st.sampled_from(["gamma", "igauss", "normal", "tweedie:1.5", "tweedie:1.2", "tweedie:1.8", "tweedie:1.65"])),
                mu=draw(st.floats(0.3, 3)), phi=draw(st.floats(0.3, 1.5)))


@check("C15", densities(), quick=120, thorough=3000, rule="exp(log_likelihood) of one observation integrates (with the atom at zero) to one; non-trivial = always")
def normalisation(c, ctx):
    f = O.make_family(c["fam"])
    mu, phi = round(c["mu"], 3), round(c["phi"], 3)

    def dens(y):
        return np.exp(f.log_likelihood(np.array([y]), np.array([mu]), np.array([1.0]), dispersion=phi))

    if c["fam"] == "normal":
        tot = integrate.quad(dens, mu - 12 * np.sqrt(phi), mu + 12 * np.sqrt(phi), points=[mu], limit=300)[0]
        tol = 1e-6
    else:
        # integrate over log y
        g = lambda t: dens(np.exp(t)) * np.exp(t)
        lo = -30 if c["fam"] == "igauss" else -80
        tot = integrate.quad(g, lo, -8, limit=400)[0] + integrate.quad(g, -8, 0, limit=400)[0] + integrate.quad(g, 0, 6, limit=400)[0]
        tol = 1e-4
        if c["fam"].startswith("tweedie"):
            tot += dens(0.0)
    ctx.mark()
    ctx.label(c["fam"])
    O.assert_close(tot, 1.0, rtol=0, atol=tol, what=f"total probability of {c['fam']} with mean {mu}, dispersion {phi}")
