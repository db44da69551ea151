"""Independent numpy/scipy reference for the documented GLM mathematics.

Everything here is written from the documentation (variance functions, link
definitions, the penalised objective), not from the code under test.
"""
import numpy as np
from scipy import special, stats

from .core import fail


# ----------------------------------------------------------------- links
class L:
    @staticmethod
    def inv(name, eta):
        eta = np.asarray(eta, float)
        if name == "identity":
            return eta
        if name == "log":
            return np.exp(eta)
        if name == "logit":
            return special.expit(eta)
        if name == "cloglog":
            return -np.expm1(-np.exp(eta))
        if name == "probit":
            return special.ndtr(eta)
        if name == "softplus":
            return np.logaddexp(0, eta)
        if name.startswith("tweedie"):
            p = float(name[7:])
            if p == 0:
                return eta
            if p == 1:
                return np.exp(eta)
            return eta ** (1 / (1 - p))
        raise KeyError(name)

    @staticmethod
    def dinv(name, eta):
        eta = np.asarray(eta, float)
        if name == "identity":
            return np.ones_like(eta)
        if name == "log":
            return np.exp(eta)
        if name == "logit":
            return special.expit(eta) * special.expit(-eta)
        if name == "cloglog":
            return np.exp(eta - np.exp(eta))
        if name == "probit":
            return np.exp(-0.5 * eta**2) / np.sqrt(2 * np.pi)
        if name == "softplus":
            return special.expit(eta)
        if name.startswith("tweedie"):
            p = float(name[7:])
            if p == 0:
                return np.ones_like(eta)
            if p == 1:
                return np.exp(eta)
            return 1 / (1 - p) * eta ** (p / (1 - p))
        raise KeyError(name)

    @staticmethod
    def d2inv(name, eta):
        eta = np.asarray(eta, float)
        if name == "identity":
            return np.zeros_like(eta)
        if name == "log":
            return np.exp(eta)
        if name == "logit":
            m = special.expit(eta)
            return m * special.expit(-eta) * (1 - 2 * m)
        if name == "cloglog":
            return np.exp(eta - np.exp(eta)) * (1 - np.exp(eta))
        if name == "probit":
            return -eta * np.exp(-0.5 * eta**2) / np.sqrt(2 * np.pi)
        if name == "softplus":
            return special.expit(eta) * special.expit(-eta)
        if name.startswith("tweedie"):
            p = float(name[7:])
            if p == 0:
                return np.zeros_like(eta)
            if p == 1:
                return np.exp(eta)
            return p / (1 - p) ** 2 * eta ** ((2 * p - 1) / (1 - p))
        raise KeyError(name)

    @staticmethod
    def fwd(name, mu):
        mu = np.asarray(mu, float)
        if name == "identity":
            return mu
        if name == "log":
            return np.log(mu)
        if name == "logit":
            return special.logit(mu)
        if name == "cloglog":
            return np.log(-np.log1p(-mu))
        if name == "probit":
            return special.ndtri(mu)
        if name == "softplus":
            return np.log(np.expm1(mu))
        if name.startswith("tweedie"):
            p = float(name[7:])
            if p == 0:
                return mu
            if p == 1:
                return np.log(mu)
            return mu ** (1 - p)
        raise KeyError(name)


# -------------------------------------------------------------- families
# a family is a string: normal poisson gamma igauss binomial ghs
# tweedie:<p> negbin:<theta>
def fam_param(fam):
    name, _, par = fam.partition(":")
    # glum stores float parameters in single precision
    return name, (float(np.float32(float(par))) if par else None)


def tweedie_power(fam):
    name, p = fam_param(fam)
    return {"normal": 0, "poisson": 1, "gamma": 2, "igauss": 3, "tweedie": p}.get(name)


def var(fam, mu):
    name, par = fam_param(fam)
    mu = np.asarray(mu, float)
    if name == "normal":
        return np.ones_like(mu)
    if name == "poisson":
        return mu
    if name == "gamma":
        return mu**2
    if name == "igauss":
        return mu**3
    if name == "tweedie":
        return mu**par
    if name == "binomial":
        return mu * (1 - mu)
    if name == "ghs":
        return 1 + mu**2
    if name == "negbin":
        return mu + par * mu**2
    if name == "wedderburn":
        return (mu * (1 - mu)) ** 2
    raise KeyError(fam)


def dvar(fam, mu):
    name, par = fam_param(fam)
    mu = np.asarray(mu, float)
    if name == "normal":
        return np.zeros_like(mu)
    if name == "poisson":
        return np.ones_like(mu)
    if name == "gamma":
        return 2 * mu
    if name == "igauss":
        return 3 * mu**2
    if name == "tweedie":
        return par * mu ** (par - 1)
    if name == "binomial":
        return 1 - 2 * mu
    if name == "ghs":
        return 2 * mu
    if name == "negbin":
        return 1 + 2 * par * mu
    if name == "wedderburn":
        return 2 * mu * (1 - mu) * (1 - 2 * mu)
    raise KeyError(fam)


def unit_dev(fam, y, mu):
    """Textbook unit deviance 2*(l(y;y) - l(y;mu)) per observation."""
    name, par = fam_param(fam)
    y, mu = np.asarray(y, float), np.asarray(mu, float)
    if name == "tweedie" and par in (0, 1, 2, 3):
        name = {0: "normal", 1: "poisson", 2: "gamma", 3: "igauss"}[par]
    if name == "normal":
        return (y - mu) ** 2
    if name == "poisson":
        return 2 * (special.xlogy(y, y) - special.xlogy(y, mu) - y + mu)
    if name == "gamma":
        return 2 * (np.log(mu) - np.log(y) + y / mu - 1)
    if name == "igauss":
        return (y - mu) ** 2 / (y * mu**2)
    if name == "tweedie":
        p = par
        return 2 * (
            np.maximum(y, 0.0) ** (2 - p) / ((1 - p) * (2 - p))
            - y * mu ** (1 - p) / (1 - p)
            + mu ** (2 - p) / (2 - p)
        )
    if name == "binomial":
        return 2 * (special.xlogy(y, y) + special.xlogy(1 - y, 1 - y) - special.xlogy(y, mu) - special.xlogy(1 - y, 1 - mu))
    if name == "ghs":
        return 2 * y * (np.arctan(y) - np.arctan(mu)) + np.log((1 + mu**2) / (1 + y**2))
    if name == "negbin":
        r = 1 / par
        return 2 * (special.xlogy(y, y) - special.xlogy(y, mu) - (y + r) * (np.log(y + r) - np.log(mu + r)))
    if name == "wedderburn":
        def q(m):
            return (2 * y - 1) * special.logit(m) - y / m - (1 - y) / (1 - m)
        return 2 * (q(y) - q(mu))
    raise KeyError(fam)


def binomial_entropy(y):
    """What glum's binomial unit deviance omits: zero for y in {0, 1}."""
    y = np.asarray(y, float)
    return 2 * (special.xlogy(y, y) + special.xlogy(1 - y, 1 - y))


def make_family(fam):
    import glum

    name, _, par = fam.partition(":")
    return {
        "normal": lambda: glum.NormalDistribution(),
        "poisson": lambda: glum.PoissonDistribution(),
        "gamma": lambda: glum.GammaDistribution(),
        "igauss": lambda: glum.InverseGaussianDistribution(),
        "binomial": lambda: glum.BinomialDistribution(),
        "ghs": lambda: glum.GeneralizedHyperbolicSecant(),
        "tweedie": lambda: glum.TweedieDistribution(float(par) if "." in par else int(par)),
        "negbin": lambda: glum.NegativeBinomialDistribution(float(par)),
    }[name]()


def make_link(link):
    import glum

    return {
        "identity": glum.IdentityLink,
        "log": glum.LogLink,
        "logit": glum.LogitLink,
        "cloglog": glum.CloglogLink,
    }.get(link, lambda: glum.TweedieLink(float(link[7:])))()


DEFAULT_LINK = {
    "normal": "identity", "poisson": "log", "gamma": "log", "igauss": "log",
    "binomial": "logit", "ghs": "identity", "negbin": "log",
}


def default_link(fam):
    name, p = fam_param(fam)
    if name == "tweedie":
        return "identity" if p <= 0 else "log"
    return DEFAULT_LINK[name]


# -------------------------------------------------------------- objective
class Objective:
    """1/(2 sum w) deviance + alpha*l1*|P1 b|_1 + alpha*(1-l1)/2 b'P2 b on original X.

    If ``scale``, the penalty (and the residual norms) refer to standardised columns.
    """

    def __init__(self, X, y, fam, link, w=None, off=None, alpha=0.0, l1_ratio=0.0,
                 P1=None, P2=None, fit_intercept=True, scale=False):
        self.X = np.asarray(X, float)
        n, p = self.X.shape
        self.y = np.asarray(y, float)
        self.fam, self.link = fam, link
        w = np.ones(n) if w is None else np.asarray(w, float)
        self.w = w / w.sum()
        self.off = np.zeros(n) if off is None else np.asarray(off, float)
        self.P1 = alpha * l1_ratio * (np.ones(p) if P1 is None else np.asarray(P1, float))
        P2 = np.eye(p) if P2 is None else np.asarray(P2, float)
        if P2.ndim == 1:
            P2 = np.diag(P2)
        self.P2 = alpha * (1 - l1_ratio) * (P2 + P2.T) / 2
        self.fi = fit_intercept
        m = self.w @ self.X
        sd = np.sqrt(self.w @ (self.X - m) ** 2)
        # (near-)constant columns are not scaled
        sd = np.where(sd > 1e-6 * np.maximum(1, np.abs(m)), sd, 1.0)
        self.mean = m if fit_intercept else np.zeros(p)
        self.std = sd if scale else np.ones(p)  # the scale the penalty refers to
        self.rstd = sd / self.std  # residuals are measured on standardised columns

    def eta(self, b0, b):
        return self.X @ b + b0 + self.off

    def mu(self, b0, b):
        return L.inv(self.link, self.eta(b0, b))

    def value(self, b0, b):
        c = b * self.std
        dev = self.w @ unit_dev(self.fam, self.y, self.mu(b0, b))
        return 0.5 * dev + np.abs(self.P1 * c).sum() + 0.5 * c @ self.P2 @ c

    def smooth_grad(self, b0, b):
        """Gradient wrt the intercept and the standardised (centred, scaled) coefficients."""
        eta = self.eta(b0, b)
        mu = L.inv(self.link, eta)
        r = -self.w * (self.y - mu) / var(self.fam, mu) * L.dinv(self.link, eta)
        Z = (self.X - self.mean) / self.std
        return r.sum(), Z.T @ r + self.P2 @ (b * self.std)

    def grad_scale(self, b0, b):
        """Magnitude of the terms summed in the gradient, for rounding slack."""
        eta = self.eta(b0, b)
        mu = L.inv(self.link, eta)
        v = var(self.fam, mu)
        d = np.abs(L.dinv(self.link, eta))
        r = self.w * (np.abs(self.y) + np.abs(mu)) / v * d
        Z = np.abs(self.X / self.std) + np.abs(self.mean / self.std)
        xm = np.abs(self.X) @ np.abs(b) + abs(b0) + np.abs(self.off)
        h = self.w * d**2 / v * xm
        c = b * self.std
        return float((1 + (Z / self.rstd).sum(1)) @ (r + h) + ((np.abs(self.P2) @ np.abs(c)) / self.rstd).sum())

    def kkt(self, b0, b, lb=None, ub=None, at_tol=1e-9, zero_tol=0.0):
        """Minimum-norm subgradient of the (box-constrained) objective, measured
        with respect to the coefficients of standardised columns."""
        g0, g = self.smooth_grad(b0, b)
        c = b * self.std
        out = np.empty_like(g)
        for j in range(len(g)):
            if abs(c[j]) <= zero_tol:
                lo, hi = g[j] - self.P1[j], g[j] + self.P1[j]
            else:
                lo = hi = g[j] + np.sign(c[j]) * self.P1[j]
            if lb is not None and b[j] <= lb[j] + at_tol * (1 + abs(lb[j])):
                lo = -np.inf  # normal cone of the lower bound
            if ub is not None and b[j] >= ub[j] - at_tol * (1 + abs(ub[j])):
                hi = np.inf
            out[j] = lo if lo > 0 else hi if hi < 0 else 0.0
        return (g0 if self.fi else 0.0), out / self.rstd


# ------------------------------------------------------------ comparisons
def arr(a):
    return np.asarray(a, dtype=float)


def assert_close(got, want, rtol=1e-7, atol=1e-9, what="", scale=None):
    """Violation unless |got - want| <= atol + rtol * max(|want|, scale)."""
    try:
        got, want = arr(got), arr(want)
    except (TypeError, ValueError):
        fail(f"{what}: not numeric: {got!r}")
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape}, expected {want.shape}")
    ref = np.abs(want) if scale is None else np.maximum(np.abs(want), scale)
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(got - want) <= atol + rtol * ref)
    bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        i = np.argmax(bad) if got.ndim else 0
        fail(
            f"{what}: got {got.ravel()[i]!r}, expected {want.ravel()[i]!r} "
            f"(at {i}; {int(bad.sum())} of {got.size} differ; rtol={rtol}, atol={atol})"
        )


def assert_true(cond, msg):
    if not cond:
        fail(msg)


def random_y(rng, fam, mu):
    """A response in the support of the family with roughly the given mean."""
    name, par = fam_param(fam)
    if name == "normal":
        return mu + rng.normal(size=len(mu))
    if name == "poisson":
        return rng.poisson(np.clip(mu, 0, 1e6)).astype(float)
    if name == "gamma":
        return np.maximum(rng.gamma(2.0, np.clip(mu, 1e-3, 1e6) / 2), 1e-3)
    if name == "igauss":
        return np.maximum(rng.wald(np.clip(mu, 1e-2, 1e6), 3.0), 1e-2)
    if name == "tweedie":
        if par <= 0:
            return mu + (1.0 if par == 0 else 0.4 * np.abs(mu)) * rng.normal(size=len(mu))
        if 1 <= par < 2:
            k = rng.poisson(np.clip(mu, 0, 1e3))
            return np.where(k > 0, rng.gamma(np.maximum(k, 1) * 2.0, 0.5), 0.0)
        return np.maximum(rng.gamma(2.0, np.clip(mu, 1e-3, 1e6) / 2), 1e-2)
    if name == "binomial":
        return (rng.uniform(size=len(mu)) < mu).astype(float)
    if name == "ghs":
        return mu + rng.normal(size=len(mu)) * np.sqrt(1 + mu**2) * 0.5
    if name == "negbin":
        m = np.clip(mu, 1e-6, 1e6)
        return rng.poisson(rng.gamma(1 / par, par * m)).astype(float)
    if name == "wedderburn":
        m = np.clip(mu, 0.02, 0.98)
        return np.clip(rng.beta(6 * m, 6 * (1 - m)), 0.01, 0.99)
    raise KeyError(fam)
