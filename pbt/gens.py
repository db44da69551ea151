"""Structured generators.  A case is a small JSON dict of structural choices; the
bulk numbers are expanded deterministically from integers Hypothesis draws."""
import warnings
import zlib

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from . import oracle as O

SEEDS = st.integers(0, 2**24)

FAMILIES_LOGLIKE = ["poisson", "gamma", "tweedie:1.5", "tweedie:1.2", "tweedie:1.9", "igauss", "negbin:1.0", "negbin:0.3"]
FAM_LINKS = [
    ("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"),
    ("tweedie:1.5", "log"), ("tweedie:1.2", "log"), ("tweedie:1.9", "log"), ("igauss", "log"),
    ("negbin:1.0", "log"), ("negbin:0.3", "log"), ("negbin:2.5", "log"),
    ("binomial", "cloglog"), ("normal", "log"), ("tweedie:0", "identity"),
    ("tweedie:1", "log"), ("tweedie:2", "log"), ("tweedie:3", "log"), ("tweedie:2.5", "log"),
    ("ghs", "identity"),
]
# the ones with a convex deviance in the linear predictor
CONVEX = [
    ("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"),
    ("tweedie:1.5", "log"), ("tweedie:1.2", "log"), ("tweedie:1.9", "log"),
    ("negbin:1.0", "log"), ("negbin:0.3", "log"), ("binomial", "cloglog"),
    ("tweedie:0", "identity"), ("tweedie:1", "log"), ("tweedie:2", "log"),
]
COLS = ["normal", "normal", "uniform", "binary", "sparse", "ints", "shifted", "big", "small", "skew"]
DEGENERATE = ["const", "zero", "dup"]


@st.composite
def problems(draw, fams=FAM_LINKS, cols=COLS, min_n=4, max_n=50, min_p=1, max_p=6, degenerate=False,
             weights=("none", "none", "uniform", "zeros", "ints", "tiny", "wide"), offsets=(False, True),
             l1=(0.0, 0.3, 0.5, 0.9, 1.0), alphas=(0.0, 0.001, 0.01, 0.03, 0.1, 0.5, 1.0), intercept=(True, True, False),
             scale=(False, False, True), P1s=("identity", "identity", "vec", "veczero"),
             P2s=("identity", "identity", "vec", "veczero", "full", "psd", "asym")):
    fam, link = draw(st.sampled_from(list(fams)))
    n = draw(st.integers(min_n, max_n))
    p = draw(st.integers(min_p, max_p))
    kinds = list(cols) + (DEGENERATE if degenerate else [])
    fi = draw(st.sampled_from(list(intercept)))
    alpha, l1r = draw(st.sampled_from(list(alphas))), draw(st.sampled_from(list(l1)))
    P2 = draw(st.sampled_from(list(P2s)))
    if (alpha * (1 - l1r) == 0 or P2 in ("psd", "veczero")) and fam not in ("normal", "tweedie:0"):
        # without a ridge penalty, enough data that a finite optimum usually exists
        n = max(n, min(6 * (p + 1) + 4, max_n))
    return dict(
        fam=fam, link=link, n=n, seed=draw(SEEDS),
        cols=draw(st.lists(st.sampled_from(kinds), min_size=p, max_size=p)),
        signal=draw(st.sampled_from([0.0, 0.3, 0.3, 1.0])),
        w=draw(st.sampled_from(list(weights))),
        off=draw(st.sampled_from(list(offsets))),
        alpha=alpha, l1=l1r,
        P1=draw(st.sampled_from(list(P1s))), P2=P2,
        fi=fi, scale=draw(st.sampled_from(list(scale))) if fi else False,
    )


def column(rng, kind, n, prev):
    if kind == "normal":
        return rng.normal(size=n)
    if kind == "uniform":
        return rng.uniform(-1, 1, size=n)
    if kind == "binary":
        return (rng.uniform(size=n) < 0.4).astype(float)
    if kind == "sparse":
        return np.where(rng.uniform(size=n) < 0.25, rng.normal(size=n), 0.0)
    if kind == "ints":
        return rng.integers(-3, 4, size=n).astype(float)
    if kind == "shifted":
        return rng.normal(size=n) + 3.0
    if kind == "big":
        return rng.normal(size=n) * 8
    if kind == "small":
        return rng.normal(size=n) * 0.05
    if kind == "fine":  # hardly varies, but is not constant
        return rng.normal(size=n) * 10 ** rng.uniform(-5, -2)
    if kind == "skew":
        return rng.gamma(1.0, size=n)
    if kind == "const":
        return np.full(n, 1.5)
    if kind == "zero":
        return np.zeros(n)
    if kind == "dup":
        return prev[0].copy() if prev else rng.normal(size=n)
    raise KeyError(kind)


class Problem:
    """The arrays of a case."""

    def __init__(self, c):
        self.c = c
        rng = np.random.default_rng(c["seed"])
        n, p = c["n"], len(c["cols"])
        cols = []
        for k in c["cols"]:
            cols.append(column(rng, k, n, cols))
        self.X = np.column_stack(cols)
        self.fam, self.link = c["fam"], c["link"]
        Z = self.X - self.X.mean(0)
        sd = Z.std(0)
        Z = Z / np.where(sd > 1e-8, sd, 1)
        beta = rng.normal(size=p) * c.get("signal", 0.3)
        lin = Z @ beta / np.sqrt(p)
        self.off = rng.uniform(-0.5, 0.5, size=n) if c.get("off") else None
        link = self.link
        if link in ("log", "logit", "cloglog", "probit", "softplus"):
            eta0 = lin + rng.uniform(-0.5, 0.7)
            mu = O.L.inv(link, np.clip(eta0 + (0 if self.off is None else self.off), -3, 3))
            if self.fam == "normal":
                self.y = np.abs(mu + 0.3 * rng.normal(size=n)) + 0.2
            else:
                self.y = O.random_y(rng, self.fam, mu)
        elif link == "identity":
            mu = lin + rng.normal() + (0 if self.off is None else self.off)
            self.y = O.random_y(rng, self.fam, mu)
        else:
            raise KeyError(link)
        self._fix_y(rng)
        self.w = {
            "none": lambda: None,
            "uniform": lambda: rng.uniform(0.2, 2, size=n),
            "zeros": lambda: self._zeros(rng, n),
            "ints": lambda: rng.integers(1, 4, size=n).astype(float),
            "tiny": lambda: rng.uniform(0.2, 2, size=n) * 1e-6,
            "wide": lambda: 10.0 ** rng.uniform(-2, 2, size=n),
        }[c.get("w", "none")]()
        self.fi, self.scale = c.get("fi", True), c.get("scale", False)
        self.alpha, self.l1 = c.get("alpha", 0.0), c.get("l1", 0.0)
        k = c.get("P1", "identity")
        self.P1 = None if k == "identity" else rng.uniform(0.2, 2, size=p)
        if k == "veczero":
            self.P1[rng.integers(p)] = 0.0
        k = c.get("P2", "identity")
        self.P2 = None
        if k in ("vec", "veczero"):
            self.P2 = rng.uniform(0.2, 2, size=p)
            if k == "veczero":
                self.P2[rng.integers(p)] = 0.0
        elif k in ("full", "asym"):
            A = rng.normal(size=(p, p))
            self.P2 = A @ A.T / p + 0.3 * np.eye(p)
            if k == "asym":
                B = rng.normal(size=(p, p)) * 0.3
                self.P2 = self.P2 + np.triu(B, 1) - np.triu(B, 1).T
        elif k == "psd":
            D = np.diff(np.eye(p), axis=0)
            self.P2 = D.T @ D if p > 1 else np.ones((1, 1))
            if p >= 4 and rng.integers(2):
                # few entries, none of them needed on the diagonal of the other columns
                i, j = rng.choice(p, size=2, replace=False)
                self.P2 = np.zeros((p, p))
                self.P2[np.ix_([i, j], [i, j])] = [[1, -1], [-1, 1]]
        self.rng = rng

    @staticmethod
    def _zeros(rng, n):
        w = rng.uniform(0.2, 2, size=n)
        w[rng.uniform(size=n) < 0.2] = 0
        w[0] = w[-1] = 1.0
        return w

    def _fix_y(self, rng):
        """Keep trivial all-equal responses (mean on the boundary) out."""
        name = self.fam.split(":")[0]
        if name in ("poisson", "negbin", "tweedie") and self.link == "log":
            self.y[0], self.y[-1] = max(self.y[0], 2.0), max(self.y[-1], 1.0)
            self.y[0] += self.y[0] == self.y[-1]
        if name == "binomial":
            self.y[0], self.y[-1] = 0.0, 1.0

    @property
    def p(self):
        return self.X.shape[1]

    def objective(self, **kw):
        a = dict(X=self.X, y=self.y, fam=self.fam, link=self.link, w=self.w, off=self.off, alpha=self.alpha,
                 l1_ratio=self.l1, P1=self.P1, P2=self.P2, fit_intercept=self.fi, scale=self.scale)
        a.update(kw)
        return O.Objective(**a)

    def params(self, **kw):
        d = dict(
            family=kw.get("family") or O.make_family(self.fam), link=kw.get("link") or O.make_link(self.link), alpha=self.alpha, l1_ratio=self.l1,
            P1="identity" if self.P1 is None else self.P1.copy(), P2="identity" if self.P2 is None else self.P2.copy(),
            fit_intercept=self.fi, scale_predictors=self.scale,
        )
        d.update(kw)
        return d


def stored(X):
    """The same design in a storage that depends on its contents only (so that equal
    designs are stored alike); two thirds stay as they are."""
    if not (type(X) is np.ndarray and X.ndim == 2 and X.dtype == np.float64 and X.shape[1] and np.all(np.isfinite(X))):
        return X
    import tabmat as tm

    k = zlib.crc32(np.ascontiguousarray(X).tobytes()) % 15
    if k == 0:
        return np.asfortranarray(X)
    if k == 1:
        return sparse.csc_matrix(X)
    if k == 2:
        return sparse.csr_matrix(X)
    if k == 3:
        return tm.from_csc(sparse.csc_matrix(X), 0.3)
    if k == 4:
        return tm.SparseMatrix(sparse.csc_matrix(X))
    return X


def stored_penalty(P2, X):
    """The same for a ridge penalty, which may be a sparse matrix."""
    if not (type(P2) is np.ndarray and P2.dtype in (np.float64, np.float32) and P2.shape[:1] == X.shape[1:2] and X.shape[1]):
        return P2
    k = zlib.crc32(np.ascontiguousarray(P2, dtype=np.float32).tobytes()) % (6 if P2.ndim == 2 else 12)
    if k > 2:
        return P2
    return [sparse.csc_matrix, sparse.csr_matrix, sparse.coo_matrix][k](np.diag(P2) if P2.ndim == 1 else P2)


def quiet_fit(est, X, *a, store=True, **kw):
    """Fit; returns (estimator, converged)."""
    numeric = store and (type(X) is np.ndarray or sparse.issparse(X))
    P2 = getattr(est, "P2", None)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            if numeric:
                est.P2 = stored_penalty(P2, X)
            est.fit(stored(X) if store else X, *a, **kw)
        finally:
            if numeric:
                est.P2 = P2
    from sklearn.exceptions import ConvergenceWarning

    conv = not any(issubclass(r.category, ConvergenceWarning) or "lbfgs failed" in str(r.message) for r in rec)
    return est, conv


def rank_deficient(pb, penalised=True):
    """Whether the weighted design plus the ridge penalty is numerically singular."""
    o = pb.objective()
    Z = (pb.X - o.mean) / (o.rstd * o.std)
    H = (Z.T * o.w) @ Z
    if penalised:
        H = H + o.P2 / np.outer(o.rstd, o.rstd)
    e = np.linalg.eigvalsh(H)
    return e[0] < 1e-7 * max(e[-1], 1e-300)


def ridge_pd(pb):
    """Whether the ridge penalty alone makes the problem strongly convex."""
    e = np.linalg.eigvalsh(pb.objective().P2)
    return e[0] > 1e-9


def fit_pb(pb, lenient=False, **kw):
    """Fit the estimator of the case: (model, converged), or (None, False) when the
    unregularised problem has no unique solution and the solver says so."""
    try:
        return quiet_fit(glr(**pb.params(**kw)), pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
            raise
        # also when the Hessian degenerates along a diverging (separable) problem,
        # which only a positive definite ridge penalty excludes
        if lenient or rank_deficient(pb) or not ridge_pd(pb) and pb.fam not in ("normal", "tweedie:0"):
            return None, False
        raise


def glr(**kw):
    import glum

    return glum.GeneralizedLinearRegressor(**kw)


def as_sparse_p2(P2):
    return sparse.csc_matrix(np.diag(P2) if np.ndim(P2) == 1 else P2)
