"""Shared helpers: comparing two fits of (transformations of) the same problem."""
import numpy as np

from checks.c01 import saturated
from checks.c02 import curvature
from pbt import gens as G
from pbt import oracle as O
from pbt.core import fail

TOL = 1e-8


def fit(pb, X=None, y=None, w="case", off="case", lenient=True, **kw):
    """(model, converged) on overridden arrays; (None, False) if the solver gives up."""
    kw.setdefault("gradient_tol", TOL)
    kw.setdefault("max_iter", 300)
    a = pb.X if X is None else X
    b = pb.y if y is None else y
    w = pb.w if isinstance(w, str) else w
    off = pb.off if isinstance(off, str) else off
    try:
        return G.quiet_fit(G.glr(**pb.params(**kw)), a, b, sample_weight=w, offset=off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
            raise
        return None, False


def conditioning(pb, m, lb=None, ub=None):
    """Curvature of the problem at the fitted model, or None if it is too flat (or
    the fit diverged) for estimates to be comparable."""
    obj = pb.objective()
    b0, b = float(m.intercept_), np.asarray(m.coef_, float)
    if not np.all(np.isfinite(np.r_[b0, b])) or saturated(obj, b0, b):
        return None
    k = curvature(obj, b0, b)
    return k if np.isfinite(k) and k > 1e-5 else None


def same(pb, m1, b0, b, what, kappa=None, tol=TOL, extra=1e-8):
    """Violation unless intercept b0 and coefficients b (on the original columns)
    agree with m1 up to the optimisation tolerance."""
    obj = pb.objective()
    kappa = kappa or conditioning(pb, m1)
    if kappa is None:
        return False
    sd = obj.std * obj.rstd
    c1, c2 = np.asarray(m1.coef_, float), np.asarray(b, float)
    if c1.shape != c2.shape:
        fail(f"{what}: {c2.shape} coefficients instead of {c1.shape}")
    d = np.abs((c1 - c2) * sd).max(initial=0)
    if pb.fi:
        d = max(d, abs(float(m1.intercept_) + obj.mean @ c1 - b0 - obj.mean @ c2))
    scale = 1 + np.abs(c1 * sd).max(initial=0) + abs(float(m1.intercept_)) + np.abs(obj.mean * c1).sum()
    bound = 8 * tol / kappa + extra * scale / min(1.0, kappa)
    if not d <= bound:
        if (pb.fam, pb.link) not in G.CONVEX:
            # another local optimum of a non-convex problem is as good
            g0, g = obj.kkt(float(b0), c2, getattr(pb, "lb", None), getattr(pb, "ub", None), at_tol=1e-6)
            if abs(g0) + np.abs(g).sum() <= 10 * tol + extra * obj.grad_scale(float(b0), c2):
                return False
        fail(f"{what}: ({float(b0)}, {c2}) instead of ({float(m1.intercept_)}, {c1}): distance {d:.2e} > {bound:.2e} (curvature {kappa:.1e})")
    return True
