"""C13: cross-validation selects and refits what its scores say."""
import numpy as np
from hypothesis import strategies as st
from sklearn.model_selection import KFold, LeaveOneOut, RepeatedKFold, ShuffleSplit

from checks.c01 import kkt_check
from checks.c03 import make_bounds
from checks.c11 import Row, container
from checks.common import conditioning, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

CVS = ["int2", "int3", "none", "kfold-shuffled", "shuffle", "list", "loo", "repeated", "iterator"]


@st.composite
def cases(draw, **kw):
    c = draw(G.problems(**{**dict(fams=G.CONVEX + [("igauss", "log"), ("ghs", "identity")], min_n=12, max_n=40, max_p=4, alphas=(1.0,), weights=("none", "uniform", "ints", "wide", "tiny")), **kw}))
    c["cv"] = CVS[(draw(st.integers(0, len(CVS) - 1)) + c["seed"]) % len(CVS)]
    c["nl1"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c["nalpha"] = 1 + (draw(st.integers(0, 4)) + c["seed"]) % 5
    c["auto"] = draw(st.sampled_from([False, False, False, True]))
    c["bounds"] = draw(st.sampled_from([False, False, False, True]))
    c["store"] = draw(st.sampled_from(["dense", "csc", "pandas"]))
    c["warm"] = draw(st.booleans())
    return c


def subset(pb, idx, alpha, l1):
    """The problem of one fold."""
    q = G.Problem(pb.c)
    q.X, q.y = pb.X[idx], pb.y[idx]
    q.w = None if pb.w is None else pb.w[idx]
    q.off = None if pb.off is None else pb.off[idx]
    q.alpha, q.l1 = float(alpha), float(l1)
    q.lb, q.ub = getattr(pb, "lb", None), getattr(pb, "ub", None)
    return q


def splitter(kind, n, seed):
    rng = np.random.default_rng(seed)
    if kind == "int2":
        return 2, list(KFold(2).split(np.zeros(n)))
    if kind == "int3":
        return 3, list(KFold(3).split(np.zeros(n)))
    if kind == "none":
        return None, list(KFold(5).split(np.zeros(n)))
    if kind == "kfold-shuffled":
        s = KFold(3, shuffle=True, random_state=seed % 1000)
        return s, list(s.split(np.zeros(n)))
    if kind == "shuffle":
        s = ShuffleSplit(3, test_size=0.3, random_state=seed % 1000)
        return s, list(s.split(np.zeros(n)))
    if kind == "repeated":
        s = RepeatedKFold(n_splits=2, n_repeats=2, random_state=seed % 1000)
        return s, list(s.split(np.zeros(n)))
    if kind == "loo":
        return LeaveOneOut(), list(LeaveOneOut().split(np.zeros((n, 1))))
    folds = []
    for _ in range(int(rng.integers(1, 4))):
        q = rng.permutation(n)
        k = int(rng.integers(n // 2, n - 2))
        folds.append((q[:k], q[k : k + int(rng.integers(2, n - k + 1))]))
    return (iter(list(folds)) if kind == "iterator" else folds), folds


def build(c, pb):
    import glum

    rng = np.random.default_rng(c["seed"] + 6)
    l1s = [pb.l1] if c["nl1"] == 0 else list(np.round(rng.choice([0.0, 0.1, 0.3, 0.5, 0.8, 1.0], size=c["nl1"], replace=False), 2))
    al = np.exp(rng.uniform(np.log(3e-3), np.log(2), size=c["nalpha"]))
    cv, folds = splitter(c["cv"], len(pb.y), c["seed"])
    par = pb.params(gradient_tol=1e-8, max_iter=400, l1_ratio=l1s[0] if c["nl1"] == 0 else l1s, cv=cv)
    par.pop("alpha")
    if c["auto"]:
        par.update(n_alphas=c["nalpha"] + 1, min_alpha_ratio=0.03)
    else:
        par["alphas"] = list(al) if rng.integers(2) else al
    if c["bounds"]:
        pb.lb, pb.ub = make_bounds(rng, str(rng.choice(["nonneg", "box", "mixed", "lower"])), pb.p)
        par.update(lower_bounds=pb.lb, upper_bounds=pb.ub)
    if c["warm"]:
        par["start_params"] = rng.normal(size=pb.p + pb.fi) * 0.1
    return glum.GeneralizedLinearRegressorCV(**par), par, [float(v) for v in l1s], al, folds


def deviance(pb, idx, b0, b):
    q = subset(pb, idx, 0, 0)
    obj = q.objective()
    with np.errstate(all="ignore"):
        return float(obj.w @ O.unit_dev(pb.fam, q.y, obj.mu(b0, b)))


@check("C13", cases(), quick=1400, rule="random splitters (integers, shuffled, leave-one-out, overlapping and incomplete index lists, iterators), alphas, l1 ratios, weights, offsets, bounds: every fold coefficient is optimal on its training rows, every score is the deviance of those coefficients on the held-out rows, the selected pair minimises the average, the final model is optimal on all rows; non-trivial = converged with at least two candidates")
def selection(c, ctx):
    pb = G.Problem(c)
    est, par, l1s, al, folds = build(c, pb)
    try:
        m, conv = G.quiet_fit(est, container(c["store"], pb.X), pb.y, sample_weight=pb.w, offset=pb.off)
    except (np.linalg.LinAlgError, ValueError) as e:
        if isinstance(e, ValueError) and not any(t in str(e) for t in ("infs or NaNs", "ingular", "No variation")):
            raise
        ctx.label("refused")
        return
    ctx.label(f"cv:{c['cv']}", f"fam:{pb.fam}", f"converged:{conv}", f"l1s:{len(l1s)}", f"auto:{c['auto']}", f"bounds:{c['bounds']}")
    alphas = np.atleast_2d(np.asarray(m.alphas_, float))
    if len(l1s) == 1 and np.asarray(m.alphas_).ndim != 1:
        fail(f"alphas_ has shape {np.shape(m.alphas_)} for one l1_ratio")
    if alphas.shape[0] != len(l1s) or (not c["auto"] and not all(np.array_equal(a, np.sort(al)[::-1]) for a in alphas)):
        fail(f"alphas_ is {alphas} for alphas {al} and {len(l1s)} values of l1_ratio")
    na = alphas.shape[1]
    cp, ip, dp, tp = (np.asarray(getattr(m, k), float) for k in ("coef_path_", "intercept_path_", "deviance_path_", "train_deviance_path_"))
    F = len(folds)
    if cp.shape != (F, len(l1s), na, pb.p) or dp.shape != (F, len(l1s), na) or tp.shape != dp.shape or ip.size != dp.size:
        fail(f"shapes {cp.shape}, {ip.shape}, {dp.shape}, {tp.shape} for {F} folds, {len(l1s)} ratios, {na} alphas, {pb.p} features")
    ip = ip.reshape(dp.shape)
    if not np.all(np.isfinite(cp)):
        return
    # scores
    for f, (tr, te) in enumerate(folds):
        for i in range(len(l1s)):
            for k in range(na):
                b0, b = ip[f, i, k], cp[f, i, k]
                what = f"{pb.fam}/{pb.link}, fold {f} ({c['cv']}), l1_ratio {l1s[i]}, alpha {alphas[i, k]:.4g}"
                o = subset(pb, np.r_[tr, te], 0, 0).objective()
                if np.abs(o.eta(b0, b)).max() > 25 or pb.fam == "binomial" and np.abs(o.mu(b0, b) - 0.5).max() > 0.5 - 1e-7:
                    continue  # clipped and cancelling means
                for name, idx, got in (("held-out", te, dp[f, i, k]), ("training", tr, tp[f, i, k])):
                    want = deviance(pb, idx, b0, b)
                    O.assert_close(got, want, rtol=1e-7, atol=1e-8, what=f"{what}: {name} deviance")
    # selection
    avg = dp.mean(axis=0)
    if np.isnan(avg).any():
        return
    i = int(np.flatnonzero(np.isclose(l1s, float(m.l1_ratio_), rtol=0, atol=0))[0]) if float(m.l1_ratio_) in l1s else fail(f"l1_ratio_ {m.l1_ratio_} is not one of {l1s}")
    if float(m.alpha_) not in alphas[i]:
        fail(f"alpha_ {m.alpha_} is not one of {alphas[i]}")
    k = int(np.flatnonzero(alphas[i] == float(m.alpha_))[0])
    if avg[i, k] > avg.min() * (1 + 1e-12) + 1e-14:
        fail(f"l1_ratio_ {m.l1_ratio_}, alpha_ {m.alpha_} have average held-out deviance {avg[i, k]!r}, the best is {avg.min()!r}: {avg}")
    if not conv:
        return
    # fold coefficients
    rng = np.random.default_rng(c["seed"] + 7)
    for f, (tr, te) in enumerate(folds):
        for i2 in range(len(l1s)):
            for k2 in range(na):
                q = subset(pb, tr, alphas[i2, k2], l1s[i2])
                obj = q.objective()
                kkt_check(Row(ip[f, i2, k2], cp[f, i2, k2]), obj, 1e-8, f"{pb.fam}/{pb.link}, fold {f} ({c['cv']}), l1_ratio {l1s[i2]}, alpha {alphas[i2, k2]:.4g}: coefficients", getattr(q, "lb", None), getattr(q, "ub", None))
    # final model
    q = subset(pb, np.arange(len(pb.y)), m.alpha_, m.l1_ratio_)
    r = kkt_check(m, q.objective(), 1e-8, f"{pb.fam}/{pb.link}: final model (alpha {m.alpha_}, l1_ratio {m.l1_ratio_})", getattr(q, "lb", None), getattr(q, "ub", None))
    if r is not None and conditioning(q, m):
        kw = dict(lower_bounds=pb.lb, upper_bounds=pb.ub) if c["bounds"] else {}
        try:
            plain, c2 = G.quiet_fit(G.glr(**q.params(gradient_tol=1e-8, max_iter=400, **kw)), pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
        except (np.linalg.LinAlgError, ValueError):
            c2 = False
        if c2:
            same(q, m, plain.intercept_, plain.coef_, f"{pb.fam}/{pb.link}: final model against a plain fit with alpha {m.alpha_}, l1_ratio {m.l1_ratio_}")
            new = rng.normal(size=(4, pb.p))
            O.assert_close(m.linear_predictor(new), new @ m.coef_ + m.intercept_, rtol=1e-11, atol=0, scale=1 + np.abs(new) @ np.abs(m.coef_) + abs(float(m.intercept_)), what="linear predictor of the final model")
            ctx.label(f"best:{k}/{na}")
            ctx.mark(len(l1s) * na > 1)
