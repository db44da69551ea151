"""C30: penalties act in the documented direction."""
import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from checks.common import conditioning, fit, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail


def penalty(o, b, alpha):
    """Penalty per unit of alpha of the objective o (built with this alpha)."""
    c = b * o.std
    return (np.abs(o.P1 * c).sum() + 0.5 * c @ o.P2 @ c) / alpha


def gap(o, b0, b):
    """Bound on the objective's distance from its optimum, from the subgradient."""
    g0, g = o.kkt(b0, b)
    size = 1 + abs(b0 + o.mean @ b) + np.abs(b * o.std * o.rstd).max(initial=0)
    return (abs(g0) + np.abs(g).sum()) * 4 * size + 1e-12 * (1 + abs(o.value(b0, b)))


@st.composite
def path_cases(draw):
    c = draw(G.problems(fams=G.CONVEX, degenerate=True))
    c["how"] = draw(st.sampled_from(["search", "single", "warm"]))
    c["m"] = draw(st.integers(2, 6))
    c["top"] = draw(st.sampled_from([0.1, 1.0, 30.0]))
    return c


@check("C30", path_cases(), quick=1800, rule="2-6 decreasing alphas over a factor up to 10^5, as a path, single fits or warm-started fits of convex problems with all kinds of P1, P2: the penalty of the optimum does not fall, its deviance does not rise, the optimal objective is concave and falls; non-trivial = penalty really grows")
def direction(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    alphas = np.sort(c["top"] * 10 ** -rng.uniform(0, 5, size=c["m"]))[::-1]
    solver = "auto"
    if c["how"] == "search":
        try:
            m, conv = fit(pb, alpha=alphas, alpha_search=True, solver=solver)
        except Exception:
            raise
        if m is None or not conv:
            return
        sols = [(float(b0) if pb.fi else 0.0, np.asarray(b, float)) for b0, b in zip(np.ravel(m.intercept_path_) if pb.fi else np.zeros(len(alphas)), m.coef_path_)]
    else:
        sols, est = [], None
        for a in alphas:
            if est is None or c["how"] == "single":
                est = G.glr(**pb.params(alpha=a, solver=solver, gradient_tol=1e-8, max_iter=300, warm_start=c["how"] == "warm"))
            else:
                est.set_params(alpha=a)
            try:
                _, conv = G.quiet_fit(est, pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
            except (np.linalg.LinAlgError, ValueError) as e:
                if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
                    raise
                return
            if not conv:
                return
            sols.append((float(est.intercept_), np.asarray(est.coef_, float)))
    what = f"{pb.fam}/{pb.link} l1_ratio={pb.l1} P1={c['P1']} P2={c['P2']} ({c['how']})"
    J, D, F, E = [], [], [], []
    for a, (b0, b) in zip(alphas, sols):
        o = pb.objective(alpha=a)
        if not np.all(np.isfinite(np.r_[b0, b])) or np.abs(o.eta(b0, b)).max() > 12 and pb.link != "identity":
            return
        j = penalty(o, b, a)
        f = o.value(b0, b)
        J.append(j), F.append(f), D.append(f - a * j), E.append(gap(o, b0, b))
    if not np.all(np.isfinite(np.r_[J, F, E])):
        return
    # F_a(x) = D(x) + a J(x): two optima compared in both objectives
    for i in range(len(alphas) - 1):
        a, b = alphas[i], alphas[i + 1]
        e = E[i] + E[i + 1]
        if J[i + 1] < J[i] - e / (a - b):
            fail(f"{what}: the penalty falls from {J[i]} at alpha={a} to {J[i + 1]} at alpha={b}")
        if D[i + 1] > D[i] + e * (1 + b / (a - b)):
            fail(f"{what}: half the deviance rises from {D[i]} at alpha={a} to {D[i + 1]} at alpha={b}")
        if F[i + 1] > F[i] + e:
            fail(f"{what}: the optimal objective rises from {F[i]} at alpha={a} to {F[i + 1]} at alpha={b}")
        # concavity: each objective lies below the other's tangent
        if F[i] > D[i + 1] + a * J[i + 1] + E[i] or F[i + 1] > D[i] + b * J[i] + E[i + 1]:
            fail(f"{what}: the solution at one alpha is beaten by the one at the other: {alphas}, {F}")
    ctx.label(f"l1:{pb.l1}", f"P2:{c['P2']}", c["how"])
    ctx.mark(J[-1] > J[0] + 10 * (E[0] + E[-1]) / (alphas[0] - alphas[-1]))


@st.composite
def extreme(draw):
    c = draw(G.problems(fams=G.CONVEX, min_n=20, min_p=2, P1s=("identity", "vec", "veczero"), P2s=("identity", "vec", "veczero"), alphas=(1.0,), l1=(0.0, 0.2, 0.5, 1.0)))
    c["free"] = draw(st.lists(st.booleans(), min_size=6, max_size=6))
    c["power"] = draw(st.sampled_from([4, 6, 8]))
    return c


@check("C30", extreme(), quick=2000, rule="very large alpha with some P1 and P2 entries zero: penalised coefficients exactly zero under L1 (vanishing under L2), free ones those of the model without penalty on the free columns alone; non-trivial = both free and penalised columns")
def limits(c, ctx):
    pb = G.Problem(c)
    free = np.array(c["free"][: pb.p])
    rng = np.random.default_rng(c["seed"] + 1)
    pb.alpha = 10.0 ** c["power"]
    pb.P1, pb.P2 = rng.uniform(0.5, 2, size=pb.p), rng.uniform(0.5, 2, size=pb.p)
    pb.P1[free] = 0
    pb.P2[free] = 0
    m, conv = fit(pb)
    if m is None:
        return
    what = f"{pb.fam}/{pb.link} alpha={pb.alpha} l1_ratio={pb.l1} free={np.flatnonzero(free)}"
    b = np.asarray(m.coef_, float)
    held = b[~free]
    sd = pb.objective().std[~free] * pb.objective().rstd[~free]
    if pb.l1 > 0:
        if conv and np.any(held != 0):
            fail(f"{what}: penalised coefficients {held}")
    elif conv and np.any(np.abs(held * np.minimum(1, sd)) > 1e3 / pb.alpha * (1 + 1 / np.minimum(1, sd).min(initial=1))):
        fail(f"{what}: penalised coefficients {held}")
    if not conv:
        return
    if not free.any():
        if not pb.fi:
            ctx.mark(False)
        return
    q = G.Problem(c)
    q.X, q.alpha, q.P1, q.P2, q.scale = pb.X[:, free], 0.0, None, None, False
    r, conv = fit(q, alpha=0.0)
    if r is None or not conv:
        return
    k = conditioning(q, r)
    if k is None or k < 1e-3:
        return
    b0 = float(m.intercept_)
    tol = 1e-8 + (1e3 / pb.alpha if pb.l1 == 0 else 0)
    if same(q, r, b0, b[free], what + ": free columns alone", kappa=k, tol=tol):
        ctx.mark((~free).any())
    ctx.label(f"l1:{pb.l1}", f"free:{free.sum()}")


def forms(P, rng):
    """The same quadratic form, differently written and stored."""
    p = len(P)
    out = {
        "dense": P.copy(), "fortran": np.asfortranarray(P), "csc": sparse.csc_matrix(P), "csr": sparse.csr_matrix(P), "coo": sparse.coo_matrix(P), "dia": sparse.dia_matrix(P), "csc_array": sparse.csc_array(P),
        "csr_array": sparse.csr_array(P), "lil": sparse.lil_matrix(P), "lists": P.tolist(),
    }
    B = rng.normal(size=(p, p))
    S = B - B.T
    out["skew"] = P + S
    out["triangle"] = np.triu(P, 1) * 2 + np.diag(np.diag(P))
    out["sparse triangle"] = sparse.csc_matrix(np.tril(P, -1) * 2 + np.diag(np.diag(P)))
    if np.count_nonzero(P - np.diag(np.diag(P))) == 0:
        out["vector"] = np.diag(P).copy()
        out["list"] = np.diag(P).tolist()
        out["diags"] = sparse.diags(np.diag(P))
        if np.all(P == np.eye(p)):
            out["identity"] = "identity"
            out["none"] = None
    return out


@st.composite
def form_cases(draw):
    c = draw(G.problems(fams=G.CONVEX, min_n=15, alphas=(0.01, 0.1, 1.0), P2s=("identity", "vec", "full", "psd", "veczero"), l1=(0.0, 0.0, 0.4)))
    c["a"], c["b"] = draw(st.integers(0, 99)), draw(st.integers(0, 99))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd", "irls-ls", "trust-constr", "lbfgs"]))
    c["sp"] = draw(st.booleans())
    c["cv"] = draw(st.sampled_from([False, False, True]))
    c["thin"] = draw(st.sampled_from([False, False, False, True]))
    return c


def thin(p, rng):
    """Quadratic forms with as many stored entries as columns, or nearly so."""
    P = np.zeros((p, p))
    k = int(rng.integers(1, max(2, int(np.sqrt(p)) + 1)))
    i = rng.permutation(p)
    A = rng.normal(size=(k, k + 1))
    P[np.ix_(i[:k], i[:k])] = A @ A.T + 0.2
    left = max(0, p - k * k - int(rng.integers(0, 2) * (rng.random() < 0.3)))
    P[i[k : k + left], i[k : k + left]] = rng.uniform(0.2, 2, size=len(i[k : k + left]))
    return P


@check("C30", form_cases(), quick=1800, rule="P2 as vector, full matrix, 8 sparse classes, lists, with any antisymmetric part, for dense and sparse X, several solvers and cross-validation: same model as with the plain dense matrix; non-trivial = compared")
def same_form(c, ctx):
    import glum

    pb = G.Problem(c)
    if c["thin"]:
        pb.P2 = thin(pb.p, np.random.default_rng(c["seed"] + 2))
    P = pb.objective(alpha=1.0, l1_ratio=0.0).P2
    f = forms(P, np.random.default_rng(c["seed"] + 1))
    names = list(f)
    name = names[(c["a"] + c["seed"]) % len(names)]
    X = sparse.csc_matrix(pb.X) if c["sp"] else pb.X
    what = f"{pb.fam}/{pb.link} P2 as {name} with {'sparse' if c['sp'] else 'dense'} X"
    if c["cv"]:
        par = pb.params(gradient_tol=1e-9)
        par.pop("alpha")
        par.update(alphas=[pb.alpha, pb.alpha * 3], cv=3)
        out = []
        for v in (P.copy(), f[name]):
            par["P2"] = v
            try:
                m, conv = G.quiet_fit(glum.GeneralizedLinearRegressorCV(**par), X, pb.y, sample_weight=pb.w, offset=pb.off)
            except (np.linalg.LinAlgError, ValueError) as e:
                if "semi-definite" in str(e) or "must be" in str(e):
                    fail(f"{what}: CV raises {e}")
                return
            out.append((m, conv))
        (m, c1), (r, c2) = out
        if not (c1 and c2) or not np.all(np.isfinite(m.deviance_path_)):
            return
        pb.alpha = float(m.alpha_)
        k = conditioning(pb, m)
        if k is None or k < 1e-3:
            return
        if not np.allclose(m.deviance_path_, r.deviance_path_, rtol=1e-4, atol=1e-5):
            fail(f"{what}: CV deviances {r.deviance_path_} instead of {m.deviance_path_}")
        d = np.asarray(m.deviance_path_).mean(axis=0).ravel()
        if np.ptp(d) > 1e-3 * abs(d).max() and same(pb, m, r.intercept_, r.coef_, "CV " + what, kappa=k):
            ctx.mark(True)
        return
    s = c["solver"]
    if pb.alpha * pb.l1 > 0:
        s = "irls-cd"
    m, c1 = fit(pb, P2=P.copy(), solver="irls-cd")
    r, c2 = fit(pb, X=X, P2=f[name], solver=s)
    if m is None or r is None or not c1:
        return
    k = conditioning(pb, m)
    if k is None or not c2 and (s != "irls-cd" or k < 1e-3):
        return
    tol = {"lbfgs": 1e-6, "trust-constr": 1e-6}.get(s, 1e-8) * (1 if s in ("irls-cd", "irls-ls", "auto") else pb.p + 1)
    if s in ("lbfgs", "trust-constr") and k < 1e-3:
        return
    if s == "lbfgs":
        tol = 1e-4
    if not c2:
        # the same iterations: not converging is at most a matter of rounding
        tol = 1e-4 * k
    if same(pb, m, r.intercept_, r.coef_, f"{what} ({s})", kappa=k, tol=tol):
        ctx.mark(True)
    ctx.label(name, f"solver:{s}", f"sparse X:{c['sp']}")


@st.composite
def products(draw):
    c = draw(G.problems(fams=G.CONVEX, min_n=15, alphas=(0.01, 0.1, 1.0), l1=(0.0, 0.2, 0.5, 0.8, 1.0)))
    c["which"] = draw(st.sampled_from(["alpha", "mix", "none", "l1 only", "l2 only"]))
    c["k"] = draw(st.sampled_from([0.25, 2.0, 10.0]))
    return c


@check("C30", products(), quick=1500, rule="equivalent penalties (alpha moved into P1 and P2, another l1_ratio with rescaled P1 and P2, no penalty in four ways, P1 irrelevant without L1, P2 irrelevant without L2) give the same model; non-trivial = compared")
def equivalent(c, ctx):
    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 1)
    P1 = np.ones(pb.p) if pb.P1 is None else pb.P1
    P2 = np.ones(pb.p) if pb.P2 is None else pb.P2
    a, l, k = pb.alpha, pb.l1, c["k"]
    if c["which"] == "alpha":
        others = [dict(alpha=a * k, P1=P1 / k, P2=P2 / k)]
    elif c["which"] == "mix":
        if not 0 < l < 1:
            return
        new = rng.uniform(0.1, 0.9)
        others = [dict(l1_ratio=new, P1=P1 * l / new, P2=P2 * (1 - l) / (1 - new))]
    elif c["which"] == "none":
        pb.alpha = 0.0
        others = [dict(l1_ratio=rng.uniform(0, 1), P1=rng.uniform(0, 2, size=pb.p)), dict(alpha=a, P1=np.zeros(pb.p), P2=np.zeros(pb.p)), dict(alpha=a, l1_ratio=0.0, P2=np.zeros((pb.p, pb.p))), dict(alpha=a, l1_ratio=1.0, P1=np.zeros(pb.p))]
    elif c["which"] == "l1 only":
        pb.l1 = 1.0
        others = [dict(l1_ratio=1.0, P2=rng.uniform(0, 5, size=pb.p)), dict(l1_ratio=1.0, P2=np.eye(pb.p) * k)]
    else:
        pb.l1 = 0.0
        others = [dict(l1_ratio=0.0, P1=rng.uniform(0, 5, size=pb.p))]
    m, c1 = fit(pb, solver="irls-cd")
    if m is None or not c1:
        return
    kappa = conditioning(pb, m)
    if kappa is None:
        return
    for o in others:
        r, c2 = fit(pb, **o)
        if r is not None and c2 and same(pb, m, r.intercept_, r.coef_, f"{pb.fam}/{pb.link} with alpha={pb.alpha}, l1_ratio={pb.l1} written as {o}", kappa=kappa):
            ctx.mark(True)
    ctx.label(c["which"], f"l1:{pb.l1}")


@st.composite
def matrices(draw):
    return dict(
        p=draw(st.sampled_from([1, 2, 3, 5, 8, 13, 30, 60])), seed=draw(G.SEEDS), kind=draw(st.sampled_from(["gram", "diff", "diff2", "laplacian", "diag", "spline", "low"])), scale=draw(st.sampled_from([-8, -3, 0, 0, 3, 8])),
        bad=draw(st.sampled_from(["no", "no", "small", "large", "pair"])), store=draw(st.integers(0, 9)), cv=draw(st.booleans()), asym=draw(st.booleans()), sp=draw(st.booleans()), f32=draw(st.booleans()),
    )


def psd(c, rng):
    p = c["p"]
    k = c["kind"]
    if k == "gram":
        A = rng.normal(size=(p, p + 2))
        P = A @ A.T / p
    elif k == "low":
        A = rng.normal(size=(p, max(1, p // 3)))
        P = A @ A.T / p
    elif k in ("diff", "diff2"):
        D = np.diff(np.eye(p), n=min(1 + (k == "diff2"), p - 1), axis=0) if p > 1 else np.ones((1, 1))
        P = D.T @ D
    elif k == "laplacian":
        W = (rng.random((p, p)) < 0.3) * rng.uniform(0, 1, size=(p, p))
        W = np.triu(W, 1)
        W = W + W.T
        P = np.diag(W.sum(1)) - W
    elif k == "spline":
        t = np.sort(rng.random(p))
        P = np.minimum.outer(t, t)
    else:
        P = np.diag(rng.uniform(0, 2, size=p) * (rng.random(p) < 0.7))
    return P


def storage(P, i):
    return [lambda: P, lambda: np.asfortranarray(P), lambda: P.tolist(), lambda: sparse.csc_matrix(P), lambda: sparse.csr_matrix(P), lambda: sparse.coo_matrix(P), lambda: sparse.csc_array(P), lambda: sparse.dia_matrix(P), lambda: sparse.csr_array(P), lambda: P][i]()


def try_fit(c, P2, rng, p, alpha=1.0):
    """Whether P2 is accepted."""
    import glum

    n = 12
    X = sparse.random(n, p, density=min(1.0, 40 / p), random_state=int(c["seed"]) % 1000, format="csc") if c["sp"] else rng.normal(size=(n, p))
    if c["sp"]:
        X = sparse.csc_matrix(X)
    y = rng.normal(size=n)
    if c["f32"]:
        X, y = X.astype(np.float32), y.astype(np.float32)
    par = dict(P2=P2, solver="irls-cd", max_iter=1, l1_ratio=0.5, fit_intercept=True)
    m = glum.GeneralizedLinearRegressorCV(alphas=[alpha], cv=2, **par) if c["cv"] else glum.GeneralizedLinearRegressor(alpha=alpha, **par)
    try:
        G.quiet_fit(m, X, y)
    except ValueError as e:
        if "semi-definite" in str(e) or "negative values" in str(e) or "non-negative" in str(e):
            return False, str(e)
        raise
    return True, m


@check("C30", matrices(), quick=2500, rule="P2 matrices of order 1-60 (Gram, low rank, difference, Laplacian, covariance, diagonal; scaled by 1e-8 to 1e8; asymmetric parts; float32 data; 9 storages; also CV): positive semi-definite ones accepted, clearly indefinite ones rejected by ValueError; non-trivial = singular or indefinite")
def definiteness(c, ctx):
    rng = np.random.default_rng(c["seed"])
    P = psd(c, rng) * 10.0 ** c["scale"]
    size = np.abs(P).sum(0).max(initial=0)
    if size == 0:
        return
    p = c["p"]
    bad = c["bad"] != "no"
    if bad:
        v = np.linalg.qr(rng.normal(size=(p, p)))[0][:, 0]
        if c["kind"] == "diag":
            v = np.eye(p)[int(rng.integers(p))]
        if c["bad"] == "pair" and p > 1:
            i, j = rng.choice(p, size=2, replace=False)
            P[i, j] = P[j, i] = 2 * np.sqrt(P[i, i] * P[j, j]) + size * 0.1
        else:
            P = P - (v @ P @ v + size * (0.02 if c["bad"] == "small" else 1.0)) * np.outer(v, v)
    e = np.linalg.eigvalsh(P)
    size = np.abs(P).sum(0).max()
    if bad and (e[0] > -1e-3 * size or e[0] > -1e-6 * 10.0 ** min(0, c["scale"]) and c["scale"] >= 0):
        return
    if bad and e[0] > -1e-4:
        # what counts as rounding is judged on the scale of one
        return
    if not bad and e[0] < -1e-9 * size:
        return
    Q = P
    if c["asym"] and p > 1 and c["kind"] != "diag":
        B = rng.normal(size=(p, p)) * size / p
        Q = P + B - B.T
        if c["f32"]:
            return
    i = c["store"]
    P2 = storage(Q, i)
    if c["kind"] == "diag" and c["seed"] % 3 == 0 and c["bad"] != "pair":
        P2 = np.diag(Q).copy()
    ok, m = try_fit(c, P2, rng, p)
    what = f"{c['kind']} matrix of order {p} scaled 1e{c['scale']}, eigenvalues from {e[0]} to {e[-1]}, stored as {type(P2).__name__}{', single precision' if c['f32'] else ''}{', CV' if c['cv'] else ''}"
    if bad and ok:
        fail(f"indefinite {what}: accepted")
    if not bad and not ok:
        fail(f"positive semi-definite {what}: rejected: {m}")
    ctx.label(c["kind"], f"bad:{c['bad']}", f"scale:{c['scale']}")
    ctx.mark(bad or e[0] < 1e-9 * size)


@st.composite
def large(draw):
    return dict(p=draw(st.sampled_from([1999, 2000, 2001, 2600])), seed=draw(G.SEEDS), kind=draw(st.sampled_from(["laplacian", "diff", "blocks", "diag"])), bad=draw(st.booleans()), cv=False, sp=True, f32=False)


@check("C30", large(), quick=24, thorough=240, rule="sparse P2 of order 1999-2600 (chain and grid Laplacians, differences, block matrices), positive semi-definite or with one negative direction; non-trivial = indefinite or singular")
def large_sparse(c, ctx):
    rng = np.random.default_rng(c["seed"])
    p = c["p"]
    if c["kind"] == "diff":
        D = sparse.diags([-np.ones(p - 1), np.ones(p - 1)], [0, 1], shape=(p - 1, p))
        P = D.T @ D
    elif c["kind"] == "laplacian":
        i, j = rng.integers(0, p, size=(2, 2 * p))
        W = sparse.coo_matrix((rng.uniform(0, 1, size=2 * p), (i, j)), shape=(p, p))
        W = W + W.T
        W.setdiag(0)
        P = sparse.diags(np.asarray(W.sum(1)).ravel()) - W
    elif c["kind"] == "blocks":
        A = [rng.normal(size=(k, 2)) for k in [5] * (p // 5) + [p % 5 or 5]]
        P = sparse.block_diag([a @ a.T for a in A]).tocsc()[:p, :p]
    else:
        P = sparse.diags(rng.uniform(0, 1, size=p))
    P = sparse.csc_matrix(P)
    if c["bad"]:
        i = int(rng.integers(p - 1))
        d = P.diagonal()
        E = sparse.coo_matrix(([d[i] + d[i + 1] + 1.0] * 2, ([i, i + 1], [i + 1, i])), shape=(p, p))
        P = sparse.csc_matrix(P + E) if rng.random() < 0.6 else sparse.csc_matrix(P - sparse.coo_matrix(([d[i] + 0.5], ([i], [i])), shape=(p, p)))
    ok, m = try_fit(c, P, rng, p, alpha=1e3)
    if ok == c["bad"]:
        fail(f"{'indefinite' if c['bad'] else 'positive semi-definite'} sparse {c['kind']} matrix of order {p}: {'accepted' if ok else 'rejected: ' + m}")
    ctx.label(c["kind"], f"bad:{c['bad']}")
    ctx.mark(c["bad"] or c["kind"] != "diag")
