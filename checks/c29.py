"""C29: parallelism and randomness do not change results."""
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import threadpoolctl
from hypothesis import strategies as st

from checks import c16
from checks.c01 import kkt_check
from checks.c06 import KINDS, store
from checks.common import conditioning, same
from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail


def threads(k):
    return threadpoolctl.threadpool_limits(limits=k)


@st.composite
def kernels_cases(draw):
    c = draw(c16.cases())
    c["fl"] = (c["fl"] + c["seed"]) % len(c16.FL)
    c["n"] = [1, 5, 17, 200, 1000, 4000, 20000][(draw(st.integers(0, 6)) + c["seed"] // 3) % 7]
    c["k"] = draw(st.sampled_from([2, 3, 4, 8]))
    return c


@check("C29", kernels_cases(), quick=2500, max_shards=4, rule="eta_mu_deviance, rowwise_gradient_hessian, deviance, deviance_derivative, log_likelihood, dispersion of 35 family/link pairs on 1-20000 rows with 1 and 2-8 threads, three times each: rows equal, sums equal up to rounding; non-trivial = at least 200 rows")
def kernels(c, ctx):
    fam, link, rng, eta, y, w = c16.data(c)
    n = len(y)
    f, l = O.make_family(fam), O.make_link(link)
    d = rng.normal(size=n).astype(eta.dtype)
    cur = (eta - c["factor"] * d).astype(eta.dtype)
    w = w / max(w.sum(), 1e-30)
    if not c["f32"]:
        w = np.ascontiguousarray(w)

    def results():
        e, mu, dev = f.eta_mu_deviance(l, c["factor"], cur.copy(), d.copy(), y.copy(), w.copy())
        rows = f.rowwise_gradient_hessian(l, coef=np.zeros(1), dispersion=1, X=np.zeros((n, 1)), y=y, sample_weight=w, offset=None, eta=e, mu=mu)
        s = {"eta_mu_deviance": dev, "deviance": f.deviance(y, mu, sample_weight=w)}
        r = {"eta": e, "mu": mu, "gradient rows": rows[0], "Hessian rows": rows[1], "deviance derivative": f.deviance_derivative(y, mu, sample_weight=w), "unit deviance": f.unit_deviance(y, mu)}
        t = O.tweedie_power(fam)
        if fam != "ghs" and (t is None or 0 <= t <= 2 or t == 3):
            s["log likelihood"] = f.log_likelihood(y, mu, sample_weight=w, dispersion=0.7)
        return r, s

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with threads(1):
            rows, sums = results()
            again = results()
        what = f"{fam}/{link}, {n} rows{', float32' if c['f32'] else ''}"
        eps = np.finfo(eta.dtype).eps
        for a, b in zip((rows, sums), again):
            for k in a:
                if not np.array_equal(a[k], b[k], equal_nan=True):
                    fail(f"{what}: {k} differs between two calls on one thread")
        # lost updates change a sum by a good part of its terms; rounding does not
        size = float(np.abs(w) @ ((np.abs(y) + np.abs(rows["mu"])) * (1 + np.abs(rows["eta"]))))
        with threads(c["k"]):
            for _ in range(3):
                r, s = results()
                for k in rows:
                    if not np.allclose(r[k], rows[k], rtol=4 * eps, atol=0, equal_nan=True):
                        fail(f"{what}: {k} with {c['k']} threads differs from one thread by {np.nanmax(np.abs(r[k] - rows[k]))}")
                for k in sums:
                    x, z = float(s[k]), float(sums[k])
                    if not np.isfinite(z):
                        continue
                    if not abs(x - z) <= (2e-3 if c["f32"] else 1e-8) * (size + abs(z) + 1e-12):
                        fail(f"{what}: {k} is {x} with {c['k']} threads and {z} with one")
    ctx.label(f"{fam}/{link}", f"n:{n}", f"threads:{c['k']}")
    ctx.mark(n >= 200)


@st.composite
def fit_cases(draw):
    c = draw(G.problems(fams=G.CONVEX, min_n=20, alphas=(0.01, 0.1, 0.5), P2s=("identity", "vec", "full", "asym"), l1=(0.0, 0.3, 0.5)))
    c["n"] = [40, 150, 600, 2500][(draw(st.integers(0, 3)) + c["seed"]) % 4]
    c["k"] = draw(st.sampled_from([2, 3, 8]))
    c["solver"] = draw(st.sampled_from(["auto", "irls-cd", "irls-ls", "lbfgs"]))
    c["store"] = draw(st.sampled_from(KINDS))
    c["sel"] = draw(st.sampled_from(["cyclic", "random"]))
    c["rs"] = draw(st.sampled_from([0, 7, 123]))
    c["happrox"] = draw(st.sampled_from([0.0, 0.0, 0.01]))
    return c


@check("C29", fit_cases(), quick=700, max_shards=4, rule="fits of 40-2500 rows in several storages, solvers and selections: bit for bit repeatable on one thread whatever the state of numpy's global generator, with 2-8 threads the same optimum, reported queries too; non-trivial = comparable optimum (well conditioned and converged)")
def fits(c, ctx):
    pb = G.Problem(c)
    s = c["solver"]
    if pb.alpha * pb.l1 > 0 and s in ("irls-ls", "lbfgs"):
        s = "irls-cd"
    kw = dict(solver=s, selection=c["sel"], random_state=c["rs"], hessian_approx=c["happrox"], gradient_tol=1e-7, max_iter=200)
    X = store(c["store"], pb.X, np.random.default_rng(c["seed"] + 3))
    if X is None:
        return
    what = f"{pb.fam}/{pb.link}/{s} on {c['store']}"

    def run():
        try:
            m, conv = G.quiet_fit(G.glr(**pb.params(**kw)), X, pb.y, sample_weight=pb.w, offset=pb.off)
        except np.linalg.LinAlgError:
            return None, False, None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q = np.r_[m.predict(X, offset=pb.off), m.score(X, pb.y, sample_weight=pb.w, offset=pb.off)]
            try:
                se = m.std_errors(X, pb.y, sample_weight=pb.w, offset=pb.off)
            except (np.linalg.LinAlgError, ValueError):  # a degenerate fit has none
                se = np.full(pb.p + 1, np.nan)
            q = np.r_[q, se]
        return m, conv, np.r_[m.coef_, m.intercept_, m.n_iter_, q]

    with threads(1):
        np.random.seed(c["seed"])
        m, conv, a = run()
        if m is None:
            return
        np.random.seed(c["seed"] + 1)
        m2, _, b = run()
    if not np.array_equal(a, b, equal_nan=True):
        fail(f"{what}: two fits on one thread differ: {a[: pb.p + 1]}, {b[: pb.p + 1]}")
    if c["sel"] == "cyclic":
        with threads(1):
            kw["random_state"] = c["rs"] + 1
            _, _, b = run()
        if not np.array_equal(a, b, equal_nan=True):
            fail(f"{what}: cyclic selection depends on random_state")
    with threads(c["k"]):
        m3, conv3, b = run()
    if m3 is None or not (conv and conv3):
        return
    tol = max(1e-7 * (pb.p + 1), 1e-4) if s == "lbfgs" else 1e-7
    if s == "lbfgs":
        kkt_check(m3, pb.objective(), tol, what + f" with {c['k']} threads")
        ctx.mark(True)
        return
    k = conditioning(pb, m)
    if k is None:
        return
    if same(pb, m, m3.intercept_, m3.coef_, f"{what} with {c['k']} threads instead of one", kappa=k, tol=tol):
        scale = 1 + np.nanmax(np.abs(a))
        bad = np.abs(a[pb.p + 2 :] - b[pb.p + 2 :])
        if k > 1e-2 and np.nanmax(bad) > 1e-3 * scale:
            fail(f"{what}: queries differ by {np.nanmax(bad)} with {c['k']} threads")
        ctx.mark(True)
    ctx.label(f"solver:{s}", f"store:{c['store']}", f"n:{c['n']}", f"sel:{c['sel']}")


@check("C29", fit_cases(), quick=700, rule="random coordinate selection with different seeds, generators and the global generator: equal seeds give equal bits, different seeds the same optimum; non-trivial = penalised problem with at least two coefficients")
def seeds(c, ctx):
    pb = G.Problem(c)
    out = []
    for rs in (c["rs"], c["rs"], np.random.RandomState(c["rs"]), np.random.RandomState(c["rs"]), c["rs"] + 1, None):
        if rs is None:
            np.random.seed(c["rs"])
        m, conv = G.fit_pb(pb, lenient=True, solver="irls-cd", selection="random", random_state=rs, gradient_tol=1e-7, max_iter=300)
        if m is None or not conv:
            return
        out.append(m)
        kkt_check(m, pb.objective(), 1e-7, f"{pb.fam}/{pb.link} with random_state={rs}")
    for i, j in ((0, 1), (2, 3)):
        if not np.array_equal(out[i].coef_, out[j].coef_) or out[i].intercept_ != out[j].intercept_:
            fail(f"{pb.fam}/{pb.link}: random_state={'generators with ' if i else ''}{c['rs']} is not repeatable: {out[i].coef_}, {out[j].coef_}")
    np.random.seed(c["rs"])
    m, _ = G.fit_pb(pb, lenient=True, solver="irls-cd", selection="random", random_state=None, gradient_tol=1e-7, max_iter=300)
    if not np.array_equal(m.coef_, out[5].coef_):
        fail(f"{pb.fam}/{pb.link}: random_state=None does not follow numpy's seed")
    k = conditioning(pb, out[0])
    if k is not None:
        for m in out[2:]:
            same(pb, out[0], m.intercept_, m.coef_, f"{pb.fam}/{pb.link}: another seed", kappa=k, tol=1e-7)
    ctx.mark(pb.p >= 2 and pb.alpha > 0)


@st.composite
def cv_cases(draw):
    c = draw(G.problems(fams=G.CONVEX, min_n=30, max_n=60, max_p=5, alphas=(1.0,), P2s=("identity", "vec", "full"), weights=("none", "uniform", "wide")))
    c["big"] = draw(st.integers(0, 2))
    c["jobs"] = draw(st.sampled_from([1, 2, 3, 4, -1, None]))
    c["folds"] = draw(st.integers(2, 5))
    c["nl1"] = draw(st.integers(1, 3))
    c["sel"] = draw(st.sampled_from(["cyclic", "random"]))
    c["manner"] = draw(st.sampled_from(["threads", "context"]))
    return c


ATTR = ["coef_", "intercept_", "alpha_", "l1_ratio_", "alphas_", "deviance_path_", "train_deviance_path_", "coef_path_", "intercept_path_", "col_means_", "col_stds_"]


def cv_fit(pb, c, n_jobs):
    import glum

    par = pb.params(gradient_tol=1e-6, max_iter=100, selection=c["sel"], random_state=3)
    par.pop("alpha")
    par["l1_ratio"] = [0.2, 0.7, 1.0][: c["nl1"]] if c["nl1"] > 1 else c["l1"]
    m = glum.GeneralizedLinearRegressorCV(alphas=[0.5, 0.1, 0.02], cv=c["folds"], n_jobs=n_jobs, **par)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
    return m


def cv_compare(pb, c, parallel, what):
    from sklearn.exceptions import NotFittedError  # noqa: F401

    try:
        a = cv_fit(pb, c, None)
    except (ValueError, np.linalg.LinAlgError):
        return False
    b = parallel()
    for k in ATTR:
        x, y = getattr(a, k, None), getattr(b, k, None)
        if (x is None) != (y is None):
            fail(f"{what}: {k} is {y} instead of {x}")
        if x is None:
            continue
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True):
            fail(f"{what}: {k} differs from the sequential fit: {y.ravel()[:6]} instead of {x.ravel()[:6]}")
    return True


@check("C29", cv_cases(), quick=400, rule="cross-validation with 1-8 jobs on joblib's threading backend (folds run concurrently in one process): every path, score, selection and coefficient as with sequential folds; non-trivial = at least two jobs")
def jobs(c, ctx):
    import joblib

    c = dict(c, n=c["n"] * [1, 6, 30][c["big"]])
    pb = G.Problem(c)

    def parallel():
        if c["manner"] == "context":
            with joblib.parallel_backend("threading", n_jobs=c["jobs"] or 3):
                return cv_fit(pb, c, None)
        with joblib.parallel_backend("threading"):
            return cv_fit(pb, c, c["jobs"])

    if cv_compare(pb, c, parallel, f"{pb.fam}/{pb.link}: {c['jobs']} concurrent folds ({c['manner']})"):
        ctx.mark(c["jobs"] not in (1, None) or c["manner"] == "context")
        ctx.label(f"jobs:{c['jobs']}", c["manner"], f"n:{c['n']}")


@check("C29", cv_cases(), quick=12, thorough=120, max_shards=2, rule="cross-validation with 2-4 jobs in joblib's worker processes: as with sequential folds; non-trivial = compared")
def processes(c, ctx):
    from joblib.externals.loky import get_reusable_executor

    pb = G.Problem(c)
    k = 2 + c["seed"] % 3
    try:
        if cv_compare(pb, c, lambda: cv_fit(pb, c, k), f"{pb.fam}/{pb.link}: {k} worker processes"):
            ctx.mark(True)
    finally:
        # idle workers would otherwise stay for minutes
        get_reusable_executor().shutdown(wait=True, kill_workers=True)


@st.composite
def together(draw):
    items = draw(st.lists(G.problems(fams=G.CONVEX, min_n=30, max_n=400, max_p=5, alphas=(0.01, 0.1, 0.5)), min_size=2, max_size=5))
    return dict(items=items, share=draw(st.booleans()), workers=draw(st.sampled_from([2, 4, 8])), queries=draw(st.booleans()))


@check("C29", together(), quick=250, rule="2-5 estimators (optionally sharing family and link objects) fitted and one of them queried concurrently in threads: bit for bit the results of one after the other; non-trivial = at least two fits succeeded")
def concurrent(c, ctx):
    pbs = [G.Problem(i) for i in c["items"]]
    shared = {}

    def one(pb):
        par = pb.params(max_iter=60)
        if c["share"]:
            par["family"] = shared.setdefault(pb.fam, par["family"])
            par["link"] = shared.setdefault(pb.link, par["link"])
        try:
            m = G.glr(**par).fit(pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
        except (ValueError, np.linalg.LinAlgError):
            return None
        q = [m.predict(pb.X), m.score(pb.X, pb.y), m.coef_, m.intercept_]
        return m, np.hstack([np.ravel(x) for x in q])

    def query(m, pb):
        return np.hstack([m.predict(pb.X, offset=pb.off), m.linear_predictor(pb.X), m.score(pb.X, pb.y), np.ravel(m.covariance_matrix(pb.X, pb.y, sample_weight=pb.w, offset=pb.off))])

    with warnings.catch_warnings(), threads(1), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        alone = [one(pb) for pb in pbs]
        with ThreadPoolExecutor(c["workers"]) as ex:
            both = list(ex.map(one, pbs * 2))
        for a, b, pb in zip(alone * 2, both, pbs * 2):
            if (a is None) != (b is None) or a is not None and not np.array_equal(a[1], b[1], equal_nan=True):
                fail(f"{pb.fam}/{pb.link}: fitted concurrently gives {None if b is None else b[1][-pb.p - 1:]} instead of {None if a is None else a[1][-pb.p - 1:]}")
        ok = [i for i, a in enumerate(alone) if a is not None]
        if c["queries"] and ok and np.all(np.isfinite(alone[ok[0]][1])):
            m, pb = alone[ok[0]][0], pbs[ok[0]]
            try:
                want = query(m, pb)
            except (ValueError, np.linalg.LinAlgError):
                return
            with ThreadPoolExecutor(c["workers"]) as ex:
                for got in ex.map(lambda _: query(m, pb), range(8)):
                    if not np.array_equal(want, got, equal_nan=True):
                        fail(f"{pb.fam}/{pb.link}: concurrent queries differ")
    ctx.mark(len(ok) >= 2)
    ctx.label(f"fits:{len(pbs)}", f"share:{c['share']}")
