"""C28: convergence reports are truthful."""
import contextlib
import io
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import gens as G
from pbt import oracle as O
from pbt.core import check, fail

NONNORMAL = [f for f in G.FAM_LINKS if f != ("normal", "identity") and f != ["normal", "identity"]]
FAILED = "IRLS failed to converge"
LINE = "Line search failed"
INNER = "Coordinate descent did not converge"


def fit(pb, est=None, **kw):
    """The fitted estimator and the convergence messages; (None, ...) if unsolvable."""
    from sklearn.exceptions import ConvergenceWarning

    m = est if est is not None else G.glr(**pb.params(**kw))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            m.fit(pb.X, pb.y, sample_weight=pb.w, offset=pb.off)
        except (np.linalg.LinAlgError, ValueError) as e:
            if isinstance(e, ValueError) and "infs or NaNs" not in str(e) and "singular" not in str(e).lower():
                raise
            return None, []
    return m, [str(r.message) for r in rec if issubclass(r.category, ConvergenceWarning) or "lbfgs failed" in str(r.message)]


def residual(obj, m):
    g0, g = obj.kkt(float(m.intercept_), np.asarray(m.coef_, float))
    return abs(g0) + np.abs(g).sum()


def slack(obj, m):
    return 1e-10 * (1 + np.nan_to_num(obj.grad_scale(float(m.intercept_), np.asarray(m.coef_, float)), nan=1.0))


def tame(pb, m):
    """Whether the result is far from the ends of the range of the mean, where the
    closed forms of the oracle and of the code cancel differently."""
    b0, b = float(m.intercept_), np.asarray(m.coef_, float)
    if not (np.isfinite(b0) and np.all(np.isfinite(b)) and np.max(np.abs(b), initial=0) < 1e3):
        return False
    eta = pb.X @ b + b0 + (0 if pb.off is None else pb.off)
    return bool(np.all(eta < (2.5 if pb.link == "cloglog" else 12)) and np.all(eta > -12)) if pb.link != "identity" else True


def table(m):
    d = m.get_formatted_diagnostics(full_report=True)
    if not isinstance(d, pd.DataFrame):
        fail(f"no diagnostics of an IRLS fit: {d!r}")
    return d


@st.composite
def problems(draw, fams=NONNORMAL):
    c = draw(G.problems(fams=fams, degenerate=False))
    c["solver"] = draw(st.sampled_from(["irls-cd", "irls-ls", "auto"]))
    c["tol"] = draw(st.sampled_from([1e-4, 1e-2, 1e-6, None]))
    c["step"] = draw(st.sampled_from([None, None, 1e-3, 1e-1]))
    c["max_iter"] = draw(st.integers(1, 12))
    c["start"] = draw(st.booleans())
    c["sel"] = draw(st.sampled_from(["cyclic", "random"]))
    return c


def options(c, pb):
    s = c["solver"]
    if s == "irls-ls" and pb.alpha * pb.l1 > 0:
        s = "irls-cd"
    kw = dict(solver=s, step_size_tol=c["step"], selection=c["sel"], random_state=0)
    if c["tol"] is not None:
        kw["gradient_tol"] = c["tol"]
    if c["start"]:
        rng = np.random.default_rng(c["seed"] + 1)
        kw["start_params"] = rng.normal(size=pb.p + pb.fi) * 0.05
    return kw, c["tol"] or 1e-4


@check("C28", problems(), quick=6000, rule="IRLS fits of all families with iteration limits 1-12, gradient and step tolerances, both solvers, random and cyclic selection: warned exactly if neither stopping rule holds at the end, rows 0..n_iter_, no row before the last satisfies a rule, objective never rises, last row true; non-trivial = at least two iterations")
def reports(c, ctx):
    pb = G.Problem(c)
    kw, tol = options(c, pb)
    m, said = fit(pb, max_iter=c["max_iter"], **kw)
    if m is None:
        return
    what = f"{pb.fam}/{pb.link}/{kw['solver']}, max_iter={c['max_iter']}, tol={tol}, step_size_tol={c['step']}"
    d = table(m)
    if not 0 <= m.n_iter_ <= c["max_iter"]:
        fail(f"{what}: n_iter_={m.n_iter_}")
    if list(d.index) != list(range(m.n_iter_ + 1)):
        fail(f"{what}: rows {list(d.index)} for n_iter_={m.n_iter_}")
    conv, step, objective = (d[k].to_numpy(float) for k in ("convergence", "L2(step)", "objective_fct"))
    rule = conv < tol
    if c["step"] is not None:
        rule[1:] |= step[1:] < c["step"]
    warned = any(FAILED in s for s in said)
    others = [s for s in said if FAILED not in s and LINE not in s and INNER not in s]
    if others:
        fail(f"{what}: {others}")
    if warned == bool(rule[-1]):
        fail(f"{what}: {'warned' if warned else 'not warned'} with convergence {conv[-1]} and step {step[-1]} after {m.n_iter_} iterations")
    if not rule[-1] and m.n_iter_ < c["max_iter"]:
        fail(f"{what}: stopped after {m.n_iter_} iterations with convergence {conv[-1]}, step {step[-1]}")
    if np.any(rule[:-1]):
        fail(f"{what}: not stopped at the row that satisfies the stopping rule: {conv}, {step}")
    obj = pb.objective()
    r = residual(obj, m)
    if np.isfinite(r) and tame(pb, m):
        if abs(r - conv[-1]) > 1e-5 * r + slack(obj, m):
            fail(f"{what}: convergence reported as {conv[-1]}, but the subgradient at the result has norm {r}")
    if not any(LINE in s for s in said) and np.all(np.isfinite(objective)):
        up = np.diff(objective)
        if np.any(up > 1e-12 + 1e-9 * np.abs(objective[:-1])):
            fail(f"{what}: the reported objective rises: {objective}")
    l1, l2 = d["L1(coef)"].to_numpy(float), d["L2(coef)"].to_numpy(float)
    k = pb.p + pb.fi
    if np.any(l2 > l1 * (1 + 1e-9)) or np.any(l1 > l2 * np.sqrt(k) * (1 + 1e-9)):
        fail(f"{what}: norms L1 {l1}, L2 {l2} of {k} coefficients")
    ctx.label(f"{'warned' if warned else 'converged'}", f"solver:{kw['solver']}", f"fam:{pb.fam}", "line search" if any(LINE in s for s in said) else "")
    ctx.mark(m.n_iter_ >= 2)


@check("C28", problems(), quick=1500, rule="the rows of one run against runs stopped at each earlier iteration: objective and subgradient norm of row k are those of the coefficients after k iterations, and n_iter_, warnings and rows agree; non-trivial = three rows compared")
def prefixes(c, ctx):
    pb = G.Problem(c)
    kw, tol = options(c, pb)
    m, said = fit(pb, max_iter=c["max_iter"], **kw)
    if m is None or m.n_iter_ < 2:
        return
    what = f"{pb.fam}/{pb.link}/{kw['solver']}"
    d = table(m)
    obj = pb.objective()
    base = None
    rows = 0
    for k in range(1, m.n_iter_ + 1):
        a, s = fit(pb, max_iter=k, **kw)
        if a is None:
            return
        if a.n_iter_ != k:
            fail(f"{what}: {a.n_iter_} iterations for max_iter={k}, but {m.n_iter_} for max_iter={c['max_iter']}")
        if k < m.n_iter_ and not any(FAILED in x for x in s):
            fail(f"{what}: no warning for max_iter={k}, although the run needs {m.n_iter_} iterations")
        e = table(a)
        for col in ("convergence", "objective_fct", "L1(coef)", "L2(step)", "intercept", "n_cycles"):
            x, y = d[col].to_numpy(float)[: k + 1], e[col].to_numpy(float)
            if not np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True):
                fail(f"{what}: {col} of the first {k} iterations differs between runs: {x}, {y}")
        b0, b = float(a.intercept_), np.asarray(a.coef_, float)
        if not tame(pb, a):
            return
        v = obj.value(b0, b)
        row = float(d["objective_fct"].iloc[k])
        if not (np.isfinite(v) and np.isfinite(row)):
            return
        if base is None:
            base = v - row  # the constant part of the deviance
        elif abs(v - row - base) > 1e-6 * (1 + abs(v) + abs(row)):
            fail(f"{what}: objective of iteration {k} reported as {row}, it is {v - base}")
        r, t = residual(obj, a), float(d["convergence"].iloc[k])
        if np.isfinite(r) and abs(r - t) > 1e-5 * r + slack(obj, a):
            fail(f"{what}: convergence of iteration {k} reported as {t}, it is {r}")
        rows += 1
    ctx.label(f"rows:{min(rows, 6)}", f"fam:{pb.fam}")
    ctx.mark(rows >= 3)


ANY_SOLVER = ["irls-cd", "irls-ls", "lbfgs", "trust-constr", "auto"]


@st.composite
def budgets(draw):
    c = draw(G.problems(fams=G.CONVEX, degenerate=False))
    c["solver"] = draw(st.sampled_from(ANY_SOLVER))
    c["limits"] = sorted(draw(st.sets(st.integers(1, 40), min_size=2, max_size=4)))
    return c


@check("C28", budgets(), quick=2000, rule="every solver with increasing iteration limits on convex problems: the objective never gets worse, n_iter_ is within the limit, warned fits used the whole limit, a fit without warning is not improved by more iterations; non-trivial = warned under the smallest limit")
def more_iterations(c, ctx):
    pb = G.Problem(c)
    s = c["solver"]
    if pb.alpha * pb.l1 > 0 and s not in ("irls-cd", "auto"):
        s = "irls-cd"
    what = f"{pb.fam}/{pb.link}/{s}"
    obj = pb.objective()
    last = quiet = None
    first = False
    for k in c["limits"]:
        m, said = fit(pb, solver=s, max_iter=k)
        if m is None:
            return
        if m.n_iter_ > k:
            fail(f"{what}: n_iter_={m.n_iter_} with max_iter={k}")
        b0, b = float(m.intercept_), np.asarray(m.coef_, float)
        v = obj.value(b0, b)
        if not np.isfinite(v) or not tame(pb, m):
            return
        n = pb.fam == "normal" and pb.link == "identity"
        if any("increase" in x.lower() and INNER not in x for x in said) and m.n_iter_ < (1 if n and "lbfgs" != s else k):
            fail(f"{what}: {said} after {m.n_iter_} of {k} iterations")
        if last is not None:
            if v > last + 1e-9 * (1 + abs(v)):
                fail(f"{what}: the objective rises from {last} with max_iter={before} to {v} with max_iter={k}")
            if quiet is not None and (v != last or m.n_iter_ != quiet):
                fail(f"{what}: converged after {quiet} iterations with max_iter={before}, but {m.n_iter_} with max_iter={k} (objective {last}, {v})")
        else:
            first = bool(said)
        last, before = v, k
        quiet = m.n_iter_ if not said else None
    ctx.label(f"solver:{s}", f"fam:{pb.fam}")
    ctx.mark(first)


@st.composite
def paths(draw):
    c = draw(G.problems(fams=NONNORMAL, degenerate=False))
    c["max_iter"] = draw(st.integers(1, 8))
    c["alphas"] = draw(st.integers(1, 5))
    c["cv"] = draw(st.booleans())
    return c


@check("C28", paths(), quick=1200, rule="regularisation paths and cross-validated fits under small iteration limits: one warning per path entry whose subgradient exceeds the tolerance, none otherwise (CV: warned if the refit is not optimal), n_iter_ within the limit, diagnostics belong to the last path entry; non-trivial = some entries converged and some did not")
def path_reports(c, ctx):
    import glum

    pb = G.Problem(c)
    rng = np.random.default_rng(c["seed"] + 2)
    alphas = np.sort(10 ** rng.uniform(-3, 0, size=c["alphas"]))[::-1]
    par = pb.params(gradient_tol=1e-4, max_iter=c["max_iter"])
    par.pop("alpha")
    if c["cv"]:
        m = glum.GeneralizedLinearRegressorCV(alphas=alphas, cv=2, **par)
    else:
        m = glum.GeneralizedLinearRegressor(alpha=alphas, alpha_search=True, **par)
    try:
        m, said = fit(pb, est=m)
    except ValueError as e:
        if c["cv"] and ("range" in str(e) or "weight" in str(e) or "variation" in str(e)):
            return
        raise
    if m is None:
        return
    what = f"{'CV' if c['cv'] else 'path'} {pb.fam}/{pb.link}, max_iter={c['max_iter']}"
    if m.n_iter_ > c["max_iter"]:
        fail(f"{what}: n_iter_={m.n_iter_}")
    d = table(m)
    if list(d.index) != list(range(m.n_iter_ + 1)):
        fail(f"{what}: rows {list(d.index)} for n_iter_={m.n_iter_}")
    warned = sum(FAILED in s for s in said)
    if c["cv"]:
        o = pb.objective(alpha=m.alpha_)
        r = residual(o, m)
        if tame(pb, m) and r > 1e-4 * (1 + 1e-6) + slack(o, m) and not warned:
            fail(f"{what}: no warning although the subgradient of the result has norm {r}")
        ctx.mark(warned > 0)
        return
    got = sum_sure = 0
    for k, a in enumerate(alphas):
        o = pb.objective(alpha=a)
        b0, b = float(np.asarray(m.intercept_path_).ravel()[k]) if pb.fi else 0.0, np.asarray(m.coef_path_[k], float)
        part = type(m)(**m.get_params())
        part.coef_, part.intercept_ = b, b0
        if not tame(pb, part):
            return
        g0, g = o.kkt(b0, b)
        r = abs(g0) + np.abs(g).sum()
        if not np.isfinite(r):
            return
        s = 1e-9 * (1 + np.nan_to_num(o.grad_scale(b0, b), nan=1.0))
        got += r > 1e-4 + s
        sum_sure += r > 1e-4 - s
    if not got <= warned <= sum_sure:
        fail(f"{what}: {warned} warnings, but {got} of {len(alphas)} path entries are not optimal")
    if abs(r - float(d["convergence"].iloc[-1])) > 1e-5 * r + s:
        fail(f"{what}: diagnostics end with convergence {d['convergence'].iloc[-1]}, the last path entry has {r}")
    ctx.label(f"failed:{got}")
    ctx.mark(0 < got < len(alphas))


@st.composite
def shapes(draw):
    c = draw(problems(G.CONVEX))
    c["cols"] = c["cols"][:3]
    c["rep"] = draw(st.integers(0, 3))
    c["columns"] = draw(st.lists(st.sampled_from(["convergence", "objective_fct", "L1(coef)", "L2(coef)", "L2(step)", "n_cycles", "n_coef_updated", "n_active_cols", "n_active_rows", "n_line_search", "intercept"]), min_size=1, max_size=4, unique=True))
    return c


@check("C28", shapes(), quick=500, rule="restarting at the optimum, report_diagnostics and get_formatted_diagnostics with default, full and custom columns, diagnostics of direct solvers, unfitted estimators and refits; non-trivial = IRLS diagnostics shown")
def displays(c, ctx):
    pb = G.Problem(c)
    kw, tol = options(c, pb)
    kw.pop("start_params", None)
    solver = ["auto", "lbfgs", "closed-form", "irls-cd"][c["rep"]]
    plain = pb.alpha * pb.l1 == 0
    if solver == "lbfgs" and not plain or solver == "closed-form" and not (plain and pb.fam == "normal" and pb.link == "identity"):
        solver = "irls-cd"
    kw["solver"] = solver
    new = G.glr(**pb.params(**kw))
    if not isinstance(new.get_formatted_diagnostics(), str):
        fail("diagnostics of an unfitted estimator")
    m, said = fit(pb, est=new)
    if m is None:
        return
    what = f"{pb.fam}/{pb.link}/{solver}"
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.report_diagnostics(full_report=c["start"])
    full = m.get_formatted_diagnostics(full_report=True)
    if not out.getvalue().strip():
        fail(f"{what}: report_diagnostics prints nothing")
    if isinstance(full, str):
        direct = plain and pb.fam == "normal" and pb.link == "identity"
        if solver == "irls-cd" or solver == "auto" and not direct:
            fail(f"{what}: {full!r}")
        return
    short, own = m.get_formatted_diagnostics(), m.get_formatted_diagnostics(custom_columns=c["columns"])
    if not set(short.columns) < set(full.columns) or list(own.columns) != c["columns"]:
        fail(f"{what}: columns {list(short.columns)}, {list(own.columns)}")
    if not own.equals(full[c["columns"]]) or not short.equals(full[list(short.columns)]):
        fail(f"{what}: the shown columns differ from the full report")
    if pb.fi and not full["intercept"].equals(full["first_coef"].rename("intercept")) or not pb.fi and full["intercept"].notna().any():
        fail(f"{what}: intercept column {full['intercept'].to_list()}")
    # restarted at its result a converged fit has nothing to do
    # (start values of constant columns are not kept)
    used = np.full(len(pb.y), True) if pb.w is None else pb.w > 0
    if not said and np.all(pb.X[used].std(0) > 1e-6):
        again = G.glr(**pb.params(**kw, start_params=np.r_[m.intercept_, m.coef_] if pb.fi else m.coef_))
        r = residual(pb.objective(), m)
        if r < 0.99 * tol and np.isfinite(r) and tame(pb, m):
            again, s = fit(pb, est=again)
            if s or again.n_iter_ > 1:
                fail(f"{what}: started at the optimum (subgradient {r}): {again.n_iter_} iterations, {s}")
            if again.n_iter_ == 0 and not np.allclose(again.coef_, m.coef_, rtol=1e-9, atol=1e-12):
                fail(f"{what}: started at the optimum moves without iterating")
    ctx.mark(True)
