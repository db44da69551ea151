"""Harness: registered generated-input checks, sharding, shrinking, replay, evidence."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REGISTRY = collections.OrderedDict()
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The code under test broke the property on the current case."""


def fail(msg):
    raise Violation(msg)


class Check:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, max_shards):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.max_shards = max_shards


def check(prop, strategy, quick, thorough=None, rule="", max_shards=64):
    """Register fn(case, ctx): case is a JSON-able value drawn from strategy."""

    def deco(fn):
        c = Check(prop, fn.__name__, strategy, fn, quick, thorough or quick * 15, rule, max_shards)
        REGISTRY.setdefault(prop, []).append(c)
        return fn

    return deco


class Ctx:
    """Per-case recorder of what the case exercised."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels += [str(n) for n in names]

    def mark(self, cond=True):
        """Declare the case non-trivial (the property's premise was exercised)."""
        if cond:
            self.nontrivial = True


def _in_glum(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/glum/_" in fn or "/glum_benchmarks/" in fn or "glum/_functions.pyx" in fn or "glum/_cd_fast.pyx" in fn:
            return True
        tb = tb.tb_next
    return False


def evaluate(chk, case, ctx):
    """Run one case; anything raised inside glum on a valid case is a violation."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            chk.fn(case, ctx)
        except Violation:
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            if _in_glum(e):
                tail = "".join(traceback.format_exception(e)[-6:])
                raise Violation(f"unexpected {type(e).__name__}: {e}\n{tail}") from e
            raise


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_shard(chk, seed, n, outfile, curfile, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 45

    res = dict(evals=0, skipped=0, hashes=set(), labels=collections.Counter(), samples=[], failure=None, error=None)
    last = {}
    cur = open(curfile, "w")

    def body(case):
        if time.time() > deadline and not last:
            res["skipped"] += 1
            return
        js = json.dumps(case, default=str)
        cur.seek(0)
        cur.truncate()
        cur.write(js)
        cur.flush()
        ctx = Ctx()
        res["evals"] += 1
        try:
            evaluate(chk, case, ctx)
        except Violation as e:
            last["case"], last["msg"] = case, str(e)
            raise
        for lab in set(ctx.labels):
            res["labels"][lab] += 1
        if ctx.nontrivial:
            h = case_hash(case)
            if h not in res["hashes"]:
                res["hashes"].add(h)
                if len(res["samples"]) < 2 and res["evals"] > 3:
                    res["samples"].append(case)

    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example),
    )(hypothesis.seed(seed)(given(chk.strategy)(body)))
    try:
        with open(os.devnull, "w") as dn:
            so = sys.stdout
            sys.stdout = dn
            try:
                test()
            finally:
                sys.stdout = so
    except Violation as e:
        res["failure"] = dict(case=last["case"], msg=last["msg"])
    except hypothesis.errors.Flaky as e:
        if last:
            res["failure"] = dict(case=last["case"], msg="(not reproduced on every run) " + last["msg"])
        else:
            res["error"] = "".join(traceback.format_exception(e))
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(e))
    res["hashes"] = sorted(res["hashes"])
    res["labels"] = dict(res["labels"])
    tmp = str(outfile) + ".part"
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)
    os.replace(tmp, outfile)


def load(prop):
    importlib.import_module(f"checks.{prop.lower()}")
    return REGISTRY[prop]


def known_findings(prop):
    out = []
    p = VERIF / "known_findings.txt"
    for line in p.read_text().splitlines() if p.exists() else []:
        if line.startswith(f"finding: property={prop} "):
            out.append(line[len("finding: "):])
    return out


def write_replay(prop, chk_name, case, msg, seed):
    d = VERIF / ".replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-{chk_name}-{case_hash(case)}.json"
    path.write_text(json.dumps(dict(property=prop, check=chk_name, case=case, message=msg, seed=seed), indent=1, default=str))
    return path


def replay(path):
    r = json.loads(Path(path).read_text())
    for chk in load(r["property"]):
        if chk.name == r["check"]:
            try:
                evaluate(chk, r["case"], Ctx())
            except Violation as e:
                print(f"VIOLATION property={r['property']} replay={path}\n{e}")
                return 1
            print("replay: property holds on this case")
            return 0
    print("no such check")
    return 2


def run_property(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    checks = [c for c in load(prop) if only is None or c.name == only]
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 6 * 3600))
    hard = budget + 240
    deadline = t0 + budget
    jobs = []
    for c in checks:
        n = max(1, int((c.quick if tier == "quick" else c.thorough) * scale))
        shards = min(N_WORKERS, c.max_shards, max(1, n // 4))
        for s in range(shards):
            jobs.append((c, s, (n + shards - 1) // shards))
    # long jobs of different checks interleaved
    jobs.sort(key=lambda j: j[1])
    tmp = Path(tempfile.mkdtemp(prefix=f"pbt{prop}"))
    ctx = mp.get_context("fork")
    running, results, errors, failure = {}, [], [], None
    queue = collections.deque(enumerate(jobs))
    try:
        while queue or running:
            while queue and len(running) < N_WORKERS:
                i, (c, s, n) = queue.popleft()
                sd = int.from_bytes(hashlib.sha256(f"{seed}|{prop}|{c.name}|{s}".encode()).digest()[:6], "big")
                out, cur = tmp / f"{i}.json", tmp / f"{i}.cur"
                p = ctx.Process(target=run_shard, args=(c, sd, n, out, cur, deadline))
                p.start()
                running[i] = (p, c, out, cur)
            done = [i for i, (p, *_) in running.items() if not p.is_alive()]
            for i in done:
                p, c, out, cur = running.pop(i)
                p.join()
                if out.exists():
                    r = json.loads(out.read_text())
                    r["check"] = c.name
                    results.append(r)
                    if r["failure"] and failure is None:
                        failure = (c.name, r["failure"]["case"], r["failure"]["msg"])
                    if r["error"]:
                        errors.append(f"{c.name}: {r['error']}")
                elif p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
                    case = json.loads(cur.read_text())
                    failure = failure or (c.name, case, f"process died with signal {-p.exitcode}")
                else:
                    errors.append(f"{c.name}: worker ended with {p.exitcode}")
            if failure or errors and time.time() - t0 > budget:
                break
            if time.time() - t0 > hard:
                errors.append("time limit reached; no answer")
                break
            if not done:
                time.sleep(0.02)
    finally:
        for p, *_ in running.values():
            p.kill()
        for p, *_ in running.values():
            p.join()
        for f in tmp.iterdir():
            f.unlink()
        tmp.rmdir()

    labels, hashes, samples, per = collections.Counter(), set(), [], {}
    for r in results:
        hashes.update(f"{r['check']}:{h}" for h in r["hashes"])
        for k, v in r["labels"].items():
            labels[f"{r['check']}/{k}"] += v
        d = per.setdefault(r["check"], dict(evaluations=0, distinct_nontrivial=0, inconclusive_after_time_budget=0))
        d["evaluations"] += r["evals"]
        d["inconclusive_after_time_budget"] += r["skipped"]
        d["distinct_nontrivial"] += len(r["hashes"])
        if r["samples"] and sum(s["check"] == r["check"] for s in samples) < 2:
            samples.append(dict(check=r["check"], case=r["samples"][0]))
    nv = 0
    if failure:
        nv = 1
        path = write_replay(prop, *failure, seed)
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(r["evals"] for r in results),
            distinct_nontrivial=len(hashes),
            rule="; ".join(f"[{c.name}] {c.rule}" for c in checks),
            samples=samples or [dict(note="no completed shard")],
            per_check=per,
            classes=dict(sorted(labels.items())),
        ),
        assumptions=["generated inputs only; no claim about inputs outside the generators' ranges"],
        wall_s=round(time.time() - t0, 2),
        violations=nv,
    )
    (VERIF / "evidence").mkdir(exist_ok=True)
    if only is None:
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line)
    for name, d in per.items():
        print(f"{prop} {name}: {d}")
    if os.environ.get("VERIF_LABELS"):
        for k, v in sorted(labels.items()):
            print("   ", k, v)
    print(f"wall {evidence['wall_s']}s")
    if failure:
        print(f"check {failure[0]}: {failure[2][:3000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR", errors[0][-4000:], file=sys.stderr)
        return 2
    return 0
