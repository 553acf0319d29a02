"""Runner: registry of generated checks, sharded Hypothesis search, replay files, known findings, evidence."""
import collections
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis.internal.conjecture import engine as _hyp_engine  # noqa: E402

_hyp_engine.MAX_SHRINKING_SECONDS = 60


class Fail(AssertionError):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a pass of the property)."""


class CaseTimeout(BaseException):
    pass


ALL = collections.OrderedDict()  # (module, name) -> Sub
REG = collections.OrderedDict()  # name -> Sub of the property being run


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough):
        self.name, self.strategy, self.fn, self.quick, self.thorough = name, strategy, fn, quick, thorough


def sub(name, strategy, quick, thorough=None):
    def deco(fn):
        assert (fn.__module__, name) not in ALL, name
        ALL[fn.__module__, name] = Sub(name, strategy, fn, quick, thorough if thorough is not None else quick * 12)
        return fn

    return deco


class Cx:
    """Per-case context: classification labels, non-triviality, observed known findings."""

    def __init__(self, known_ids=()):
        self.labels = collections.Counter()
        self.nt = False
        self.known = {}
        self._known_ids = set(known_ids)

    def label(self, *labels):
        for lab in labels:
            self.labels[str(lab)] += 1

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def known_finding(self, kid, detail):
        """A genuine, recorded defect was observed. Not listed in known_findings.json => violation."""
        if kid not in self._known_ids:
            raise Fail(f"unlisted finding {kid}: {detail}")
        self.known[kid] = detail


# ---------------------------------------------------------------- comparison helpers
def close(a, b, what, rtol=1e-6, atol=1e-9):
    """NaN-aware comparison with a stated tolerance (atol is scaled by the magnitude of the reference)."""
    if a is None or b is None:
        if a is None and b is None:
            return
        raise Fail(f"{what}: got {_short(a)}, expected {_short(b)}")
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail(f"{what}: shape {a.shape}, expected {b.shape}")
    fin = b[np.isfinite(b)]
    scale = float(np.max(np.abs(fin))) if fin.size else 1.0
    ok = np.isclose(a, b, rtol=rtol, atol=atol * max(1.0, min(scale, 1e12)), equal_nan=True)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        raise Fail(f"{what}: differs at {len(bad)} of {a.size} entries, first {i}: got {a[i]!r}, expected {b[i]!r}")


def same(a, b, what):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f"):
            raise Fail(f"{what}: got {_short(a)}, expected {_short(b)}")
        return
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if type(a) is not type(b) or not a.equals(b) or list(a.columns) != list(b.columns) or not a.index.equals(b.index):
            raise Fail(f"{what}: tables differ")
        return
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            raise Fail(f"{what}: {len(a)} entries, expected {len(b)}")
        for x, y in zip(a, b):
            same(x, y, what)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            raise Fail(f"{what}: keys {_short(list(a))}, expected {_short(list(b))}")
        for k in a:
            same(a[k], b[k], f"{what}[{k!r}]")
        return
    if not (a == b):
        raise Fail(f"{what}: got {_short(a)}, expected {_short(b)}")


def ensure(cond, what):
    if not cond:
        raise Fail(what)


def raises(exc, fn, what):
    """fn() must raise one of exc."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except exc as e:
        return e
    except Exception as e:  # noqa: BLE001
        raise Fail(f"{what}: raised {type(e).__name__}: {_short(str(e))} instead of {exc}")
    raise Fail(f"{what}: accepted")


def _short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- running one case
def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    return o


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(s, spec, known_ids, timeout=60):
    """Returns (status, message, cx); status in ok, skip, fail, timeout, error."""
    cx = Cx(known_ids)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    np_state = np.random.get_state()
    try:
        np.random.seed(12345)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                s.fn(spec, cx)
        return "ok", "", cx
    except Skip as e:
        return "skip", str(e), cx
    except Fail as e:
        return "fail", str(e), cx
    except CaseTimeout:
        return "timeout", "case exceeded %ss" % timeout, cx
    except (MemoryError, ImportError, OSError, KeyboardInterrupt) as e:
        return "error", f"{type(e).__name__}: {e}\n" + traceback.format_exc(), cx
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:  # noqa: BLE001  unexpected exception on a valid case: the code under test or its result is broken
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename}:{f.lineno}" for f in tb if f.filename.startswith(REPO)]
        return "fail", f"unexpected {type(e).__name__}: {_short(str(e))} at {where[-1] if where else tb[-1]}", cx
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        np.random.set_state(np_state)


class _CaseFailed(Exception):
    pass


class _HarnessError(Exception):
    pass


def derive_seed(*parts):
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:12], 16)


def run_shard(args):
    """Runs in a worker process: one shard of one sub-check."""
    prop, sub_name, shard, n, base_seed, deadline, known_ids, corpus = args
    s = REG[sub_name]
    st = {
        "sub": sub_name, "shard": shard, "evaluations": 0, "nontrivial": set(), "labels": collections.Counter(), "skips": 0,
        "timeouts": 0, "known": {}, "failure": None, "error": None, "samples": [], "truncated": False, "t": time.time(),
    }
    holder = {"fail": None, "fail_time": None, "size": None}

    def evaluate(spec):
        spec = jsonable(spec)
        if holder["fail_time"] is None and time.time() > deadline:
            st["truncated"] = True
            return
        if holder["fail_time"] is not None and time.time() > holder["fail_time"] + 75:
            return
        status, msg, cx = run_case(s, spec, known_ids)
        if holder["fail"] is None:
            st["evaluations"] += 1
            st["labels"].update(cx.labels)
            st["known"].update(cx.known)
            if status == "skip":
                st["skips"] += 1
            if status == "timeout":
                st["timeouts"] += 1
            if status == "ok" and cx.nt:
                h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append({"sub": sub_name, "case": spec})
        if status == "error":
            raise _HarnessError(msg)
        if status == "fail":
            if holder["fail_time"] is None:
                holder["fail_time"] = time.time()
            holder["fail"] = (spec, msg)
            raise _CaseFailed(msg)

    try:
        for spec in corpus:
            evaluate(spec)
        if n > 0 and holder["fail"] is None:

            @hypothesis.seed(derive_seed(base_seed, prop, sub_name, shard))
            @settings(
                max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                verbosity=hypothesis.Verbosity.quiet,
            )
            @given(s.strategy)
            def t(spec):
                evaluate(spec)

            t()
    except _HarnessError as e:
        st["error"] = str(e)
    except _CaseFailed:
        pass
    except Exception as e:  # noqa: BLE001  flaky under the shrink budget etc.: the recorded failure decides
        if holder["fail"] is None:
            st["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()
    if holder["fail"] is not None:
        spec, msg = holder["fail"]
        # a failure must reproduce on its own, outside the library
        status, msg2, _ = run_case(s, spec, known_ids)
        if status == "fail":
            st["failure"] = (spec, msg2)
        else:
            st["error"] = f"failure did not reproduce ({status}): {msg}\n{json.dumps(spec)}"
    st["t"] = time.time() - st["t"]
    return st


# ---------------------------------------------------------------- property run
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {k["id"]: k for k in data.get("findings", []) if k["property"] == prop}


def load_corpus(prop):
    path = os.path.join(VERIF, "pbt", "corpus", prop + ".jsonl")
    out = collections.defaultdict(list)
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                out[d["sub"]].append(d["spec"])
    return out


def load_prop(prop):
    REG.clear()
    mod = importlib.import_module("pbt.props." + prop.lower())
    REG.update((name, v) for (m, name), v in ALL.items() if m == mod.__name__)
    return mod


def run_property(prop, tier, seed, only=None, scale=1.0, workers=int(os.environ.get("VERIF_WORKERS", "8"))):
    t0 = time.time()
    mod = load_prop(prop)
    known = load_known(prop)
    corpus = load_corpus(prop)
    budget = 260 if tier == "quick" else 800
    deadline = t0 + budget
    tasks = []
    for s in REG.values():
        if only and not re.search(only, s.name):
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * scale))
        k = int(min(8, max(1, n // 12)))
        for j in range(k):
            nj = n // k + (1 if j < n % k else 0)
            tasks.append((prop, s.name, j, nj, seed, deadline, list(known), corpus.get(s.name, []) if j == 0 else []))
    # interleave so that slow sub-checks start early and spread over workers
    tasks.sort(key=lambda a: a[2])
    res = []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(workers)
    hung = False
    try:
        it = pool.imap_unordered(run_shard, tasks, chunksize=1)
        for _ in range(len(tasks)):
            res.append(it.next(timeout=max(5.0, deadline + 170 - time.time())))
        pool.close()
    except mp.TimeoutError:
        hung = True
    finally:
        pool.terminate()
        pool.join()
    return mod, known, res, hung, time.time() - t0


def report(prop, tier, seed, mod, known, res, hung, wall, write=True):
    per = collections.OrderedDict()
    for r in sorted(res, key=lambda r: (r["sub"], r["shard"])):
        p = per.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "labels": collections.Counter(), "skips": 0,
                                      "timeouts": 0, "truncated": False, "cpu_s": 0.0})
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] |= r["nontrivial"]
        p["labels"].update(r["labels"])
        p["skips"] += r["skips"]
        p["timeouts"] += r["timeouts"]
        p["truncated"] |= r["truncated"]
        p["cpu_s"] += r["t"]
    seen_known = {}
    for r in res:
        seen_known.update(r["known"])
    failures = [(r["sub"], r["failure"]) for r in res if r["failure"]]
    errors = [(r["sub"], r["error"]) for r in res if r["error"]]
    samples = []
    for name in per:
        for r in res:
            if r["sub"] == name and r["samples"]:
                samples.append(r["samples"][0])
                break
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per.values()),
            "distinct_nontrivial": sum(len(p["nontrivial"]) for p in per.values()),
            "rule": getattr(mod, "RULE", "").strip(),
            "samples": samples[:12],
            "sub_checks": {
                n: {"evaluations": p["evaluations"], "distinct_nontrivial": len(p["nontrivial"]), "outside_domain": p["skips"],
                    "timeouts": p["timeouts"], "cut_by_budget": p["truncated"], "cpu_s": round(p["cpu_s"], 2),
                    "classes": dict(sorted(p["labels"].items()))}
                for n, p in per.items()
            },
            "known_findings_observed": sorted(seen_known),
            "hung": hung,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len({s for s, _ in failures}),
    }
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=False)
    for kid in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[kid]['what']}")
    done = set()
    best = {}
    for name, (spec, msg) in failures:
        size = len(json.dumps(spec))
        if name not in best or size < best[name][0]:
            best[name] = (size, spec, msg)
    for name, (_, spec, msg) in best.items():
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{name}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": name, "message": msg, "spec": spec}, f, indent=1)
        print(f"# {name}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        done.add(name)
    for name, msg in errors:
        print(f"HARNESS-ERROR {name}: {msg}", file=sys.stderr)
    print(f"{prop} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} "
          f"distinct non-trivial, {len(done)} violated sub-checks, {wall:.1f}s" + (" HUNG" if hung else ""))
    if done:
        return 1
    if errors:
        return 3
    return 0


def replay(path):
    d = json.load(open(path))
    load_prop(d["property"])
    known = load_known(d["property"])
    status, msg, _ = run_case(REG[d["sub"]], d["spec"], list(known), timeout=300)
    print(f"{d['property']} {d['sub']}: {status} {msg}")
    if status == "fail":
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0 if status in ("ok", "skip") else 3


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-write", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        import doubleml
        import hypothesis

        print("hypothesis", hypothesis.__version__, "doubleml", os.path.dirname(doubleml.__file__))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod, known, res, hung, wall = run_property(a.prop, a.tier, seed, a.only, a.scale)
    rc = report(a.prop, a.tier, seed, mod, known, res, hung, wall, write=not a.no_write)
    if a.verbose and not a.no_write:
        ev = json.load(open(os.path.join(VERIF, "evidence", a.prop + ".json")))
        for n, p in ev["coverage"]["sub_checks"].items():
            print(n, json.dumps(p))
    return rc
