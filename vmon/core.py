"""Shared machinery of the runtime monitors.

A check is a list of *workloads*.  A workload is a function ``fn(case)`` that
drives the real code in /repo and lets monitors observe it; it is run for
``n`` indices.  Every random choice comes from a generator derived from
(VERIF_SEED, property, workload name, index), so one case can be replayed
alone.  Verdicts: a monitor that fires -> VIOLATION (exit 1); all quiet and
every required monitor reached -> exit 0; anything else -> inconclusive
(exit 2).
"""
import contextlib
import faulthandler
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_WITNESSES = 8


class Broken(Exception):
    """A monitor fired."""

    def __init__(self, monitor, detail):
        super().__init__(f"{monitor}: {detail}")
        self.monitor = monitor
        self.detail = detail


class StepBudget(Exception):
    """The code under test took more steps than it is allowed to."""


def _h(*parts):
    s = "|".join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(s).digest()[:8], "big")


def seed32(*parts):
    return _h(*parts) % (2**32 - 1)


class Case:
    """One execution: its random generator and the monitors' counters."""

    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        self.rng = np.random.default_rng(_h(seed, prop, workload, index))
        self.counts = {}
        self.sigs = set()
        self.findings = []
        self.sample = None
        self.stats = {}
        self.npseed = seed32(seed, prop, workload, index, "np")

    # -- monitors ---------------------------------------------------------
    def seen(self, monitor, k=1):
        self.counts[monitor] = self.counts.get(monitor, 0) + int(k)

    def sig(self, *parts):
        """Signature of a distinct non-trivial case."""
        self.sigs.add(repr(parts))

    def note(self, **kw):
        self.sample = {**(self.sample or {}), **kw}

    def require(self, cond, monitor, detail=""):
        self.seen(monitor)
        if not bool(cond):
            raise Broken(monitor, detail() if callable(detail) else detail)

    def close(self, got, want, monitor, rtol=1e-9, atol=0.0, scale=None, detail=""):
        """|got - want| <= rtol * scale + atol, shape included; NaN fails."""
        self.seen(monitor)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Broken(monitor, f"shape {g.shape} instead of {w.shape} {detail}")
        if g.size == 0:
            return
        if g.dtype == object or w.dtype == object:
            g, w = g.astype(complex), w.astype(complex)
        if scale is None:
            scale = max(float(np.max(np.abs(w))), 1e-300)
        err = np.abs(g - w)
        lim = rtol * scale + atol
        if not np.all(err <= lim):
            k = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            raise Broken(
                monitor,
                f"at {k}: got {g.ravel()[k]!r}, expected {w.ravel()[k]!r} "
                f"(error {err.ravel()[k]:.3e} > {np.ravel(np.broadcast_to(lim, err.shape))[k]:.3e}) {detail}",
            )

    def equal(self, got, want, monitor, detail=""):
        self.seen(monitor)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            raise Broken(monitor, f"{_short(g)} != {_short(w)} {detail}")

    def raises(self, excs, fn, monitor, detail=""):
        self.seen(monitor)
        try:
            r = fn()
        except excs as e:
            return e
        except Exception as e:
            raise Broken(monitor, f"raised {type(e).__name__}({e}) {detail}")
        raise Broken(monitor, f"accepted, returned {_short(r)} {detail}")

    def finding(self, key, detail):
        """A violation that is listed by mechanism in known_findings.txt."""
        self.findings.append((key, detail))

    def stat(self, key, value):
        """Values pooled over all cases of a workload for a final decision."""
        self.stats.setdefault(key, []).append(value)


def _short(x):
    s = repr(x).replace("\n", " ")
    return s if len(s) < 160 else s[:157] + "..."


class Guarded:
    """Snapshot of user-owned arrays: nothing may write to them."""

    def __init__(self, **arrays):
        self.arrays = arrays
        self.snap = {k: self._digest(v) for k, v in arrays.items()}

    @staticmethod
    def _digest(v):
        if hasattr(v, "toarray"):
            v = v.toarray()
        a = np.asarray(v)
        return (a.shape, str(a.dtype), np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a))

    def verify(self, case, monitor="inputs-unmodified"):
        for k, v in self.arrays.items():
            case.require(self._digest(v) == self.snap[k], monitor, f"argument {k} was modified")


def refilled(case, f, inputs, monitor="refilled-buffer", rtol=1e-11, floor=0.0):
    """f must judge what its argument holds now: one buffer is refilled in
    place between calls, and each answer has to be the one for a fresh copy."""
    arr = [np.asarray(v) for v in inputs]
    buf = np.array(arr[0], copy=True)
    got = []
    for v in arr + arr[:1]:
        buf[...] = v
        got.append(np.array(f(buf), copy=True))
    for g, v in zip(got, arr + arr[:1]):
        w = np.array(f(np.array(v, copy=True)), copy=True)
        sc = float(np.max(np.abs(w), initial=0)) + floor + 1e-300
        case.close(g, w, monitor, rtol=rtol, scale=sc, detail="(same array object, new contents)")
    # an answer already given is not changed by later calls
    kept = f(np.array(arr[0], copy=True))
    was = np.array(kept, copy=True)
    for v in arr[1:]:
        f(np.array(v, copy=True))
    case.require(np.array_equal(np.asarray(kept), was, equal_nan=True), monitor, "a later call changed an answer already given")


def many_calls(case, f, u, v, monitor="stateless", n=1500, rtol=1e-11, floor=0.0):
    """The answer does not depend on how often f has been called before."""
    want = np.array(f(np.array(u, copy=True)), copy=True)
    sc = float(np.max(np.abs(want), initial=0)) + floor + 1e-300
    for i in range(n):
        f(v)
        if i & (i + 1) == 0 or i == n - 1:
            case.close(f(np.array(u, copy=True)), want, monitor, rtol=rtol, scale=sc, detail=f"(after {i + 1} other calls)")


def refilled_pair(case, f, g, inputs, monitor="refilled-buffer", rtol=1e-11, floor=0.0):
    """As refilled, for two functions of one object that take the same input:
    what one of them saw must not leak into the other after a refill."""
    arr = [np.asarray(v) for v in inputs]
    for a, b in ((f, g), (g, f)):
        buf = np.array(arr[0], copy=True)
        for u, v in zip(arr, arr[1:] + arr[:1]):
            buf[...] = u
            a(buf)
            buf[...] = v
            got = np.array(b(buf), copy=True)
            w = np.array(b(np.array(v, copy=True)), copy=True)
            sc = float(np.max(np.abs(w), initial=0)) + floor + 1e-300
            case.close(got, w, monitor, rtol=rtol, scale=sc, detail="(array refilled since another method saw it)")


def homogeneous(case, f, x, monitor="linear", rtol=1e-10, floor=0.0):
    """A linear map has no preferred unit: f(c x) = c f(x), tiny and huge c."""
    y = np.array(f(np.array(x, copy=True)), copy=True)
    sc = float(np.max(np.abs(y), initial=0)) + 1e-6 * float(np.max(np.abs(x), initial=0)) + 1e-300 + floor
    for c in (1e-30, -1e-18, 1e-9, 1e20):
        case.close(np.asarray(f(np.asarray(x) * c)) / c, y, monitor, rtol=rtol, scale=sc, detail=f"(input scaled by {c})")


def keeps_small(case, f, u, v, monitor="linear", rtol=1e-11, floor=0.0):
    """Small components next to large ones are not lost: f(u + eps v)."""
    u, v = np.asarray(u), np.asarray(v)
    fu, fv = np.array(f(u.copy()), copy=True), np.array(f(v.copy()), copy=True)
    for eps in (1e-6, 1e-9j):
        sc = float(np.max(np.abs(fu), initial=0)) + 1e-3 * float(np.max(np.abs(fv), initial=0)) + 1e-2 * float(np.max(np.abs(u), initial=0)) + 1e-300 + floor
        case.close(f(u + eps * v), fu + eps * fv, monitor, rtol=rtol, scale=sc, detail=f"(a component {eps} times smaller than the rest)")


@contextlib.contextmanager
def quiet():
    """Swallow stdout of the code under test; keep it for inspection."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def known_findings():
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                head = line.split()
                prop = head[1].split("=", 1)[1]
                key = head[2].split("=", 1)[1]
                out[(prop, key)] = " ".join(head[3:])
    return out


def _run_case(prop, workload, fn, index, seed, tier):
    case = Case(prop, workload, index, seed, tier)
    np.random.seed(case.npseed)
    viol = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with quiet():
                fn(case)
        except Broken as b:
            viol = {"monitor": b.monitor, "detail": str(b.detail)[:2000]}
        except StepBudget as b:
            viol = {"monitor": "bounded-progress", "detail": str(b)}
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            viol = {
                "monitor": "no-exception-on-valid-use",
                "detail": f"{type(e).__name__}: {e}",
                "traceback": traceback.format_exc()[-3000:],
            }
    if viol:
        viol.update(workload=workload, index=index, seed=seed, tier=tier, case=_jsonable(case.sample))
    return {
        "viol": viol,
        "counts": case.counts,
        "sigs": case.sigs,
        "findings": case.findings,
        "sample": _jsonable(case.sample),
        "stats": case.stats,
    }


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _short(x)
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    return _short(x)


_TASK = {}


def _worker(args):
    name, idxs = args
    prop, fn, seed, tier = _TASK[name]
    return [(i, _run_case(prop, name, fn, i, seed, tier)) for i in idxs]


# The cheap checks run this many times their base workload on every change.
QUICK_FACTOR = dict.fromkeys("C01 C02 C06 C28".split(), 2)
QUICK_FACTOR.update(dict.fromkeys("C03 C07 C09 C12 C13 C15 C16 C19 C20".split(), 3))
QUICK_FACTOR.update(dict.fromkeys("C08 C10 C11 C14 C17 C18 C21 C22 C25 C29".split(), 5))


class Check:
    """Registry of one property's workloads; see checks/*.py."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.workloads = []
        self.required = []
        self.pooled = []

    def workload(self, quick, thorough=None):
        def deco(fn):
            self.workloads.append((fn.__name__, fn, quick, thorough or quick * 8))
            return fn
        return deco

    def pool(self, workload):
        """Register a decision over the statistics pooled from a workload."""
        def deco(fn):
            self.pooled.append((workload, fn))
            return fn
        return deco

    def require_monitors(self, *names):
        self.required += names

    # -- run ---------------------------------------------------------------
    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        if tier not in ("quick", "thorough"):
            tier = "quick"
        replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
        only = argv[argv.index("--only") + 1] if "--only" in argv else None
        serial = "--serial" in argv
        t0 = time.time()
        limit = 840 if tier == "quick" else 6 * 3600
        faulthandler.enable()
        signal.signal(signal.SIGALRM, self._watchdog)
        signal.alarm(limit)
        if replay:
            return self._replay(replay)
        counts, sigs, samples, viols, findings = {}, set(), [], [], []
        self._seen = viols
        evaluations, per_workload = 0, {}
        nworkers = 1 if serial else max(1, min(8, os.cpu_count() or 1))
        for name, fn, q, t in self.workloads:
            _TASK[name] = (self.prop, fn, seed, tier)
        for name, fn, q, t in self.workloads:
            if only and name != only:
                continue
            n = q * QUICK_FACTOR.get(self.prop, 1) if tier == "quick" else max(t, q * QUICK_FACTOR.get(self.prop, 1))
            results = self._map(name, n, nworkers, viols)
            stats = {}
            for i, r in results:
                evaluations += 1
                per_workload[name] = per_workload.get(name, 0) + 1
                for k, v in r["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                sigs |= {(name, s) for s in r["sigs"]}
                if r["sample"] is not None and len([s for s in samples if s["workload"] == name]) < 2:
                    samples.append({"workload": name, "index": i, **r["sample"]})
                if r["viol"]:
                    viols.append(r["viol"])
                findings += r["findings"]
                for k, v in r["stats"].items():
                    stats.setdefault(k, []).extend(v)
            for wname, decide in self.pooled:
                if wname == name and not any(v["workload"] == name for v in viols):
                    case = Case(self.prop, name, -1, seed, tier)
                    try:
                        decide(case, stats)
                    except Broken as b:
                        viols.append({"monitor": b.monitor, "detail": str(b.detail), "workload": name,
                                      "index": -1, "seed": seed, "tier": tier, "case": None})
                    for k, v in case.counts.items():
                        counts[k] = counts.get(k, 0) + v
                    if case.sample and not viols:
                        samples.append({"workload": name, "pooled": True, **_jsonable(case.sample)})
        signal.alarm(0)
        # known findings
        known = known_findings()
        printed = set()
        unlisted = []
        for key, detail in findings:
            if (self.prop, key) in known:
                if key not in printed:
                    printed.add(key)
                    print(f"KNOWN-FINDING: property={self.prop} {known[(self.prop, key)]}")
            else:
                unlisted.append({"monitor": key, "detail": detail, "workload": "?", "index": -1, "seed": seed, "tier": tier, "case": None})
        viols += unlisted[:1]
        if not only:
            self._evidence(tier, seed, counts, sigs, samples, evaluations, per_workload, viols, findings, t0)
        if viols:
            path = self._write_replay(viols)
            for v in viols[:3]:
                print(f"  [{v['workload']} #{v['index']}] {v['monitor']}: {str(v['detail'])[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if not only:
            missing = [m for m in self.required if counts.get(m, 0) == 0]
            if missing or evaluations == 0:
                print(f"INCONCLUSIVE property={self.prop}: monitors never reached: {missing}")
                return 2
        print(f"HELD property={self.prop} tier={tier} seed={seed}: {evaluations} executions, "
              f"{len(sigs)} distinct, {sum(counts.values())} monitor observations, {time.time() - t0:.1f}s")
        return 0

    def _watchdog(self, *_):
        early = list(getattr(self, "_seen", [])) + list(getattr(self, "_partial", []))
        if early:  # out of time, but a violation is a violation
            path = self._write_replay(early)
            for v in early[:3]:
                print(f"  [{v['workload']} #{v['index']}] {v['monitor']}: {str(v['detail'])[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            os._exit(1)
        print(f"INCONCLUSIVE property={self.prop}: wall-clock watchdog")
        sys.stdout.flush()
        os._exit(2)

    def _map(self, name, n, nworkers, viols):
        if nworkers == 1 or n < 4:
            return _worker((name, range(n)))
        out = []
        chunk = max(1, min(32, n // (nworkers * 4) or 1))
        jobs = [(name, list(range(a, min(a + chunk, n)))) for a in range(0, n, chunk)]
        import multiprocessing as mp
        with ProcessPoolExecutor(nworkers, mp_context=mp.get_context("fork")) as ex:
            futs = [(j, ex.submit(_worker, j)) for j in jobs]
            for j, f in futs:
                try:
                    got = f.result()
                    out += got
                    self._partial = getattr(self, "_partial", []) + [r["viol"] for _, r in got if r["viol"]]
                except BrokenProcessPool:
                    viols.append({"monitor": "process-survives", "detail": f"the process died while running cases near {j[1]}",
                                  "workload": name, "index": j[1][0], "seed": _TASK[name][2], "tier": _TASK[name][3], "case": None})
                    break
        return sorted(out, key=lambda r: r[0])

    def _write_replay(self, viols):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "violations": viols[:MAX_WITNESSES],
                       "how": f"/opt/venv/bin/python check.py {self.prop} --replay {path}"}, f, indent=1)
        return path

    def _replay(self, path):
        bad = 0
        for v in json.load(open(path))["violations"]:
            fns = {n: f for n, f, _, _ in self.workloads}
            if v["workload"] not in fns or v["index"] < 0:
                print("not a single case:", v)
                continue
            r = _run_case(self.prop, v["workload"], fns[v["workload"]], v["index"], v["seed"], v["tier"])
            print(json.dumps(r["viol"] or {"workload": v["workload"], "index": v["index"], "held": True}, indent=1))
            bad |= bool(r["viol"])
        return 1 if bad else 0

    def _evidence(self, tier, seed, counts, sigs, samples, evaluations, per_workload, viols, findings, t0):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {
            "property": self.prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(sigs),
                "rule": self.rule,
                "samples": samples[:12],
                "executions_per_workload": per_workload,
                "monitor_observations": counts,
                "known_finding_observations": len(findings),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viols),
        }
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
