"""C19: a saved file holds the run exactly."""
import copy
import os
import shutil
import tempfile

import h5py
import numpy as np

from pxmcmc.mcmc import MYULA, SKROCK, PxMALA
from pxmcmc.saving import save_mcmc
from vmon.core import Check
from vmon.problems import Problem, randc

check = Check(
    "C19",
    "finished runs of every sampler with every subset of tracked quantities, real and complex, saved with random extras "
    "(numbers, strings, lists, arrays from empty to several MB), over existing files, repeatedly and after another sampler; "
    "files are re-opened and compared bit for bit; distinct by sampler, subset, complexity and kinds of extras",
    ["h5py reads back what the file holds"],
)
check.require_monitors("dataset-exact", "no-extra-dataset", "params-attribute", "extra-attribute", "large-extra", "replaced", "file-location",
                       "sampler-unmodified", "file-closed")
DATA = {"logposterior": ("logposterior", "logPi"), "predictions": ("predictions", "preds"), "chain": ("chain", "chain"), "L2": ("L2s", "L2s"), "prior": ("priors", "priors")}


def rand_extras(rng, k):
    pool = {
        "L": int(rng.integers(1, 1000)), "B": float(rng.uniform(1, 3)), "setting": "synthesis", "note": "smörgås ∆",
        "flag": bool(rng.integers(2)), "vec": rng.standard_normal(5), "cplx": randc(rng, 4, True), "ints": rng.integers(-5, 5, 7),
        "cvalue": 1.5 - 2j, "listed": [1, 2, 3], "mat": rng.standard_normal((3, 4)), "scalar64": np.float64(0.1), "boolarr": rng.random(6) < 0.5,
        "strings": ["a", "bc"], "nothing": "", "zero": 0, "no": False, "empty": np.zeros(0), "neg": -1e-300, "time": 12.25, "text": "long description, " * int(rng.integers(3, 400)), "names": ["station " * 20, "b"],
        "mid": rng.standard_normal(int(rng.choice([8100, 8191, 8192, 8193]))), "large": rng.standard_normal(int(rng.choice([9000, 30000, 200000]))),
        "clarge": randc(rng, 5000, True), "lmap": rng.standard_normal((100, 199)),
    }
    names = list(rng.permutation(list(pool)))[:k]
    return {n: pool[n] for n in names}


def same_value(got, want):
    w = np.asarray(want)
    g = np.asarray(got)
    if w.dtype.kind in "US":
        return [str(v) for v in g.ravel().astype(object)] == [str(v) for v in w.ravel()]
    return g.shape == w.shape and g.dtype.kind == w.dtype.kind and np.array_equal(g, w, equal_nan=w.dtype.kind in "fc")


def digest(mc, params):
    out = {}
    for k, v in vars(mc).items():
        if isinstance(v, np.ndarray):
            out[k] = (v.shape, str(v.dtype), v.tobytes())
        elif isinstance(v, list):
            out[k] = repr(v)
        elif isinstance(v, (int, float, str, bool, complex)):
            out[k] = repr(v)
    return out, copy.deepcopy(vars(params))


def verify_file(case, path, mc, params, extras, sub):
    case.require(os.path.isfile(path), "file-location", f"{path} does not exist")
    try:
        f = h5py.File(path, "r+")  # fails while somebody holds the file
    except OSError as e:
        case.require(False, "file-closed", str(e))
    with f:
        case.seen("file-closed")
        want = {}
        for k, (ds, attr) in DATA.items():
            if k in sub:
                want[ds] = np.asarray(getattr(mc, attr))
        if isinstance(mc, PxMALA):
            want["acceptances"] = np.asarray(mc.acceptance_trace)
            want["deltas"] = np.asarray(mc.deltas_trace)
        case.require(set(f.keys()) == set(want), "no-extra-dataset", f"file holds {sorted(f.keys())}, tracked {sorted(want)}")
        for k, w in want.items():
            g = f[k][...]
            if k == "acceptances":
                case.require(g.dtype.kind in "iub", "dataset-exact", f"acceptances stored as {g.dtype}")
                case.equal(g, w, "dataset-exact", k)
            else:
                case.require(g.shape == w.shape and g.dtype == w.dtype, "dataset-exact", f"{k} stored as {g.dtype}{g.shape}, was {w.dtype}{w.shape}")
                case.require(g.tobytes() == np.ascontiguousarray(w).tobytes(), "dataset-exact", f"{k} differs")
        at = dict(f.attrs)
        for k, v in vars(params).items():
            if k in extras:
                continue
            case.require(k in at, "params-attribute", f"{k} missing")
            case.require(same_value(at[k], v), "params-attribute", lambda: f"{k} stored as {at[k]!r}, was {v!r}")
        for k, v in extras.items():
            case.require(k in at, "extra-attribute", f"{k} missing")
            case.require(same_value(at[k], v), "extra-attribute", lambda: f"{k} stored as {str(at[k])[:80]}, was {str(v)[:80]}")
            if np.asarray(v).nbytes > 65536:
                case.seen("large-extra")
        case.require(set(at) == set(vars(params)) | set(extras), "extra-attribute", f"attributes {sorted(set(at) ^ (set(vars(params)) | set(extras)))} unexpected or missing")


@check.workload(quick=150, thorough=3000)
def roundtrip(case):
    rng = case.rng
    tmp = tempfile.mkdtemp(prefix="vmon_c19_")
    try:
        outdir = os.path.join(tmp, "out put") if rng.integers(2) else tmp
        os.makedirs(outdir, exist_ok=True)
        names = ["outputs", "run_1", "a.b", "x-y z", "outputs.hdf5"]
        fname = None if rng.random() < 0.3 else names[rng.integers(len(names))]
        saves = int(rng.integers(1, 4))
        for s in range(saves):
            algo = (MYULA, PxMALA, SKROCK)[rng.integers(3)]
            pr = Problem(rng, real_data=bool(rng.random() < 0.2))
            if algo is PxMALA:
                pr.delta *= 3
            sub = [k for k in DATA if rng.random() < 0.65] or ["chain"]
            params = pr.params(nsamples=int(rng.integers(1, 30)), nburn=int(rng.integers(4)), ngap=int(rng.integers(3)), track=sub, s=2)
            tune = bool(rng.integers(2))
            mc = algo(pr.operator(), pr.prior, params, **({"tune_delta": tune} if algo is PxMALA else {}))
            mc.run(pr.start(rng))
            extras = rand_extras(rng, int(rng.integers(0, 9)))
            keep = copy.deepcopy(extras)
            before = digest(mc, params)
            kw = {} if fname is None else ({"filename": fname})
            save_mcmc(mc, params, outdir, **kw, **extras)
            path = os.path.join(outdir, f"{fname or 'outputs'}.hdf5")
            verify_file(case, path, mc, params, keep, sub)
            if s:
                case.seen("replaced")
            files = [os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs]
            case.require(files == [os.path.relpath(path, tmp)], "file-location", f"files written: {files}")
            after = digest(mc, params)
            case.require(before == after, "sampler-unmodified", "saving changed the sampler or the parameters")
            for k in extras:
                case.require(same_value(extras[k], keep[k]), "sampler-unmodified", f"extra {k} changed")
            case.sig(algo.__name__, tuple(sub), pr.complex_x, pr.complex_data, tuple(sorted(extras)))
            case.note(sampler=algo.__name__, tracked=sub, extras=list(extras), saves=saves)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@check.workload(quick=8, thorough=40)
def large_runs(case):
    """Several-megabyte datasets and a reused sampler."""
    rng = case.rng
    tmp = tempfile.mkdtemp(prefix="vmon_c19_")
    try:
        wide = case.index % 4 > 1  # predictions of several MB instead
        pr = Problem(rng, p=3 if wide else 200, n=120 if wide else 3, complex_x=bool(case.index % 2), setting="analysis", prior="l1")
        pr.delta *= 0.1
        params = pr.params(nsamples=1500)
        mc = PxMALA(pr.operator(), pr.prior, params)
        for r in range(2):
            mc.run(pr.start(rng))
            save_mcmc(mc, params, tmp, "big", truth=rng.standard_normal(300000))
            f = os.path.join(tmp, "big.hdf5")
            with h5py.File(f, "r") as h:
                case.equal(h["chain"][...], mc.chain, "dataset-exact", "chain")
                case.equal(h["predictions"][...], mc.preds, "dataset-exact", "predictions")
                case.require(h["predictions"].dtype == mc.preds.dtype, "dataset-exact", f"predictions stored as {h['predictions'].dtype}")
                case.equal(h["deltas"][...], np.asarray(mc.deltas_trace), "dataset-exact", "deltas")
                case.equal(h["acceptances"][...], np.asarray(mc.acceptance_trace), "dataset-exact", "acceptances")
        case.sig(pr.complex_x, wide)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@check.workload(quick=12, thorough=60)
def unusual_runs(case):
    """All-zero chains, runs that accepted nothing, and very long traces."""
    rng = case.rng
    tmp = tempfile.mkdtemp(prefix="vmon_c19_")
    try:
        pr = Problem(rng, p=3, n=3, setting="analysis", prior="l1")
        kind = case.index % 3
        params = pr.params(nsamples=1 if kind == 2 else 8)
        mc = PxMALA(pr.operator(), pr.prior, params, tune_delta=False)
        if kind == 0:  # steps so long that nothing is accepted: the chain stays at the zero start
            mc.delta = params.delta = pr.delta * 1e9
            mc.run(np.zeros(3, complex if pr.complex_x else float))
            case.note(all_zero=not bool(np.any(mc.chain)))
        elif kind == 1:
            mc.run(pr.start(rng))
            mc.chain = np.zeros_like(mc.chain)
            mc.priors = np.zeros_like(mc.priors)
        else:
            mc.run(pr.start(rng))
            k = int(rng.integers(100001, 400000))
            mc.acceptance_trace = [int(v) for v in rng.integers(0, 2, k)]
            mc.deltas_trace = list(rng.uniform(0, 1, k))
        save_mcmc(mc, params, tmp, "odd")
        verify_file(case, os.path.join(tmp, "odd.hdf5"), mc, params, {}, list(DATA))
        case.sig("odd", kind, pr.complex_x)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
