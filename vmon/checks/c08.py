"""C08: chains start where they are told to."""
import numpy as np
from scipy import stats as st

from pxmcmc.mcmc import MYULA, SKROCK, PxMALA
from vmon.core import Check, Guarded
from vmon.problems import Problem, RecordingOperator, flat_problem, logu, randc

check = Check(
    "C08",
    "start points of many magnitudes, dtypes, strides and lengths for every sampler, with negligible steps so that the first "
    "saved state is the start point, and the models handed to the forward operator recorded; malformed start points; default "
    "starts pooled over many runs and tested against the Laplace law; distinct by sampler, problem and kind of start",
    ["a p-value below 1e-11 does not occur by chance"],
)
check.require_monitors("starts-at-point", "first-model", "rejects-malformed", "rejects-length", "nothing-recorded", "default-laplace",
                       "default-fresh", "inputs-unmodified")
ALGOS = {"myula": MYULA, "pxmala": PxMALA, "skrock": SKROCK}


@check.workload(quick=900, thorough=8000)
def start_points(case):
    rng = case.rng
    algo = list(ALGOS)[case.index % 3]
    pr = Problem(rng)
    scale = logu(rng, 1e-3, 1e3) if rng.random() < 0.7 else logu(rng, 1e-12, 1e13)
    x0 = pr.start(rng, scale)
    kind = int(rng.integers(10))
    if kind == 0:
        x0 = np.zeros_like(x0)
    elif kind == 1:
        x0 = np.repeat(x0, 2)[::2]  # strided view
    elif kind == 2 and not pr.complex_x:
        x0 = rng.integers(-5, 6, pr.p)  # integers
    elif kind == 3:
        x0[rng.integers(pr.p)] = 0
    elif kind == 4:
        x0 = x0.astype(np.complex64 if np.iscomplexobj(x0) else np.float32)
    elif kind == 6:
        x0 = x0[::-1]  # reversed view
    elif kind == 7:
        x0 = np.broadcast_to(x0[:1], x0.shape)  # read-only, all components in one place
    elif kind == 8:
        x0 = np.stack([x0, x0 + 1, 2 * x0], axis=1)[:, 2]  # column of an array
    elif kind == 9:
        x0.flags.writeable = False
    guard = Guarded(start=x0)
    # negligible step: the first state is the start point
    pr.delta = 1e-30 * pr.lmda
    op = pr.operator()
    s = int(rng.integers(1, 4))
    params = pr.params(nsamples=3, s=s)
    mc = PxMALA(op, pr.prior, params, tune_delta=False) if algo == "pxmala" else ALGOS[algo](op, pr.prior, params)
    mc.run(x0)
    sc = float(np.max(np.abs(x0)))
    # steps from a single precision point may be rounded to single precision
    tol = 1e-11 if x0.dtype not in (np.float32, np.complex64) else 1e-5
    for j in range(3):
        case.close(mc.chain[j], x0, "starts-at-point", rtol=tol, atol=1e-11 + 100 * np.sqrt(2 * pr.delta), scale=sc, detail=f"({algo}, sample {j})")
    # the first model the operator is asked about is the start point (unless a
    # perturbed stage comes first)
    near = [np.max(np.abs(np.asarray(x) - x0)) <= tol * (1 + sc) + 100 * np.sqrt(2 * pr.delta) for x in op.log]
    case.require(all(near), "first-model", "a model far from the start point was evaluated")
    guard.verify(case)
    # realistic step: the start point itself is among the evaluated models, exactly
    pr.delta = 0.5 / (pr.h + 1 / pr.lmda)
    op = pr.operator()
    params = pr.params(nsamples=2, s=s)
    mc = ALGOS[algo](op, pr.prior, params)
    mc.run(x0)
    if algo != "skrock":
        case.equal(op.log[0], x0, "first-model", f"({algo})")
    # later runs start there again, not where the run before ended
    first = mc.chain.copy()
    for again in (x0, np.array(x0)):
        op.reset_log()
        mc.delta = pr.delta
        mc.run(again)
        if algo != "skrock":
            case.equal(op.log[0], x0, "first-model", f"({algo}, later run)")
    if rng.integers(3) == 0:
        seed = case.npseed
        for k in range(2):
            mc.delta = pr.delta
            np.random.seed(seed)
            mc.run(x0)
            if k:
                case.equal(mc.chain, first, "starts-at-point", f"({algo}, same seed and start)")
            first = mc.chain.copy()
    guard.verify(case)
    case.sig(algo, *pr.signature(), kind, s)
    case.note(sampler=algo, start_kind=kind, scale=scale, **pr.describe())


@check.workload(quick=120, thorough=2000)
def malformed(case):
    rng = case.rng
    algo = list(ALGOS)[case.index % 3]
    pr = Problem(rng, p=int(rng.integers(2, 9)))
    p = pr.p
    x = pr.start(rng)
    bad_type = [list(x), tuple(x), float(np.real(x[0])), 3, x.reshape(1, p), x.reshape(p, 1), np.array(x[0]), "start",
                np.stack([x, x]), x.reshape(1, 1, p), {"x": x}, range(p)]
    if p % 2 == 0:
        bad_type.append(x.reshape(2, p // 2))
    bad_len = [x[:-1], np.append(x, x[0]), x[:1], np.concatenate([x, x]), x[:0]]
    for excs, group, name in ((TypeError, bad_type, "rejects-malformed"), (ValueError, bad_len, "rejects-length")):
        for b in group:
            op = pr.operator()
            mc = ALGOS[algo](op, pr.prior, pr.params(nsamples=2))
            was = {a: getattr(mc, a).copy() for a in ("chain", "preds", "logPi", "L2s", "priors")}
            case.raises(excs, lambda: mc.run(b), name, f"({algo}, start of {type(b).__name__} {np.shape(b) if not isinstance(b, dict) else ''}, p={p})")
            for a, v in was.items():
                now = getattr(mc, a)
                case.require(now.dtype == v.dtype and now.tobytes() == v.tobytes(), "nothing-recorded", f"{a} was written")
            # the sampler is still usable
        np.random.seed(case.npseed)
        mc.run(x)
        m2 = ALGOS[algo](pr.operator(), pr.prior, pr.params(nsamples=2))
        np.random.seed(case.npseed)
        m2.run(x)
        case.equal(mc.chain, m2.chain, "usable-after-rejection")
    case.sig(algo, p, pr.complex_x)
    case.note(sampler=algo, p=p, complex=pr.complex_x)


@check.workload(quick=360, thorough=2500)
def default_start(case):
    rng = case.rng
    algo = list(ALGOS)[case.index % 3]
    cplx = bool(case.index // 3 % 2)
    p = int(rng.choice([1, 2, 7, 200]))
    op, prior = flat_problem(p, cplx)
    pr = Problem(rng, p=1, variety=False)
    pr.complex_x, pr.delta = cplx, 1e-30 * pr.lmda
    starts = []
    for r in range(3):
        mc = ALGOS[algo](op, prior, pr.params(nsamples=1, track=["chain"]))
        mc.run()
        x = mc.chain[0]
        case.require(x.shape == (p,), "default-laplace", f"start of shape {x.shape} for {p} parameters")
        starts.append(np.array(x))
        # the same sampler run again starts elsewhere
        mc.run()
        starts.append(np.array(mc.chain[0]))
    for i in range(len(starts)):
        for j in range(i):
            case.require(np.max(np.abs(starts[i] - starts[j])) > 1e-9, "default-fresh", "two runs start at the same default point")
    for x in starts:
        for part, name in ((x.real, "re"), (x.imag, "im")) if cplx else ((x, "re"),):
            for v in np.atleast_1d(part):
                case.stat(f"{algo}-{name}{'-c' if cplx else ''}", float(v))
        if not cplx:
            case.require(not np.iscomplexobj(x), "default-laplace", "complex default start for real parameters")
        if cplx:
            case.stat(f"{algo}-prod", float(np.sum(x.real * x.imag)))
            case.stat(f"{algo}-n", p)
        v = np.concatenate([x.real, x.imag]) if cplx else x
        case.require(len(np.unique(np.abs(v))) == v.size, "default-laplace", "components of one start repeat each other")
        if p in (2, 7):
            case.stat(f"joint-{p}-{int(cplx)}", [float(q) for q in v])
        if p > 1:
            case.stat("adj", float(np.sum(x.real[1:] * x.real[:-1])))
            case.stat("adjn", p - 1)
    case.sig(algo, cplx, p)
    case.note(sampler=algo, complex=cplx, p=p)


@check.pool("default_start")
def laplace(case, stats):
    for k, v in stats.items():
        if "-re" in k or "-im" in k:
            v = np.array(v)
            pv = st.kstest(v, "laplace").pvalue
            case.note(**{k: f"n={len(v)} KS p={pv:.3f} std={v.std():.4f}"})
            case.require(pv > 1e-11, "default-laplace", f"{k}: KS p={pv:.2e}, std {v.std():.3f} (sqrt 2 expected), n={len(v)}")
            z = (np.mean(np.abs(v)) - 1) * np.sqrt(len(v))
            case.require(abs(z) < 7, "default-laplace", f"{k}: mean modulus {np.mean(np.abs(v)):.3f} ({z:.1f} sigma)")
    for k, v in stats.items():
        if k.startswith("joint-"):
            v = np.array(v)
            for b in (np.sign(v), np.where(np.abs(v) > np.log(2), 1.0, -1.0)):
                z = b.T @ b / np.sqrt(len(b))
                z -= np.diag(np.diag(z))
                case.require(np.max(np.abs(z)) < 7.5, "default-laplace", f"{k}: two components are dependent, {np.max(np.abs(z)):.1f} sigma")
    for a in ALGOS:
        if f"{a}-prod" in stats:
            z = np.sum(stats[f"{a}-prod"]) / (2 * np.sqrt(np.sum(stats[f"{a}-n"])))
            case.require(abs(z) < 8, "default-laplace", f"{a}: real and imaginary part correlated, {z:.1f} sigma")
    z = np.sum(stats["adj"]) / (2 * np.sqrt(np.sum(stats["adjn"])))
    case.require(abs(z) < 8, "default-laplace", f"components correlated, {z:.1f} sigma")
