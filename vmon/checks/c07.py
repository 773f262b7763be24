"""C07: runs are reproducible, unobserved and leave their inputs alone."""
import copy

import numpy as np

from pxmcmc.mcmc import MYULA, SKROCK, PxMALA, PxMCMCParams
from pxmcmc.prior import L1, S2_Wavelets_L1
from vmon.core import Check, Guarded
from vmon.problems import Problem, logu, randc
from vmon.sphere import SphereProblem

check = Check(
    "C07",
    "for random problems and samplers the same seed is run on freshly built samplers under different observation "
    "(subsets of tracked quantities, verbosity), and with other samplers sharing operator, prior and parameter object run "
    "before or in between; all arrays the user owns and the parameter object are digested before and after; distinct by "
    "sampler, problem signature, tracked subset, verbosity and interleaving",
    ["np.random.seed fixes the draws of a run"],
)
check.require_monitors("identical-rerun", "observation-independent", "tracked-exactly", "isolated-from-other-samplers",
                       "inputs-unmodified", "params-unmodified", "runs-differ")
NAMES = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "chain": "chain", "predictions": "preds"}


def build(algo, op, prior, params, tune):
    if algo == "pxmala":
        return PxMALA(op, prior, params, tune_delta=tune)
    return {"myula": MYULA, "skrock": SKROCK}[algo](op, prior, params)


def result(mc):
    out = {k: np.array(getattr(mc, a)) for k, a in NAMES.items() if getattr(mc, a, None) is not None}
    if isinstance(mc, PxMALA):
        out["acc"] = np.array(mc.acceptance_trace)
        out["deltas"] = np.array(mc.deltas_trace)
    return out


def same(case, got, want, monitor, detail, keys=None, rtol=0.0):
    for k in want if keys is None else keys:
        case.require(k in got, monitor, f"{k} missing {detail}")
        if rtol:  # FFTs of the native libraries round differently with memory alignment
            case.close(got[k], want[k], monitor, rtol=rtol, scale=1e-300 + np.max(np.abs(want[k])), detail=f"({k}; {detail})")
        else:
            case.equal(got[k], want[k], monitor, f"({k}; {detail})")


def guard_of(pr, x0):
    g = dict(data=pr.data, sig=pr.sig, A=pr.A, M=pr.M, G=pr.G)
    if isinstance(getattr(pr, "Tvec", None), np.ndarray):
        g["threshold"] = pr.Tvec
    if x0 is not None:
        g["start"] = x0
    if hasattr(pr.measurement, "path_matrix"):
        g["path_matrix"] = pr.measurement.path_matrix
    return Guarded(**g)


@check.workload(quick=360, thorough=9000)
def observation(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng)
    tune = bool(rng.integers(2))
    if algo == "pxmala":
        pr.delta *= logu(rng, 0.2, 8)
    sched = dict(nsamples=int(rng.integers(1, 15)), nburn=int(rng.choice([0, 0, 2, 9])), ngap=int(rng.choice([0, 1, 2, 4])), s=int(rng.integers(1, 4)))
    x0 = pr.start(rng) if rng.random() < 0.75 else None
    guard = guard_of(pr, x0)
    every = list(NAMES)
    params = pr.params(track=every, **sched)
    before = copy.deepcopy(params.__dict__)
    early = bool(rng.integers(2))

    def go(params, op=None, prior=None, seed=case.npseed):
        if early:  # building a sampler draws nothing
            np.random.seed(seed)
        mc = build(algo, op or pr.operator(), prior or pr.prior, params, tune)
        if not early:
            np.random.seed(seed)
        mc.run(x0)
        mc.next_draw = np.random.rand()  # what a later run would start with
        return mc

    first = go(params)
    base = result(first)
    same(case, result(go(params)), base, "identical-rerun", "second sampler of the same seed")
    # a subset of tracked quantities, any verbosity
    for _ in range(2):
        sub = [k for k in every if rng.integers(2)]
        rng.shuffle(sub)
        verb = int(rng.choice([0, 1, 2, 3, 100, 1000, 5000, 10**7]))
        mc = go(pr.params(track=list(sub), verbosity=verb, **sched))
        for k, a in NAMES.items():
            case.require((getattr(mc, a, None) is not None) == (k in sub), "tracked-exactly", f"{k} tracked, requested {sub}")
        r = result(mc)
        same(case, r, base, "observation-independent", f"track={sub}, verbosity={verb}", keys=[k for k in base if k in sub or k in ("acc", "deltas")])
        case.require(mc.next_draw == first.next_draw, "observation-independent", f"the next run of the session depends on track={sub}, verbosity={verb}")
        case.sig(algo, *pr.signature(), tuple(sorted(sub)), verb, tune)
    # other samplers on the same objects
    op, prior = pr.operator(), pr.prior
    others = [build(a, op, prior, params, True) for a in rng.permutation(["myula", "pxmala", "skrock"])]
    mine = build(algo, op, prior, params, tune)
    for o in others[: rng.integers(1, 4)]:
        o.run(None if x0 is None else x0 * 0.7)
    np.random.seed(case.npseed)
    mine.run(x0)
    for o in others[1:]:
        o.run(x0)
    same(case, result(mine), base, "isolated-from-other-samplers", "samplers sharing operator, prior and parameters")
    case.require(params.__dict__ == before, "params-unmodified", lambda: f"{before} became {params.__dict__}")
    guard.verify(case)
    case.note(sampler=algo, **pr.describe(), **sched)


@check.workload(quick=90, thorough=2000)
def successive_runs(case):
    """Nothing reseeds the generator; results of a run survive the next sampler."""
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng, p=3)
    pr.delta *= 0.3
    x0 = pr.start(rng)
    op = pr.operator()
    params = pr.params(nsamples=12)
    a, b = build(algo, op, pr.prior, params, True), build(algo, op, pr.prior, params, True)
    np.random.seed(case.npseed)
    a.run(x0)
    kept = result(a)
    b.run(x0)
    same(case, result(a), kept, "isolated-from-other-samplers", "results changed by another sampler's run")
    if algo != "pxmala" or (sum(a.acceptance_trace) and sum(b.acceptance_trace)):
        case.require(not np.array_equal(a.chain, b.chain), "runs-differ", "two runs without reseeding are identical")
    case.require(not np.shares_memory(a.chain, b.chain) and not np.shares_memory(a.chain, x0), "isolated-from-other-samplers", "shared arrays")
    # a fresh sampler starts from the parameters, not from another's tuned step size
    c = build(algo, op, pr.prior, params, True)
    case.require(c.delta == params.delta == pr.delta, "params-unmodified", f"step size {c.delta} instead of {pr.delta}")
    np.random.seed(case.npseed)
    c.run(x0)
    same(case, result(c), kept, "identical-rerun", "fresh sampler, same seed")
    case.sig(algo, *pr.signature())


@check.workload(quick=60, thorough=800)
def sphere(case):
    """The shipped operators and priors keep no state either."""
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    kind = SphereProblem.KINDS[case.index // 3 % 5]
    pr = SphereProblem(rng, kind=kind, Lmax=4)
    lmda, mu = logu(rng, 0.05, 1.0), logu(rng, 0.3, 3)
    T = lmda * mu * np.ones(pr.p) if rng.integers(2) else lmda * mu
    prior = L1("synthesis", None, None, T)
    if pr.setting == "synthesis" and kind != "lensing-harmonic" and pr.dirs == 1 and rng.integers(2):
        prior = S2_Wavelets_L1("synthesis", None, None, T, pr.L, pr.B, pr.J_min)
    params = PxMCMCParams(lmda=lmda, delta=0.5 / (pr.h + 1 / lmda), mu=mu, s=2, nsamples=4, nburn=1, ngap=2,
                          complex=pr.complex_x, verbosity=0, track=list(NAMES))
    before = copy.deepcopy(params.__dict__)
    x0 = randc(rng, pr.p, pr.complex_x)
    g = dict(data=pr.data, sig=pr.sig, start=x0, T=T)
    for name in ("mask", "ngal", "path_matrix"):
        if getattr(pr, name, None) is not None:
            g[name] = getattr(pr, name)
    guard = Guarded(**g)
    out = []
    for r in range(2):
        mc = build(algo, pr.op, prior, params, True)
        np.random.seed(case.npseed)
        mc.run(x0)
        out.append(result(mc))
        build("pxmala", pr.op, prior, params, True).run(2 * x0)
    same(case, out[1], out[0], "identical-rerun", f"operator {kind}", rtol=1e-8)
    guard.verify(case)
    case.require(params.__dict__ == before, "params-unmodified", lambda: f"{before} became {params.__dict__}")
    case.sig(algo, *pr.signature())
    case.note(sampler=algo, **pr.describe())


@check.workload(quick=12, thorough=100)
def default_parameters(case):
    """Default parameter objects are not shared state."""
    rng = case.rng
    a = PxMCMCParams()
    before = copy.deepcopy(a.__dict__)
    pr = Problem(rng, p=2, complex_x=False, complex_data=False)
    small = PxMCMCParams(nsamples=5, nburn=0, ngap=0, verbosity=0, lmda=pr.lmda, delta=pr.delta)
    for algo in ("pxmala", "myula", "skrock"):
        mc = build(algo, pr.operator(), pr.prior, small, True)
        mc.run(pr.start(rng))
        for k, at in NAMES.items():
            case.require((getattr(mc, at, None) is not None) == (k != "predictions"), "tracked-exactly", f"{k} with the default tracking")
    b = PxMCMCParams()
    case.require(a.__dict__ == before and b.__dict__ == before, "params-unmodified", "defaults changed by a run")
    # a quantity added to (or removed from) one object's list is that object's own business
    if case.index % 2:
        b.track.append("predictions")
    else:
        b.track.remove("chain")
    c = PxMCMCParams(nsamples=5, nburn=0, ngap=0, verbosity=0, lmda=pr.lmda, delta=pr.delta)
    for algo in ("pxmala", "myula", "skrock"):
        mc = build(algo, pr.operator(), pr.prior, c, True)
        for k, at in NAMES.items():
            case.require((getattr(mc, at, None) is not None) == (k != "predictions"), "tracked-exactly",
                         f"{k} with the default tracking, after another object's list was changed")
    case.sig(case.index)
