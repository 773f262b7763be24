"""C05: burn-in and thinning select exactly the promised states."""
import numpy as np

from pxmcmc.mcmc import MYULA, SKROCK, PxMALA
from vmon.core import Check
from vmon.problems import Problem

check = Check(
    "C05",
    "for random problems and each sampler the full trajectory (no burn-in, every iteration saved) is recorded once and "
    "compared with runs of the same seed under random schedules; the number of iterations is read from the forward "
    "evaluations; distinct by (sampler, nsamples, nburn, ngap)",
    ["np.random.seed fixes the trajectory"],
)
check.require_monitors("saved-state", "run-length", "trajectory-unchanged")
ARRAYS = ("chain", "logPi", "L2s", "priors", "preds")


def make(case, pr, algo, params, budget, tune):
    op = pr.operator(budget=budget)
    if algo == "myula":
        return MYULA(op, pr.prior, params), op
    if algo == "pxmala":
        return PxMALA(op, pr.prior, params, tune_delta=tune), op
    return SKROCK(op, pr.prior, params), op


def schedule(rng):
    n = int(rng.choice([1, 2, 3, 5, 9]))
    burn = int(rng.choice([0, 0, 1, 2, 3, 7, 10, 20]))
    gap = int(rng.choice([0, 0, 1, 2, 3, 5, 10]))
    return n, burn, gap


@check.workload(quick=360, thorough=12000)
def schedules(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng, p=int(rng.choice([1, 2, 4])))
    s = int(rng.integers(1, 4))
    tune = bool(rng.integers(2))
    if algo == "pxmala" and rng.random() < 0.3:
        pr.delta *= 20  # rejections
    n, burn, gap = schedule(rng)
    g = max(gap, 1)
    last = burn + (n - 1) * g
    nfull = last + 3
    x0 = pr.start(rng)
    budget = 30 * (nfull + 2) * 3**s
    full, fop = make(case, pr, algo, pr.params(nsamples=nfull, nburn=0, ngap=int(rng.integers(0, 2)), s=s), budget, tune)
    np.random.seed(case.npseed)
    full.run(x0.copy())
    nburn, ngap = (burn, gap) if rng.random() < 0.7 else (float(burn), gap)
    verb = int(rng.choice([0, 0, 1, 3]))
    mc, op = make(case, pr, algo, pr.params(nsamples=n, nburn=nburn, ngap=ngap, s=s, verbosity=verb), budget, tune)
    np.random.seed(case.npseed)
    mc.run(x0.copy())
    case.note(sampler=algo, nsamples=n, nburn=burn, ngap=gap, s=s, **pr.describe())
    case.sig(algo, n, burn, gap)
    for name in ARRAYS:
        a, f = getattr(mc, name), getattr(full, name)
        case.require(len(a) == n, "saved-count", f"{name} holds {len(a)} of {n}")
        for j in range(n):
            case.equal(a[j], f[burn + j * g], "saved-state", f"({name}[{j}], nburn={burn}, ngap={gap})")
    # the run ends right after the last saved sample: one more iteration of the
    # full trajectory was never visited
    nst = len(op.states())
    fst = fop.states()
    per = (len(fst) - 1) / nfull
    case.require(nst - 1 <= per * (last + 1) + 1e-9, "run-length", f"{nst - 1} models visited, {per * (last + 1)} expected for {last + 1} iterations")
    for i, x in enumerate(op.states()):
        case.require(np.array_equal(x, fst[i]), "trajectory-unchanged", f"model {i} differs from the unthinned trajectory")
    if algo == "pxmala":
        case.require(len(mc.acceptance_trace) == last + 1, "run-length", f"{len(mc.acceptance_trace)} iterations instead of {last + 1}")
    if rng.random() < 0.3:  # the same schedule again with the same sampler
        mc.delta = pr.delta
        op.reset_log(budget)
        np.random.seed(case.npseed)
        mc.run(x0.copy())
        for name in ARRAYS:
            case.equal(getattr(mc, name), getattr(full, name)[burn:: g][:n], "saved-state", f"({name} of a second run, nburn={burn}, ngap={gap})")
        case.require(len(op.states()) == nst, "run-length", f"{len(op.states())} models visited in a second run, {nst} in the first")


@check.workload(quick=30, thorough=300)
def all_rejected(case):
    """Progress does not depend on acceptance."""
    rng = case.rng
    pr = Problem(rng, p=3, prior="l1", complex_x=False, complex_data=False)
    pr.delta = pr.lmda * 1e7
    n, burn, gap = schedule(rng)
    x0 = pr.start(rng, 0.1)
    mc, op = make(case, pr, "pxmala", pr.params(nsamples=n, nburn=burn, ngap=gap), 50 * (burn + n * max(gap, 1) + 5), False)
    mc.run(x0)
    case.require(len(mc.acceptance_trace) == burn + (n - 1) * max(gap, 1) + 1, "run-length", f"{len(mc.acceptance_trace)} iterations")
    if not any(mc.acceptance_trace):
        case.seen("all-rejected")
        for j in range(n):
            case.equal(mc.chain[j], x0, "saved-state", "(rejected state is saved again)")
    case.sig("rejected", n, burn, gap)
    case.note(acceptances=int(sum(mc.acceptance_trace)), nsamples=n, nburn=burn, ngap=gap)


@check.workload(quick=90, thorough=600)
def long_schedules(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng, p=2)
    n, burn, gap = int(rng.integers(20, 60)), int(rng.choice([0, 5, 120, 300, 1100, 2300])), int(rng.choice([0, 1, 2, 7, 25, 60]))
    if case.index % 9 < 3:
        n, burn, gap = int(rng.integers(10, 16)), 0, int(rng.choice([110, 150]))
    elif case.index % 9 < 5:
        n, burn, gap = int(rng.choice([350, 700, 1300])), int(rng.choice([0, 1, 30])), int(rng.choice([0, 2, 3]))
    elif case.index % 45 in (5, 6, 7, 16):
        n, burn, gap = [(10500, 0, 0), (40, 10200, 5), (12, 30, 1100)][rng.integers(3)]
    g = max(gap, 1)
    nfull = burn + (n - 1) * g + 1
    out = []
    x0 = pr.start(rng)
    for kw in (dict(nsamples=nfull), dict(nsamples=n, nburn=burn, ngap=gap)):
        mc, op = make(case, pr, algo, pr.params(s=2, **kw), 40 * nfull, True)
        np.random.seed(case.npseed)
        mc.run(x0)
        out.append(mc)
    for name in ARRAYS:
        case.equal(getattr(out[1], name), getattr(out[0], name)[burn::g][:n], "saved-state", name)
    case.sig(algo, n, burn, gap)
