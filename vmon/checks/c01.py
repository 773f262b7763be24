"""C01: every MYULA iteration is the proximal Langevin step."""
import numpy as np

from pxmcmc.mcmc import MYULA, PxMCMCParams
from vmon.core import Check
from vmon.problems import Problem, flat_problem, normal_tests, randc, logu, tail_decision, tail_stats

check = Check(
    "C01",
    "random inverse problems (setting, measurement, prior, error format, real/complex, size, tuning) driven through "
    "MYULA.run; the noise of the same seed is measured on a flat problem, every observed transition is compared with "
    "the step recomputed from the observed state; non-trivial = gradient, prox and noise all non-zero; distinct by configuration",
    ["np.random.seed fixes the noise a run draws", "dense linear algebra of numpy is the reference"],
)
check.require_monitors("transition", "noise-law", "chain-step-method")


def noise_of(seed, p, cplx, delta, lmda, N):
    """Noise a run with this seed injects, measured on a flat problem."""
    op, prior = flat_problem(p, cplx)
    op.reset_log(10 * N + 50)
    mc = MYULA(op, prior, PxMCMCParams(lmda=lmda, delta=delta, nsamples=N, nburn=0, ngap=0, complex=cplx, verbosity=0))
    np.random.seed(seed)
    mc.run(np.zeros(p, dtype=complex if cplx else float))
    chain = np.vstack([np.zeros((1, p)), mc.chain])
    return np.diff(chain, axis=0) / np.sqrt(2 * delta)


def drive(case, pr, N, runs=1):
    rng = case.rng
    burn = int(rng.choice([0, 0, 1, 3, 17]))  # burn-in iterations are iterations too
    N += burn
    op = pr.operator(budget=20 * N + 100)
    x0 = pr.start(rng, logu(rng, 0.3, 10))
    seed = case.npseed
    w = noise_of(seed, pr.p, pr.complex_x, pr.delta, pr.lmda, N)
    mc = MYULA(op, pr.prior, pr.params(nsamples=N - burn, nburn=burn, ngap=int(rng.integers(0, 2))))
    if rng.random() < 0.15 and N < 200:  # an earlier run with another step size
        mc.delta = pr.delta * float(rng.choice([0.1, 0.5, 0.9]))
        mc.run(x0)
        mc.delta = pr.delta
    for r in range(runs):
        op.reset_log(20 * N + 100)
        np.random.seed(seed)
        mc.run(x0)
    case.note(**pr.describe(), iterations=N, burn_in=burn)
    case.sig(*pr.signature(), burn)
    tail_stats(case, w.real)
    if pr.complex_x:
        tail_stats(case, w.imag)
    chain = mc.chain
    first, x = 0, x0
    if burn:
        st = op.states()
        if len(st) == N + 1:  # every model once: the log is the trajectory
            chain = np.array(st[1:])
            case.close(mc.chain, chain[burn:], "saved-states", rtol=1e-13)
        else:
            chain = np.vstack([np.zeros((burn, pr.p)), mc.chain])
            first, x = burn + 1, mc.chain[0]
    for i in range(first, N):
        want = pr.drift(x) + np.sqrt(2 * pr.delta) * w[i]
        scale = np.max(np.abs(x)) + np.max(np.abs(want)) + pr.delta * np.max(np.abs(pr.gradlogpi(x))) + pr.stepscale(x)
        case.close(chain[i], want, "transition", rtol=1e-11, atol=1e-9 * np.sqrt(2 * pr.delta), scale=scale, detail=f"iteration {i}")
        x = chain[i]
    case.require(np.iscomplexobj(mc.chain) == pr.complex_x, "real-iff-real")


@check.workload(quick=800, thorough=20000)
def transitions(case):
    rng = case.rng
    pr = Problem(rng, p=int(rng.choice([1, 2, 3, 5, 8, 13])))
    if rng.random() < 0.3:  # steps far below and above the usual ones
        pr.delta *= logu(rng, 1e-9, 3)
    drive(case, pr, int(rng.integers(2, 40)), runs=int(rng.choice([1, 1, 2])))


@check.pool("transitions")
def transitions_law(case, stats):
    tail_decision(case, stats["tail"], "noise-law")


@check.workload(quick=12, thorough=96)
def noise_tails(case):
    """Millions of draws: tails and moments of the noise."""
    rng = case.rng
    cplx = bool(case.index % 2)
    p = [250, 1000, 3000, 8000, int(rng.integers(65, 1100)), int(rng.integers(500, 6000))][(case.index // 2) % 6]
    w = noise_of(case.npseed, p, cplx, logu(rng, 1e-6, 1), 1.0, 400000 // p)
    for part in (w.real, w.imag) if cplx else (w.real,):
        tail_stats(case, part)
        case.stat(f"p{p}", [part.size, float(np.sum(part**2))])
        normal_tests(case, part, "noise-law")
    case.note(p=p, complex_params=cplx, iterations=len(w))
    case.sig(p, cplx)


@check.pool("noise_tails")
def tails(case, stats):
    tail_decision(case, stats["tail"], "noise-law")
    for k, v in stats.items():
        if k != "tail":
            n, s2 = np.sum(v, axis=0)
            z = (s2 / n - 1) * np.sqrt(n / 2)
            case.require(abs(z) < 7, "noise-law", f"noise variance for {k[1:]} parameters off by {z:.1f} sigma")


@check.workload(quick=40, thorough=400)
def large(case):
    """Hundreds of parameters and data, hundreds of iterations."""
    rng = case.rng
    if case.index % 2:
        pr = Problem(rng, p=int(rng.choice([40, 130, 300, 700])), n=int(rng.integers(1, 150)))
        drive(case, pr, int(rng.integers(2, 6)))
    else:
        drive(case, Problem(rng, p=int(rng.integers(1, 4))), int(rng.integers(300, 1200)))


@check.workload(quick=6, thorough=60)
def very_long(case):
    """Thousands of iterations, every one of them against the step."""
    pr = Problem(case.rng, p=int(case.rng.integers(1, 4)))
    drive(case, pr, int(case.rng.integers(2500, 5000) if case.index % 6 else 12000) if case.tier == "quick" else int(case.rng.integers(5000, 40000)))


@check.workload(quick=24, thorough=200)
def noise_law(case):
    rng = case.rng
    cplx = bool(case.index % 2)
    p = [1, 2, 3, 7, 20, 64][(case.index // 2) % 6]
    N = (40000 if case.tier == "quick" else 150000) // p
    N = min(N, 8000 if case.tier == "quick" else 40000)
    w = noise_of(case.npseed, p, cplx, logu(rng, 1e-6, 1), 1.0 * logu(rng, 0.1, 10), N)
    case.note(p=p, complex_params=cplx, iterations=N)
    case.sig(p, cplx)
    if cplx:
        normal_tests(case, np.hstack([w.real, w.imag]), "noise-law")
    else:
        normal_tests(case, w.real, "noise-law")
        case.require(np.all(w.imag == 0) if np.iscomplexobj(w) else True, "noise-law", "real chain has complex noise")


@check.workload(quick=200, thorough=4000)
def step_method(case):
    """The public one-step method, with arbitrary prox and gradient vectors."""
    rng = case.rng
    pr = Problem(rng)
    mc = MYULA(pr.operator(), pr.prior, pr.params())
    X, prox, g = (randc(rng, pr.p, pr.complex_x) * logu(rng, 1e-3, 1e3) for _ in range(3))
    np.random.seed(case.npseed)
    z = mc.chain_step(np.zeros_like(X), np.zeros_like(X), np.zeros_like(X))
    np.random.seed(case.npseed)
    got = mc.chain_step(X, prox, g)
    a = pr.delta / pr.lmda
    want = (1 - a) * X + a * prox - pr.delta * g + z
    case.close(got, want, "chain-step-method", rtol=1e-9, scale=np.max(np.abs(X)) + np.max(np.abs(prox)) + np.max(np.abs(g)) * pr.delta + 1)
    case.sig(pr.p, pr.complex_x)


@check.workload(quick=8, thorough=60)
def long_trajectories(case):
    """Thousands of iterations: residuals of the observed states are white."""
    rng = case.rng
    pr = Problem(rng, p=int(rng.choice([1, 2, 4, 8])))
    N = 4000 if case.tier == "quick" else 30000
    op = pr.operator(budget=4 * N + 100)
    mc = MYULA(op, pr.prior, pr.params(nsamples=N, track=["chain"]))
    x0 = pr.start(rng, 3)
    mc.run(x0)
    prev = np.vstack([x0[None], mc.chain[:-1]])
    drift = np.array([pr.drift(x) for x in prev])
    w = (mc.chain - drift) / np.sqrt(2 * pr.delta)
    case.note(**pr.describe(), iterations=N)
    case.sig(*pr.signature())
    ws = np.hstack([w.real, w.imag]) if pr.complex_x else w
    normal_tests(case, ws, "noise-law", 1e-14 * max(pr.stepscale(x) for x in prev[:: max(1, N // 50)]) / np.sqrt(2 * pr.delta))
    # noise does not depend on the state it is added to
    xs = np.hstack([prev.real, prev.imag]) if pr.complex_x else prev
    xs = (xs - xs.mean(0)) / (xs.std(0) + 1e-300)
    z = np.sum(ws * xs) / np.sqrt(ws.size)
    case.require(abs(z) < 8, "noise-law", f"residual correlates with the state: {z:.1f} sigma")
