"""C03: PxMALA traces and step-size tuning."""
import numpy as np

from pxmcmc.mcmc import PxMALA
from vmon.core import Check
from vmon.problems import Problem, flat_problem, logu
from pxmcmc.prior import L1

check = Check(
    "C03",
    "PxMALA runs over random problems, step sizes from far below to far above the clipping range, schedules and repeated "
    "runs on one sampler; the traces are checked online against the recorded states and the tuning recursion; distinct by "
    "(tuned, clipped low/high, schedule shape, mixed history)",
    ["without burn-in and thinning the saved chain is the sequence of states"],
)
check.require_monitors("trace-length", "acceptance-iff-moved", "tuning-rule", "constant-without-tuning", "clip-high", "clip-low")


def check_traces(case, mc, pr, d0, N, tune):
    acc = np.asarray(mc.acceptance_trace)
    case.require(len(acc) == N, "trace-length", f"{len(acc)} acceptances for {N} iterations")
    case.require(set(np.unique(acc)) <= {0, 1}, "trace-length", f"entries {np.unique(acc)}")
    tr = np.asarray(mc.deltas_trace, float)
    if not tune:
        case.require(mc.delta == d0, "constant-without-tuning", f"{mc.delta} != {d0}")
        case.require(np.all(tr == d0), "constant-without-tuning", "trace changes")
        return acc, np.full(N + 1, d0)
    case.require(len(tr) == N + 1, "trace-length", f"{len(tr)} step sizes for {N} iterations")
    case.require(tr[0] == d0, "tuning-rule", f"trace starts at {tr[0]}, not {d0}")
    case.require(mc.delta == tr[-1], "tuning-rule", "current step size is not the last of the trace")
    i = np.arange(N)
    raw = tr[:-1] * (1 + (acc - 0.5) / (i + 1) ** 0.75)
    want = np.minimum(np.maximum(raw, pr.lmda * 1e-8), pr.lmda / 2)
    case.seen("clip-high", int(np.sum(raw > pr.lmda / 2)))
    case.seen("clip-low", int(np.sum(raw < pr.lmda * 1e-8)))
    case.close(tr[1:] / want, np.ones(N), "tuning-rule", rtol=1e-12)
    return acc, tr


@check.workload(quick=200, thorough=6000)
def traces(case):
    rng = case.rng
    pr = Problem(rng, p=int(rng.choice([1, 2, 4, 7])))
    tune = bool(rng.random() < 0.75)
    N = int(rng.choice([1, 2, 3, 10, 60, 200]))
    if case.index % 20 == 0:
        N = int(rng.choice([700, 1500, 3000]))
    kind = rng.integers(6)
    if kind == 0:
        pr.delta = pr.lmda * logu(rng, 0.3, 3)  # around / above the upper clip
    elif kind == 1:
        pr.delta = pr.lmda * logu(rng, 1e-9, 5e-8)  # around the lower clip
    elif kind == 2:
        pr.lmda, pr.mu = 1e6, pr.mu  # everything rejected: huge steps
        pr.delta = 1e5
    elif kind == 3:  # extreme units
        pr.lmda = logu(rng, 1e-12, 1e9)
        pr.delta = pr.lmda * logu(rng, 1e-10, 1e8)
    x0 = pr.start(rng)
    op = pr.operator(budget=40 * N + 100)
    mc = PxMALA(op, pr.prior, pr.params(nsamples=N, track=["chain"]), tune_delta=tune)
    runs = int(rng.integers(1, 3))
    for r in range(runs):
        if r and rng.random() < 0.5:  # the step size may be set by hand between runs
            mc.delta = pr.lmda * logu(rng, 1e-6, 0.4)
        d0 = mc.delta
        if r == 0:
            case.require(d0 == pr.delta, "tuning-rule", "sampler does not start with the given step size")
        op.reset_log(40 * N + 100)
        mc.run(x0)
        acc, tr = check_traces(case, mc, pr, d0, N, tune)
        prev = x0
        for i in range(N):
            moved = not np.array_equal(mc.chain[i], prev)
            # a move smaller than the spacing of floats is not visible
            if moved:
                case.require(acc[i] == 1, "acceptance-iff-moved", f"iteration {i} moved but was counted as rejected")
            elif acc[i] == 1:
                step = np.sqrt(2 * tr[i])
                case.require(step < 1e-9 * np.max(np.abs(prev)), "acceptance-iff-moved", f"iteration {i} counted as accepted but did not move")
            else:
                case.seen("acceptance-iff-moved")
            prev = mc.chain[i].copy()
        # the step size of the trace is the one the proposals were made with
        st = op.states()
        if len(st) == N + 1:
            x = x0
            for i in range(N):
                w = (st[i + 1] - pr.drift(x, tr[i])) / np.sqrt(2 * tr[i])
                tol = 10 + 1e-7 * np.max(np.abs(pr.drift(x, tr[i]))) / np.sqrt(2 * tr[i])
                case.require(np.max(np.abs(w)) < tol, "uses-traced-step", f"iteration {i}: noise {np.max(np.abs(w)):.1f}")
                case.stat("w2", float(np.mean(np.abs(w) ** 2) / (2 if pr.complex_x else 1))) if tol < 10.1 else None
                case.stat("dof", pr.p * (2 if pr.complex_x else 1)) if tol < 10.1 else None
                x = st[i + 1] if acc[i] else x
    case.note(**pr.describe(), tuned=tune, iterations=N, accepted=int(acc.sum()), runs=runs)
    case.sig(tune, int(kind), N, runs, 0 < acc.sum() < N)


@check.workload(quick=4, thorough=24)
def very_long(case):
    """The tuning rule holds after any number of iterations."""
    rng = case.rng
    pr = Problem(rng, p=int(rng.integers(1, 3)))
    tune = case.index % 4 != 3
    burn = int(rng.choice([0, 4000]))
    N = 11000 if case.tier == "quick" else 40000
    op = pr.operator(budget=40 * N + 100)
    mc = PxMALA(op, pr.prior, pr.params(nsamples=N - burn, nburn=burn, track=["chain"]), tune_delta=tune)
    x0 = pr.start(rng)
    mc.run(x0)
    acc, tr = check_traces(case, mc, pr, pr.delta, N, tune)
    moved = np.any(mc.chain[1:] != mc.chain[:-1], axis=1)
    small = np.sqrt(2 * tr[burn + 1 : N]) < 1e-9 * np.max(np.abs(mc.chain[:-1]), axis=1)
    bad = np.flatnonzero((moved != (acc[burn + 1 :] == 1)) & ~(small & ~moved))
    case.require(bad.size == 0, "acceptance-iff-moved", f"{bad.size} iterations after {burn}, first {bad[:1]}")
    case.note(**pr.describe(), tuned=tune, iterations=N, accepted=int(acc.sum()))
    case.sig("long", tune, burn)


@check.workload(quick=60, thorough=600)
def degenerate(case):
    """No information in the data (zero operator, zero data): misfit exactly 0."""
    rng = case.rng
    p, cplx, tune = int(rng.integers(1, 5)), bool(rng.integers(2)), bool(rng.integers(2))
    pr = Problem(rng, p=p, complex_x=cplx)
    op, flat = flat_problem(p, cplx)
    prior = flat if case.index % 3 == 0 else L1("synthesis", lambda X: X, lambda X: X, pr.T)
    pr.lmda = pr.delta * logu(rng, 0.5, 10)
    N = int(rng.choice([5, 40]))
    op.reset_log(40 * N + 100)
    mc = PxMALA(op, prior, pr.params(nsamples=N, track=["chain"]), tune_delta=tune)
    x0 = np.zeros(p, complex if cplx else float) if rng.random() < 0.3 else pr.start(rng)
    mc.run(x0)
    acc, _ = check_traces(case, mc, pr, pr.delta, N, tune)
    prev = x0
    for i in range(N):
        case.require((not np.array_equal(mc.chain[i], prev)) == bool(acc[i]), "acceptance-iff-moved", f"iteration {i}: trace says {acc[i]}")
        prev = mc.chain[i].copy()
    case.note(p=p, tuned=tune, accepted=int(acc.sum()), iterations=N)
    case.sig(p, cplx, tune, case.index % 3 == 0, N)


@check.pool("traces")
def noise_scale(case, stats):
    w2, dof = np.array(stats.get("w2", [1.0])), np.array(stats.get("dof", [1.0]))
    z = np.sum(dof * (w2 - 1)) / np.sqrt(2 * np.sum(dof))
    case.note(pooled_variance=float(np.sum(dof * w2) / np.sum(dof)), n=int(dof.sum()))
    case.require(abs(z) < 7, "uses-traced-step", f"noise variance in units of the traced step size is off by {z:.1f} sigma")


@check.workload(quick=120, thorough=3000)
def schedules(case):
    """Traces cover every iteration, burn-in and thinned ones included."""
    rng = case.rng
    pr = Problem(rng, p=2)
    tune = bool(rng.integers(2))
    n, burn, gap = int(rng.integers(1, 8)), int(rng.integers(0, 12)), int(rng.integers(0, 6))
    N = burn + (n - 1) * max(gap, 1) + 1
    if rng.random() < 0.3:
        pr.delta *= 30  # mostly rejections
    mc = PxMALA(pr.operator(budget=40 * N + 100), pr.prior, pr.params(nsamples=n, nburn=burn, ngap=gap), tune_delta=tune)
    mc.run(pr.start(rng))
    acc, _ = check_traces(case, mc, pr, pr.delta, N, tune)
    case.sig(tune, n, burn, gap, int(acc.sum()))
    case.note(**pr.describe(), nsamples=n, nburn=burn, ngap=gap)


@check.workload(quick=6, thorough=30)
def tuned_rate(case):
    """Bounded form of 'tunes to an acceptance probability of 0.5'."""
    rng = case.rng
    p = 20
    pr = Problem(rng, p=p, n=p, complex_x=False, complex_data=False, setting="analysis", meas="identity", prior="l1", sig="float")
    pr.lmda = 20.0 / pr.h
    pr.prior = type(pr.prior)("synthesis", pr.fwd, pr.adj, pr.lmda * pr.mu)
    pr.delta = pr.lmda * float(rng.choice([1e-4, 0.4]))
    mc = PxMALA(pr.operator(), pr.prior, pr.params(nsamples=4000, track=["chain"]), tune_delta=True)
    mc.run(pr.start(rng))
    rate = float(np.mean(mc.acceptance_trace[1500:]))
    clipped = mc.deltas_trace[-1] > 0.49 * pr.lmda
    case.note(**pr.describe(), rate=rate)
    case.require(clipped or 0.35 < rate < 0.65, "tuned-rate", f"acceptance rate {rate} after tuning")
    case.sig(pr.delta)
