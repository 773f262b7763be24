"""C02: PxMALA accepts with the exact Metropolis-Hastings probability."""
import numpy as np

from pxmcmc.mcmc import PxMALA
from vmon.core import Check
from vmon.problems import CustomPrior, Problem, flat_problem, logu, normal_tests, randc, UniformSpy

check = Check(
    "C02",
    "random inverse problems driven through PxMALA.run.  (a) the log acceptance ratio the code uses at iteration k is "
    "measured by bisection: the prior of the k-th proposal is shifted until the decision flips, with the threshold of "
    "the same seed measured on a flat problem; (b) every proposal in recorded histories is compared with the step from "
    "the current state; (c) decisions in long histories are tested against recomputed ratios.  Non-trivial = finite "
    "ratio different from 0; distinct by configuration and accept/reject history",
    ["np.random.seed fixes the draws of a run", "z-scores beyond 7 do not occur by chance"],
)
check.require_monitors("log-ratio", "proposal", "decision", "stays-on-rejection", "log-transition", "impossible-rejected", "impossible-proposal")


def logq(pr, x_from, x_to, delta):
    r = x_to - pr.drift(x_from, delta)
    return -np.sum(np.abs(r) ** 2) / (4 * delta)


def logalpha(pr, x, y, delta):
    return logq(pr, y, x, delta) + pr.logpi(y) - logq(pr, x, y, delta) - pr.logpi(x)


class Shifted(CustomPrior):
    """Adds t to the value of the k-th new model it is asked about (0 = start)."""

    def __init__(self, base, k, t, start):
        self.base, self.k, self.t = base, k, t
        self.known = [np.array(start)]

    def prior(self, X):
        for i in range(len(self.known) - 1, -1, -1):
            if np.array_equal(self.known[i], X):
                break
        else:
            self.known.append(np.array(X))
            i = len(self.known) - 1
        return self.base.prior(X) + (self.t if i == self.k else 0.0)

    def proxf(self, X):
        return self.base.proxf(X)


def run(op, prior, params, seed, x0, tune, budget):
    op.reset_log(budget)
    mc = PxMALA(op, prior, params, tune_delta=tune)
    np.random.seed(seed)
    mc.run(x0)
    return mc


def flip(shifted, mu, lo=-1e7, hi=1e7):
    """Largest shift t (to rounding) of the prior at which the proposal is
    still accepted; mu t is the shift of the log ratio, searched up to 1e7."""
    trial = lambda r: shifted(r / mu)
    # expand geometrically from 0 so that resolution is relative
    if trial(0.0):
        a, b = 0.0, 1.0
        while trial(b):
            a, b = b, b * 4
            if b > hi:
                return np.inf
    else:
        a, b = -1.0, 0.0
        while not trial(a):
            a, b = a * 4, a
            if a < lo:
                return -np.inf
    for _ in range(70):
        m = 0.5 * (a + b)
        if m == a or m == b:
            break
        if trial(m):
            a = m
        else:
            b = m
    return 0.5 * (a + b) / mu


@check.workload(quick=160, thorough=3000)
def ratio_at_iteration_k(case):
    rng = case.rng
    pr = Problem(rng, p=int(rng.choice([1, 2, 3, 5, 5, 40, 150])), n=int(rng.choice([1, 3, 8, 60])))
    k = int(rng.choice([1, 1, 2, 3, 5, 8, 20]))
    tune = bool(rng.integers(2))
    # large steps are rejected more, small ones accepted more
    pr.delta = pr.delta * float(rng.choice([0.05, 0.3, 1.0, 2.0]))
    x0 = pr.start(rng, logu(rng, 0.3, 3))
    seed = case.npseed
    burn = int(rng.integers(0, k + 1)) if rng.random() < 0.5 else 0
    params = lambda **kw: pr.params(nsamples=k + 1 - burn, nburn=burn, track=["chain"], **kw)
    op = pr.operator()
    budget = 20 * (k + 2)

    def history(t):
        prior = Shifted(pr.prior, k, t, x0)
        return run(op, prior, params(), seed, x0, tune, budget), prior, op.states()

    mc, prior, states = history(0.0)
    acc = list(mc.acceptance_trace)
    deltas = list(mc.deltas_trace) if tune else [pr.delta] * (k + 1)
    case.note(**pr.describe(), k=k, tuned=tune, burn_in=burn, acceptances=acc)
    # reconstruct the states up to iteration k
    if len(states) < k + 2:
        case.require(False, "proposal", f"only {len(states)} distinct models in {k + 1} iterations")
    x = x0
    for i in range(k - 1):
        x = states[i + 1] if acc[i] else x
    y, d = states[k], deltas[k - 1]
    want = logalpha(pr, x, y, d)
    # threshold of the same draws on a flat problem
    fop, fprior = flat_problem(pr.p, pr.complex_x)
    z0 = np.zeros(pr.p, dtype=complex if pr.complex_x else float)

    def ftrial(t):
        m = run(fop, Shifted(fprior, k, t, z0), params(), seed, z0, False, budget)
        return m.acceptance_trace[k - 1] == 1

    # same position in the random stream in both problems?
    run(fop, fprior, params(), seed, z0, False, budget)
    fs = fop.states()
    synced = len(fs) >= k + 2
    if synced:
        xx, xa = x0, 0
        for i in range(k + 1):
            w1 = (states[i + 1] - pr.drift(xx, deltas[i])) / np.sqrt(2 * deltas[i])
            w2 = (fs[i + 1] - fs[i]) / np.sqrt(2 * pr.delta)
            tol = 1e-6 * (1 + np.max(np.abs(pr.drift(xx, deltas[i]))) / np.sqrt(2 * deltas[i]))
            if not np.allclose(w1, w2, rtol=0, atol=tol):
                # first iteration: nothing can have shifted the stream
                case.require(i > 0, "proposal", f"proposal of the first iteration is not the MYULA step: {w1} vs {w2}")
                synced = False
                break
            xx = states[i + 1] if acc[i] else xx
    case.seen("synced" if synced else "unsynced")
    if not synced:
        case.require(k > 1 or True, "proposal")
        return
    case.require(True, "proposal")
    # u is shared: log u = -mu t_flat = logalpha - mu t_real
    pmu = pr.mu
    t_flat = flip(ftrial, pr.mu)
    t_real = flip(lambda t: history(t)[0].acceptance_trace[k - 1] == 1, pr.mu)
    case.require(np.isfinite(t_flat), "log-ratio", "flat problem never flips")
    if not np.isfinite(t_real):
        case.require(abs(want) > 1e6, "log-ratio", f"decision never flips, ratio should be {want}")
        return
    got = pmu * (t_real - t_flat)
    scale = 1 + abs(want) + abs(pr.logpi(x)) + abs(pr.logpi(y)) + abs(logq(pr, x, y, d)) + abs(logq(pr, y, x, d)) + abs(pmu * t_flat)
    case.close(got, want, "log-ratio", rtol=1e-7, scale=scale, detail=f"(log acceptance ratio at iteration {k}, history {acc[:k]})")
    case.sig(*pr.signature(), k, tune, burn > 0, tuple(acc[: k - 1]))
    # the decision compares the ratio itself with a uniform draw: on the flat
    # problem the ratio is exactly -mu t, so the flip shows the draw
    with UniformSpy() as spy:
        run(fop, fprior, params(), seed, z0, False, budget)
    if len(spy.draws) == k + 1:
        u = spy.draws[k - 1]
        judge_draw(case, -pr.mu * t_flat, u)


def judge_draw(case, c, u):
    case.note(log_u=float(np.log(u)), flip=float(c))
    lims = [np.log(v) for v in (u, 1 - u) if v > 0]
    case.require(any(abs(c - v) < 1e-6 * (1 + abs(v)) for v in lims), "uniform-threshold",
                 f"proposals are accepted above a log ratio of {c:.6f}; the uniform draw was {u!r} (log {np.log(u):.6f})")


@check.workload(quick=60, thorough=1000)
def extreme_draws(case):
    """The uniform draw is scripted to rare values: very small, very near 1."""
    rng = case.rng
    p, cplx = int(rng.choice([1, 3, 70])), bool(rng.integers(2))
    pr = Problem(rng, p=p, complex_x=cplx)
    op, fprior = flat_problem(p, cplx)
    z0 = np.zeros(p, dtype=complex if cplx else float)
    k = int(rng.integers(1, 5))
    u = float(rng.choice([2.0**-50, 1e-12, 1e-9, 1e-6, 1e-3, 1 - 1e-3, 1 - 1e-6, 1 - 2.0**-40]))
    burn = int(rng.integers(0, k))
    params = pr.params(nsamples=k - burn, nburn=burn, track=["chain"])

    def trial(t):
        with UniformSpy({k - 1: u}) as spy:
            m = run(op, Shifted(fprior, k, t, z0), params, case.npseed, z0, False, 20 * k + 40)
        trial.draws = len(spy.draws)
        return m.acceptance_trace[k - 1] == 1

    trial(0.0)
    case.note(p=p, k=k, u=u, draws=trial.draws)
    if trial.draws != k:
        case.seen("draw-not-seen")
        return
    t = flip(trial, pr.mu)
    case.require(np.isfinite(t), "uniform-threshold", f"with a uniform draw of {u!r} the decision never flips")
    judge_draw(case, -pr.mu * t, u)
    case.sig(p, cplx, k, u, burn > 0)


def judge_decisions(case, la, tol, acc, draws):
    """Every single decision against the uniform draw it was made with (one draw
    per iteration, or one per iteration with a ratio below 1)."""
    clear = np.all(np.abs(la) > tol)
    if len(draws) == len(la):
        u = draws
    elif clear and len(draws) == np.sum(la < 0):
        u = np.full(len(la), 0.5)
        u[la < 0] = draws
    else:
        case.seen("draws-not-attributed")
        return
    bad = []
    with np.errstate(divide="ignore"):
        for v in (u, 1 - u):
            lv = np.log(v)
            sure = np.abs(lv - la) > tol + 1e-9 * np.abs(lv) + 1e-12
            wrong = sure & ((lv < la) != (acc == 1)) & ~(la > 0)
            bad.append(np.flatnonzero(wrong))
    case.seen("decision-by-draw", len(la))
    b = min(bad, key=len)
    case.require(len(b) == 0, "decision-by-draw", lambda: f"iteration {b[0]}: log ratio {la[b[0]]:.6f}, uniform draw {u[b[0]]!r} "
                 f"(log {np.log(u[b[0]]):.6f}), decision {acc[b[0]]} ({len(b)} of {len(la)} decisions)")


@check.workload(quick=60, thorough=1500)
def histories(case):
    """Record whole histories: proposals, decisions, rejections."""
    rng = case.rng
    pr = Problem(rng, p=int(rng.choice([1, 2, 3, 5, 8, 130, 300])))
    history(case, pr, 500 if pr.p < 20 else 300)


@check.workload(quick=16, thorough=150)
def long_histories(case):
    """Thousands of decisions, each against its own draw."""
    history(case, Problem(case.rng, p=int(case.rng.integers(1, 5))), int(case.rng.integers(2200, 5000)) if case.index % 8 else 21500)


def history(case, pr, N):
    rng = case.rng
    tune = bool(rng.integers(2))
    pr.delta *= float(rng.choice([0.1, 0.5, 1.0, 1.6]))
    op = pr.operator()
    x0 = pr.start(rng)
    burn = int(rng.choice([0, 0, 40, 250]))
    with UniformSpy() as spy:
        mc = run(op, pr.prior, pr.params(nsamples=N - burn, nburn=burn, track=["chain"]), case.npseed, x0, tune, 20 * N)
    acc = np.array(mc.acceptance_trace)
    deltas = np.array(mc.deltas_trace[:N]) if tune else np.full(N, pr.delta)
    states = op.states()
    case.note(**pr.describe(), tuned=tune, acceptance_rate=float(acc.mean()))
    case.sig(*pr.signature(), tune)
    case.require(len(acc) == N and len(states) == N + 1, "proposal", f"{len(states)} models evaluated, {len(acc)} decisions in {N} iterations")
    x, prev_acc = x0, 1
    ws, after_rej, las, tols, res = [], [], [], [], []
    for i in range(N):
        y, d = states[i + 1], deltas[i]
        w = (y - pr.drift(x, d)) / np.sqrt(2 * d)
        res.append(1e-14 * pr.stepscale(x, d) / np.sqrt(2 * d))
        case.require(np.max(np.abs(w)) < 9 + res[-1], "proposal", f"iteration {i}: proposal {np.max(np.abs(w)):.1f} sigma away from the step (previous decision {prev_acc})")
        ws.append(w)
        after_rej.append(prev_acc == 0)
        la = logalpha(pr, x, y, d)
        tol = 1e-8 * (1 + abs(pr.logpi(x)) + abs(pr.logpi(y)) + abs(logq(pr, y, x, d)))
        las.append(la)
        tols.append(tol)
        if la > tol:
            case.require(acc[i] == 1, "decision", f"iteration {i}: log ratio {la:.4f} > 0 but rejected")
        elif la < -50:
            case.require(acc[i] == 0, "decision", f"iteration {i}: log ratio {la:.1f} but accepted")
        elif tol < 1e-3:
            case.seen("decision")
            a = float(np.exp(min(la, 0)))
            case.stat("dec", (a, int(acc[i]), int(prev_acc), float(d)))
        if acc[i]:
            if i >= burn:
                case.close(mc.chain[i - burn], y, "moves-on-acceptance", rtol=1e-12, atol=1e-300)
            x = y
        elif i >= burn:
            case.close(mc.chain[i - burn], x, "stays-on-rejection", rtol=1e-12, atol=1e-300)
        prev_acc = int(acc[i])
    judge_decisions(case, np.array(las), np.array(tols), acc, np.array(spy.draws))
    ws = np.array(ws)
    W = np.hstack([ws.real, ws.imag]) if pr.complex_x else ws
    normal_tests(case, W, "proposal", np.array(res))
    r = np.array(after_rej) & (np.array(res) < 1e-4)
    if r.sum() > 30:
        v = W[r]
        z = (np.mean(v**2) - 1) * np.sqrt(v.size / 2)
        case.require(abs(z) < 7, "proposal", f"proposal noise after rejections has variance {np.mean(v**2):.3f} ({z:.1f} sigma)")


@check.pool("long_histories")
@check.pool("histories")
def decide(case, stats):
    d = np.array(stats.get("dec", []), float).reshape(-1, 4)
    case.require(len(d) > 500, "decision", "too few undecided steps")
    a, acc, prev = d[:, 0], d[:, 1], d[:, 2]
    strata = {"all": np.ones(len(a), bool), "after rejection": prev == 0, "after acceptance": prev == 1}
    for lo, hi in ((0, 0.02), (0.02, 0.1), (0.1, 0.3), (0.3, 0.6), (0.6, 0.9), (0.9, 0.99)):
        strata[f"ratio in [{lo},{hi})"] = (a >= lo) & (a < hi)
    for name, m in strata.items():
        var = np.sum(a[m] * (1 - a[m]))
        if var < 20:
            continue
        z = np.sum(acc[m] - a[m]) / np.sqrt(var)
        case.note(**{name: f"n={int(m.sum())} expected {a[m].mean():.4f} observed {acc[m].mean():.4f} z={z:.2f}"})
        case.require(abs(z) < 7, "decision", f"{name}: acceptance {acc[m].mean():.4f} instead of {a[m].mean():.4f} ({z:.1f} sigma, n={m.sum()})")


class Undefined(CustomPrior):
    """A prior without mass (infinite, or not a number) outside a box."""

    def __init__(self, base, centre, size, value):
        self.base, self.centre, self.size, self.value = base, centre, size, value

    def inside(self, X):
        return bool(np.all(np.abs(X - self.centre) < self.size))

    def prior(self, X):
        return self.base.prior(X) if self.inside(X) else self.value

    def proxf(self, X):
        return self.base.proxf(X)


@check.workload(quick=40, thorough=600)
def impossible_proposals(case):
    """A proposal whose posterior is zero or undefined is never accepted."""
    rng = case.rng
    pr = Problem(rng, p=int(rng.integers(1, 6)))
    x0 = pr.start(rng)
    size = np.sqrt(2 * pr.delta) * float(rng.uniform(1.5, 4))
    value = (np.inf, np.nan)[case.index % 2]
    prior = Undefined(pr.prior, x0, size, value)
    op = pr.operator()
    N = 200
    mc = run(op, prior, pr.params(nsamples=N, nburn=0, track=["chain", "logposterior"]), case.npseed, x0, bool(rng.integers(2)), 20 * N)
    acc = np.array(mc.acceptance_trace)
    states = op.states()
    out = sum(not prior.inside(y) for y in states)
    case.note(**pr.describe(), value=str(value), proposals_outside=out, accepted=int(acc.sum()))
    case.require(all(prior.inside(x) for x in mc.chain), "impossible-rejected", f"the chain leaves the support of the prior ({value} outside)")
    case.require(np.all(np.isfinite(mc.chain)) and np.all(np.isfinite(mc.logPi)), "impossible-rejected", "a saved sample has no posterior")
    case.seen("impossible-proposal", out)
    case.sig(*pr.signature(), str(value))


@check.workload(quick=200, thorough=5000)
def transition_density(case):
    """The public log transition density, up to a state-independent constant."""
    rng = case.rng
    pr = Problem(rng)
    mc = PxMALA(pr.operator(), pr.prior, pr.params())
    vals, want = [], []
    for _ in range(4):
        x1, prox, g = (randc(rng, pr.p, pr.complex_x) * logu(rng, 0.1, 10) for _ in range(3))
        x2 = x1 + randc(rng, pr.p, pr.complex_x) * logu(rng, 0.01, 10)
        mean = x1 - pr.delta * (x1 - prox) / pr.lmda - pr.delta * g
        vals.append(mc.calc_logtransition(x1, x2, prox, g))
        want.append(-np.sum(np.abs(x2 - mean) ** 2) / (4 * pr.delta))
    vals, want = np.array(vals), np.array(want)
    case.close(vals - vals[0], want - want[0], "log-transition", rtol=1e-9, scale=1 + np.max(np.abs(want)))
    case.require(not np.iscomplexobj(vals) or np.all(np.imag(vals) == 0), "log-transition", "complex log density")
    case.sig(pr.p, pr.complex_x)
