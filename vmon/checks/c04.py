"""C04: SK-ROCK iterations follow the stabilised Chebyshev recursion."""
import numpy as np
from numpy.polynomial import chebyshev as C

from pxmcmc.mcmc import SKROCK, PxMCMCParams
from vmon.core import Check
from vmon.problems import Problem, flat_problem, logu, normal_tests, tail_decision, tail_stats

check = Check(
    "C04",
    "random inverse problems and stage numbers driven through SKROCK.run; the draw Z of each iteration is measured on a flat "
    "problem with the same seed, and every observed transition is compared with an iterative reference of the recursion "
    "(coefficients from numpy.polynomial); stability runs at the order-s^2 step limit; distinct by configuration and s",
    ["np.random.seed fixes the noise a run draws"],
)
check.require_monitors("transition", "noise-law", "bounded", "linear-contraction")
ETA = 0.05


def coefs(s):
    T = lambda j, x: C.chebval(x, [0] * j + [1])
    dT = lambda j, x: C.chebval(x, C.chebder([0] * j + [1]))
    w0 = 1 + ETA / s**2
    w1 = T(s, w0) / dT(s, w0)
    mu, nu, k = np.zeros(s + 1), np.zeros(s + 1), np.zeros(s + 1)
    mu[1], nu[1], k[1] = w1 / w0, s * w1 / 2, s * w1 / w0
    for j in range(2, s + 1):
        r = T(j - 1, w0) / T(j, w0)
        mu[j], nu[j], k[j] = 2 * w1 * r, 2 * w0 * r, -T(j - 2, w0) / T(j, w0)
    return w0, w1, mu, nu, k


def ref_step(grad, x, s, delta, Z):
    _, _, mu, nu, k = coefs(s)
    q = np.sqrt(2 * delta) * Z
    K = [x, x + mu[1] * delta * grad(x + nu[1] * q) + k[1] * q]
    for j in range(2, s + 1):
        K.append(mu[j] * delta * grad(K[-1]) + nu[j] * K[-1] + k[j] * K[-2])
    return K[s], max(np.max(np.abs(v)) for v in K)


def measured_noise(seed, p, cplx, delta, lmda, s, N):
    op, prior = flat_problem(p, cplx)
    op.reset_log(2 * N * 3**s + 100)
    mc = SKROCK(op, prior, PxMCMCParams(lmda=lmda, delta=delta, s=s, nsamples=N, nburn=0, ngap=0, complex=cplx, verbosity=0))
    np.random.seed(seed)
    mc.run(np.zeros(p, dtype=complex if cplx else float))
    gain, _ = ref_step(lambda v: 0 * v, np.zeros(1), s, delta, np.ones(1))
    chain = np.vstack([np.zeros((1, p)), mc.chain])
    return np.diff(chain, axis=0) / gain[0]


@check.workload(quick=240, thorough=8000)
def transitions(case):
    rng = case.rng
    s = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8] if case.index % 10 == 0 else [1, 2, 3, 4, 5]))
    pr = Problem(rng, p=int(rng.choice([1, 2, 3, 6, 11, 90])))
    if case.index % 40 == 5:
        s = int(rng.choice([9, 10, 11, 12]))
    N = int(rng.integers(1, 8)) if s < 5 else 2 if s < 7 else 1
    if case.index % 60 == 7:  # a long run
        s, N = int(rng.integers(1, 4)), int(rng.integers(1000, 2500) if case.index % 120 == 7 or case.tier != "quick" else rng.integers(200, 900))
    pr.delta *= 0.5 * (1 + s * s * rng.random() / 2)
    Z = measured_noise(case.npseed, pr.p, pr.complex_x, pr.delta, pr.lmda, s, N)
    op = pr.operator(budget=4 * N * 3**s + 200)
    x0 = pr.start(rng, logu(rng, 0.3, 5))
    burn = int(rng.integers(0, min(N, 30))) if rng.random() < 0.4 else 0
    mc = SKROCK(op, pr.prior, pr.params(nsamples=N - burn, nburn=burn, s=s, ngap=int(rng.integers(0, 2))))
    np.random.seed(case.npseed)
    mc.run(x0)
    case.note(**pr.describe(), s=s, iterations=N, burn_in=burn)
    case.sig(*pr.signature(), s)
    x = x0
    for i in range(burn):  # unsaved iterations: followed by the reference
        x, _ = ref_step(pr.gradlogpi, x, s, pr.delta, Z[i])
    grow = (1 + pr.delta * (pr.h + 1 / pr.lmda)) ** (s * burn)
    for i in range(burn, N):
        want, size = ref_step(pr.gradlogpi, x, s, pr.delta, Z[i])
        scale = 1e-3 + size + pr.stepscale(x) * (1 + pr.delta * (pr.h + 1 / pr.lmda)) ** s
        case.close(mc.chain[i - burn], want, "transition", rtol=1e-10, scale=scale * min(grow, 1e4) if i == burn else scale, detail=f"iteration {i}, s={s}")
        x = mc.chain[i - burn]


@check.workload(quick=20, thorough=150)
def noise_law(case):
    rng = case.rng
    cplx = bool(case.index % 2)
    s = 1 + (case.index // 2) % 3
    p = [1, 2, 5, 40][(case.index // 4) % 4]
    N = min(20000 // p, 3000 if s > 1 else 6000)
    Z = measured_noise(case.npseed, p, cplx, logu(rng, 1e-5, 1), 1.0, s, N)
    normal_tests(case, np.hstack([Z.real, Z.imag]) if cplx else Z.real, "noise-law")
    case.require(len(np.unique(Z.real)) > 0.999 * Z.size, "noise-law", "noise values repeat")
    case.note(p=p, s=s, complex_params=cplx, iterations=N)
    case.sig(p, s, cplx)


@check.workload(quick=32, thorough=128)
def noise_tails(case):
    """The draw is standard normal for every number of stages and size."""
    rng = case.rng
    cplx = bool(case.index % 2)
    s = 1 + (case.index // 2) % 8
    p = [300, 4000][(case.index // 16) % 2] if s < 6 else 6000
    N = 320000 // p if s < 6 else 25
    Z = measured_noise(case.npseed, p, cplx, logu(rng, 1e-5, 1), 1.0, s, N)
    for part in (Z.real, Z.imag) if cplx else (Z.real,):
        tail_stats(case, part)
        case.require(len(np.unique(np.round(np.abs(part), 11))) > part.size - 10, "noise-law", "noise values repeat")
        case.stat(f"s={s}, {'complex' if cplx else 'real'}", [part.size, float(np.sum(part**2))])
    case.note(p=p, s=s, complex_params=cplx, iterations=N)
    case.sig(p, s, cplx)


@check.pool("noise_tails")
def tails(case, stats):
    tail_decision(case, stats["tail"], "noise-law")
    for k, v in stats.items():
        if k != "tail":
            n, s2 = np.sum(v, axis=0)
            z = (s2 / n - 1) * np.sqrt(n / 2)
            case.require(abs(z) < 7, "noise-law", f"noise variance for {k} off by {z:.1f} sigma")


@check.workload(quick=60, thorough=1500)
def linear_contraction(case):
    """Gaussian posterior: two chains with the same noise approach each other by
    the stability polynomial T_s(w0 - w1 delta a)/T_s(w0) per iteration."""
    rng = case.rng
    s = int(rng.integers(1, 8))
    p = int(rng.integers(1, 5))
    pr = Problem(rng, p=p, n=p, complex_x=False, complex_data=False, setting="analysis", meas="identity", sig="vector", prior="quad")
    a = np.diag(pr.Cinv) + (1 - 1 / (1 + pr.T)) / pr.lmda
    w0, w1, *_ = coefs(s)
    pr.delta = float(rng.uniform(0.1, 0.95) * (w0 + 1) / w1 / a.max())
    xs = []
    for x0 in (rng.standard_normal(p) * 5, rng.standard_normal(p) * 5):
        mc = SKROCK(pr.operator(budget=20 * 3**s + 200), pr.prior, pr.params(nsamples=2, s=s))
        np.random.seed(case.npseed)
        mc.run(x0)
        xs.append(np.vstack([x0, mc.chain]))
    diff = xs[0] - xs[1]
    T = lambda x: C.chebval(x, [0] * s + [1])
    R = T(w0 - w1 * pr.delta * a) / T(w0)
    for i in range(2):
        case.close(diff[i + 1], R * diff[i], "linear-contraction", rtol=1e-7, scale=np.max(np.abs(xs[0])) + np.max(np.abs(xs[1])))
    case.note(s=s, p=p, delta_a=float(pr.delta * a.max()))
    case.sig(s, p, round(float(pr.delta * a.max()), 1))


@check.workload(quick=16, thorough=120)
def bounded_chain(case):
    """Steps near the order-s^2 stability limit keep the chain bounded."""
    rng = case.rng
    s = int(rng.integers(1, 6))
    p = int(rng.integers(1, 4))
    pr = Problem(rng, p=p, n=p, complex_x=False, complex_data=False, setting="analysis", meas="identity", sig="float", prior="quad")
    a = float(pr.Cinv[0, 0] + (1 - 1 / (1 + pr.T)) / pr.lmda)
    w0, w1, *_ = coefs(s)
    pr.delta = 0.9 * (w0 + 1) / w1 / a
    N = 120
    mc = SKROCK(pr.operator(budget=3 * N * 3**s + 200), pr.prior, pr.params(nsamples=N, s=s, track=["chain"]))
    mc.run(rng.standard_normal(p))
    lim = 1e4 * (1 + np.max(np.abs(pr.data)) + np.sqrt(2 * pr.delta) * s)
    case.require(np.all(np.isfinite(mc.chain)) and np.max(np.abs(mc.chain)) < lim, "bounded", f"chain reaches {np.max(np.abs(mc.chain))}")
    case.note(s=s, delta_a=pr.delta * a, largest=float(np.max(np.abs(mc.chain))))
    case.sig(s, p)
