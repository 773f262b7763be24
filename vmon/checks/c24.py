"""C24 - long-run statistics of saved samples against the exact posterior.

Oracle: exact posteriors computed without pxmcmc, by numerical integration of
the density on a fine grid (one parameter, real or complex) or in closed form
(Gaussian, several correlated parameters).  Decision: batch means of region
indicators, first and second moments; |z| < 7 per test and a bound on the mean
square of all z of a run.  Batches are much longer than the correlation time;
a chain too short for that is not judged.
"""
import numpy as np
from scipy import sparse
from pxmcmc.forward import ForwardOperator
from pxmcmc.mcmc import MYULA, PxMALA, PxMCMCParams
from pxmcmc.measurements import PathIntegral
from pxmcmc.prior import L1
from pxmcmc.transforms import IdentityTransform

from . import c01, c02
from ..core import Check
from ..problems import CustomPrior, Problem, MatrixMeasurement, MatrixTransform, rand_unitary, randc

check = Check(
    "C24",
    "one parameter posteriors integrated on a grid and multi-parameter Gaussian ones in closed form, sampled by the "
    "real samplers with random step, smoothing, thinning, start, data errors and tuning; batch means of region "
    "frequencies, means and second moments compared with the exact values; single transitions compared with the exact "
    "kernel (acceptance ratio by bisection, proposals and decisions of recorded histories)",
    ["posteriors of a few parameters, chains of some 1e4 to 1e5 iterations; errors below a few percent of a "
     "standard deviation are left to the exact per-step monitors of C01-C04"],
)
check.require_monitors("posterior-frequency", "posterior-mean", "posterior-variance", "myula-mean", "myula-variance",
                       "rejections-seen", "tuned-run", "complex-run", "joint",
                       "log-ratio", "decision", "proposal", "stays-on-rejection", "transition")
ZMAX = 7.0
NBATCH = 32


def iat(x):
    """Correlation time of a series (initial positive sequence)."""
    x = np.asarray(x, float) - np.mean(x)
    n = len(x)
    v = np.dot(x, x) / n
    if v <= 0:
        return np.inf
    f = np.fft.rfft(x, 2 * n)
    r = np.fft.irfft(f * np.conj(f))[:n] / (n * v)
    pair = r[0:-1:2][: n // 2] + r[1::2][: n // 2]
    k = np.argmax(pair <= 0) if np.any(pair <= 0) else len(pair)
    return max(1.0, 2 * float(np.sum(pair[:k])) - 1)


def zscore(series, want):
    s = np.asarray(series, float)
    m = len(s) // NBATCH
    b = s[: m * NBATCH].reshape(NBATCH, m).mean(1)
    se = b.std(ddof=1) / np.sqrt(NBATCH)
    return (s[: m * NBATCH].mean() - want) / se if se > 0 else (0.0 if np.isclose(s.mean(), want) else np.inf)


def test(case, series, want, monitor, what):
    s = np.asarray(series, float)
    t = iat(s)
    if len(s) < NBATCH * 20 * t:
        case.seen("not-judged-slow-mixing")
        return
    z = zscore(s, want)
    case.require(abs(z) < ZMAX, monitor,
                 lambda: f"{what}: {s.mean():.5g} instead of {want:.5g} (z={z:.1f}, {len(s)} samples, correlation time {t:.1f})")
    case.stat("z2", min(z * z, 40.0))


def grid_real(h, m, mu, kind):
    """Posterior exp(-mu f(x) - h (x-m)^2 / 2): nodes and probabilities."""
    s = 1 / np.sqrt(h)
    lo, hi = m - 12 * s - 3 * mu / h, m + 12 * s + 3 * mu / h
    x = np.linspace(lo, hi, 400001)
    e = -0.5 * h * (x - m) ** 2 - mu * (np.abs(x) if kind == "l1" else 0.5 * x**2 if kind == "quad" else 0 * x)
    p = np.exp(e - e.max())
    return x, p / p.sum()


def make_1d(rng, cplx):
    """One-parameter problem with curvature h and data mode m."""
    n = int(rng.integers(1, 4))
    syn = bool(rng.random() < 0.5)
    A = randc(rng, (n, 1), cplx or rng.random() < 0.25)
    A = A / np.linalg.norm(A) * np.exp(rng.uniform(-0.7, 0.7))
    M = np.array([[np.exp(rng.uniform(-0.5, 0.5)) * (np.exp(2j * np.pi * rng.random()) if cplx else 1.0)]])
    G = A @ M if syn else A
    kind = str(rng.choice(["scalar", "vector", "cov"]))
    s0 = float(np.exp(rng.uniform(-1.0, 1.0)))
    if kind == "scalar":
        sig, C = s0, np.eye(n) * s0**2
    elif kind == "vector":
        sig = s0 * np.exp(rng.uniform(-0.7, 0.7, n))
        C = np.diag(sig**2)
    else:
        R = rng.standard_normal((n, n))
        C = sig = s0**2 * (np.eye(n) + 0.3 * R @ R.T)
    Ci = np.linalg.inv(C)
    h = float(np.real((G.conj().T @ Ci @ G)[0, 0]))
    m = (rng.standard_normal() + (1j * rng.standard_normal() if cplx else 0)) * 1.5 / np.sqrt(h)
    d = G[:, 0] * m + 0.3 * s0 * randc(rng, n, np.iscomplexobj(G))
    b = (G.conj().T @ Ci @ d)[0] / h
    m = complex(b) if cplx else float(np.real(b))
    op = ForwardOperator(d, sig, "synthesis" if syn else "analysis",
                         transform=MatrixTransform(M) if syn else IdentityTransform(),
                         measurement=MatrixMeasurement(A) if rng.random() < 0.5 else PathIntegral(sparse.csr_matrix(A)), nparams=1)
    return op, h, m, dict(ndata=n, setting="synthesis" if syn else "analysis", sig_d=kind)


def make_prior(rng, kind, lmda, mu):
    T = lmda * mu * (1.0 if rng.random() < 0.6 else float(np.exp(rng.uniform(-1, 1))))
    if kind == "l1":
        return L1(str(rng.choice(["synthesis", "analysis"])), lambda x: x, lambda x: x, T)
    if kind == "quad":
        return CustomPrior(lambda x: 0.5 * float(np.sum(np.abs(x) ** 2)), lambda x: x / (1 + T))
    return CustomPrior(lambda x: 0.0, lambda x: x)


def steps(rng, curv, kind, mu, tune):
    var = 1 / (curv + (mu if kind == "quad" else mu**2 if kind == "l1" else 0))
    delta = var * float(np.exp(rng.uniform(np.log(0.15), np.log(1.3))))
    # the tuned step is clipped to lambda/2: large enough to mix
    lmda = var * float(np.exp(rng.uniform(np.log(0.4), np.log(3.0)))) if not tune else var * float(rng.uniform(0.8, 4.0))
    return delta, lmda


@check.workload(quick=24, thorough=240)
def pxmala_real(case):
    rng = case.rng
    op, h, m, desc = make_1d(rng, False)
    kind = ("l1", "l1", "quad", "flat")[case.index % 4]
    tune = bool(case.index // 4 % 2)
    mu = float(np.exp(rng.uniform(-0.5, 1.2))) * np.sqrt(h)
    if kind == "quad":
        mu = float(np.exp(rng.uniform(-1, 1.5))) * h
    delta, lmda = steps(rng, h, kind, mu, tune)
    prior = make_prior(rng, kind, lmda, mu)
    gap = int(rng.choice([0, 1, 2, 4]))
    iters = 24000 if case.tier == "quick" else 120000
    n = iters // max(gap, 1)
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=mu, nsamples=n, nburn=500, ngap=gap, complex=False, verbosity=0, track=["chain"])
    mc = PxMALA(op, prior, par, tune_delta=tune)
    np.random.seed(case.npseed)
    mc.run(np.array([m + rng.uniform(-2, 2) / np.sqrt(h)]))
    c = np.asarray(mc.chain)[:, 0]
    rate = float(np.mean(mc.acceptance_trace))
    case.note(prior=kind, tune=tune, acceptance=round(rate, 3), h=round(h, 4), delta=delta, lmda=lmda, mu=mu, ngap=gap, **desc)
    case.sig(kind, tune, gap, desc["setting"], desc["sig_d"], round(rate, 1))
    case.seen("rejections-seen", sum(1 - a for a in mc.acceptance_trace))
    case.seen("tuned-run", int(tune))
    x, p = grid_real(h, m, mu, kind)
    F = np.cumsum(p)
    edges = np.interp([0.02, 0.15, 0.35, 0.5, 0.65, 0.85, 0.98], F, x)
    for q, e in zip([0.02, 0.15, 0.35, 0.5, 0.65, 0.85, 0.98], edges):
        test(case, c <= e, q, "posterior-frequency", f"probability below {e:.4g}")
    mean = float(np.sum(p * x))
    var = float(np.sum(p * (x - mean) ** 2))
    test(case, c, mean, "posterior-mean", "mean")
    test(case, (c - mean) ** 2, var, "posterior-variance", "variance")


@check.workload(quick=16, thorough=160)
def pxmala_complex(case):
    rng = case.rng
    op, h, m, desc = make_1d(rng, True)
    kind = ("l1", "quad", "flat", "l1")[case.index % 4]
    tune = bool(case.index // 4 % 2)
    mu = float(np.exp(rng.uniform(-0.5, 1.0))) * np.sqrt(h)
    if kind == "quad":
        mu = float(np.exp(rng.uniform(-1, 1.5))) * h
    delta, lmda = steps(rng, h, kind, mu, tune)
    prior = make_prior(rng, kind, lmda, mu)
    gap = int(rng.choice([0, 1, 3]))
    iters = 24000 if case.tier == "quick" else 120000
    n = iters // max(gap, 1)
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=mu, nsamples=n, nburn=500, ngap=gap, complex=True, verbosity=0, track=["chain"])
    mc = PxMALA(op, prior, par, tune_delta=tune)
    np.random.seed(case.npseed)
    mc.run(np.array([m + (rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1)) / np.sqrt(h)]))
    c = np.asarray(mc.chain)[:, 0]
    rate = float(np.mean(mc.acceptance_trace))
    case.note(prior=kind, tune=tune, acceptance=round(rate, 3), h=round(h, 4), delta=delta, lmda=lmda, mu=mu, ngap=gap, **desc)
    case.sig("complex", kind, tune, gap, desc["setting"], desc["sig_d"], round(rate, 1))
    case.seen("rejections-seen", sum(1 - a for a in mc.acceptance_trace))
    case.seen("complex-run")
    # exact posterior on a two dimensional grid
    s = 1 / np.sqrt(h)
    w = 7 * s + mu / h * (kind == "l1")
    g = np.linspace(-w, w, 1201)
    ctr = m
    X = ctr + g[:, None] + 1j * g[None, :]
    e = -0.5 * h * np.abs(X - m) ** 2 - mu * (np.abs(X) if kind == "l1" else 0.5 * np.abs(X) ** 2 if kind == "quad" else 0)
    P = np.exp(e - e.max())
    P /= P.sum()
    mean = complex(np.sum(P * X))
    for name, val, cv in (("real part", X.real, c.real), ("imaginary part", X.imag, c.imag)):
        mu1 = float(np.sum(P * val))
        test(case, cv, mu1, "posterior-mean", name)
        test(case, (cv - mu1) ** 2, float(np.sum(P * (val - mu1) ** 2)), "posterior-variance", name)
    cov = float(np.sum(P * (X.real - mean.real) * (X.imag - mean.imag)))
    test(case, (c.real - mean.real) * (c.imag - mean.imag), cov, "posterior-variance", "covariance of the parts")
    for r in (0.5, 1.0, 1.7):
        # smooth radial region function: no grid effect at its edge
        k = lambda z: 1 / (1 + np.exp((np.abs(z - m) - r * s) * 8 / s))
        test(case, k(c), float(np.sum(P * k(X))), "posterior-frequency", f"region around the data mode, radius {r} sigma")
    k = lambda z: 1 / (1 + np.exp((np.abs(z) - 0.7 * s) * 8 / s))
    test(case, k(c), float(np.sum(P * k(X))), "posterior-frequency", "region around zero")


def gaussian(rng, p, cplx, spread=2.0):
    """Gaussian likelihood with chosen curvature spectrum, random directions."""
    U, V = rand_unitary(rng, p, cplx), rand_unitary(rng, p, cplx)
    ev = np.exp(rng.uniform(-np.log(spread) / 2, np.log(spread) / 2, p)) * np.exp(rng.uniform(-1, 1))
    kind = str(rng.choice(["scalar", "cov"]))
    s0 = float(np.exp(rng.uniform(-1, 1)))
    if kind == "scalar":
        sig, C = s0, np.eye(p) * s0**2
    else:
        R = rng.standard_normal((p, p))
        sig = C = s0**2 * (np.eye(p) + 0.3 * R @ R.T)
    Lc = np.linalg.cholesky(C)
    G = Lc @ U @ np.diag(np.sqrt(ev)) @ V.conj().T  # G^H C^-1 G = V ev V^H
    m = randc(rng, p, cplx)
    op = ForwardOperator(G @ m, sig, "analysis", transform=IdentityTransform(), measurement=MatrixMeasurement(G), nparams=p)
    return op, ev, V, m


@check.workload(quick=16, thorough=120)
def pxmala_joint(case):
    """Several correlated parameters, Gaussian prior: closed-form posterior."""
    rng = case.rng
    cplx = bool(case.index % 2)
    p = int(rng.integers(2, 5))
    op, ev, V, m = gaussian(rng, p, cplx)
    mu = float(np.exp(rng.uniform(-1, 1))) * float(np.mean(ev))
    tune = bool(case.index // 2 % 2)
    hmax = ev.max() + mu
    delta = float(rng.uniform(0.2, 0.9)) / hmax
    lmda = float(rng.uniform(1.0, 4.0)) / hmax
    T = lmda * mu * float(np.exp(rng.uniform(-0.5, 0.5)))
    prior = CustomPrior(lambda x: 0.5 * float(np.sum(np.abs(x) ** 2)), lambda x: x / (1 + T))
    iters = 24000 if case.tier == "quick" else 150000
    gap = int(rng.choice([0, 2]))
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=mu, nsamples=iters // max(gap, 1), nburn=500, ngap=gap, complex=cplx,
                       verbosity=0, track=["chain"])
    mc = PxMALA(op, prior, par, tune_delta=tune)
    np.random.seed(case.npseed)
    mc.run(None if rng.random() < 0.5 else m.copy())
    c = np.asarray(mc.chain) @ V.conj()  # principal directions: V^H x
    want = (ev / (ev + mu)) * (V.conj().T @ m)
    rate = float(np.mean(mc.acceptance_trace))
    case.note(p=p, complex=cplx, tune=tune, acceptance=round(rate, 3))
    case.sig(p, cplx, tune, gap, round(rate, 1))
    case.seen("joint")
    for k in range(p):
        parts = [("re", np.real)] + ([("im", np.imag)] if cplx else [])
        for name, f in parts:
            test(case, f(c[:, k]), float(f(want[k])), "posterior-mean", f"direction {k} {name}")
            test(case, (f(c[:, k]) - float(f(want[k]))) ** 2, 1 / (ev[k] + mu), "posterior-variance", f"direction {k} {name}")
        j = (k + 1) % p
        test(case, np.real((c[:, k] - want[k]) * np.conj(c[:, j] - want[j])), 0.0, "posterior-variance", f"directions {k},{j}")


@check.workload(quick=16, thorough=160)
def myula_gaussian(case):
    rng = case.rng
    cplx = bool(case.index % 2)
    p = int(rng.integers(1, 5))
    op, ev, V, m = gaussian(rng, p, cplx, 3.0)
    delta = float(rng.uniform(0.15, 1.6)) / ev.max()
    lmda = float(np.exp(rng.uniform(-3, 3))) * delta
    gap = int(rng.choice([0, 1, 3]))
    n = (24000 if case.tier == "quick" else 150000) // max(gap, 1)
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=float(rng.uniform(0.1, 5)), nsamples=n, nburn=300, ngap=gap, complex=cplx,
                       verbosity=0, track=["chain"])
    mc = MYULA(op, CustomPrior(lambda x: 0.0, lambda x: x), par)
    np.random.seed(case.npseed)
    mc.run()
    c = np.asarray(mc.chain) @ V.conj()
    want = V.conj().T @ m
    case.note(p=p, complex=cplx, delta_h=[round(float(delta * e), 3) for e in ev], ngap=gap)
    case.sig("myula", p, cplx, gap)
    for k in range(p):
        var = 1 / (ev[k] * (1 - delta * ev[k] / 2))
        for name, f in [("re", np.real)] + ([("im", np.imag)] if cplx else []):
            test(case, f(c[:, k]), float(f(want[k])), "myula-mean", f"direction {k} {name}")
            test(case, (f(c[:, k]) - float(f(want[k]))) ** 2, var, "myula-variance", f"direction {k} {name} (delta h = {delta*ev[k]:.3f})")


# Biases too small for long-run averages: the stationary law of a PxMALA run is
# the posterior because every single transition satisfies detailed balance, so
# the exact per-transition monitors of C02 (and C01 for MYULA) also decide here.
@check.workload(quick=64, thorough=1500)
def kernel_ratio(case):
    c02.ratio_at_iteration_k(case)


@check.workload(quick=24, thorough=600)
def kernel_history(case):
    c02.histories(case)


check.pool("kernel_history")(c02.decide)


@check.workload(quick=4, thorough=40)
def kernel_long(case):
    c02.history(case, Problem(case.rng, p=int(case.rng.integers(1, 4))), 21500 if case.tier == "quick" else 60000)


@check.workload(quick=60, thorough=1500)
def kernel_myula(case):
    c01.drive(case, Problem(case.rng, p=int(case.rng.choice([1, 2, 3, 5]))), int(case.rng.integers(2, 30)))


for _w in ("pxmala_real", "pxmala_complex", "pxmala_joint", "myula_gaussian"):
    @check.pool(_w)
    def decide(case, stats, _w=_w):
        z2 = np.array(stats.get("z2", []))
        if len(z2) < 50:
            return
        case.require(z2.mean() < 2.5, "pooled-agreement", f"{_w}: mean squared z of {len(z2)} comparisons is {z2.mean():.2f}")
        case.note(comparisons=len(z2), mean_squared_z=round(float(z2.mean()), 3))
