"""C06: every saved record describes one and the same state."""
import numpy as np

from pxmcmc.mcmc import MYULA, SKROCK, PxMALA, PxMCMCParams
from pxmcmc.prior import L1
from vmon.core import Check, refilled
from vmon.problems import Problem, logu, randc
from vmon.sphere import SphereProblem

check = Check(
    "C06",
    "all samplers on random dense problems and on the shipped spherical operators (wavelets, path integrals, weak lensing), "
    "real/complex parameters x real/complex data, random schedules; an offline checker recomputes predictions, misfit, prior "
    "and log posterior of every saved chain row with dense references; distinct by sampler, problem signature and schedule",
    ["dense matrices from pys2let/pyssht are the reference forward models"],
)
check.require_monitors("record-predictions", "record-L2", "record-prior", "record-logposterior", "logpi-function", "imaginary-part-kept", "record-after-rejection")

TRACK = ["logposterior", "L2", "prior", "chain", "predictions"]


def sampler(algo, op, prior, params, tune):
    if algo == "pxmala":
        return PxMALA(op, prior, params, tune_delta=tune)
    return {"myula": MYULA, "skrock": SKROCK}[algo](op, prior, params)


def check_records(case, mc, G, data, L2, prior_value, mu, cplx):
    n = len(mc.chain)
    gn = float(np.linalg.norm(G, 2)) + 1e-300
    case.require(np.iscomplexobj(mc.chain) == cplx, "record-dtype", f"chain of {mc.chain.dtype} for complex={cplx}")
    for j in range(n):
        x = mc.chain[j]
        want = G @ x
        sc = 1e-300 + gn * float(np.linalg.norm(x))
        cancel = 1e-5 * L2.scale(sc) if hasattr(L2, "scale") else 1
        if not np.iscomplexobj(mc.preds):
            case.require(np.max(np.abs(np.imag(want))) <= 1e-9 * sc, "imaginary-part-kept", "predictions are complex but saved as real")
        elif np.max(np.abs(np.imag(want))) > 1e-6 * sc:
            case.seen("imaginary-part-kept")
        case.close(mc.preds[j], want if np.iscomplexobj(mc.preds) else np.real(want), "record-predictions", rtol=1e-8, scale=sc, detail=f"(sample {j})")
        l2 = L2(x)
        case.close(mc.L2s[j], l2, "record-L2", rtol=1e-7, scale=cancel + abs(l2), detail=f"(sample {j})")
        pv = prior_value(x)
        case.close(mc.priors[j], pv, "record-prior", rtol=1e-8, scale=1e-300 + abs(pv), detail=f"(sample {j})")
        case.close(mc.logPi[j], -mu * pv - l2 / 2, "record-logposterior", rtol=1e-7, scale=cancel + mu * abs(pv) + abs(l2), detail=f"(sample {j})")
        # internally consistent to rounding
        case.close(mc.logPi[j], -mu * mc.priors[j] - mc.L2s[j] / 2, "record-logposterior", rtol=1e-10,
                   scale=1e-300 + mu * abs(mc.priors[j]) + abs(mc.L2s[j]), detail="(saved prior and L2)")


def L2of(pr):
    """Reference misfit with the size of the terms that cancel in it."""
    cn, dn = float(np.linalg.norm(pr.Cinv, 2)), float(np.linalg.norm(pr.data))

    def f(x):
        return pr.L2(x)
    f.scale = lambda predscale: cn * (predscale + dn) ** 2
    return f


def rejections(case, mc):
    acc = np.asarray(getattr(mc, "acceptance_trace", []))
    if acc.size and np.any(acc == 0):
        case.seen("record-after-rejection", int(np.sum(acc == 0)))


@check.workload(quick=1500, thorough=12000)
def dense_problems(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    kw = [dict(), dict(complex_x=True, real_data=True), dict(complex_x=False, complex_data=True), dict(complex_x=True)][case.index // 3 % 4]
    if rng.random() < 0.1:
        kw = dict(kw, p=int(rng.integers(30, 200)), n=int(rng.choice([15, 80, 170, 300])))
    pr = Problem(rng, **kw)
    tune = bool(rng.integers(2))
    if algo == "pxmala":
        pr.delta *= logu(rng, 0.2, 6)
    n, burn, gap = int(rng.integers(1, 12)), int(rng.choice([0, 0, 1, 5])), int(rng.choice([0, 1, 2, 3]))
    if case.index % 25 == 0:
        n = int(rng.integers(50, 250) if case.index % 250 else rng.choice([300, 600, 1100]))
    if case.index % 500 == 251:
        n, burn, gap = 10400, 0, 0
    op = pr.operator(budget=200 * n * (gap + 1) + 40000)
    mc = sampler(algo, op, pr.prior, pr.params(nsamples=n, nburn=burn, ngap=gap, s=int(rng.integers(1, 4)), track=TRACK), tune)
    runs = int(rng.integers(1, 3))
    for _ in range(runs):
        scale = logu(rng, 1e-12, 1e12) if case.index % 10 == 7 else 1.0
        mc.run(pr.start(rng, scale) if rng.random() < 0.8 else None)
        check_records(case, mc, pr.G, pr.data, L2of(pr), pr.prior_value, pr.mu, pr.complex_x)
        rejections(case, mc)
    case.note(sampler=algo, **pr.describe(), nsamples=n, nburn=burn, ngap=gap)
    case.sig(algo, *pr.signature(), burn > 0, gap, runs)


@check.workload(quick=90, thorough=1500)
def sphere_problems(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    kind = SphereProblem.KINDS[case.index // 3 % 5]
    pr = SphereProblem(rng, kind=kind, Lmax=4)
    lmda = logu(rng, 0.05, 1.0)
    mu = logu(rng, 0.3, 3)
    delta = 0.6 * float(rng.choice([0.1, 1.0, 3.0 if algo == "pxmala" else 0.5])) / (pr.h + 1 / lmda)
    prior = L1("synthesis", None, None, lmda * mu)
    params = PxMCMCParams(lmda=lmda, delta=delta, mu=mu, s=2, nsamples=5, nburn=int(rng.integers(3)), ngap=int(rng.integers(3)),
                          complex=pr.complex_x, verbosity=0, track=TRACK)
    mc = sampler(algo, pr.op, prior, params, bool(rng.integers(2)))
    mc.run(randc(rng, pr.p, pr.complex_x))
    check_records(case, mc, pr.G, pr.data, pr.L2, lambda x: float(np.sum(np.abs(x))), mu, pr.complex_x)
    rejections(case, mc)
    case.note(sampler=algo, **pr.describe())
    case.sig(algo, *pr.signature())


@check.workload(quick=200, thorough=5000)
def logpi_function(case):
    rng = case.rng
    pr = Problem(rng, real_data=bool(rng.random() < 0.2))
    mc = (MYULA, PxMALA, SKROCK)[case.index % 3](pr.operator(), pr.prior, pr.params())
    for _ in range(4):
        x = pr.start(rng, logu(rng, 1e-3, 1e3))
        # predictions need not be those of x
        preds = pr.G @ x + (randc(rng, pr.n, np.iscomplexobj(pr.data)) * logu(rng, 1e-3, 1e3) if rng.integers(2) else 0)
        lp, l2, pv = mc.logpi(x, preds)
        r = pr.data - preds
        wl2 = float(np.real(np.vdot(r, pr.Cinv @ r)))
        wp = pr.prior_value(x)
        case.close(l2, wl2, "logpi-function", rtol=1e-9, scale=1e-300 + abs(wl2) * 10)
        case.close(pv, wp, "logpi-function", rtol=1e-9, scale=1e-300 + abs(wp))
        case.close(lp, -pr.mu * wp - wl2 / 2, "logpi-function", rtol=1e-9, scale=1e-300 + 10 * (pr.mu * abs(wp) + abs(wl2)))
    x, preds = pr.start(rng), pr.G @ pr.start(rng)
    refilled(case, lambda v: np.array(mc.logpi(v, preds)), [x, x[::-1], x * 2], "logpi-function", rtol=1e-9)
    refilled(case, lambda v: np.array(mc.logpi(x, v)), [preds, preds[::-1], preds * 2], "logpi-function", rtol=1e-9)
    case.sig(*pr.signature())
    case.note(**pr.describe())
