"""C15: each prior's prox is the proximal map of that prior's own norm."""
import numpy as np
import pys2let

from pxmcmc.prior import L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import SphericalWaveletTransform
from vmon.core import Check, Guarded, refilled, refilled_pair, many_calls
from vmon.checks.c13 import ring_quadrature
from vmon.problems import logu, rand_unitary, randc, ref_soft
from vmon.sphere import bandlimits, npix, rand_tiling, thetas

check = Check(
    "C15",
    "L1 priors in both settings, quadrature-weighted and power-weighted spherical priors over random tilings, eta and "
    "thresholds, real and complex points from 1e-3 to 1e3 with zeros; prox and value are checked against explicit weights, "
    "the subgradient condition and random competitors using the prior's own value; distinct by prior kind, setting, tiling",
    ["explicit weights: pyssht quadrature, pys2let tiling kernels"],
)
check.require_monitors("prox-beats-competitors", "prox-reference", "prior-value", "prior-is-seminorm", "threshold-untouched", "refuses-setting",
                       "power-weights", "quadrature-weights")
REFUSE = (AssertionError, ValueError, NotImplementedError, TypeError)


def unit(case):
    """Unit of the coefficients and thresholds; the prox has none."""
    return 10.0 ** (case.index * 37 % 21 - 12) if case.index % 4 > 1 and case.index % 3 == 0 else 1.0


def point(rng, n, cplx, u=1.0):
    x = randc(rng, n, cplx) * logu(rng, 1e-3, 1e3) * u
    if rng.integers(2):
        x[rng.random(n) < 0.3] = 0
    if rng.integers(3) == 0:
        x = x * np.exp(rng.uniform(-4, 4, n))
    return x


def variational(case, prior, T, n, cplx, value, prox, reps=2, tmax=1e-300):
    rng = case.rng
    for _ in range(reps):
        x = point(rng, n, cplx, unit(case))
        g = Guarded(x=x)
        y = prior.proxf(x)
        v = prior.prior(x)
        g.verify(case, "input-unmodified")
        case.require(np.shape(y) == (n,), "prox-reference", f"shape {np.shape(y)}")
        case.require(np.iscomplexobj(y) == cplx, "prox-reference", f"prox of {x.dtype} is {np.asarray(y).dtype}")
        case.close(y, prox(x), "prox-reference", rtol=1e-10, scale=np.max(np.abs(x)) + 0.1 * tmax)
        wv = value(x)
        case.close(v, wv, "prior-value", rtol=1e-10, scale=wv + 1e-300)
        case.require(np.isrealobj(np.asarray(v)) and v >= 0, "prior-value", f"prior {v!r} is not a non-negative real")
        obj = lambda z: 0.5 * np.sum(np.abs(z - x) ** 2) + T * prior.prior(z)
        base = obj(y)
        slack = 1e-10 * (np.sum(np.abs(x) ** 2) + T * wv) + 1e-300
        comps = [x, 0 * x, 0.5 * (x + y), y * 0.99, y * 1.01, y + 0.01 * (y - x)]
        for s in (1e-3, 1e-1, 1.0):
            comps.append(y + s * np.max(np.abs(x)) * randc(rng, n, cplx))
            e = np.zeros_like(x)
            e[rng.integers(n)] = s * np.max(np.abs(x)) * (-1) ** int(rng.integers(2))
            comps.append(y + e)
        for z in comps:
            case.require(base <= obj(z) + slack, "prox-beats-competitors", lambda: f"objective {base} at the prox, {obj(z)} at a competitor")
        a = float(rng.uniform(-3, 3))
        z = point(rng, n, cplx, unit(case))
        case.close(prior.prior(a * x), abs(a) * v, "prior-is-seminorm", rtol=1e-10, scale=abs(a) * v + 1e-300)
        case.require(prior.prior(x + z) <= (v + prior.prior(z)) * (1 + 1e-11) + 1e-300, "prior-is-seminorm", "triangle inequality")
        case.close(prior.proxf(x), y, "prox-reference", rtol=1e-14, scale=np.max(np.abs(x)) + 1e-300, detail="(second call)")
        refilled(case, prior.proxf, [x, z, 2 * x], "prox-reference", floor=1e-3 * float(np.max(np.abs(x))))
        refilled(case, prior.prior, [x, z, 2 * x], "prior-value")
        if case.index % 64 == 1:
            many_calls(case, prior.proxf, x, z, "prox-reference", floor=1e-3 * float(np.max(np.abs(x))))
            many_calls(case, prior.prior, x, z, "prior-value")
        refilled_pair(case, prior.proxf, prior.prior, [x, z, 2 * x], "prior-value", floor=1e-3 * float(np.max(np.abs(x))))
        st = np.repeat(x, 2)[::2]
        case.close(prior.proxf(st), y, "prox-reference", rtol=1e-14, scale=np.max(np.abs(x)) + 1e-300, detail="(strided)")


@check.workload(quick=720, thorough=6000)
def plain(case):
    rng = case.rng
    n = int(rng.integers(1, 20)) if rng.random() < 0.9 else int(rng.integers(50, 200))
    cplx = bool(case.index % 2)
    T = logu(rng, 1e-3, 1e2) * unit(case)
    setting = ("synthesis", "analysis")[case.index // 2 % 2]
    if setting == "synthesis":
        calls = []
        f = lambda X: calls.append(1) or X
        prior = L1("synthesis", f, f, T)
        variational(case, prior, T, n, cplx, lambda x: float(np.sum(np.abs(x))), lambda x: ref_soft(x, T))
    else:
        r = int(rng.integers(1, n + 1))
        W = rand_unitary(rng, n, cplx)[:r]
        prior = L1("analysis", lambda c: W.conj().T @ c, lambda X: W @ X, T)
        variational(case, prior, T, n, cplx, lambda x: float(np.sum(np.abs(W @ x))),
                    lambda x: x + W.conj().T @ (ref_soft(W @ x, T) - W @ x))
    for bad in ("Analysis", "", None, "both"):
        case.raises(REFUSE, lambda: L1(bad, None, None, T), "refuses-setting", f"({bad!r})")
    case.sig(setting, n, cplx)
    case.note(setting=setting, n=n, complex=cplx, T=T)


@check.workload(quick=360, thorough=1500)
def spherical(case):
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, (8 if case.tier == "quick" else 12) if case.index % 10 < 9 else 28 if case.index % 60 > 9 else 72)
    cplx = bool(case.index % 2)
    t = SphericalWaveletTransform(L, B, J)
    w = np.concatenate([np.repeat(ring_quadrature(b), 2 * b - 1) for b in bandlimits(L, B, J)])
    n = w.size
    T = logu(rng, 1e-3, 1e2) * unit(case)
    if rng.integers(3) == 0:  # one base threshold per coefficient
        Tv = T * np.exp(rng.uniform(-1, 1, n))
        g = Guarded(T=Tv)
        prior = S2_Wavelets_L1("synthesis", t.inverse, t.inverse_adjoint, Tv, L, B, J)
        x = point(rng, n, cplx, unit(case))
        case.close(prior.proxf(x), ref_soft(x, Tv * w), "prox-reference", rtol=1e-10, scale=np.max(np.abs(x)))
        g.verify(case, "threshold-untouched")
    prior = S2_Wavelets_L1("synthesis", t.inverse, t.inverse_adjoint, T, L, B, J)
    case.seen("quadrature-weights")
    variational(case, prior, T, n, cplx, lambda x: float(np.sum(w * np.abs(x))), lambda x: ref_soft(x, T * w), tmax=T * np.max(w))
    for cls in (S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights):
        for bad in ("analysis", "other"):
            case.raises(REFUSE, lambda: cls(bad, t.inverse, t.inverse_adjoint, T, L, B, J), "refuses-setting", f"({cls.__name__}, {bad})")
    case.sig(L, B, J, cplx)
    case.note(L=L, B=B, J_min=J, T=T)


def power_weights(L, B, J, eta, spin=0):
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, spin)
    bls = bandlimits(L, B, J)
    out = []
    for k, bl in enumerate(bls):
        s = np.repeat(np.sin(thetas(bl)), 2 * bl - 1)
        if k == 0:
            c = 1 / np.sum(np.abs(phi) ** 2)
        else:
            col = psi[:, k - 1]
            prof = np.real(np.array([col[l * l + l] for l in range(L)]))
            top = np.argsort(-prof)
            if len(top) > 1 and prof[top[0]] - prof[top[1]] < 1e-9 * prof[top[0]]:
                return None  # no unique peak
            c = float(top[0]) ** eta / np.sum(np.abs(col) ** 2)
        out.append(2 * np.pi**2 * s * c / npix(bl))
    return np.concatenate(out)


@check.workload(quick=480, thorough=2000)
def power(case):
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, (9 if case.tier == "quick" else 14) if case.index % 10 < 9 else 28 if case.index % 60 > 9 else 72, nonempty=True)
    eta = float(rng.choice([0, 0.5, 1, 1, 2, 3, -1]))
    cplx = bool(case.index % 2)
    w = power_weights(L, B, J, eta)
    if w is None:
        case.seen("no-unique-peak")
        return
    n = w.size
    T = logu(rng, 1e-3, 1e2) * unit(case)
    t = SphericalWaveletTransform(L, B, J)
    kw = {} if eta == 1 and rng.integers(2) else {"eta": eta}
    if rng.integers(3) == 0:
        Tv = T * np.exp(rng.uniform(-1, 1, n))
        g = Guarded(T=Tv)
        prior = S2_Wavelets_L1_Power_Weights("synthesis", t.inverse, t.inverse_adjoint, Tv, L, B, J, **kw)
        x = point(rng, n, cplx, unit(case))
        case.close(prior.proxf(x), ref_soft(x, Tv * w), "prox-reference", rtol=1e-9, scale=np.max(np.abs(x)) + np.max(Tv * w))
        g.verify(case, "threshold-untouched")
    prior = S2_Wavelets_L1_Power_Weights("synthesis", t.inverse, t.inverse_adjoint, T, L, B, J, **kw)
    e = np.zeros(n)
    for k in rng.choice(n, size=min(n, 8), replace=False):
        e[:] = 0
        e[k] = 1
        case.close(prior.prior(e), w[k], "power-weights", rtol=1e-9, scale=np.max(w) * 1e-3 + w[k], detail=f"(coefficient {k}, L={L}, B={B}, J_min={J}, eta={eta})")
    variational(case, prior, T, n, cplx, lambda x: float(np.sum(w * np.abs(x))), lambda x: ref_soft(x, T * w), tmax=T * np.max(w))
    case.sig(L, B, J, eta, cplx)
    case.note(L=L, B=B, J_min=J, eta=eta)
