"""C16: weak lensing operators implement the spherical lensing kernel."""
import numpy as np
import pyssht

from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic
from vmon.core import Check, Guarded, homogeneous, keeps_small, refilled, many_calls
from vmon.problems import logu, randc
from vmon.sphere import lens_diag, lens_factor, npix, rand_mask, rand_ngal, ref_shear

check = Check(
    "C16",
    "every bandlimit from 1 to 64 in harmonic space and 1 to 48 in pixel space, random and single-multipole fields, masks of "
    "any dtype, galaxy counts with zeros; outputs compared element by element with the closed-form kernel and the spin "
    "transforms of pyssht; distinct by bandlimit, mask and field kind",
    ["pyssht's spin transforms"],
)
check.require_monitors("kernel", "kaiser-squires", "ks-undoes-forward", "pixel-shear", "galaxy-weight", "rejects-bandlimit", "inputs-unmodified",
                       "e-mode-axis")


def field(rng, L):
    flm = randc(rng, L * L, True) * logu(rng, 1e-3, 1e3)
    if rng.integers(3) == 0:
        k = int(rng.integers(L * L))
        flm = np.where(np.arange(L * L) == k, flm, 0)
    return flm


@check.workload(quick=320, thorough=3000)
def harmonic(case):
    rng = case.rng
    L = case.index % 64 + 1
    for cls in (WeakLensingHarmonic, WeakLensing):
        op = cls(L) if cls is WeakLensingHarmonic or L <= 16 else WeakLensingHarmonic(L)
        flm = field(rng, L)
        g = Guarded(flm=flm)
        d = lens_diag(L)
        if isinstance(op, WeakLensing):
            ks = op.sks_estimate(flm)
        else:
            fw = op.forward(flm)
            case.close(fw, d * flm, "kernel", rtol=1e-12, scale=np.max(np.abs(flm)), detail=f"(L={L})")
            case.require(np.all(fw[: min(4, L * L)] == 0), "kernel", "degrees below 2 survive")
            case.close(op.adjoint(flm), d * flm, "kernel", rtol=1e-12, scale=np.max(np.abs(flm)), detail="(adjoint)")
            ks = op.sks_estimate(flm)
            back = op.sks_estimate(fw)
            want = np.where(np.arange(L * L) < 4, 0, flm)
            case.close(back, want, "ks-undoes-forward", rtol=1e-11, scale=np.max(np.abs(flm)))
        want = np.array([0 if dd == 0 else f / dd for f, dd in zip(flm, d)])
        case.close(ks, want, "kaiser-squires", rtol=1e-11, scale=np.max(np.abs(want)) + 1e-300)
        g.verify(case)
        if case.index % 64 == 1:
            many_calls(case, op.sks_estimate, flm, 2 * flm, "kaiser-squires", floor=float(np.max(np.abs(flm))))
        refilled(case, op.sks_estimate, [flm, flm[::-1], 2 * flm], "kaiser-squires", floor=float(np.max(np.abs(flm))))
        if not isinstance(op, WeakLensing):
            refilled(case, op.forward, [flm, flm[::-1], 2 * flm], "kernel", floor=float(np.max(np.abs(flm))))
        fs = [(op.sks_estimate, "kaiser-squires")] + ([] if isinstance(op, WeakLensing) else [(op.forward, "kernel"), (op.adjoint, "kernel")])
        for f, monitor in fs:
            homogeneous(case, f, flm, monitor)
            keeps_small(case, f, flm, flm[::-1], monitor)
        fr = np.real(flm).copy()
        g = Guarded(f=fr)
        case.close(op.sks_estimate(fr), [0 if dd == 0 else f / dd for f, dd in zip(fr, d)], "kaiser-squires", rtol=1e-11, scale=np.max(np.abs(fr)) * 2 + 1e-300)
        g.verify(case)
    # each degree by itself
    l = int(rng.integers(L))
    m = int(rng.integers(-l, l + 1))
    e = np.zeros(L * L, complex)
    e[l * l + l + m] = 1
    case.close(WeakLensingHarmonic(L).forward(e)[l * l + l + m], lens_factor(l), "kernel", rtol=1e-12, scale=1.0, detail=f"(degree {l})")
    case.sig(L, l, m)
    case.note(L=L, l=l, m=m)


@check.workload(quick=600, thorough=5000)
def pixel(case):
    rng = case.rng
    L = int(rng.integers(1, 13 if case.tier == "quick" else 24))
    if case.index % 10 == 9:
        L = int(rng.integers(24, 49))
    mask = rand_mask(rng, L) if rng.random() < 0.75 else None
    if mask is not None and mask.dtype == float and rng.integers(2):
        mask = mask * rng.uniform(0.01, 2, mask.shape)  # apodised masks: any non-zero value keeps the pixel
    ngal = rand_ngal(rng, L) if rng.random() < 0.6 else None
    if ngal is not None and rng.integers(3) == 0:
        ngal = ngal * int(rng.choice([1000, 10**6]))
    if ngal is not None and rng.integers(4) == 0:  # counts as catalogues store them, doubles beyond the range included
        dt = (np.uint8, np.int8, np.uint16, np.int16, np.int32)[rng.integers(5)]
        ngal = rng.integers(0, np.iinfo(dt).max, (L, 2 * L - 1), endpoint=True).astype(dt)
    g = Guarded(**{k: v for k, v in dict(mask=mask, ngal=ngal).items() if v is not None})
    op = WeakLensing(L, mask=mask, ngal=ngal)
    kind = int(rng.integers(3))
    if kind == 0:
        kappa = pyssht.inverse(field(rng, L), L).ravel()
    elif kind == 1:
        kappa = randc(rng, npix(L), True)  # not bandlimited
    else:
        kappa = randc(rng, npix(L), False)
    gk = Guarded(kappa=kappa)
    gamma = op.forward(kappa)
    gk.verify(case)
    g.verify(case)
    keep = np.ones((L, 2 * L - 1), bool) if mask is None else mask.astype(bool)
    shear = ref_shear(kappa, L)
    want = shear[keep]
    if ngal is not None:
        want = want * np.sqrt(2.0 * ngal[keep].astype(float) / 0.37**2)
        case.seen("galaxy-weight")
    case.close(gamma, want, "pixel-shear", rtol=1e-10, scale=np.max(np.abs(kappa)) * (1 if ngal is None else 1 + np.sqrt(2.0 * float(np.max(ngal)) / 0.37**2)), detail=f"(L={L})")
    # map layout accepted too
    case.close(op.forward(kappa.reshape(L, 2 * L - 1)), gamma, "pixel-shear", rtol=1e-12, scale=np.max(np.abs(kappa)) * (1 if ngal is None else 1 + np.sqrt(2.0 * float(np.max(ngal)) / 0.37**2)))
    refilled(case, op.forward, [kappa, kappa[::-1], 2 * kappa], "pixel-shear", floor=float(np.max(np.abs(kappa))) * (1 if ngal is None else 1 + np.sqrt(2.0 * float(np.max(ngal)) / 0.37**2)))
    if L < 13:
        size = float(np.max(np.abs(kappa))) * (1 if ngal is None else 1 + np.sqrt(2.0 * float(np.max(ngal)) / 0.37**2))
        homogeneous(case, op.forward, kappa, "pixel-shear", floor=size)
        keeps_small(case, op.forward, kappa, kappa[::-1], "pixel-shear", floor=size)
    case.sig(L, kind, mask is None, ngal is None, int(keep.sum()))
    case.note(L=L, unmasked=int(keep.sum()), ngal=ngal is not None, kind=kind)


@check.workload(quick=40, thorough=300)
def e_modes(case):
    """Closed form: kappa = Y_l0 gives a real shear proportional to P_l^2."""
    from scipy.special import lpmv
    rng = case.rng
    L = int(rng.integers(3, 14))
    l = int(rng.integers(2, L))
    flm = np.zeros(L * L, complex)
    flm[l * l + l] = 1
    gamma = WeakLensing(L).forward(pyssht.inverse(flm, L).ravel()).reshape(L, 2 * L - 1)
    th = np.pi * (2 * np.arange(L) + 1) / (2 * L - 1)
    # spin-2 Y_l0 = sqrt((2l+1)/(4 pi) (l-2)!/(l+2)!) P_l^2(cos theta)
    y = np.sqrt((2 * l + 1) / (4 * np.pi) / ((l - 1) * l * (l + 1) * (l + 2.0))) * lpmv(2, l, np.cos(th))
    want = np.outer(lens_factor(l) * y, np.ones(2 * L - 1))
    case.close(gamma, want, "e-mode-axis", rtol=1e-9, scale=np.max(np.abs(want)), detail=f"(l={l}, L={L})")
    case.sig(L, l)


@check.workload(quick=8, thorough=16)
def bandlimit(case):
    for cls in (WeakLensing, WeakLensingHarmonic):
        for L in (0, -1, -7):
            case.raises(ValueError, lambda: cls(L), "rejects-bandlimit", f"({cls.__name__}, L={L})")
        cls(1)
    case.sig(0)
