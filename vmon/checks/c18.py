"""C18: spherical quadrature and pixel areas are exact."""
import numpy as np
import pyssht
from scipy.special import lpmv

from pxmcmc.utils import calc_pixel_areas, mw_map_weights, pixel_area, polar_cap_area, s2_integrate
from vmon.core import Check, Guarded, refilled
from vmon.problems import logu, randc
from vmon.sphere import npix, phis, thetas

check = Check(
    "C18",
    "every bandlimit from 1 to 64 (quick: all up to 40) and samples up to 256: quadrature of random and single-multipole bandlimited functions and of "
    "closed-form polynomials in x, y, z; areas of all pixels, random rectangles and caps at many radii; distinct by bandlimit",
    ["rounding of 1e-10"],
)
check.require_monitors("integrates-bandlimited", "closed-form-integral", "weights-sum", "weights-positive", "areas-sum", "areas-rings",
                       "areas-scale", "rectangle-additive", "cap-consistent", "inputs-unmodified")


def bandlimit(case, top=256):
    if case.index % 16 == 15:
        return int(case.rng.integers(65, top + 1))
    return case.index * 15 // 16 % (40 if case.tier == "quick" else 64) + 1


@check.workload(quick=240, thorough=1500)
def quadrature(case):
    rng = case.rng
    L = bandlimit(case)
    w = mw_map_weights(L)
    case.require(np.shape(w) == (npix(L),), "weights-sum", f"shape {np.shape(w)}")
    case.require(np.isrealobj(w) and np.all(w > 0), "weights-positive", f"smallest weight {np.min(np.real(w))}")
    case.close(np.sum(w), 4 * np.pi, "weights-sum", rtol=1e-10)
    ring = w.reshape(L, 2 * L - 1)
    case.close(ring, np.outer(ring[:, 0], np.ones(2 * L - 1)), "weights-sum", rtol=1e-12, detail="(weights vary along a ring)")
    # random bandlimited function
    flm = randc(rng, L * L, True) * logu(rng, 1e-3, 1e3)
    f = pyssht.inverse(flm, L).ravel()
    g = Guarded(f=f)
    sc = 4 * np.pi * np.max(np.abs(f))
    case.close(s2_integrate(f, L), np.sqrt(4 * np.pi) * flm[0], "integrates-bandlimited", rtol=1e-10, scale=sc)
    g.verify(case)
    refilled(case, lambda v: s2_integrate(v, L), [f, f[::-1], 2 * f], "integrates-bandlimited", floor=sc)
    fr = np.real(f).copy()
    case.close(s2_integrate(fr, L), np.real(np.sqrt(4 * np.pi) * flm[0]), "integrates-bandlimited", rtol=1e-10, scale=sc, detail="(real map)")
    case.close(np.sum(w * f), np.sqrt(4 * np.pi) * flm[0], "integrates-bandlimited", rtol=1e-10, scale=sc)
    # single multipole
    l = int(rng.integers(L))
    m = int(rng.integers(-l, l + 1))
    e = np.zeros(L * L, complex)
    e[l * l + l + m] = 1
    f = pyssht.inverse(e, L).ravel()
    case.close(s2_integrate(f, L), np.sqrt(4 * np.pi) if l == 0 else 0.0, "integrates-bandlimited", rtol=1e-10, scale=4 * np.pi, detail=f"(Y_{l},{m}, L={L})")
    # zonal: every degree below L, closed form of the Legendre functions
    th = thetas(L)
    for l in range(L) if L < 65 else rng.integers(0, L, 40):
        q = np.sum(ring[:, 0] * (2 * L - 1) * lpmv(0, l, np.cos(th)))
        case.close(q, 4 * np.pi if l == 0 else 0.0, "integrates-bandlimited", rtol=1e-9, scale=4 * np.pi, detail=f"(P_{l}, L={L})")
    # int x^2a y^2b z^2c = 4 pi (2a-1)!!(2b-1)!!(2c-1)!!/(2n+1)!!
    x = (np.sin(th)[:, None] * np.cos(phis(L))).ravel()
    y = (np.sin(th)[:, None] * np.sin(phis(L))).ravel()
    z = (np.cos(th)[:, None] * np.ones(2 * L - 1)).ravel()
    for _ in range(3):
        deg = int(rng.integers(L))
        a = int(rng.integers(deg + 1))
        b = int(rng.integers(deg - a + 1))
        c = deg - a - b
        df = lambda k: float(np.prod(np.arange(k, 0, -2, dtype=float))) if k > 0 else 1.0
        want = 0.0 if (a % 2 or b % 2 or c % 2) else 4 * np.pi * df(a - 1) * df(b - 1) * df(c - 1) / df(deg + 1)
        case.close(s2_integrate(x**a * y**b * z**c, L), want, "closed-form-integral", rtol=1e-10, scale=4 * np.pi, detail=f"(x^{a} y^{b} z^{c}, L={L})")
    case.sig(L, l, m)
    case.note(L=L)


@check.workload(quick=240, thorough=1500)
def areas(case):
    rng = case.rng
    L = bandlimit(case)
    r = logu(rng, 1e-3, 1e4)
    A = calc_pixel_areas(L, r)
    A1 = calc_pixel_areas(L)
    ri = int(rng.integers(2, 9))
    case.close(calc_pixel_areas(L, ri), A1 * ri**2, "areas-scale", rtol=1e-11, detail=f"(integer radius {ri})")
    case.close(calc_pixel_areas(L, r=r), A, "areas-scale", rtol=1e-13)
    case.require(np.shape(A) == (L, 2 * L - 1), "areas-rings", f"shape {np.shape(A)}")
    case.require(np.all(A > 0), "areas-rings", "area not positive")
    case.close(A, A1 * r**2, "areas-scale", rtol=1e-11)
    case.close(np.sum(A), 4 * np.pi * r**2, "areas-sum", rtol=1e-10)
    th = np.concatenate([[0.0], thetas(L)])
    want = np.array([(np.cos(th[t]) - np.cos(th[t + 1])) * 2 * np.pi / (2 * L - 1) for t in range(L)])
    case.close(A1, np.outer(want, np.ones(2 * L - 1)), "areas-rings", rtol=1e-10, detail=f"(L={L})")
    case.sig(L)
    case.note(L=L, r=r)


@check.workload(quick=200, thorough=4000)
def rectangles(case):
    rng = case.rng
    r = logu(rng, 1e-3, 1e3)
    t = np.sort(rng.uniform(0, np.pi, 3))
    p = np.sort(rng.uniform(0, 2 * np.pi, 3))
    if case.index % 4 == 0:
        t[0], t[2] = 0, np.pi
    tot = pixel_area(r, t[0], t[2], p[0], p[2])
    sc = 4 * np.pi * r**2
    case.close(pixel_area(r, t[0], t[1], p[0], p[2]) + pixel_area(r, t[1], t[2], p[0], p[2]), tot, "rectangle-additive", rtol=1e-12, scale=sc)
    case.close(pixel_area(r, t[0], t[2], p[0], p[1]) + pixel_area(r, t[0], t[2], p[1], p[2]), tot, "rectangle-additive", rtol=1e-12, scale=sc)
    case.close(tot, r**2 * (np.cos(t[0]) - np.cos(t[2])) * (p[2] - p[0]), "rectangle-additive", rtol=1e-12, scale=sc)
    case.close(polar_cap_area(r, t[1]), pixel_area(r, 0, t[1], 0, 2 * np.pi), "cap-consistent", rtol=1e-12, scale=sc)
    case.close(polar_cap_area(r, t[1]), 4 * np.pi * r**2 * np.sin(t[1] / 2) ** 2, "cap-consistent", rtol=1e-12, scale=sc)
    case.close(polar_cap_area(r, np.pi), sc, "cap-consistent", rtol=1e-12)
    case.close(polar_cap_area(r, t[1]) + pixel_area(r, t[1], np.pi, 0, 2 * np.pi), sc, "cap-consistent", rtol=1e-12)
    case.sig(case.index)
    case.note(r=r, theta=t, phi=p)
