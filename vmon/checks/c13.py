"""C13: transforms, priors and uncertainty maps share one coefficient layout."""
import numpy as np
import pys2let
import pyssht

from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import SphericalWaveletTransform
from pxmcmc.uncertainty import wavelet_credible_interval_range
from vmon.core import Check, Guarded
from vmon.problems import logu, randc
from vmon.sphere import bandlimits, npix, rand_tiling, thetas

check = Check(
    "C13",
    "random tilings (bandlimits 2-66, fractional and integer B, every J_min, tilings with an empty scale included); weights "
    "are read off through prior() and proxf(), maps through chains whose spread labels each coefficient, blocks through "
    "single-multipole signals; distinct by tiling",
    ["pyssht's forward transform gives the reference quadrature, pys2let's tiling the reference kernels"],
)
check.require_monitors("weight-count", "weight-per-colatitude", "map-pixel-of-coefficient", "coefficients-used-once",
                       "multipole-localised", "block-colatitude", "power-weight-count")


def lmax(case, quick, thorough, large):
    """Mostly small bandlimits, a tenth of the cases large ones."""
    if case.index % 10 == 9:
        return large
    return quick if case.tier == "quick" else thorough


def read_weights(prior, n, T):
    """Weights as the prior and its prox apply them."""
    big = 50.0
    x = np.full(n, big)
    return np.real(x - prior.proxf(x)) / T


def ring_quadrature(bl):
    """Quadrature weight of one pixel of every ring."""
    q = []
    for t in range(bl):
        f = np.zeros((bl, 2 * bl - 1), complex)
        f[t, 0] = 1
        q.append(np.real(pyssht.forward(f, bl)[0]) * np.sqrt(4 * np.pi))
    return np.array(q)


@check.workload(quick=500, thorough=2500)
def weights(case):
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, lmax(case, 12, 20, 34))
    t = SphericalWaveletTransform(L, B, J)
    spin = int(rng.choice([0, 0, 2])) if L > 2 else 0
    ts = SphericalWaveletTransform(L, B, J, spin=spin)
    n = t.ncoefs
    bls = bandlimits(L, B, J)
    case.note(L=L, B=B, J_min=J, spin=spin, ncoefs=n, bandlimits=bls)
    case.sig(L, B, J, spin)
    case.require(ts.ncoefs == n, "weight-count", f"spin {spin}: {ts.ncoefs} coefficients instead of {n}")
    T = logu(rng, 1e-3, 1e-1)
    prior = S2_Wavelets_L1("synthesis", t.inverse, t.inverse_adjoint, T, L, B, J, spin=spin)
    try:
        w = read_weights(prior, n, T)
    except ValueError as e:
        case.require(False, "weight-count", f"prior does not fit the {n} coefficients of the transform: {e}")
    case.require(w.shape == (n,), "weight-count", f"{w.shape} weights for {n} coefficients")
    ks = rng.choice(n, size=min(n, 12), replace=False)
    for k in ks:
        e = np.zeros(n)
        e[k] = 1
        case.close(prior.prior(e), w[k], "weight-count", rtol=1e-7, scale=abs(w[k]) + 1e-12, detail=f"(coefficient {k})")
    # the weight of each coefficient is that of its ring in its block
    start = 0
    for b, bl in enumerate(bls):
        block = w[start: start + npix(bl)].reshape(bl, 2 * bl - 1)
        q = ring_quadrature(bl)
        case.close(block, np.outer(q, np.ones(2 * bl - 1)), "weight-per-colatitude", rtol=1e-8, scale=np.max(np.abs(q)) + 50 * 1e-12 / T, detail=f"(block {b}, bandlimit {bl})")
        start += npix(bl)
    case.require(start == n, "weight-count", f"blocks hold {start} of {n}")
    # power weights
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, spin)
    if np.any(np.sum(np.abs(psi) ** 2, axis=0) == 0) or not np.any(phi):
        case.seen("empty-scale")
        return
    pw = S2_Wavelets_L1_Power_Weights("synthesis", t.inverse, t.inverse_adjoint, T, L, B, J, spin=spin, eta=float(rng.choice([0, 1, 2])))
    try:
        for k in ks[:3]:
            pw.prior((np.arange(n) == k).astype(float))
        full = read_weights(pw, n, T)
    except ValueError as e:
        case.require(False, "power-weight-count", f"prior does not fit the {n} coefficients of the transform: {e}")
    case.require(full.shape == (n,), "power-weight-count", f"{full.shape} weights for {n} coefficients")
    # proportional to sin(theta) inside each block
    start = 0
    for b, bl in enumerate(bls):
        blk = slice(start, start + npix(bl))
        s = np.repeat(np.sin(thetas(bl)), 2 * bl - 1)
        th = np.repeat(thetas(bl), 2 * bl - 1)
        ks2 = rng.choice(np.arange(blk.start, blk.stop), size=min(6, npix(bl)), replace=False)
        vals = []
        for k in ks2:
            e = np.zeros(n)
            e[k] = 1
            vals.append(pw.prior(e))
        sk = s[ks2 - start]
        ok = sk > 1e-9
        vals = np.array(vals)
        case.require(np.all(np.abs(vals[~ok]) <= 1e-6 * (1 + np.max(np.abs(vals), initial=0))), "weight-per-colatitude", "pole weight of the power prior")
        if ok.sum() > 1:
            r = vals[ok] / sk[ok]
            case.close(r, np.full(r.shape, r[0]), "weight-per-colatitude", rtol=1e-8, scale=abs(r[0]), detail=f"(power weights, block {b})")
        start += npix(bl)


@check.workload(quick=300, thorough=2500)
def interval_maps(case):
    """Every coefficient appears once, at its own pixel."""
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, lmax(case, 12, 18, 66))
    n = SphericalWaveletTransform(L, B, J).ncoefs
    bls = bandlimits(L, B, J)
    label = rng.permutation(n) + 1.0
    off = rng.standard_normal(n) * 10
    # label k = full range of the samples of coefficient k
    nsamp = int(rng.choice([2, 3, 5]))
    frac = np.linspace(0, 1, nsamp)[:, None]
    chain = off + frac * label
    chain = chain[rng.permutation(nsamp)]
    alpha = float(rng.choice([0.05, 0.32, 0.5]))
    g = Guarded(chain=chain)
    maps = wavelet_credible_interval_range(chain, L, B, J, alpha)
    g.verify(case)
    case.require(len(maps) == len(bls), "coefficients-used-once", f"{len(maps)} maps for {len(bls)} blocks")
    start = 0
    for b, (m, bl) in enumerate(zip(maps, bls)):
        want = label[start: start + npix(bl)].reshape(bl, 2 * bl - 1) * (1 - alpha)
        case.close(m, want, "map-pixel-of-coefficient", rtol=1e-9, scale=float(n), detail=f"(map {b}, L={L}, B={B}, J_min={J})")
        start += npix(bl)
    got = np.sort(np.concatenate([m.ravel() for m in maps])) / (1 - alpha)
    case.close(got, np.arange(1, n + 1), "coefficients-used-once", rtol=1e-9, scale=float(n))
    case.sig(L, B, J, nsamp)
    case.note(L=L, B=B, J_min=J, ncoefs=n, bandlimits=bls)


@check.workload(quick=500, thorough=5000)
def multipoles(case):
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, lmax(case, 12, 20, 66))
    t = SphericalWaveletTransform(L, B, J)
    l = int(rng.integers(L))
    m = int(rng.integers(-l, l + 1))
    flm = np.zeros(L * L, complex)
    flm[l * l + l + m] = np.exp(1j * rng.uniform(0, 6))
    f = pyssht.inverse(flm, L).ravel()
    c = t.forward(f)
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, 0)
    bls = bandlimits(L, B, J)
    case.require(len(c) == sum(npix(b) for b in bls), "multipole-localised", f"{len(c)} coefficients, blocks hold {sum(npix(b) for b in bls)}")
    top = np.max(np.abs(c))
    case.require(top > 1e-3 * np.max(np.abs(f)), "multipole-localised", "signal vanishes in the transform")
    start = 0
    for k, bl in enumerate(bls):
        block = c[start: start + npix(bl)].reshape(bl, 2 * bl - 1)
        start += npix(bl)
        kern = abs(phi[l]) if k == 0 else abs(psi[l * l + l, k - 1])
        # closed-form support: scaling l < B^J_min, wavelet j: B^(j-1) < l < B^(j+1)
        if k == 0:
            inside = l < B**J + 1e-9
        else:
            j = J + k - 1
            inside = B ** (j - 1) - 1e-9 <= l <= B ** (j + 1) + 1e-9
        if kern == 0 or not inside:
            case.require(np.max(np.abs(block)) <= 1e-10 * top, "multipole-localised", f"degree {l} appears in block {k} of {bls} (L={L}, B={B}, J_min={J})")
            continue
        if kern < 1e-6:
            continue
        case.require(np.max(np.abs(block)) > 1e-8 * top, "multipole-localised", f"degree {l} missing from block {k} of {bls}")
        if l < bl:
            glm = np.zeros(bl * bl, complex)
            glm[l * l + l + m] = flm[l * l + l + m]
            ylm = pyssht.inverse(glm, bl)
            s = np.vdot(ylm, block) / np.vdot(ylm, ylm)
            case.close(block, s * ylm, "block-colatitude", rtol=1e-8, scale=np.max(np.abs(block)), detail=f"(block {k} is not the multipole on the grid of bandlimit {bl})")
    case.sig(L, B, J, l, abs(m))
    case.note(L=L, B=B, J_min=J, l=l, m=m)


@check.workload(quick=30, thorough=200)
def directional(case):
    """Directional tilings: listed finding, see known_findings.txt."""
    rng = case.rng
    L, B, J = rand_tiling(rng, 4, 10, nonempty=True)
    dirs = int(rng.integers(2, 4))
    t = SphericalWaveletTransform(L, B, J, dirs=dirs)
    axis = sum(npix(b) for b in bandlimits(L, B, J))
    for cls in (S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights):
        prior = cls("synthesis", t.inverse, t.inverse_adjoint, 0.1, L, B, J, dirs=dirs)
        case.seen("directional-prior")

        def fits(n):
            try:
                return np.shape(prior.proxf(np.ones(n))) == (n,) and np.isfinite(prior.prior(np.ones(n)))
            except ValueError:
                return False

        if fits(t.ncoefs):
            continue
        case.require(fits(axis), "directional-prior", f"{cls.__name__} fits neither the {t.ncoefs} directional nor the {axis} axisymmetric coefficients")
        case.finding("directional-weights", f"L={L} B={B} J_min={J} dirs={dirs}: {axis} weights for {t.ncoefs} coefficients")
    case.sig(L, B, J, dirs)
