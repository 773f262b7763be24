"""C12: wavelet transforms reconstruct exactly and have exact adjoints."""
import numpy as np
import pys2let
import pyssht

from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform
from vmon.core import Check, Guarded, homogeneous, keeps_small, refilled, refilled_pair, many_calls
from vmon.problems import logu, randc
from vmon.sphere import bandlimits, npix, rand_tiling

check = Check(
    "C12",
    "random tilings (integer and fractional B, every admissible J_min, 1-4 directions, spin 0/1/+-2, pixel and harmonic space) "
    "on bandlimited signals and arbitrary complex vectors; reconstruction, dot-product, linearity, layout and no-mutation "
    "monitors on every call; distinct by tiling",
    ["pys2let called directly and the tiling kernels give the reference coefficients"],
)
check.require_monitors("reconstructs", "adjoint-of-forward", "adjoint-of-inverse", "linear", "coefficient-count", "layout",
                       "kernel-layout", "inputs-unmodified", "identity", "stateless")


def rand_config(rng, tier, Lmax=None):
    L, B, J = rand_tiling(rng, 2, Lmax or (10 if tier == "quick" else 16))
    dirs = int(rng.choice([1, 1, 2, 3, 4]))
    dirs = min(dirs, L)
    spin = int(rng.choice([0, 0, 0, 1, 2, -2]))
    return L, B, J, dirs, spin


def signal(rng, L, spin, harmonic):
    flm = randc(rng, L * L, True) * logu(rng, 1e-3, 1e3)
    k = rng.integers(4)
    if k == 0:
        keep = int(rng.integers(L * L))
        m = np.zeros(L * L)
        m[keep] = 1
        flm = flm * m
    flm[: spin**2] = 0
    return flm if harmonic else pyssht.inverse(flm, L, Spin=spin).ravel()


@check.workload(quick=300, thorough=4000)
def transforms(case):
    rng = case.rng
    L, B, J, dirs, spin = rand_config(rng, case.tier)
    harmonic = bool(case.index % 2)
    t = SphericalWaveletTransform(L, B, J, dirs=dirs, spin=spin, harmonic=harmonic)
    n = L * L if harmonic else npix(L)
    N = t.ncoefs
    case.note(L=L, B=B, J_min=J, dirs=dirs, spin=spin, harmonic=harmonic, ncoefs=N)
    case.sig(L, B, J, dirs, spin, harmonic)
    nrm = np.linalg.norm
    # reconstruction
    x = signal(rng, L, spin, harmonic)
    g = Guarded(x=x)
    c = t.forward(x)
    g.verify(case)
    case.require(np.shape(c) == (N,), "coefficient-count", f"{np.shape(c)} coefficients, {N} advertised")
    gc = Guarded(c=c)
    back = t.inverse(c)
    gc.verify(case)
    case.close(back, x, "reconstructs", rtol=1e-9, scale=np.max(np.abs(x)) + 1e-300)
    # layout of the external library, scaling coefficients first
    fn = pys2let.analysis_lm2lmn if harmonic else pys2let.analysis_px2wav
    w, s = fn(np.array(x, dtype=complex), B=B, L=L, J_min=J, N=dirs, spin=spin, upsample=0)
    case.close(c, np.concatenate([s, w.ravel()]), "layout", rtol=1e-12, scale=nrm(c) + 1e-300)
    if dirs == 1:
        bls = bandlimits(L, B, J)
        want = sum(b * b if harmonic else npix(b) for b in bls)
        case.require(N == want, "coefficient-count", f"{N} coefficients, the tiling {bls} has {want}")
    # arbitrary vectors: adjoints, linearity
    a, a2 = randc(rng, N, True), randc(rng, N, True)
    b, b2 = randc(rng, n, True), randc(rng, n, True)
    if rng.integers(3) == 0:
        a = np.zeros(N, complex)
        a[rng.integers(N)] = 1j
    if rng.integers(3) == 0:
        b = np.zeros(n, complex)
        b[rng.integers(n)] = 1
    g = Guarded(a=a, a2=a2, b=b, b2=b2)
    Fb, Fta, Ia, Itb = t.forward(b), t.forward_adjoint(a), t.inverse(a), t.inverse_adjoint(b)
    keep = [np.array(v) for v in (Fb, Fta, Ia, Itb)]
    case.require([np.shape(v) for v in keep] == [(N,), (n,), (n,), (N,)], "coefficient-count", f"shapes {[np.shape(v) for v in keep]}")
    case.close(np.vdot(a, Fb), np.vdot(Fta, b), "adjoint-of-forward", rtol=1e-10, scale=nrm(a) * nrm(Fb) + nrm(Fta) * nrm(b) + 1e-300)
    case.close(np.vdot(b, Ia), np.vdot(Itb, a), "adjoint-of-inverse", rtol=1e-10, scale=nrm(b) * nrm(Ia) + nrm(Itb) * nrm(a) + 1e-300)
    k = complex(rng.standard_normal(), rng.standard_normal())
    for name, u, v, Fu in (("forward", b, b2, keep[0]), ("forward_adjoint", a, a2, keep[1]), ("inverse", a, a2, keep[2]), ("inverse_adjoint", b, b2, keep[3])):
        f = getattr(t, name)
        Fv = np.array(f(v))
        case.close(f(k * u + v), k * Fu + Fv, "linear", rtol=1e-10, scale=abs(k) * nrm(Fu) + nrm(Fv) + 1e-300, detail=f"({name})")
        case.close(f(u), Fu, "stateless", rtol=1e-12, scale=nrm(Fu) + 1e-300, detail=f"({name} called again)")
        refilled(case, f, [u, v], "stateless", floor=1e-3 * nrm(Fu))
        homogeneous(case, f, v)
        if case.index % 32 == 1 and N < 800:
            many_calls(case, f, u, v, floor=1e-3 * nrm(Fu))
        keeps_small(case, f, np.real(v), np.real(u))
        r = np.real(u).copy()
        case.close(f(r), f(r + 0j), "linear", rtol=1e-12, scale=nrm(r) + 1e-300, detail=f"({name} of a real vector)")
        st = np.repeat(u, 2)[::2]
        case.close(f(st), Fu, "linear", rtol=1e-12, scale=nrm(Fu) + 1e-300, detail=f"({name} of a strided vector)")
    refilled_pair(case, t.forward, t.inverse_adjoint, [b, b2], "stateless", floor=1e-3 * (nrm(b) + nrm(keep[0])))
    refilled_pair(case, t.inverse, t.forward_adjoint, [a, a2], "stateless", floor=1e-3 * (nrm(a) + nrm(keep[1])))
    for v, kv in zip((Fb, Fta, Ia, Itb), keep):
        case.equal(v, kv, "stateless", "earlier result overwritten")
    g.verify(case)


@check.workload(quick=32, thorough=400)
def large_and_alternating(case):
    """Bandlimits of real maps; several transforms used in turn."""
    rng = case.rng
    Lmax = 33 if case.tier == "quick" else 65
    ts = []
    for _ in range(3):
        L, B, J = rand_tiling(rng, 12, Lmax)
        if ts and rng.integers(2):  # same L, other tiling
            L = ts[0][0].L
            B = (2, 3, 1.5)[rng.integers(3)]
            J = int(rng.integers(0, 3))
        spin = int(rng.choice([0, 0, 2]))
        harmonic = bool(rng.integers(2))
        dirs = int(rng.choice([1, 1, 1, 2]))
        ts.append((SphericalWaveletTransform(L, B, J, dirs=dirs, spin=spin, harmonic=harmonic), L, B, J, dirs, spin, harmonic))
    xs = [signal(rng, k[1], k[5], k[6]) for k in ts]
    cs = [np.array(k[0].forward(x)) for k, x in zip(ts, xs)]
    nrm = np.linalg.norm
    for (t, L, B, J, dirs, spin, harmonic), x, c in zip(ts, xs, cs):
        fn = pys2let.analysis_lm2lmn if harmonic else pys2let.analysis_px2wav
        w, s = fn(np.array(x, dtype=complex), B=B, L=L, J_min=J, N=dirs, spin=spin, upsample=0)
        case.close(c, np.concatenate([s, w.ravel()]), "layout", rtol=1e-11, scale=nrm(c) + 1e-300)
        case.require(len(c) == t.ncoefs, "coefficient-count", f"{len(c)} coefficients, {t.ncoefs} advertised")
        case.close(t.inverse(c), x, "reconstructs", rtol=1e-8, scale=np.max(np.abs(x)) + 1e-300)
        a, b = randc(rng, len(c), True), randc(rng, len(x), True)
        Fb, Fta, Ia, Itb = t.forward(b), t.forward_adjoint(a), t.inverse(a), t.inverse_adjoint(b)
        case.close(np.vdot(a, Fb), np.vdot(Fta, b), "adjoint-of-forward", rtol=1e-10, scale=nrm(a) * nrm(Fb) + nrm(Fta) * nrm(b) + 1e-300)
        case.close(np.vdot(b, Ia), np.vdot(Itb, a), "adjoint-of-inverse", rtol=1e-10, scale=nrm(b) * nrm(Ia) + nrm(Itb) * nrm(a) + 1e-300)
    for k, x, c in zip(ts, xs, cs):
        case.close(k[0].forward(x), c, "stateless", rtol=1e-11, scale=nrm(c) + 1e-300, detail="(after other transforms ran)")
    case.sig("large", *[k[1:] for k in ts])
    case.note(tilings=[k[1:] for k in ts])


@check.workload(quick=120, thorough=2000)
def kernels(case):
    """Axisymmetric coefficients are maps of kernel * signal, block by block."""
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, 10 if case.tier == "quick" else 16)
    harmonic = bool(case.index % 2)
    t = SphericalWaveletTransform(L, B, J, harmonic=harmonic)
    flm = randc(rng, L * L, True)
    c = t.forward(flm if harmonic else pyssht.inverse(flm, L).ravel())
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, 0)
    els = np.array([l for l in range(L) for _ in range(2 * l + 1)])
    start = 0
    bls = bandlimits(L, B, J)
    for k, bl in enumerate(bls):
        if k == 0:
            ker = np.array([phi[l] * np.sqrt(4 * np.pi / (2 * l + 1)) for l in range(L)])
        else:
            # Wigner coefficients in harmonic space, their value on the sphere otherwise
            ker = np.array([psi[l * l + l, k - 1] / (2 * l + 1) ** (1 if harmonic else 0.5) for l in range(L)])
        prod = (ker[els] * flm)[: bl * bl]
        case.require(np.max(np.abs((ker[els] * flm)[bl * bl:]), initial=0) == 0, "kernel-layout", f"kernel of block {k} exceeds its bandlimit {bl}")
        size = bl * bl if harmonic else npix(bl)
        block = c[start: start + size]
        start += size
        if harmonic:
            got = block
        else:
            got = pyssht.forward(block.reshape(bl, 2 * bl - 1).copy(), bl)
        # same signal up to one normalisation constant per kind of block
        nz = np.abs(prod) > 1e-9 * np.max(np.abs(prod), initial=0)
        if prod.any():
            q = got[nz] / prod[nz]
            case.close(q, np.full(q.shape, q[0]), "kernel-layout", rtol=1e-6, scale=abs(q[0]), detail=f"(block {k} of {bls})")
            case.require(np.max(np.abs(got[~nz]), initial=0) <= 1e-7 * np.max(np.abs(got)), "kernel-layout", f"block {k} has foreign multipoles")
            case.require(abs(q[0].imag) < 1e-9 * abs(q[0]) and q[0].real > 0, "kernel-layout", f"block {k} scaled by {q[0]}")
            case.stat("scal" if k == 0 else "wav", (float(q[0].real), harmonic))
        else:
            case.require(np.max(np.abs(got), initial=0) <= 1e-10 * np.max(np.abs(flm)), "kernel-layout", f"empty block {k} is not zero")
    case.require(start == len(c), "kernel-layout", f"{len(c)} coefficients, blocks hold {start}")
    case.sig(L, B, J, harmonic)
    case.note(L=L, B=B, J_min=J, harmonic=harmonic, bandlimits=bls)


@check.pool("kernels")
def one_normalisation(case, stats):
    for k, v in stats.items():
        for h in (False, True):
            q = np.array([a for a, hh in v if hh == h])
            if q.size:
                case.note(**{f"{k}-{'harmonic' if h else 'pixel'}": f"{q.min():.6f}..{q.max():.6f}"})
                case.require(q.max() - q.min() < 1e-6 * q.max(), "kernel-layout", f"normalisation of {k} blocks varies: {q.min()}..{q.max()}")


@check.workload(quick=60, thorough=600)
def identity(case):
    rng = case.rng
    t = IdentityTransform()
    n = int(rng.integers(1, 50))
    for x in (randc(rng, n, True), randc(rng, n, False), rng.integers(-9, 9, n), randc(rng, (n, 3), True), np.zeros(n)):
        g = Guarded(x=x)
        for name in ("forward", "inverse", "forward_adjoint", "inverse_adjoint"):
            y = getattr(t, name)(x)
            case.equal(y, x, "identity", name)
            case.require(np.asarray(y).dtype == x.dtype, "identity", f"{name} changed the dtype")
        g.verify(case)
    case.sig(n)
