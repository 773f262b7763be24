"""C11: measurement operators are linear with exact adjoints."""
import numpy as np
import scipy.sparse.linalg
from scipy import sparse

from pxmcmc.measurements import Identity, PathIntegral, WeakLensing, WeakLensingHarmonic
from vmon.core import Check, Guarded, homogeneous, keeps_small, refilled, many_calls
from vmon.problems import logu, randc
from vmon.sphere import npix, rand_mask, rand_ngal

check = Check(
    "C11",
    "identity (square, short, padded), path-integral (real/complex, all sparse formats) and weak-lensing operators (harmonic "
    "and pixel space, every bandlimit, random masks and galaxy counts) on complex, spiky, constant and non-bandlimited inputs; "
    "dot-product, linearity and statelessness monitors on every call; distinct by operator and its shape parameters",
    ["rounding is bounded by 1e-10 of the operator norms involved"],
)
check.require_monitors("dot-product", "linear", "stateless", "identity-values", "path-values", "rejects-length", "inputs-unmodified")
REJECT = (AssertionError, ValueError, TypeError, IndexError)


def vec(rng, n, real=False):
    k = rng.integers(4)
    v = randc(rng, n, not real) * logu(rng, 1e-3, 1e3)
    if k == 0:
        v[rng.random(n) < 0.8] = 0
    elif k == 1:
        v = np.zeros_like(v)
        v[rng.integers(n)] = 1 if real else 1j
    return v


def exercise(case, op, nx, ny, reps=2, real_ok=True):
    # pyssht refuses strided and integer maps, so these only go to the others
    loose = isinstance(op, (Identity, PathIntegral))
    rng = case.rng
    for _ in range(reps):
        x, x2, y, y2 = vec(rng, nx), vec(rng, nx), vec(rng, ny), vec(rng, ny)
        g = Guarded(x=x, x2=x2, y=y, y2=y2)
        Ax, Aty = op.forward(x), op.adjoint(y)
        case.require(np.shape(Ax) == (ny,) and np.shape(Aty) == (nx,), "dot-product", f"shapes {np.shape(Ax)}, {np.shape(Aty)} for {nx} pixels and {ny} data")
        kA, kAt = np.array(Ax), np.array(Aty)
        a, b = np.vdot(y, Ax), np.vdot(Aty, x)
        nrm = np.linalg.norm
        sc = nrm(y) * nrm(Ax) + nrm(Aty) * nrm(x) + 1e-300
        case.close(a, b, "dot-product", rtol=1e-10, scale=sc)
        # linearity over the complex numbers
        c = complex(rng.standard_normal(), rng.standard_normal())
        Ax2, Aty2 = op.forward(x2), op.adjoint(y2)
        case.close(op.forward(c * x + x2), c * kA + Ax2, "linear", rtol=1e-10, scale=abs(c) * nrm(kA) + nrm(Ax2) + 1e-12 * (nrm(x) + nrm(x2)) + 1e-300)
        case.close(op.adjoint(c * y + y2), c * kAt + Aty2, "linear", rtol=1e-10, scale=abs(c) * nrm(kAt) + nrm(Aty2) + 1e-12 * (nrm(y) + nrm(y2)) + 1e-300)
        case.require(nrm(op.forward(0 * x)) == 0 and nrm(op.adjoint(0 * y)) == 0, "linear", "zero is not mapped to zero")
        # earlier results are neither overwritten nor different the second time
        case.equal(Ax, kA, "stateless", "earlier result overwritten")
        case.equal(Aty, kAt, "stateless", "earlier result overwritten")
        case.close(op.forward(x), kA, "stateless", rtol=1e-12, scale=nrm(kA) + 1e-300, detail="(second call)")
        case.close(op.adjoint(y), kAt, "stateless", rtol=1e-12, scale=nrm(kAt) + 1e-300, detail="(second call)")
        g.verify(case)
        for f, u, v in ((op.forward, x, x2), (op.adjoint, y, y2)):
            homogeneous(case, f, u)
            keeps_small(case, f, np.real(u) + (0 if real_ok else 0j), np.real(v) + 0j)
            refilled(case, f, [u, v], "stateless", floor=1e-3 * nrm(f(u)))
            if case.index % 32 == 1 and nx < 800:
                many_calls(case, f, u, v, floor=1e-3 * nrm(f(u)))
            if loose:
                st = np.repeat(u, 2)[::2]
                case.close(f(st), f(u), "stateless", rtol=1e-11, scale=nrm(f(u)) + 1e-300, detail="(strided input)")
        if real_ok:
            xr = vec(rng, nx, real=True)
            case.close(op.forward(xr), op.forward(xr + 0j), "linear", rtol=1e-11, scale=nrm(op.forward(xr + 0j)) + 1e-300)
            yr = vec(rng, ny, real=True)
            case.close(op.adjoint(yr), op.adjoint(yr + 0j), "linear", rtol=1e-11, scale=nrm(op.adjoint(yr + 0j)) + 1e-300)
            if loose:
                xi = rng.integers(-9, 9, nx)
                case.close(op.forward(xi), op.forward(xi + 0j), "linear", rtol=1e-11, scale=nrm(op.forward(xi + 0j)) + 1e-300, detail="(integers)")


def bad_lengths(case, fn, n, what):
    for m in {n + 1, n - 1, 2 * n, 0, 1} - {n}:
        if m >= 0:
            case.raises(REJECT, lambda: fn(np.ones(m, complex)), "rejects-length", f"({what}, length {m} instead of {n})")


@check.workload(quick=120, thorough=3000)
def identity(case):
    rng = case.rng
    nx, ny = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    if case.index % 3 == 0:
        ny = nx
    op = Identity(ny, nx)
    case.require(op.ndata == ny and op.npix == nx, "identity-values", "advertised sizes")
    exercise(case, op, nx, ny)
    x, y = vec(rng, nx), vec(rng, ny)
    m = min(nx, ny)
    want = np.zeros(ny, complex)
    want[:m] = x[:m]
    case.equal(op.forward(x), want, "identity-values")
    want = np.zeros(nx, complex)
    want[:m] = y[:m]
    case.equal(op.adjoint(y), want, "identity-values")
    bad_lengths(case, op.forward, nx, "forward")
    bad_lengths(case, op.adjoint, ny, "adjoint")
    case.sig(np.sign(nx - ny), nx, ny)
    case.note(npix=nx, ndata=ny)


@check.workload(quick=160, thorough=4000)
def path_integral(case):
    rng = case.rng
    nx, ny = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    cplx = bool(case.index % 2)
    A = randc(rng, (ny, nx), cplx) * (rng.random((ny, nx)) < rng.choice([0.05, 0.3, 1.0]))
    if rng.random() < 0.3:
        A = A * 10.0 ** rng.uniform(-18, 6)
    elif rng.random() < 0.3:
        A = A * 10.0 ** rng.uniform(-14, 3, A.shape)
    fmt = ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix")[rng.integers(4)]
    P = getattr(sparse, fmt)(A)
    g = Guarded(P=P)
    op = PathIntegral(P)
    case.require(op.ndata == ny and op.npix == nx, "path-values", "advertised sizes")
    exercise(case, op, nx, ny)
    x, y = vec(rng, nx), vec(rng, ny)
    nA = np.linalg.norm(A) + 1e-300
    case.close(op.forward(x), A @ x, "path-values", rtol=1e-11, scale=nA * np.linalg.norm(x))
    case.close(op.adjoint(y), A.conj().T @ y, "path-values", rtol=1e-11, scale=nA * np.linalg.norm(y))
    for M, f, n in ((A, op.forward, nx), (A.conj().T, op.adjoint, ny)):
        k = int(rng.integers(n))
        e = np.zeros(n)
        e[k] = 1
        case.close(f(e) / np.where(M[:, k] == 0, 1, M[:, k]), (M[:, k] != 0).astype(float), "path-values", rtol=1e-12, scale=1.0, detail=f"(single pixel or path {k})")
    bad_lengths(case, op.forward, nx, "forward")
    bad_lengths(case, op.adjoint, ny, "adjoint")
    g.verify(case)
    case.sig(nx, ny, cplx, fmt)
    case.note(npix=nx, ndata=ny, complex=cplx, format=fmt)


@check.workload(quick=120, thorough=3000)
def lensing(case):
    rng = case.rng
    L = int(rng.integers(1, 13 if case.tier == "quick" else 24))
    mask = rand_mask(rng, L) if rng.random() < 0.75 else None
    ngal = rand_ngal(rng, L) if rng.random() < 0.6 else None
    g = Guarded(**{k: v for k, v in dict(mask=mask, ngal=ngal).items() if v is not None})
    op = WeakLensing(L, mask=mask, ngal=ngal)
    n = npix(L) if mask is None else int(np.sum(mask.astype(bool)))
    exercise(case, op, npix(L), n)
    g.verify(case)
    case.sig(L, mask is None, ngal is None, n)
    case.note(L=L, unmasked=n, ngal=ngal is not None)


@check.workload(quick=24, thorough=200)
def large(case):
    """Sizes of real maps, and two operators used alternately."""
    rng = case.rng
    L = int(rng.integers(20, 49 if case.tier == "quick" else 97))
    ops = []
    for _ in range(2):
        mask = rand_mask(rng, L) if rng.random() < 0.75 else None
        ngal = rand_ngal(rng, L) if rng.random() < 0.6 else None
        n = npix(L) if mask is None else int(np.sum(mask.astype(bool)))
        ops.append((WeakLensing(L, mask=mask, ngal=ngal), npix(L), n))
    ops.append((WeakLensingHarmonic(L), L * L, L * L))
    nx, ny = int(rng.integers(500, 4000)), int(rng.integers(100, 1500))
    A = sparse.random(ny, nx, density=0.02, random_state=int(rng.integers(2**31)), format="csr")
    if case.index % 2:
        A = (A + 1j * sparse.random(ny, nx, density=0.02, random_state=int(rng.integers(2**31)), format="csr")).tocsr()
    ops.append((PathIntegral(A), nx, ny))
    ops.append((Identity(ny, nx), nx, ny))
    x = [vec(rng, k[1]) for k in ops]
    first = [np.array(o.forward(v)) for (o, _, _), v in zip(ops, x)]
    for o, k, n in ops:
        exercise(case, o, k, n, reps=1)
    for (o, _, _), v, w in zip(ops, x, first):
        case.close(o.forward(v), w, "stateless", rtol=1e-11, scale=np.linalg.norm(w) + 1e-300, detail="(after other operators ran)")
    nA = sparse.linalg.norm(A) + 1e-300
    case.close(first[3], A @ x[3], "path-values", rtol=1e-11, scale=nA * np.linalg.norm(x[3]))
    case.sig("large", L, nx, ny)
    case.note(L=L, paths=(ny, nx))


@check.workload(quick=60, thorough=1000)
def lensing_harmonic(case):
    rng = case.rng
    L = int(rng.integers(1, 30))
    op = WeakLensingHarmonic(L)
    exercise(case, op, L * L, L * L)
    case.sig(L)
    case.note(L=L)
