"""Problems on the sphere and their dense references.

References call pyssht / pys2let directly (the external libraries define the
transforms) or use closed formulas; they share no code with pxmcmc.
"""
import functools

import numpy as np
import pys2let
import pyssht

from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic
from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform

from .problems import randc


def npix(L):
    return L * (2 * L - 1)


def thetas(L):
    return np.pi * (2 * np.arange(L) + 1) / (2 * L - 1)


def phis(L):
    return 2 * np.pi * np.arange(2 * L - 1) / (2 * L - 1)


def j_max(L, B):
    """Largest scale: smallest j with B^j >= L."""
    return int(np.ceil(np.log(L) / np.log(B)))


def bandlimits(L, B, J_min):
    """Bandlimit of the scaling block and of every wavelet scale."""
    J = pys2let.pys2let_j_max(B, L, J_min)
    scal = min(int(np.ceil(float(B) ** J_min)), L)
    return [scal] + [min(int(np.ceil(float(B) ** (j + 1))), L) for j in range(J_min, J + 1)]


BS = (1.3, 1.5, 1.7, 2, 2, 2.0, 2.5, 3, 3, 4, 5, 2**0.5, 3**0.5, 2 ** (1 / 3), 5**0.5)


def rand_tiling(rng, Lmin=2, Lmax=10, nonempty=False):
    """(L, B, J_min) accepted by the transform."""
    while True:
        L = int(rng.integers(Lmin, Lmax + 1))
        B = BS[rng.integers(len(BS))]
        if rng.random() < 0.25:  # bandlimits that are (next to) exact powers of B
            tops = [x for k in range(1, 12) for d in (-1, 0, 1) for x in [int(np.ceil(float(B) ** k)) + d] if Lmin <= x <= Lmax]
            if tops:
                L = tops[rng.integers(len(tops))]
        jmax = int(np.floor(np.log(L) / np.log(B)))
        J = int(rng.integers(0, jmax + 1))
        if not B**J < L:
            continue
        if nonempty:
            _, psi = pys2let.wavelet_tiling(B, L, 1, J, 0)
            if np.any(np.sum(np.abs(psi) ** 2, axis=0) == 0):
                continue
        return L, B, J


def dense(fn, n, dtype=complex):
    """Matrix of a linear function of C^n."""
    cols = []
    for k in range(n):
        e = np.zeros(n, dtype=dtype)
        e[k] = 1
        cols.append(np.asarray(fn(e)).ravel())
    return np.array(cols).T


@functools.lru_cache(maxsize=64)
def synthesis_matrix(L, B, J_min, dirs=1, spin=0):
    """Dense wavelet synthesis in the scaling-first layout."""
    kw = dict(B=B, L=L, J_min=J_min, N=dirs, spin=spin, upsample=0)
    w, s = pys2let.analysis_px2wav(np.zeros(npix(L), complex), **kw)
    ns, nw = s.size, w.size

    def f(c):
        return pys2let.synthesis_wav2px(c[ns:].copy(), c[:ns].copy(), **kw)

    return dense(f, ns + nw)


def lens_factor(l):
    return 0.0 if l < 2 else -np.sqrt((l + 2.0) * (l - 1.0) / ((l + 1.0) * l))


def lens_diag(L):
    return np.array([lens_factor(l) for l in range(L) for _ in range(2 * l + 1)])


def ref_shear(kappa, L):
    klm = pyssht.forward(np.asarray(kappa, complex).reshape(L, 2 * L - 1), L, Spin=0)
    return pyssht.inverse(klm * lens_diag(L), L, Spin=2)


@functools.lru_cache(maxsize=64)
def shear_matrix(L):
    return dense(lambda k: ref_shear(k, L), npix(L))


def rand_mask(rng, L):
    """Mask keeping at least one pixel; bool, int or float."""
    kind = rng.integers(5)
    m = rng.random((L, 2 * L - 1)) < (0.3, 0.7, 0.95, 1.1, 0.05)[kind]
    if not m.any():
        m[rng.integers(L), rng.integers(2 * L - 1)] = True
    return m.astype((bool, int, float)[rng.integers(3)])


def rand_ngal(rng, L, zeros=True):
    n = rng.integers(0 if zeros else 1, 60, (L, 2 * L - 1))
    return n if rng.integers(2) else n.astype(float) * 1.3


class SphereProblem:
    """One of the operators shipped for the sphere, with its dense matrix G."""

    KINDS = ("wavelet", "path", "lensing", "lensing-wavelet", "lensing-harmonic")

    def __init__(self, rng, kind=None, setting=None, Lmax=5, sig=None, cls=ForwardOperator):
        self.kind = kind = kind or self.KINDS[rng.integers(len(self.KINDS))]
        setting = setting or ("analysis", "synthesis")[rng.integers(2)]
        L, B, J = rand_tiling(rng, 3, Lmax)
        self.L, self.B, self.J_min = L, B, J
        dirs, spin = 1, 0
        if kind in ("wavelet", "path") and rng.random() < 0.3:
            dirs, spin = [(2, 0), (3, 0), (1, 2)][rng.integers(3)]
            if spin == 2 and B**J < 2:
                dirs, spin = 1, 0
        self.dirs, self.spin = dirs, spin
        if kind == "lensing":
            setting = "analysis"
        if kind == "lensing-harmonic":
            setting = "synthesis" if rng.integers(2) else "analysis"
        if kind == "lensing-wavelet":
            setting = "synthesis"
        self.setting = setting
        if kind in ("wavelet", "path", "lensing-wavelet"):
            M = synthesis_matrix(L, B, J, dirs, spin) if setting == "synthesis" else np.eye(npix(L))
        if kind == "wavelet":
            n = npix(L) if rng.random() < 0.7 else int(rng.integers(1, npix(L) + 1))
            A = np.eye(n, npix(L))
        elif kind == "path":
            from scipy import sparse
            n = int(rng.integers(1, 8))
            A = rng.standard_normal((n, npix(L))) * (rng.random((n, npix(L))) < 0.3)
            if rng.integers(2):
                A = A + 1j * rng.standard_normal(A.shape) * (A != 0)
            self.path_matrix = (sparse.csr_matrix, sparse.csc_matrix)[rng.integers(2)](A)
        elif kind in ("lensing", "lensing-wavelet"):
            self.mask = rand_mask(rng, L) if rng.random() < 0.8 else None
            self.ngal = rand_ngal(rng, L) if rng.integers(2) else None
            keep = np.ones((L, 2 * L - 1), bool) if self.mask is None else self.mask.astype(bool)
            w = np.ones(keep.shape) if self.ngal is None else np.sqrt(2 * self.ngal / 0.37**2)
            A = (w.ravel()[:, None] * shear_matrix(L))[keep.ravel()]
            if kind == "lensing":
                M = np.eye(npix(L))
        else:
            A = np.diag(lens_diag(L))
            M = np.eye(L * L)
        self.G = G = A @ M
        self.n, self.p = G.shape
        s0 = float(np.exp(rng.uniform(-1, 1)))
        kinds = ("float", "vector", "cov")
        self.sig_kind = sk = sig or kinds[rng.integers(3)]
        if sk == "float":
            self.sig, C = s0, np.eye(self.n) * s0**2
        elif sk == "vector":
            self.sig = s0 * np.exp(rng.uniform(-0.5, 0.5, self.n))
            C = np.diag(self.sig**2)
        else:
            R = rng.standard_normal((self.n, 3))
            C = s0**2 * (np.eye(self.n) + 0.2 * R @ R.T)
            self.sig = C
        self.Cinv = np.linalg.inv(C)
        self.complex_data = kind != "wavelet" or bool(rng.integers(2)) or spin != 0
        self.complex_x = bool(rng.integers(2)) or kind == "lensing-harmonic"
        xt = randc(rng, self.p, self.complex_x)
        d = G @ xt + s0 * randc(rng, self.n, True)
        self.data = d if self.complex_data else np.real(d).copy()
        if kind == "wavelet":
            op = SphericalWaveletTransformOperator(self.data, self.sig, setting, L, B, J, dirs=dirs, spin=spin)
        elif kind == "path":
            op = PathIntegralOperator(self.path_matrix, self.data, self.sig, setting, L, B, J, dirs=dirs, spin=spin)
        else:
            if kind == "lensing-harmonic":
                meas, tr = WeakLensingHarmonic(L), IdentityTransform()
            else:
                meas = WeakLensing(L, mask=self.mask, ngal=self.ngal)
                tr = IdentityTransform() if kind == "lensing" else SphericalWaveletTransform(L, B, J)
            op = ForwardOperator(self.data, self.sig, setting, transform=tr, measurement=meas, nparams=self.p)
        self.op = op
        self.h = float(np.linalg.norm(G.conj().T @ self.Cinv @ G, 2))

    def describe(self):
        return dict(kind=self.kind, setting=self.setting, L=self.L, B=self.B, J_min=self.J_min, dirs=self.dirs,
                    spin=self.spin, sig_d=self.sig_kind, complex_params=self.complex_x, complex_data=self.complex_data,
                    nparams=self.p, ndata=self.n)

    def signature(self):
        return (self.kind, self.setting, self.L, self.dirs, self.spin, self.sig_kind, self.complex_x, self.complex_data)

    def L2(self, x):
        r = self.data - self.G @ x
        return float(np.real(np.vdot(r, self.Cinv @ r)))

    def gradg(self, x):
        return self.G.conj().T @ (self.Cinv @ (self.G @ x - self.data))
