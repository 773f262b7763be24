"""Inverse problems used as workloads, with independent references.

Everything is built through the documented extension points (Measurement,
Transform, ForwardOperator, a prior object with ``prior`` and ``proxf``); the
references (``grad``, ``prox``, ``prior_value``, ...) are dense linear algebra
written here and share no code with pxmcmc.
"""
import numpy as np
from scipy import sparse

from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity, Measurement, PathIntegral
from pxmcmc.mcmc import PxMCMCParams
from pxmcmc.prior import L1
from pxmcmc.transforms import IdentityTransform, Transform

from .core import StepBudget


def ref_soft(x, T):
    a = np.abs(x)
    safe = np.where(a > 0, a, 1)
    return np.where(a > T, x * (1 - np.where(a > T, T, 0) / safe), 0 * x)


def randc(rng, shape, cplx):
    x = rng.standard_normal(shape)
    return x + 1j * rng.standard_normal(shape) if cplx else x


def rand_unitary(rng, n, cplx):
    q, _ = np.linalg.qr(randc(rng, (n, n), cplx))
    return q


class MatrixMeasurement(Measurement):
    """User-defined dense measurement."""

    def __init__(self, A):
        super().__init__(*A.shape)
        self.A = A

    def forward(self, X):
        return self.A @ X

    def adjoint(self, Y):
        return self.A.conj().T @ Y


class MatrixTransform(Transform):
    """User-defined transform: inverse(X) = M X."""

    def __init__(self, M):
        self.M = M

    def inverse(self, X):
        return self.M @ X

    def inverse_adjoint(self, X):
        return self.M.conj().T @ X

    def forward(self, X):
        return np.linalg.pinv(self.M) @ X

    def forward_adjoint(self, X):
        return np.linalg.pinv(self.M).conj().T @ X


class RecordingOperator(ForwardOperator):
    """ForwardOperator that logs every model it is asked about."""

    def reset_log(self, budget=None):
        self.log = []
        self.budget = budget

    def forward(self, X):
        if getattr(self, "log", None) is not None:
            if self.budget is not None and len(self.log) >= self.budget:
                raise StepBudget(f"forward model evaluated more than {self.budget} times")
            self.log.append(np.array(X, copy=True))
        return super().forward(X)

    def states(self):
        """Models in order of first appearance in a run."""
        out, known = [], set()
        for x in self.log:
            k = np.asarray(x, complex).tobytes()
            if k not in known:
                known.add(k)
                out.append(x)
        return out


class CustomPrior:
    """User-defined prior: value and prox are arbitrary functions."""

    def __init__(self, value, prox):
        self._value, self._prox = value, prox

    def prior(self, X):
        return self._value(X)

    def proxf(self, X):
        return self._prox(X)


def flat_problem(p, cplx=False, prior=None, n=1):
    """Zero data, zero operator, flat prior: the chain is pure noise."""
    op = RecordingOperator(
        np.zeros(n), 1.0, "analysis", transform=IdentityTransform(),
        measurement=MatrixMeasurement(np.zeros((n, p))), nparams=p,
    )
    return op, prior or CustomPrior(lambda X: 0.0, lambda X: X)


PRIORS = ("l1", "l1vec", "l1ana", "quad", "odd")
SIGS = ("float", "int", "vector", "cov")


class Problem:
    def __init__(self, rng, p=None, n=None, complex_x=None, complex_data=None,
                 setting=None, prior=None, sig=None, meas=None, real_data=False, variety=True):
        pick = lambda v, opts: opts[rng.integers(len(opts))] if v is None else v
        self.complex_x = cx = bool(pick(complex_x, (False, False, True)))
        # complex parameters seen through a real operator, with real data
        self.real_op = rop = bool(cx and variety and complex_data is None and rng.random() < 0.3)
        self.complex_data = cd = (bool(pick(complex_data, (False, False, True))) or cx) and not rop
        self.setting = st = pick(setting, ("analysis", "synthesis"))
        self.meas = ms = pick(meas, ("dense", "sparse", "identity"))
        self.prior_kind = pk = pick(prior, PRIORS)
        self.sig_kind = sk = pick(sig, SIGS)
        self.p = p = int(p if p is not None else rng.integers(1, 9))
        q = p if st == "analysis" else int(rng.integers(max(1, p - 2), p + 3))
        n = int(n if n is not None else rng.integers(1, 9))
        self.n = n
        # units of the data and of the parameters
        self.unit = self.xunit = 1.0
        if variety and ms != "identity" and rng.random() < 0.15:
            self.unit = float(10 ** rng.uniform(-16, 9))
        if variety and ms != "identity" and rng.random() < 0.15:
            self.xunit = float(10 ** rng.uniform(-8, 6))
        # operators
        if ms == "identity":
            A = np.eye(n, q)
            self.measurement = Identity(n, q)
        else:
            A = randc(rng, (n, q), cd) * self.unit / self.xunit
            if ms == "sparse":
                keep = rng.random((n, q)) < 0.6
                keep.ravel()[rng.integers(keep.size)] = True
                A = A * keep
                self.measurement = PathIntegral(sparse.csr_matrix(A))
            else:
                self.measurement = MatrixMeasurement(A)
        if st == "synthesis":
            M = randc(rng, (q, p), cx and not rop)
            self.transform = MatrixTransform(M)
            G = A @ M
        else:
            M = np.eye(p)
            self.transform = IdentityTransform()
            G = A
        self.A, self.M, self.G = A, M, G
        # noise
        s0 = float(np.exp(rng.uniform(-1.5, 1.5))) * self.unit
        if sk == "float":
            self.sig = s0
            C = np.eye(n) * s0**2
        elif sk == "int":
            self.sig = int(rng.integers(1, 4)) * (1 if self.unit == 1 else self.unit)
            C = np.eye(n) * float(self.sig) ** 2
        elif sk == "vector":
            self.sig = s0 * np.exp(rng.uniform(-0.7, 0.7, n))
            if variety and rng.random() < 0.15:
                self.sig = s0 * np.exp(rng.uniform(-4, 4, n))
            C = np.diag(self.sig**2)
        else:
            R = randc(rng, (n, n), cd and variety and bool(rng.integers(2)))
            C = s0**2 * (np.eye(n) + 0.3 * R @ R.conj().T / n)
            self.sig = C
        self.Cinv = np.linalg.inv(C)
        xt = randc(rng, p, cx) * self.xunit
        # regimes: solution far from the origin (data far above their errors),
        # other dtypes and memory layouts of the data, untyped start points
        self.offset = float(10 ** rng.uniform(2, 6)) if variety and rng.random() < 0.2 else 0.0
        self.dtype_kind = str(rng.choice(["plain"] * 6 + ["single", "int", "strided", "real-start"])) if variety else "plain"
        if rop:
            xt = np.real(xt)
            if rng.random() < 0.5:
                self.dtype_kind = "real-start"
        xt = xt * max(1.0, self.offset)
        self.centre = xt if self.offset else 0 * xt
        self.data = G @ xt + s0 * 0.5 * randc(rng, n, cd)
        if cd and not np.iscomplexobj(self.data):
            self.data = self.data + 0j
        if real_data:
            self.data = np.real(self.data).copy()
        if self.dtype_kind == "single":
            self.data = self.data.astype(np.complex64 if np.iscomplexobj(self.data) else np.float32)
        elif self.dtype_kind == "int" and not np.iscomplexobj(self.data):
            self.data = np.rint(self.data).astype(int)
        elif self.dtype_kind == "strided":
            self.data = np.repeat(self.data, 3)[::3]
        h = float(np.linalg.norm(G.conj().T @ self.Cinv @ G, 2)) if n else 0.0
        self.h = h
        # tuning
        self.lmda = float(np.exp(rng.uniform(np.log(0.02), np.log(2.0)))) * self.xunit**2
        self.mu = float(np.exp(rng.uniform(-1.5, 1.5))) / self.xunit
        self.delta = float(rng.uniform(0.15, 1.2)) / (h + 1 / self.lmda)
        self.T = self.lmda * self.mu if rng.random() < 0.5 else float(np.exp(rng.uniform(-2, 0.5))) * self.xunit
        # prior
        self.fwd = self.adj = lambda X: X
        if pk == "l1":
            T = self.T
            self.prox = lambda x: ref_soft(x, T)
            self.prior_value = lambda x: float(np.sum(np.abs(x)))
            self.prior = L1("synthesis", self.fwd, self.adj, T)
        elif pk == "l1vec":
            T = self.T * np.exp(rng.uniform(-1, 1, p))
            self.Tvec = T
            self.prox = lambda x: ref_soft(x, T)
            self.prior_value = lambda x: float(np.sum(np.abs(x)))
            self.prior = L1("synthesis", self.fwd, self.adj, T)
        elif pk == "l1ana":
            T = self.T
            r = int(rng.integers(1, p + 1))
            W = rand_unitary(rng, p, cx)[:r]  # W W^H = I
            self.W = W
            self.adj, self.fwd = (lambda X: W @ X), (lambda c: W.conj().T @ c)
            self.prox = lambda x: x + W.conj().T @ (ref_soft(W @ x, T) - W @ x)
            self.prior_value = lambda x: float(np.sum(np.abs(W @ x)))
            self.prior = L1("analysis", self.fwd, self.adj, T)
        elif pk == "quad":
            T = self.T / self.xunit
            self.prox = lambda x: x / (1 + T)
            self.prior_value = lambda x: 0.5 * float(np.sum(np.abs(x) ** 2))
            self.prior = CustomPrior(self.prior_value, self.prox)
        else:  # smooth, far from a shrinkage: order and signs matter
            c, v = rng.standard_normal(p) * self.xunit, self.xunit
            self.prox = lambda x: c + 0.5 * x / (1 + np.abs(x) / v) + 0.25 * np.roll(x, 1)
            self.prior_value = lambda x: float(np.sum(np.abs(x - c) ** 1.5))
            self.prior = CustomPrior(self.prior_value, self.prox)

    def describe(self):
        return dict(p=self.p, n=self.n, setting=self.setting, measurement=self.meas, prior=self.prior_kind,
                    sig_d=self.sig_kind, complex_params=self.complex_x, complex_data=self.complex_data,
                    real_operator=self.real_op, offset=round(self.offset, 1), units=(self.unit, self.xunit), dtypes=self.dtype_kind, lmda=round(self.lmda, 5), delta=round(self.delta, 6), mu=round(self.mu, 4))

    def signature(self):
        return (self.setting, self.meas, self.prior_kind, self.sig_kind, self.complex_x, self.complex_data, self.real_op, self.p, self.offset > 0, self.unit == 1, self.xunit == 1, self.dtype_kind)

    def operator(self, cls=RecordingOperator, budget=None):
        op = cls(self.data, self.sig, self.setting, transform=self.transform,
                 measurement=self.measurement, nparams=self.p)
        if cls is RecordingOperator:
            op.reset_log(budget)
        return op

    def params(self, **kw):
        d = dict(lmda=self.lmda, delta=self.delta, mu=self.mu, complex=self.complex_x, verbosity=0,
                 nsamples=10, nburn=0, ngap=0,
                 track=["logposterior", "L2", "prior", "chain", "predictions"])
        d.update(kw)
        return PxMCMCParams(**d)

    def start(self, rng, scale=1.0):
        x = self.centre + scale * self.xunit * randc(rng, self.p, self.complex_x)
        if self.dtype_kind == "real-start":
            return np.rint(x.real).astype(int) if rng.random() < 0.3 else np.real(x).copy()
        if self.dtype_kind == "strided":
            return np.repeat(x, 2)[::2]
        return x

    # references ---------------------------------------------------------
    def forward(self, x):
        return self.G @ x

    def L2(self, x):
        r = self.data - self.G @ x
        return float(np.real(np.vdot(r, self.Cinv @ r)))

    def logpi(self, x):
        return -self.mu * self.prior_value(x) - self.L2(x) / 2

    def gradg(self, x):
        g = self.G.conj().T @ (self.Cinv @ (self.G @ x - self.data))
        return g if self.complex_x else np.real(g)

    def gradlogpi(self, x):
        return -(x - self.prox(x)) / self.lmda - self.gradg(x)

    def stepscale(self, x, delta=None):
        """Size of the terms that cancel when a step is computed."""
        delta = self.delta if delta is None else delta
        if not hasattr(self, "_norms"):
            self._norms = float(np.linalg.norm(self.G, 2)), float(np.linalg.norm(self.Cinv, 2)), float(np.linalg.norm(self.data))
        gn, cn, dn = self._norms
        xn = float(np.linalg.norm(x))
        return xn * (1 + delta / self.lmda) + delta * gn * cn * (gn * xn + dn)

    def drift(self, x, delta=None):
        delta = self.delta if delta is None else delta
        return x + delta * self.gradlogpi(x)


# ---------------------------------------------------------------------------
# statistics with thresholds that honest randomness does not reach
ZMAX = 7.0


def normal_tests(case, w, monitor, resolution=0.0):
    """w: (N, p) array that should be i.i.d. standard normal, known up to
    rounding of the given resolution (a number, or one per row)."""
    from scipy import stats
    w = np.asarray(w, float)
    res = np.broadcast_to(resolution, len(w))
    w = w[res < 1e-4]  # rows that rounding has swamped say nothing
    if len(w) == 0:
        return
    fine = np.max(res[res < 1e-4]) < 1e-9
    N, p = w.shape
    n = N * p
    case.require(np.all(np.isfinite(w)), monitor, "noise is not finite")
    case.require(np.max(np.abs(w)) < 9.0, monitor, lambda: f"noise draw of {np.max(np.abs(w)):.2f} sigma")
    flat = w.ravel()
    z = flat.mean() * np.sqrt(n)
    case.require(abs(z) < ZMAX, monitor, f"noise mean off by {z:.1f} sigma")
    z = (np.mean(flat**2) - 1) * np.sqrt(n / 2)
    case.require(abs(z) < ZMAX, monitor, f"noise variance {np.mean(flat**2):.4f}, off by {z:.1f} sigma")
    z = np.mean(flat**3) * np.sqrt(n / 15)
    case.require(abs(z) < ZMAX + 2, monitor, f"noise skewness off by {z:.1f} sigma")
    z = (np.mean(flat**4) - 3) * np.sqrt(n / 96)
    case.require(abs(z) < ZMAX + 4, monitor, f"noise kurtosis off by {z:.1f} sigma")
    pv = stats.kstest(flat, "norm").pvalue
    case.require(pv > 1e-11, monitor, f"noise not normal, KS p={pv:.1e}")
    if N > 50:
        v = np.sum(w**2, axis=0)
        z = (v - N) / np.sqrt(2 * N)
        lim = ZMAX + 3 * np.sqrt(8.0 / N) * ZMAX
        case.require(np.max(np.abs(z)) < lim, monitor, f"variance of one coordinate off by {np.max(np.abs(z)):.1f} sigma")
        z = w.sum(axis=0) / np.sqrt(N)
        case.require(np.max(np.abs(z)) < ZMAX, monitor, f"mean of one coordinate off by {np.max(np.abs(z)):.1f} sigma")
        for lag in (1, 2):
            z = np.sum(w[lag:] * w[:-lag]) / np.sqrt((N - lag) * p)
            case.require(abs(z) < ZMAX, monitor, f"noise correlated at lag {lag}: {z:.1f} sigma")
        # fresh: no value is used twice, and any two coordinates (also at lags)
        # have independent signs and moduli (exact coin tests, Hoeffding)
        if fine:
            case.require(len(np.unique(np.abs(flat))) > 0.999 * n, monitor, "noise values repeat")
        m = min(p, 60)
        cols = np.sort(np.random.default_rng(N + p).choice(p, m, replace=False))
        for B in (np.sign(w[:, cols]), np.where(np.abs(w[:, cols]) > 0.6744897501960817, 1.0, -1.0)):
            for lag in (0, 1, 2, 3):
                a, b = B[lag:], B[: N - lag]
                z = a.T @ b / np.sqrt(N - lag)
                if lag == 0:
                    z = z - np.diag(np.diag(z))
                case.require(np.max(np.abs(z)) < ZMAX + 0.5, monitor, lambda: f"noise of two coordinates dependent at lag {lag}: {np.max(np.abs(z)):.1f} sigma")
        if p > 1:
            for sh in (1, p // 2) if p > 2 else (1,):
                prod = w * np.roll(w, sh, axis=1)
                if p == 2:
                    prod = prod[:, :1]
                elif 2 * sh == p:
                    prod = prod[:, :sh]
                z = prod.sum() / np.sqrt(prod.size)
                case.require(abs(z) < ZMAX, monitor, f"noise correlated across coordinates: {z:.1f} sigma")


def tail_stats(case, w, key="tail"):
    """Moments and tail counts of standard normal draws, to be pooled."""
    w = np.abs(np.asarray(w, float).ravel())
    case.stat(key, [w.size, float(np.sum(w**2)), float(np.sum(w**4))] + [int(np.sum(w > t)) for t in TAILS])


TAILS = (1e-3, 0.1, 1.0, 2.0, 3.0, 3.5, 4.0, 4.5)


def tail_decision(case, rows, monitor):
    """Pooled law of millions of draws: variance, kurtosis and tail masses."""
    from scipy import stats
    t = np.sum(np.array(rows, float).reshape(-1, 3 + len(TAILS)), axis=0)
    n = t[0]
    z2 = (t[1] / n - 1) * np.sqrt(n / 2)
    z4 = (t[2] / n - 3) * np.sqrt(n / 96)
    case.note(pooled_draws=int(n), variance_z=float(z2), kurtosis_z=float(z4))
    case.require(abs(z2) < ZMAX, monitor, f"variance of {n:.0f} pooled draws off by {z2:.1f} sigma")
    case.require(abs(z4) < ZMAX + 1, monitor, f"kurtosis of {n:.0f} pooled draws off by {z4:.1f} sigma")
    for thr, k in zip(TAILS, t[3:]):
        q = 2 * stats.norm.sf(thr)
        pv = 2 * min(stats.binom.cdf(k, n, q), stats.binom.sf(k - 1, n, q))
        case.require(pv > 1e-11, monitor, f"{k:.0f} of {n:.0f} draws beyond {thr} sigma, expected {n * q:.1f}")


class UniformSpy:
    """Watches (and optionally scripts) scalar uniform draws from numpy's global
    generator.  Code that draws in another way is simply not seen."""

    NAMES = ("rand", "random", "random_sample", "ranf", "sample", "uniform")

    def __init__(self, script=None):
        self.script, self.draws = script, []

    def _wrap(self, f):
        def g(*a, **k):
            v = f(*a, **k)
            if np.size(v) == 1 and not (a and f.__name__ == "uniform") and not (k and f.__name__ == "uniform"):
                if self.script is not None and len(self.draws) in self.script:
                    v = v * 0 + self.script[len(self.draws)]
                self.draws.append(float(np.ravel(v)[0]))
            return v
        return g

    def __enter__(self):
        self.orig = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        for n, f in self.orig.items():
            setattr(np.random, n, self._wrap(f))
        return self

    def __exit__(self, *exc):
        for n, f in self.orig.items():
            setattr(np.random, n, f)


def logu(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))
