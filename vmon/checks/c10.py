"""C10: all ways of stating the data errors mean the same thing."""
import numpy as np

from pxmcmc.forward import ForwardOperator
from pxmcmc.mcmc import MYULA, PxMALA, SKROCK
from vmon.core import Check, Guarded
from vmon.problems import CustomPrior, MatrixMeasurement, Problem, logu, randc

check = Check(
    "C10",
    "for random data (real/complex, 1 to 12 points) and errors over many orders of magnitude, operators built from the scalar, "
    "vector and covariance form of the same error are compared through gradient, log posterior and sampled chains; malformed "
    "errors must be refused; distinct by number of data, complexity, kind of equivalence and magnitude decade",
    ["gradient and log posterior are the only observable uses of the errors"],
)
check.require_monitors("equivalent-gradient", "equivalent-logposterior", "matches-definition", "misfit-real", "rejects-nonsquare",
                       "rejects-length", "equivalent-chain", "inputs-unmodified")


def op_for(sig, data, A):
    return ForwardOperator(data, sig, "analysis", measurement=MatrixMeasurement(A), nparams=A.shape[1])


def logpi(op, x):
    pr = CustomPrior(lambda X: 0.0, lambda X: X)
    from pxmcmc.mcmc import PxMCMCParams
    mc = MYULA(op, pr, PxMCMCParams(nsamples=1, complex=True))
    return mc.logpi(x, op.forward(x))


@check.workload(quick=1600, thorough=16000)
def equivalences(case):
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 5, 12, 12, 80]))
    p = int(rng.integers(1, 6))
    cplx = bool(case.index % 2)
    data = randc(rng, n, cplx) * logu(rng, 1e-3, 1e3)
    dk = str(rng.choice(["plain", "plain", "single", "int", "strided"]))
    if dk == "single":
        data = data.astype(np.complex64 if cplx else np.float32)
    elif dk == "int" and not cplx:
        data = np.rint(data).astype(int)
    elif dk == "strided":
        data = np.repeat(data, 2)[::2]
    A = randc(rng, (n, p), cplx)
    x = randc(rng, p, cplx)
    sigma = logu(rng, 1e-8, 1e8)
    mode = case.index // 2 % 4
    if mode == 0:  # scalar forms
        forms = {"float": sigma, "np.float64": np.float64(sigma), "vector": np.full(n, sigma), "cov": np.eye(n) * sigma**2}
        C = np.eye(n) * sigma**2
    elif mode == 1:  # integers
        k = int(rng.integers(1, 9))
        forms = {"int": k, "float": float(k), "int vector": np.full(n, k), "vector": np.full(n, float(k)),
                 "int cov": np.eye(n, dtype=int) * k**2, "cov": np.eye(n) * float(k) ** 2}
        C = np.eye(n) * float(k) ** 2
    elif mode == 2:  # heteroscedastic
        v = sigma * np.exp(rng.uniform(-2, 2, n) * float(rng.choice([1, 1, 3, 5])))
        forms = {"vector": v, "cov": np.diag(v**2), "strided": np.repeat(v, 2)[::2], "negative": v * np.where(np.arange(n) % 2, -1, 1)}
        C = np.diag(v**2)
    else:  # full covariance
        R = randc(rng, (n, n), cplx and bool(rng.integers(2)))
        C = sigma**2 * (np.eye(n) * 0.5 + R @ R.conj().T / n)
        forms = {"cov": C, "fortran": np.asfortranarray(C)}
    Cinv = np.linalg.inv(C)
    r = A @ x - data
    wantg = A.conj().T @ (Cinv @ r)
    wantL = float(np.real(np.vdot(r, Cinv @ r)))
    cs = float(np.linalg.norm(Cinv, 2) * np.linalg.norm(r)) + 1e-300
    out = {}
    for name, sig in forms.items():
        guard = Guarded(sig=sig, data=data, A=A)
        op = op_for(sig, data, A)
        g = op.calc_gradg(op.forward(x))
        lp, l2, _ = logpi(op, x)
        guard.verify(case)
        for q, what in ((lp, "log posterior"), (l2, "misfit")):
            case.require(np.ndim(q) == 0 and abs(np.imag(q)) <= 1e-9 * abs(q) + 1e-300, "misfit-real", f"{what} is {q}")
        case.require(np.real(l2) >= 0, "misfit-real", f"negative misfit {l2}")
        case.close(g, wantg, "matches-definition", rtol=1e-8, scale=cs * np.linalg.norm(A), detail=f"(gradient, {name}, sigma={sigma:.1e})")
        case.close(np.real(l2), wantL, "matches-definition", rtol=1e-8, scale=cs * np.linalg.norm(r) + 1e-300, detail=f"(misfit, {name})")
        case.close(np.real(lp), -wantL / 2, "matches-definition", rtol=1e-8, scale=cs * np.linalg.norm(r) + 1e-300, detail=f"(log posterior, {name})")
        out[name] = (g, lp)
        if mode < 3:  # every datum has its own error, whatever the others are
            y = randc(rng, n, cplx)
            ge = op_for(sig, data, np.eye(n)).calc_gradg(y)
            c = np.real(np.diag(C))
            for i in range(n):
                case.close(ge[i], (y[i] - data[i]) / c[i], "matches-definition", rtol=1e-9, scale=(abs(y[i]) + abs(data[i])) / c[i] + 1e-300, detail=f"(datum {i}, {name})")
    # another operator's errors, the same numbers in another order, are its own
    perm = rng.permutation(n)
    for what in (C[np.ix_(perm, perm)], np.sqrt(np.real(np.diag(C)))[perm]) if mode >= 2 and n > 1 else ():
        Ci = np.linalg.inv(what) if what.ndim == 2 else np.diag(1 / what**2)
        cp = float(np.linalg.norm(Ci, 2) * np.linalg.norm(r)) + 1e-300
        op = op_for(what, data, A)
        case.close(op.calc_gradg(op.forward(x)), A.conj().T @ (Ci @ r), "matches-definition", rtol=1e-8, scale=cp * np.linalg.norm(A), detail="(errors in another order)")
    ref = next(iter(out))
    for name in out:
        case.close(out[name][0], out[ref][0], "equivalent-gradient", rtol=1e-9, scale=cs * np.linalg.norm(A), detail=f"({name} vs {ref})")
        case.close(out[name][1], out[ref][1], "equivalent-logposterior", rtol=1e-9, scale=cs * np.linalg.norm(r) + 1e-300, detail=f"({name} vs {ref})")
    case.sig(n, cplx, mode, int(np.log10(sigma)), dk)
    case.note(n=n, complex=cplx, forms=list(forms), sigma=sigma)


@check.workload(quick=60, thorough=1500)
def chains(case):
    """Whole runs of equivalent statements agree."""
    rng = case.rng
    cls = (MYULA, PxMALA, SKROCK)[case.index % 3]
    cd = bool(rng.integers(2))
    pr = Problem(rng, sig="float", complex_x=cd and bool(rng.integers(2)), complex_data=cd)
    x0 = pr.start(rng)
    out = []
    for sig in (pr.sig, np.full(pr.n, pr.sig), np.eye(pr.n) * pr.sig**2):
        op = ForwardOperator(pr.data, sig, pr.setting, transform=pr.transform, measurement=pr.measurement, nparams=pr.p)
        mc = cls(op, pr.prior, pr.params(nsamples=6, s=2))
        np.random.seed(case.npseed)
        mc.run(x0)
        out.append(mc)
    for mc in out[1:]:
        if cls is PxMALA and list(mc.acceptance_trace) != list(out[0].acceptance_trace):
            case.seen("rounding-flip")
            continue
        case.close(mc.chain, out[0].chain, "equivalent-chain", rtol=1e-8, scale=1 + np.max(np.abs(out[0].chain)))
        case.close(mc.logPi, out[0].logPi, "equivalent-chain", rtol=1e-7, scale=1 + np.max(np.abs(out[0].logPi)))
    case.sig(cls.__name__, *pr.signature())
    case.note(**pr.describe())


@check.workload(quick=100, thorough=2000)
def malformed(case):
    rng = case.rng
    n = int(rng.integers(2, 9))
    cplx = bool(case.index % 2)
    data = randc(rng, n, cplx)
    A = randc(rng, (n, 3), cplx)
    for m in (n - 1, n + 1, 2 * n, 1):
        if m != n and m > 0:
            case.raises(TypeError, lambda: op_for(np.ones(m), data, A), "rejects-length", f"({m} errors for {n} data)")
    for shape in ((n, n + 1), (n + 1, n), (n, 1), (1, n), (n, 2 * n)):
        if shape[0] != shape[1]:
            case.raises(ValueError, lambda: op_for(np.ones(shape), data, A), "rejects-nonsquare", f"(matrix {shape})")
    case.sig(n, cplx)
    case.note(n=n)
