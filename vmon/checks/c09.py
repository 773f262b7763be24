"""C09: the gradient belongs to the Gaussian data fidelity."""
import numpy as np
from scipy import sparse

from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.measurements import Identity, PathIntegral
from pxmcmc.transforms import IdentityTransform
from vmon.core import Check, Guarded, refilled, many_calls
from vmon.problems import MatrixMeasurement, MatrixTransform, Problem, logu, randc
from vmon.sphere import SphereProblem, bandlimits, npix, rand_tiling

check = Check(
    "C09",
    "user-defined and shipped forward operators (wavelets, path integrals, weak lensing; analysis/synthesis; real/complex; "
    "scalar/vector/covariance errors), random and structured points and directions; the returned gradient is compared with "
    "exact second differences of the operator's own misfit and with dense references; distinct by operator, setting, error "
    "kind and complexity",
    ["g is quadratic, so its central difference is exact up to rounding"],
)
check.require_monitors("directional-derivative", "reference-gradient", "forward-composition", "nparams", "rejects-setting", "inputs-unmodified")


def misfit(op, x, Cinv, data):
    r = op.forward(x) - data
    return 0.5 * float(np.real(np.vdot(r, Cinv @ r)))


def check_gradient(case, op, G, Cinv, data, p, cplx, rng, npts=2, centre=None):
    gn = float(np.linalg.norm(G, 2)) + 1e-300
    cn = float(np.linalg.norm(Cinv, 2))
    for _ in range(npts):
        x = randc(rng, p, cplx) * logu(rng, 1e-2, 1e2)
        k = rng.integers(4)
        if k == 0:
            x = np.zeros_like(x)
        elif k == 1:
            e = np.zeros_like(x)
            e[rng.integers(p)] = 1
            x = e
        if centre is not None and np.any(centre) and rng.random() < 0.8:
            x = centre + x * logu(rng, 1e-3, 1)
        gx = Guarded(x=x)
        preds = op.forward(x)
        gx.verify(case)
        want_p = G @ x
        case.close(preds, want_p, "forward-composition", rtol=1e-8, scale=1e-300 + gn * (np.linalg.norm(x) + 1e-12))
        gp = Guarded(preds=preds)
        grad = op.calc_gradg(preds)
        gp.verify(case)
        case.require(np.shape(grad) == (p,), "reference-gradient", f"gradient of shape {np.shape(grad)} for {p} parameters")
        want = G.conj().T @ (Cinv @ (G @ x - data))
        scale = gn * cn * (gn * np.linalg.norm(x) + np.linalg.norm(data)) + 1e-300
        case.close(grad, want, "reference-gradient", rtol=1e-11, scale=scale)
        refilled(case, op.forward, [x, x[::-1], 2 * x], "forward-composition", floor=1e-3 * gn * np.linalg.norm(x))
        if case.index % 64 == 1:
            many_calls(case, op.forward, x, x[::-1].copy(), "forward-composition", floor=1e-3 * gn * np.linalg.norm(x))
            many_calls(case, op.calc_gradg, preds, 2 * preds, "reference-gradient", floor=1e-3 * scale)
        refilled(case, op.calc_gradg, [preds, preds[::-1], 2 * preds], "reference-gradient", floor=1e-3 * scale)
        # the operator against itself: g(x+u) - g(x-u) = 2 Re<grad, u>, g quadratic
        for _ in range(2):
            u = randc(rng, p, cplx)
            if rng.integers(2):
                e = np.zeros_like(u)
                e[rng.integers(p)] = 1j if (cplx and rng.integers(2)) else 1
                u = e
            u = u * (np.linalg.norm(x) + 1) / np.linalg.norm(u)
            gp_, gm_ = misfit(op, x + u, Cinv, data), misfit(op, x - u, Cinv, data)
            d = (gp_ - gm_) / 2
            case.close(float(np.real(np.vdot(grad, u))), d, "directional-derivative", rtol=1e-9,
                       scale=abs(gp_) + abs(gm_) + scale * np.linalg.norm(u) * 1e-1 + 1e-300)


@check.workload(quick=1600, thorough=16000)
def custom_operators(case):
    rng = case.rng
    big = rng.random() < 0.08
    pr = Problem(rng, p=int(rng.integers(30, 200)), n=int(rng.integers(20, 200))) if big else Problem(rng)
    guard = Guarded(data=pr.data, sig=pr.sig, A=pr.A, M=pr.M)
    op = pr.operator(cls=ForwardOperator)
    case.require(op.nparams == pr.p, "nparams", f"{op.nparams} != {pr.p}")
    check_gradient(case, op, pr.G, pr.Cinv, pr.data, pr.p, pr.complex_x, rng, centre=pr.centre)
    # predictions close to the data, or partly so: the residual is what counts
    near = pr.data * (1 + 10.0 ** rng.uniform(-12, 0, pr.n) * randc(rng, pr.n, np.iscomplexobj(pr.data)))
    if rng.integers(2):
        near = pr.data * (1 + 10.0 ** rng.uniform(-13, -4) * randc(rng, pr.n, np.iscomplexobj(pr.data)))
    r = near - pr.data
    want = pr.G.conj().T @ (pr.Cinv @ r)
    sc = float(np.linalg.norm(pr.G, 2) * np.linalg.norm(pr.Cinv, 2) * np.linalg.norm(r)) + 1e-300
    case.close(op.calc_gradg(near), want, "reference-gradient", rtol=1e-11, scale=sc, detail="(predictions close to the data)")
    guard.verify(case)
    case.sig(*pr.signature())
    case.note(**pr.describe())


@check.workload(quick=160, thorough=3000)
def sphere_operators(case):
    rng = case.rng
    kind = SphereProblem.KINDS[case.index % 5]
    pr = SphereProblem(rng, kind=kind, Lmax=6 if case.tier == "thorough" else 5)
    guard = Guarded(data=pr.data, sig=pr.sig)
    case.require(pr.op.nparams == pr.p, "nparams", f"{pr.op.nparams} parameters, the space has {pr.p}")
    cplx = bool(rng.integers(2))
    check_gradient(case, pr.op, pr.G, pr.Cinv, pr.data, pr.p, cplx, rng)
    guard.verify(case)
    case.sig(*pr.signature(), cplx)
    case.note(**pr.describe())


@check.workload(quick=60, thorough=800)
def large_bandlimits(case):
    """No dense matrix: the operator against its own quadratic form."""
    rng = case.rng
    L, B, J = rand_tiling(rng, 8, 20)
    setting = ("analysis", "synthesis")[case.index % 2]
    path = bool(case.index // 2 % 2)
    dirs = int(rng.choice([1, 1, 2, 3]))
    n = int(rng.integers(3, 30)) if path else npix(L)
    data = randc(rng, n, path)
    sig = 0.5 + rng.random(n)
    if path:
        P = sparse.random(n, npix(L), 0.1, format="csr", random_state=int(rng.integers(2**31))) + 0j
        P = P.multiply(np.exp(1j * rng.uniform(0, 6, (n, 1)))).tocsr()
        op = PathIntegralOperator(P, data, sig, setting, L, B, J, dirs=dirs)
    else:
        op = SphericalWaveletTransformOperator(data, sig, setting, L, B, J, dirs=dirs)
    p = op.nparams
    if setting == "analysis":
        case.require(p == npix(L), "nparams", f"{p} parameters in the analysis setting")
    elif dirs == 1:
        case.require(p == sum(npix(b) for b in bandlimits(L, B, J)), "nparams", f"{p} parameters in the synthesis setting")
    Cinv = sparse.diags(1 / sig**2)
    for cplx in (False, True):
        x, u = randc(rng, p, cplx), randc(rng, p, cplx)
        grad = op.calc_gradg(op.forward(x))
        gp_, gm_ = misfit(op, x + u, Cinv, data), misfit(op, x - u, Cinv, data)
        case.close(float(np.real(np.vdot(grad, u))), (gp_ - gm_) / 2, "directional-derivative", rtol=1e-9, scale=abs(gp_) + abs(gm_))
        case.close(grad, op.calc_gradg(op.forward(x)), "reference-gradient", rtol=1e-12)
    case.sig(L, B, J, setting, path, dirs)
    case.note(L=L, B=B, J_min=J, setting=setting, path=path, dirs=dirs)


@check.workload(quick=40, thorough=200)
def settings(case):
    rng = case.rng
    data = rng.standard_normal(5)
    for bad in ("Analysis", "synth", "", None, 3, "analysis "):
        case.raises(ValueError, lambda: ForwardOperator(data, 1.0, bad, transform=IdentityTransform(), measurement=Identity(5, 5), nparams=5), "rejects-setting", f"({bad!r})")
    # the two settings of one operator differ exactly by the transform
    A, M = randc(rng, (5, 6), True), randc(rng, (6, 4), True)
    data = randc(rng, 5, True)
    kw = dict(transform=MatrixTransform(M), measurement=MatrixMeasurement(A))
    an = ForwardOperator(data, 0.7, "analysis", nparams=6, **kw)
    sy = ForwardOperator(data, 0.7, "synthesis", nparams=4, **kw)
    x = randc(rng, 4, True)
    case.close(sy.forward(x), an.forward(M @ x), "forward-composition", rtol=1e-11)
    case.close(sy.calc_gradg(sy.forward(x)), M.conj().T @ an.calc_gradg(an.forward(M @ x)), "reference-gradient", rtol=1e-11)
    # real data and parameters do not make the operator real
    re = ForwardOperator(data.real.copy(), 0.7, "synthesis", nparams=4, **kw)
    f = re.forward(x.real)
    case.close(f, A @ (M @ x.real), "forward-composition", rtol=1e-11)
    case.close(re.calc_gradg(f), M.conj().T @ (A.conj().T @ (f - data.real)) / 0.49, "reference-gradient", rtol=1e-11)
    # perfect predictions have zero gradient
    case.require(np.max(np.abs(sy.calc_gradg(data.copy()))) == 0, "reference-gradient", "gradient at the data is not zero")
    P = sparse.csr_matrix(A)
    op = ForwardOperator(data, 0.7, "analysis", measurement=PathIntegral(P), nparams=6)
    y = randc(rng, 6, True)
    case.close(op.forward(y), A @ y, "forward-composition", rtol=1e-11)
    case.sig(case.index)
