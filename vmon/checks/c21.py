"""C21: Chebyshev functions evaluate the Chebyshev polynomials."""
import numpy as np

from pxmcmc.utils import cheb1der, chebyshev1, chebyshev2
from vmon.core import Check, Guarded
from vmon.problems import logu, randc

check = Check(
    "C21",
    "orders 0 to 20 (25 thorough) at points inside, outside and at the ends of [-1,1], complex points, integers, scalars and "
    "arrays; compared with trigonometric and hyperbolic closed forms, exact integer recurrences and central differences; "
    "distinct by order and kind of point",
    ["orders bounded by the exponential cost of the recursion under test"],
)
check.require_monitors("first-kind", "second-kind", "derivative", "exact-integers", "rejects-negative", "hyperbolic", "complex-points",
                       "array-points", "inputs-unmodified")


def exact(x, n, second=False):
    """Integer/complex recurrence, forwards."""
    a, b = 1, (2 * x if second else x)
    if n == 0:
        return a
    for _ in range(n - 1):
        a, b = b, 2 * x * b - a
    return b


@check.workload(quick=400, thorough=4000)
def points(case):
    rng = case.rng
    top = 20 if case.tier == "quick" else 25
    n = case.index % (top + 1)
    # inside
    t = float(rng.uniform(0.01, np.pi - 0.01))
    x = np.cos(t)
    tol = 1e-9
    case.close(chebyshev1(x, n), np.cos(n * t), "first-kind", rtol=tol, scale=1 + n * n / max(np.sin(t), 1e-2) * 1e-3, detail=f"(T_{n}({x}))")
    case.close(chebyshev2(x, n) * np.sin(t), np.sin((n + 1) * t), "second-kind", rtol=tol, scale=1.0 + n, detail=f"(U_{n}({x}))")
    if n > 0:
        case.close(cheb1der(x, n) * np.sin(t), n * np.sin(n * t), "derivative", rtol=tol, scale=1.0 + n * n, detail=f"(T'_{n}({x}))")
    else:
        case.close(cheb1der(x, 0), 0, "derivative", atol=0, detail="(order 0)")
    # ends
    for s in (1, -1, 1.0, -1.0):
        case.close(chebyshev1(s, n), float(s) ** n, "first-kind", rtol=1e-12, scale=1.0, detail=f"(T_{n}({s}))")
        case.close(chebyshev2(s, n), (n + 1) * float(s) ** n, "second-kind", rtol=1e-12, scale=n + 1.0)
        case.close(cheb1der(s, n), n * n * float(s) ** (n + 1), "derivative", rtol=1e-12, scale=1.0 + n * n)
    # outside
    u = float(rng.uniform(0.05, 3))
    for sg in (1, -1):
        x = sg * np.cosh(u)
        case.close(chebyshev1(x, n), sg**n * np.cosh(n * u), "hyperbolic", rtol=1e-9, detail=f"(T_{n}({x}))")
        case.close(chebyshev2(x, n), sg**n * np.sinh((n + 1) * u) / np.sinh(u), "hyperbolic", rtol=1e-9, detail=f"(U_{n}({x}))")
        case.close(cheb1der(x, n), sg ** (n + 1) * n * np.sinh(n * u) / np.sinh(u), "hyperbolic", rtol=1e-9, detail=f"(T'_{n}({x}))", scale=None if n else 1.0)
    # close to one, where SK-ROCK evaluates
    x = 1 + 0.05 / (max(n, 1) ** 2)
    u = np.arccosh(x)
    case.close(chebyshev1(x, n), np.cosh(n * u), "hyperbolic", rtol=1e-9)
    case.close(cheb1der(x, n), n * np.sinh(n * u) / np.sinh(u), "hyperbolic", rtol=1e-8, scale=1.0 + n * n)
    # far outside, tiny and zero
    u = float(rng.uniform(3, 12))
    x = np.cosh(u)
    case.close(chebyshev1(x, n), np.cosh(n * u), "hyperbolic", rtol=1e-9, detail=f"(T_{n}({x}))")
    case.close(chebyshev2(-x, n), (-1) ** n * np.sinh((n + 1) * u) / np.sinh(u), "hyperbolic", rtol=1e-9, detail=f"(U_{n}({-x}))")
    for x in (0.0, -0.0, 1e-9, -1e-200):
        case.close(chebyshev1(x, n), np.cos(n * (np.pi / 2 - x)), "first-kind", rtol=1e-9, scale=1.0, detail=f"(T_{n}({x}))")
        case.close(chebyshev2(x, n), np.sin((n + 1) * (np.pi / 2 - x)), "second-kind", rtol=1e-9, scale=1.0, detail=f"(U_{n}({x}))")
    for x in (np.float64(0.7), np.array(0.7)):
        case.close(chebyshev1(x, n), np.cos(n * np.arccos(0.7)), "first-kind", rtol=1e-9, scale=1.0 + n, detail=f"(T_{n} of a {type(x).__name__})")
    # complex
    w = complex(rng.uniform(0, np.pi), rng.uniform(-1.5, 1.5))
    x = np.cos(w)
    sc = float(np.cosh((n + 1) * abs(w.imag)))
    case.close(chebyshev1(x, n), np.cos(n * w), "complex-points", rtol=1e-8, scale=sc * (1 + n), detail=f"(T_{n}({x}))")
    case.close(chebyshev2(x, n) * np.sin(w), np.sin((n + 1) * w), "complex-points", rtol=1e-8, scale=sc * (1 + n))
    case.close(cheb1der(x, n) * np.sin(w), n * np.sin(n * w), "complex-points", rtol=1e-8, scale=sc * (1 + n) ** 2)
    # integers, python and numpy
    for x in (0, 2, -3, int(rng.integers(-50, 50)), 10**6 + 1):
        a, b, c = chebyshev1(x, n), chebyshev2(x, n), cheb1der(x, n)
        case.require(a == exact(x, n) and isinstance(a, int), "exact-integers", f"T_{n}({x}) = {a!r}")
        case.require(b == exact(x, n, True) and isinstance(b, int), "exact-integers", f"U_{n}({x}) = {b!r}")
        case.require(c == (n * exact(x, n - 1, True) if n else 0), "exact-integers", f"T'_{n}({x}) = {c!r}")
    # arrays
    cplx = bool(rng.integers(2))
    X = randc(rng, (3, 4) if rng.integers(2) else (5,), cplx)
    g = Guarded(X=X)
    for f, r in ((chebyshev1, lambda v: exact(v, n)), (chebyshev2, lambda v: exact(v, n, True)), (cheb1der, lambda v: n * exact(v, n - 1, True) if n else 0)):
        got = np.broadcast_to(f(X, n), X.shape)
        want = np.array([r(v) for v in X.ravel()]).reshape(X.shape)
        sc = (1 + n) ** 2 * (1 + 2 * np.max(np.abs(X))) ** n
        case.close(got, want, "array-points", rtol=1e-11, scale=sc)
    g.verify(case)
    Xi = rng.integers(-2, 3, 4)
    case.equal(np.broadcast_to(chebyshev1(Xi, n), 4), [exact(int(v), n) for v in Xi], "exact-integers", "(array)")
    case.sig(n, case.index // 21 % 8)
    case.note(order=n)


@check.workload(quick=20, thorough=60)
def orders(case):
    for f in (chebyshev1, chebyshev2, cheb1der):
        for n in (-1, -2, -10):
            for x in (0.3, 2, np.array([0.1, 0.2])):
                case.raises(ValueError, lambda: f(x, n), "rejects-negative", f"({f.__name__}, order {n})")
        # numpy integer orders
        case.close(f(0.3, np.int64(5)), f(0.3, 5), "first-kind", rtol=1e-14)
    case.sig(0)
