"""C14: thresholding is the proximal map it claims to be."""
import numpy as np

from pxmcmc.utils import hard, soft
from vmon.core import Check, Guarded, refilled
from vmon.problems import logu, randc

check = Check(
    "C14",
    "vectors (real, complex, integer, 1-3 dimensional, with zeros, ties at the threshold, signed zeros and magnitudes from "
    "1e-280 to 1e280) and scalar or per-element thresholds; each call is checked against the optimality condition, the "
    "closed form, random competitors and non-expansiveness; distinct by kind of input, threshold and size",
    ["relative rounding of 1e-12"],
)
check.require_monitors("soft-closed-form", "soft-optimality", "soft-beats-competitors", "nonexpansive", "zero-at-tie", "hard-keeps-largest",
                       "hard-count", "inputs-unmodified")


def rand_input(rng, kind, n):
    cplx = kind.startswith("complex")
    x = randc(rng, n, cplx)
    if "extreme" in kind:
        x = x * 10.0 ** rng.uniform(-280, 280, n)
    elif "wide" in kind:
        x = x * 10.0 ** rng.uniform(-6, 6, n)
    if kind == "int":
        x = rng.integers(-5, 6, n)
    if n > 2 and rng.random() < 0.6:
        x[rng.integers(n)] = 0
        if kind != "int" and not cplx:
            x[rng.integers(n)] = -0.0
    return x


KINDS = ("real", "complex", "real-wide", "complex-wide", "real-extreme", "complex-extreme", "int")


@check.workload(quick=2100, thorough=20000)
def soft_threshold(case):
    rng = case.rng
    kind = KINDS[case.index % len(KINDS)]
    n = int(rng.choice([1, 2, 5, 30, 64, 300, int(rng.integers(2, 5000))]))
    x = rand_input(rng, kind, n)
    a = np.abs(x)
    mode = int(rng.integers(8))
    if mode == 0:
        T = logu(rng, 1e-2, 3.0)
    elif mode == 1:
        T = np.abs(rng.standard_normal(n)) * 10.0 ** rng.uniform(-3, 3)
    elif mode == 2:
        T = float(np.median(a))  # ties
    elif mode == 3:
        T = a.copy() * rng.choice([1.0, 0.5, 2.0], n)  # ties per element
    elif mode == 4:
        T = 0.0
    elif mode == 5:
        T = int(rng.integers(0, 4))
    elif mode == 6:
        T = float(np.max(a)) * 1.01
    else:
        T = a * (1 + 10.0 ** rng.uniform(-11, -2, n) * rng.choice([-1, 1], n))  # close to a tie
        T = T if rng.integers(2) else float(T[rng.integers(n)])
    shape = (n,)
    if n == 30 and rng.integers(2):
        shape = (5, 6) if rng.integers(2) else (2, 3, 5)
        x = x.reshape(shape)
        a = np.abs(x)
        if np.ndim(T):
            T = T.reshape(shape)
    g = Guarded(x=x, T=T)
    y = soft(x, T)
    g.verify(case)
    case.require(np.shape(y) == shape, "soft-closed-form", f"shape {np.shape(y)} for {shape}")
    case.require(np.all(np.isfinite(y)), "soft-closed-form", "not finite")
    case.require(np.iscomplexobj(y) == np.iscomplexobj(x), "soft-closed-form", f"dtype {y.dtype} for {x.dtype}")
    Tb = np.broadcast_to(np.asarray(T, float), shape)
    below = a <= Tb
    # at an exact tie of a complex entry its modulus is only known to rounding
    tie = np.abs(a - Tb) <= 8e-16 * a if np.iscomplexobj(x) else np.zeros(shape, bool)
    case.require(np.all((y[below] == 0) | (tie[below] & (np.abs(y[below]) <= 4e-15 * a[below]))), "zero-at-tie", lambda: f"modulus <= T kept: {x[below][y[below] != 0][:3]}")
    nz = ~below
    if nz.any():
        # same phase, modulus reduced by T
        xs, ys, Ts, as_ = x[nz], y[nz], Tb[nz], a[nz]
        want = (as_ - Ts) / as_ * xs
        err = np.abs(ys - want)
        case.require(np.all(err <= 1e-12 * as_), "soft-closed-form", lambda: f"x={xs[np.argmax(err / as_)]!r} T={Ts[np.argmax(err / as_)]!r} gives {ys[np.argmax(err / as_)]!r}, expected {want[np.argmax(err / as_)]!r}")
        # optimality: x - y = T y/|y|
        pos = np.abs(ys) > 1e-9 * as_
        sub = xs[pos] - ys[pos] - Ts[pos] * (ys[pos] / np.abs(ys[pos]))
        case.require(np.all(np.abs(sub) <= 1e-5 * as_[pos]), "soft-optimality", "x - y is not T times the phase of y")
    if "extreme" not in kind:
        xf, yf, tf = x.ravel(), np.asarray(y).ravel(), Tb.ravel()
        obj = lambda z: 0.5 * np.abs(z - xf) ** 2 + tf * np.abs(z)
        base = obj(yf)
        for z in (0 * xf, xf, yf * 0.9, yf * 1.1, yf + randc(rng, xf.size, np.iscomplexobj(x)) * 0.1 * (1 + np.abs(xf)), -yf, np.conj(yf) if np.iscomplexobj(x) else yf * 0.5):
            case.require(np.all(base <= obj(z) + 1e-11 * (np.abs(xf) ** 2 + tf * np.abs(xf) + 1e-300)), "soft-beats-competitors", "a competitor has a lower objective")
        x2 = rand_input(rng, kind, xf.size).reshape(shape)
        y2 = soft(x2, T)
        d, d0 = np.linalg.norm((y2 - y).ravel()), np.linalg.norm((x2 - x).ravel())
        case.require(d <= d0 * (1 + 1e-11) + 1e-300, "nonexpansive", f"distance grows from {d0} to {d}")
        case.require(np.all(np.abs(y2 - y) <= np.abs(x2 - x) * (1 + 1e-9) + 1e-9 * (np.abs(x) + np.abs(x2))), "nonexpansive", "distance of one entry grows")
    # the result is a new array
    case.require(not np.shares_memory(y, x), "inputs-unmodified", "result is a view of the input")
    case.close(soft(x, T), y, "soft-closed-form", rtol=1e-14, scale=a + 1e-300, detail="(second call)")
    # strided and transposed views, one buffer refilled between calls
    big = np.repeat(x.ravel(), 2).reshape(-1, 2)[:, 0]
    Tf = T.ravel() if np.ndim(T) else T
    case.close(soft(big, Tf), np.ravel(y), "soft-closed-form", rtol=1e-14, scale=a.ravel() + 1e-300, detail="(strided input)")
    if x.ndim > 1:
        case.close(soft(x.T, T.T if np.ndim(T) else T), np.asarray(y).T, "soft-closed-form", rtol=1e-14, scale=a.T + 1e-300, detail="(transposed input)")
    refilled(case, lambda v: soft(v, T), [x, x[::-1]], "soft-closed-form", rtol=1e-13)
    if np.ndim(T):
        refilled(case, lambda v: soft(x, v), [T, np.ascontiguousarray(T[::-1])], "soft-closed-form", rtol=1e-13)
    if "extreme" not in kind and kind != "int":
        lo = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
        dev = np.max(np.abs(soft(lo, T) - soft(lo.astype(x.dtype), T)))
        case.require(dev <= 1e-5 * float(np.max(a)) + 1e-6 * float(np.max(Tb)), "soft-closed-form", f"single precision deviates by {dev}")
    case.sig(kind, mode, n, len(shape))
    case.note(kind=kind, n=n, threshold_mode=mode)


@check.workload(quick=1200, thorough=10000)
def hard_threshold(case):
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 7, 10, 40, 101, int(rng.integers(2, 3000))]))
    cplx = bool(case.index % 2)
    mod = np.cumsum(rng.uniform(0.1, 1, n)) * logu(rng, 1e-6, 1e6)  # distinct
    if rng.random() < 0.25:  # distinct, but nearly tied
        mod = logu(rng, 1e-6, 1e6) * (1 + 1e-12 * np.arange(n))
    mod = mod[rng.permutation(n)]
    if rng.random() < 0.2:
        mod[np.argmin(mod)] = 0.0
    x = mod * (np.exp(1j * rng.uniform(0, 2 * np.pi, n)) if cplx else rng.choice([-1.0, 1.0], n))
    k = int(rng.integers(0, n + 1))
    frac = 1.0 if k == n else (k + float(rng.choice([0.25, 0.5, 0.75]))) / n
    if k == 0 and rng.integers(2):
        frac = 0.0
    g = Guarded(x=x)
    a = np.abs(x)
    y = hard(x, frac)
    g.verify(case)
    order = np.argsort(-a)
    want = np.zeros_like(x)
    want[order[:k]] = x[order[:k]]
    case.require(np.shape(y) == (n,), "hard-count", f"shape {np.shape(y)}")
    case.equal(y, want, "hard-keeps-largest", f"(keep {k} of {n}, fraction {frac})")
    case.require(np.count_nonzero(y) == np.count_nonzero(want), "hard-count", f"{np.count_nonzero(y)} kept instead of {k}")
    refilled(case, lambda v: hard(v, frac), [x, x[::-1], 2 * x], "hard-keeps-largest", rtol=0)
    case.sig(n, k, cplx)
    case.note(n=n, keep=k, fraction=frac, complex=cplx)


@check.workload(quick=20, thorough=100)
def defaults(case):
    rng = case.rng
    x = randc(rng, 25, bool(case.index % 2))
    case.equal(soft(x), soft(x, 0.1), "soft-closed-form", "default threshold")
    case.require(np.count_nonzero(hard(x)) == 2, "hard-count", "default fraction")
    case.close(soft(list(x), 0.3), soft(x, 0.3), "soft-closed-form", rtol=1e-15)
    case.sig(case.index)
