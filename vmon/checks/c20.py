"""C20: credible intervals and regions have their nominal content."""
import numpy as np

from pxmcmc.uncertainty import credible_interval_range, credible_region_threshold, in_credible_region, wavelet_credible_interval_range
from vmon.core import Check, Guarded, refilled
from vmon.problems import logu
from vmon.sphere import bandlimits, npix, rand_tiling

check = Check(
    "C20",
    "chains of 1 to 20000 samples with ties, repeated states, outliers, many scales and orders, alpha from 0 to 1, round values and others; "
    "intervals against an explicit sorted-sample formula, region membership counted sample by sample; distinct by chain shape, "
    "alpha and kind of samples",
    ["quantiles are linearly interpolated order statistics"],
)
check.require_monitors("interval-quantiles", "own-samples", "order-independent", "region-content", "region-is-highest", "maximum-included",
                       "scale-maps", "inputs-unmodified")
ALPHAS = (0.05, 0.01, 0.001, 0.32, 0.5, 0.9, 0.999)


def level(rng):
    k = rng.integers(4)
    if k < 2:
        return ALPHAS[rng.integers(len(ALPHAS))]
    if k == 2:
        return float(rng.uniform(0, 1))
    return float(logu(rng, 1e-6, 0.3)) if rng.integers(4) else float(rng.integers(2))


def quantile(v, q):
    v = np.sort(v)
    h = (len(v) - 1) * q
    lo = int(np.floor(h))
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (h - lo) * (v[hi] - v[lo])


def samples(rng, n, p):
    x = rng.standard_normal((n, p)) * 10.0 ** rng.uniform(-4, 4, p) + rng.standard_normal(p) * 10.0 ** rng.uniform(-2, 3, p)
    k = rng.integers(5)
    if k == 0:  # repeated states, as after rejections
        idx = np.maximum.accumulate(np.where(rng.random(n) < 0.4, np.arange(n), 0))
        x = x[idx]
    elif k == 1:
        x = np.round(x, 1)
    elif k == 2:
        x[rng.integers(n)] *= 1e6
    elif k == 3:
        x = np.cumsum(x, axis=0)
    return x


@check.workload(quick=1200, thorough=12000)
def intervals(case):
    rng = case.rng
    n, p = int(rng.choice([1, 2, 3, 10, 57, 400])), int(rng.choice([1, 2, 9, 40]))
    if case.index % 12 == 11:
        n, p = [(int(rng.integers(1000, 6000)), 3), (30, int(rng.integers(1000, 3000))), (1200, 300)][rng.integers(3)]
    alpha = level(rng)
    x = samples(rng, n, p)
    if rng.integers(4) == 0:
        x = np.asfortranarray(x)
    g = Guarded(chain=x)
    r = credible_interval_range(x, alpha) if alpha != 0.05 or rng.integers(2) else credible_interval_range(x)
    g.verify(case)
    want = np.array([quantile(x[:, k], 1 - alpha / 2) - quantile(x[:, k], alpha / 2) for k in range(p)])
    sc = np.max(np.abs(x), axis=0)
    case.require(np.shape(r) == (p,), "interval-quantiles", f"shape {np.shape(r)}")
    err = np.abs(r - want)
    case.require(np.all(err <= 1e-10 * sc + 1e-300), "interval-quantiles", lambda: f"{r[np.argmax(err)]} instead of {want[np.argmax(err)]} (n={n}, alpha={alpha})")
    case.require(np.all(r >= -1e-12 * sc) if alpha <= 1 else True, "interval-quantiles", "negative range")
    perm = rng.permutation(n)
    case.close(credible_interval_range(x[perm], alpha), r, "order-independent", rtol=1e-11, scale=np.max(sc) + 1e-300)
    refilled(case, lambda v: credible_interval_range(v, alpha), [x, x[:, ::-1], 2 * x], "own-samples", rtol=1e-10)
    if rng.integers(3) == 0:
        xi = np.rint(np.clip(x, -1e6, 1e6)).astype(int)
        wi = np.array([quantile(xi[:, k].astype(float), 1 - alpha / 2) - quantile(xi[:, k].astype(float), alpha / 2) for k in range(p)])
        case.close(credible_interval_range(xi, alpha), wi, "interval-quantiles", rtol=1e-10, scale=1 + np.max(np.abs(xi)), detail="(integer samples)")
    # a parameter alone gives the same number
    k = int(rng.integers(p))
    case.close(credible_interval_range(x[:, [k]], alpha)[0], r[k], "own-samples", rtol=1e-11, scale=sc[k] + 1e-300)
    case.sig(n, p, round(alpha, 3))
    case.note(n=n, p=p, alpha=alpha)


@check.workload(quick=1200, thorough=12000)
def regions(case):
    rng = case.rng
    n = int(rng.choice([1, 2, 3, 7, 20, 101, 400]))
    if case.index % 12 == 11:
        n = int(rng.integers(1000, 20000))
    alpha = level(rng)
    lp = samples(rng, n, 1)[:, 0]
    g = Guarded(logpis=lp)
    thr = credible_region_threshold(lp, alpha) if alpha != 0.05 or rng.integers(2) else credible_region_threshold(lp)
    g.verify(case)
    member = np.array([bool(in_credible_region(v, thr)) for v in lp])
    distinct = len(np.unique(lp)) == n
    if distinct:
        case.require(abs(member.sum() - (1 - alpha) * n) <= 1 + 1e-9, "region-content", f"{member.sum()} of {n} samples in a {1 - alpha} region")
    else:
        case.require(member.sum() >= (1 - alpha) * n - 1 - 1e-9, "region-content", f"{member.sum()} of {n} samples in a {1 - alpha} region (ties)")
        # without the ties at the threshold it would be too small
        case.require(np.sum(lp > thr) <= (1 - alpha) * n + 1 + 1e-9, "region-content", f"{np.sum(lp > thr)} of {n} samples strictly inside a {1 - alpha} region")
    if member.any() and not member.all():
        case.require(lp[member].min() > lp[~member].max(), "region-is-highest", "a sample outside has a higher posterior than one inside")
    else:
        case.seen("region-is-highest")
    case.require(member[np.argmax(lp)], "maximum-included", f"the maximum is outside (n={n}, alpha={alpha})")
    case.require(np.min(lp) <= thr <= np.max(lp), "region-content", f"threshold {thr} outside the samples")
    case.close(credible_region_threshold(lp[rng.permutation(n)], alpha), thr, "order-independent", rtol=1e-11, scale=np.max(np.abs(lp)) + 1e-300)
    refilled(case, lambda v: credible_region_threshold(v, alpha), [lp, 2 * lp, lp + 1], "region-content", rtol=1e-10, floor=1 + float(np.max(np.abs(lp))))
    # membership: at the threshold inside, below outside
    case.require(in_credible_region(thr, thr) and not in_credible_region(np.nextafter(thr, -np.inf), thr), "region-is-highest", "membership at the threshold")
    case.sig(n, round(alpha, 3), distinct)
    case.note(n=n, alpha=alpha, members=int(member.sum()))


@check.workload(quick=200, thorough=1000)
def scale_maps(case):
    rng = case.rng
    L, B, J = rand_tiling(rng, 2, 8 if case.index % 10 < 9 else 24)
    bls = bandlimits(L, B, J)
    p = sum(npix(b) for b in bls)
    n = int(rng.choice([2, 5, 30]))
    alpha = level(rng)
    x = samples(rng, n, p)
    g = Guarded(chain=x)
    maps = wavelet_credible_interval_range(x, L, B, J, alpha) if alpha != 0.05 or rng.integers(2) else wavelet_credible_interval_range(x, L, B, J)
    g.verify(case)
    sc = float(np.max(np.abs(x)))
    start = 0
    case.require(len(maps) == len(bls), "scale-maps", f"{len(maps)} maps")
    for m, bl in zip(maps, bls):
        blk = x[:, start: start + npix(bl)]
        want = np.array([quantile(blk[:, k], 1 - alpha / 2) - quantile(blk[:, k], alpha / 2) for k in range(npix(bl))])
        case.require(np.shape(m) == (bl, 2 * bl - 1), "scale-maps", f"map of shape {np.shape(m)}")
        err = np.abs(m.ravel() - want)
        case.require(np.all(err <= 1e-10 * np.max(np.abs(blk), axis=0) + 1e-300), "scale-maps", f"map of bandlimit {bl}")
        start += npix(bl)
    case.sig(L, B, J, n, round(alpha, 3))
    case.note(L=L, B=B, J_min=J, n=n, alpha=alpha)
