"""C17: masks keep the right pixels."""
import numpy as np

from pxmcmc.measurements import WeakLensing
from pxmcmc.utils import build_mask
from vmon.core import Check, Guarded, refilled
from vmon.problems import randc
from vmon.sphere import phis, rand_mask, thetas

check = Check(
    "C17",
    "random masks (all dtypes, nearly empty to full) and labelled maps through masking and its adjoint; malformed signals and "
    "masks; survey masks for many bandlimits and widths against an independent galactic-latitude formula; distinct by "
    "bandlimit, mask population and width",
    ["galactic pole (J2000) at RA 192.85948, Dec 27.12825; pixels within 0.02 degrees of a boundary are not judged"],
)
check.require_monitors("keeps-unmasked", "adjoint-puts-back", "mask-of-adjoint", "rejects-nan", "rejects-shape", "rejects-mask-shape",
                       "survey-mask-zero", "survey-mask-one", "inputs-unmodified")


@check.workload(quick=800, thorough=5000)
def masking(case):
    rng = case.rng
    L = int(rng.integers(1, 17)) if case.index % 20 < 19 else int(rng.integers(24, 65))
    shape = (L, 2 * L - 1)
    mask = rand_mask(rng, L)
    if rng.random() < 0.1:
        mask = np.zeros(shape, mask.dtype)
    if mask.dtype == float and rng.integers(2):
        mask = mask * 10.0 ** rng.uniform(-1 if rng.integers(2) else -15, 0.5, shape)  # any non-zero value keeps the pixel
    if rng.random() < 0.2:
        mask = (mask != 0).astype((np.uint8, np.float32, np.int8)[rng.integers(3)])
    if rng.random() < 0.2:
        mask = np.asfortranarray(mask)
    g = Guarded(mask=mask)
    op = WeakLensing(L, mask=mask)
    idx = [(i, j) for i in range(L) for j in range(2 * L - 1) if mask[i, j] != 0]
    label = np.arange(1, L * (2 * L - 1) + 1).reshape(shape)
    f = (label + 0.5j * label) if rng.integers(2) else label.astype(float)
    if rng.random() < 0.2:
        f = label.copy()
    if rng.random() < 0.2:
        f = np.asfortranarray(f)
    gf = Guarded(f=f)
    got = op.mask_forward(f)
    want = np.array([f[i, j] for i, j in idx], dtype=f.dtype)
    case.equal(got, want, "keeps-unmasked", f"(L={L}, {len(idx)} unmasked)")
    gf.verify(case)
    y = randc(rng, len(idx), bool(rng.integers(2)))
    gy = Guarded(y=y)
    back = op.mask_adjoint(y)
    gy.verify(case)
    w = np.zeros(shape, complex)
    for v, (i, j) in zip(y, idx):
        w[i, j] = v
    case.equal(back, w, "adjoint-puts-back", f"(L={L})")
    case.equal(op.mask_forward(back), y, "mask-of-adjoint")
    case.require(not np.shares_memory(got, f), "inputs-unmodified", "masked values are a view of the map")
    refilled(case, op.mask_forward, [f, f[::-1], f * 2], "keeps-unmasked", rtol=0)
    if len(y):
        refilled(case, op.mask_adjoint, [y, y[::-1], y * 2], "adjoint-puts-back", rtol=0)
    g.verify(case)
    # malformed
    bad = f.astype(complex).copy()
    i, j = int(rng.integers(L)), int(rng.integers(2 * L - 1))
    for v in (np.nan, complex(0, np.nan)):
        bad[i, j] = v  # also under the mask
        case.raises(ValueError, lambda: op.mask_forward(bad), "rejects-nan", f"(NaN at {i},{j}, mask {mask[i, j]})")
    if len(y):
        yb = y.copy()
        yb[rng.integers(len(y))] = np.nan
        case.raises(ValueError, lambda: op.mask_adjoint(yb), "rejects-nan")
    for s in ((L + 1, 2 * L - 1), (L, 2 * L), (L * (2 * L - 1),), (2 * L - 1, L), (L, 2 * L - 1, 1), (1, L, 2 * L - 1)):
        if s != shape:
            case.raises(ValueError, lambda: op.mask_forward(np.ones(s)), "rejects-shape", f"({s} for L={L})")
            if s != (1,) or L > 1:
                case.raises(ValueError, lambda: WeakLensing(L, mask=np.ones(s)), "rejects-mask-shape", f"({s} for L={L})")
    case.sig(L, len(idx), str(mask.dtype))
    case.note(L=L, unmasked=len(idx), dtype=str(mask.dtype))


def galactic_lat(L):
    ra = phis(L)[None, :]
    dec = np.pi / 2 - thetas(L)[:, None]
    pra, pdec = np.radians(192.85948), np.radians(27.12825)
    s = np.sin(pdec) * np.sin(dec) + np.cos(pdec) * np.cos(dec) * np.cos(ra - pra)
    return np.degrees(np.arcsin(np.clip(s, -1, 1)))


@check.workload(quick=320, thorough=2000)
def survey(case):
    rng = case.rng
    L = int(rng.integers(1, 33)) if case.index % 10 < 9 else int(rng.integers(40, 81))
    size = float(rng.choice([0, 1, 5, 10, 20, 20, 33.3, 45, 60, 89, 90, 100])) if rng.integers(2) else float(rng.uniform(0, 90))
    if rng.random() < 0.4:  # an edge just before or just behind some pixel
        i, j = int(rng.integers(L)), int(rng.integers(2 * L - 1))
        at = abs(90 - np.degrees(thetas(L)[i])) if rng.integers(2) else abs(galactic_lat(L)[i, j])
        size = float(max(0.0, at + rng.choice([-1, 1]) * rng.uniform(0.025, 0.05)))
    if rng.random() < 0.15:
        size, m = 20.0, build_mask(L)
    else:
        m = build_mask(L, size) if rng.integers(2) else build_mask(L, size=size)
    case.require(np.shape(m) == (L, 2 * L - 1), "survey-mask-one", f"shape {np.shape(m)}")
    case.require(set(np.unique(m)) <= {0, 1}, "survey-mask-one", f"values {np.unique(m)}")
    b = np.abs(galactic_lat(L))
    e = np.abs(90 - np.degrees(thetas(L)))[:, None] * np.ones((1, 2 * L - 1))
    near = (np.abs(b - size) < 0.02) | (np.abs(e - size) < 1e-6)
    zero = ((b < size) | (e < size)) & ~near
    one = (b >= size) & (e >= size) & ~near
    case.require(np.all(m[zero] == 0), "survey-mask-zero", lambda: f"L={L} size={size}: kept pixels {np.argwhere(zero & (m != 0))[:3].tolist()} inside the masked bands")
    case.require(np.all(m[one] == 1), "survey-mask-one", lambda: f"L={L} size={size}: masked pixels {np.argwhere(one & (m != 1))[:3].tolist()} outside the bands")
    # usable as a mask of the same bandlimit
    if m.any():
        case.require(WeakLensing(L, mask=m).mask_forward(np.ones((L, 2 * L - 1))).size == int(m.sum()), "survey-mask-one")
    case.sig(L, round(size))
    case.note(L=L, size=size, kept=int(m.sum()))
