"""C22: flattening and expanding coefficients are inverse to each other."""
import numpy as np

from pxmcmc.utils import expand_mlm, flatten_mlm
from vmon.core import Check, Guarded, refilled
from vmon.problems import randc

check = Check(
    "C22",
    "coefficient sets of random sizes (1 scale to 64, 1 to 1500 coefficients per scale, multiresolution blocks of any length, "
    "real/complex/integer, C/Fortran/strided memory); every call checked element by element in both directions; distinct by "
    "shape, dtype and memory layout",
)
check.require_monitors("scaling-first", "scales-in-order", "roundtrip-scales", "roundtrip-multires", "flatten-of-expanded", "flattened-wavelets",
                       "rejects-arguments", "inputs-unmodified")


def values(rng, shape, kind):
    if kind == "int":
        return rng.integers(-100, 100, shape)
    return randc(rng, shape, kind == "complex")


@check.workload(quick=1200, thorough=10000)
def same_size(case):
    rng = case.rng
    n, J = int(rng.choice([1, 2, 3, 9, 16, 80, 1500])), int(rng.choice([1, 1, 2, 3, 5, 12, 40, int(rng.integers(1, 65))]))
    if J > 40 and n == 1500:
        n = 700
    kind = ("complex", "real", "int")[case.index % 3]
    wav, scal = values(rng, (n, J), kind), values(rng, n, kind)
    mem = int(rng.integers(6))
    if mem == 1:
        wav = np.asfortranarray(wav)
    elif mem == 2:
        wav = np.repeat(wav, 2, axis=0)[::2]
    elif mem == 3:
        wav, scal = np.ascontiguousarray(wav.T).T, np.repeat(scal, 2)[::2]
    elif mem == 4:
        wav, scal = wav[::-1, ::-1], scal[::-1]
    elif mem == 5:
        wav = np.concatenate([wav, wav], axis=1)[:, :J]
    g = Guarded(wav=wav, scal=scal)
    flat = flatten_mlm(wav, scal)
    g.verify(case)
    case.require(np.shape(flat) == (n * (J + 1),), "scaling-first", f"{np.shape(flat)} for {n}x({J}+1)")
    case.equal(flat[:n], scal, "scaling-first")
    for j in range(J):
        case.equal(flat[(j + 1) * n: (j + 2) * n], wav[:, j], "scales-in-order", f"(scale {j})")
    gf = Guarded(flat=flat)
    w2, s2 = expand_mlm(flat, nscales=J)
    case.equal(w2, wav, "roundtrip-scales", f"(n={n}, scales={J}, {kind})")
    case.equal(s2, scal, "roundtrip-scales")
    case.equal(flatten_mlm(w2, s2), flat, "flatten-of-expanded")
    w3, s3 = expand_mlm(flat, nscales=J, flatten_wavs=True)
    case.equal(w3, flat[n:], "flattened-wavelets")
    case.equal(s3, scal, "flattened-wavelets")
    case.equal(flatten_mlm(w3, s3), flat, "flatten-of-expanded", "(flattened wavelets)")
    w4, s4 = expand_mlm(flat, nscalcoefs=n)
    case.equal(w4, flat[n:], "roundtrip-multires")
    case.equal(s4, scal, "roundtrip-multires")
    gf.verify(case)
    st = np.repeat(flat, 2)[::2]
    case.equal(expand_mlm(st, nscales=J)[0], wav, "roundtrip-scales", "(strided vector)")
    case.equal(expand_mlm(st, nscalcoefs=n)[0], flat[n:], "roundtrip-multires", "(strided vector)")
    if kind == "complex":
        c64 = flat.astype(np.complex64)
        case.equal(expand_mlm(c64, nscales=J)[0], wav.astype(np.complex64), "roundtrip-scales", "(single precision)")
    refilled(case, lambda v: expand_mlm(v, nscales=J)[0], [flat, flat[::-1], 2 * flat], "roundtrip-scales", rtol=0)
    refilled(case, lambda v: flatten_mlm(v, scal), [wav, wav[::-1], 2 * wav], "scales-in-order", rtol=0)
    # results of earlier calls stay as they were
    case.equal(w2, wav, "roundtrip-scales", "(earlier result overwritten)")
    case.equal(w3, flat[n:], "flattened-wavelets", "(earlier result overwritten)")
    case.raises(ValueError, lambda: expand_mlm(flat), "rejects-arguments", "(neither count)")
    case.raises(ValueError, lambda: expand_mlm(flat, nscales=J, nscalcoefs=n), "rejects-arguments", "(both counts)")
    case.raises(ValueError, lambda: expand_mlm(flat, flatten_wavs=True), "rejects-arguments", "(neither count)")
    case.sig(n, J, kind, mem)
    case.note(n=n, scales=J, kind=kind)


@check.workload(quick=900, thorough=8000)
def multiresolution(case):
    rng = case.rng
    kind = ("complex", "real", "int")[case.index % 3]
    ns, nw = int(rng.integers(1, 60)), int(rng.choice([0, 1, 2, 17, 200, 9000]))
    wav, scal = values(rng, nw, kind), values(rng, ns, kind)
    g = Guarded(wav=wav, scal=scal)
    flat = flatten_mlm(wav, scal)
    case.equal(flat, np.concatenate([scal, wav]), "scaling-first")
    w2, s2 = expand_mlm(flat, nscalcoefs=ns)
    case.equal(w2, wav, "roundtrip-multires", f"({ns} scaling, {nw} wavelet coefficients)")
    case.equal(s2, scal, "roundtrip-multires")
    case.equal(flatten_mlm(w2, s2), flat, "flatten-of-expanded")
    w3, s3 = expand_mlm(flat, nscalcoefs=ns, flatten_wavs=True)
    case.equal(w3, wav, "roundtrip-multires", "(flatten_wavs is ignored)")
    # the other direction, for an arbitrary vector
    k = int(rng.integers(0, flat.size + 1))
    w4, s4 = expand_mlm(flat, nscalcoefs=k)
    case.require(len(s4) == k, "roundtrip-multires", f"{len(s4)} scaling coefficients instead of {k}")
    case.equal(flatten_mlm(w4, s4), flat, "flatten-of-expanded", f"(split at {k})")
    g.verify(case)
    case.sig(ns, nw, kind)
    case.note(nscal=ns, nwav=nw, kind=kind)
