"""C25: reporting helpers are faithful and quiet."""
import io
import os
import sys
import tempfile

import healpy as hp
import numpy as np

from pxmcmc.utils import alm2map, map2alm, snr, suppress_stdout
from vmon.core import Check, Guarded, refilled
from vmon.problems import logu, randc

check = Check(
    "C25",
    "signal/noise arrays of any shape, dtype and magnitude; output suppression nested, re-entered and left by exceptions, "
    "with several kinds of output stream; healpy wrappers over nside, lmax and options compared with healpy itself; distinct "
    "by shapes, nesting and options",
)
check.require_monitors("snr-value", "snr-20dB", "suppressed", "stream-restored", "restored-after-exception", "healpy-forward", "healpy-inverse",
                       "wrappers-quiet", "inputs-unmodified")


@check.workload(quick=800, thorough=5000)
def signal_to_noise(case):
    rng = case.rng
    shape = [(1,), (7,), (4, 7), (2, 3, 4), (300,), (20000,), (1, 1), (7, 1)][rng.integers(8)]
    nshape = shape if rng.integers(2) else (int(rng.integers(1, 50)),)
    s = randc(rng, shape, bool(rng.integers(2))) * logu(rng, 1e-60, 1e60)
    n = randc(rng, nshape, bool(rng.integers(2))) * logu(rng, 1e-60, 1e60)
    if rng.integers(6) == 0:
        s = rng.integers(1, 9, shape)
    g = Guarded(s=s, n=n)
    v = snr(s, n)
    g.verify(case)
    S, N = np.linalg.norm(np.ravel(np.abs(s) / np.max(np.abs(s)))) , np.linalg.norm(np.ravel(np.abs(n) / np.max(np.abs(n))))
    want = 20 * (np.log10(S) + np.log10(np.max(np.abs(s))) - np.log10(N) - np.log10(np.max(np.abs(n))))
    case.close(v, want, "snr-value", rtol=1e-11, scale=1 + abs(want), detail=f"(shapes {shape}, {nshape})")
    case.require(np.isrealobj(np.asarray(v)) and np.ndim(v) == 0, "snr-value", f"{v!r}")
    case.close(snr(s, 10 * n), want - 20, "snr-20dB", rtol=1e-11, scale=1 + abs(want))
    case.close(snr(10.0 * s, n), want + 20, "snr-20dB", rtol=1e-11, scale=1 + abs(want))
    case.close(snr(n, s), -want, "snr-20dB", rtol=1e-11, scale=1 + abs(want))
    case.close(snr(n, n), 0.0, "snr-value", atol=1e-12, scale=0.0)
    refilled(case, lambda u: snr(u, n), [s, 2 * s, s[::-1]], "snr-value", rtol=1e-10, floor=1.0)
    refilled(case, lambda u: snr(s, u), [n, 2 * n, n[::-1]], "snr-value", rtol=1e-10, floor=1.0)
    st = np.asfortranarray(s) if s.ndim > 1 else np.repeat(s, 2)[::2]
    case.close(snr(st, n), want, "snr-value", rtol=1e-11, scale=1 + abs(want), detail="(other memory layout)")
    case.sig(shape, nshape, str(s.dtype), str(n.dtype))
    case.note(shape=shape, noise_shape=nshape)


class Boom(Exception):
    pass


@check.workload(quick=400, thorough=2000)
def suppression(case):
    rng = case.rng
    keep = sys.stdout
    depth = int(rng.integers(1, 5))
    kind = int(rng.integers(3))
    stream = io.StringIO() if kind < 2 else tempfile.TemporaryFile("w+")
    exc = [None, Boom, ValueError, KeyboardInterrupt, SystemExit, GeneratorExit][rng.integers(6)]
    at = int(rng.integers(depth))
    swap = bool(rng.integers(3) == 0)
    ok, msg = True, ""
    try:
        sys.stdout = stream
        print("before")

        def go(d):
            nonlocal ok, msg
            outer = sys.stdout
            try:
                with suppress_stdout():
                    print("hidden", d)
                    sys.stdout.write("hidden")
                    sys.stdout.flush()
                    if d + 1 < depth:
                        go(d + 1)
                    print("hidden again", d)
                    if swap:  # the body redirects the stream itself
                        sys.stdout = io.StringIO()
                    if exc is not None and d == at:
                        raise exc("x")
            finally:
                if sys.stdout is not outer:
                    ok, msg = False, f"stream at depth {d} not restored"

        try:
            go(0)
            raised = None
        except BaseException as e:  # noqa
            raised = e
        restored = sys.stdout is stream
        if restored:
            print("after")
    finally:
        sys.stdout = keep
    case.require(ok and restored, "restored-after-exception" if exc else "stream-restored", msg or "output stream not restored")
    case.seen("stream-restored")
    case.require((type(raised) if raised is not None else None) is exc, "restored-after-exception", f"{raised!r} propagated instead of {exc}")
    stream.seek(0)
    text = stream.read()
    case.require(text == "before\nafter\n", "suppressed", f"stream received {text!r}")
    stream.close()
    # usable again
    buf = io.StringIO()
    try:
        sys.stdout = buf
        for _ in range(3):
            with suppress_stdout():
                print("hidden")
            print("x", end="")
    finally:
        sys.stdout = keep
    case.require(buf.getvalue() == "xxx", "suppressed", f"{buf.getvalue()!r}")
    case.sig(depth, kind, str(exc), at, swap)
    case.note(depth=depth, exception=str(exc), at=at)


def fd_output(fn):
    """Run fn, return (result, python-level output)."""
    buf, keep = io.StringIO(), sys.stdout
    try:
        sys.stdout = buf
        r = fn()
        after = sys.stdout
    finally:
        sys.stdout = keep
    return r, buf.getvalue(), after is buf


@check.workload(quick=300, thorough=600)
def healpy_wrappers(case):
    rng = case.rng
    nside = int(rng.choice([1, 2, 4, 8, 16]))
    lmax = int(rng.integers(0, 3 * nside))
    pol = rng.integers(5) == 0 and lmax >= 2
    m = rng.standard_normal((3, 12 * nside**2)) if pol else rng.standard_normal(12 * nside**2)
    kw = [{}, {"iter": 0}, {"iter": 1}, {"iter": 2}][rng.integers(4)]
    if rng.integers(4) == 0 and not pol and lmax > 0:
        kw = {"iter": 0, "mmax": int(rng.integers(0, lmax + 1))}
    if pol and rng.integers(2):
        kw = {**kw, "pol": False}
    if rng.integers(5) == 0:
        m[..., rng.integers(m.shape[-1])] = hp.UNSEEN
    if rng.integers(6) == 0:
        m = m.astype(np.float32)
    g = Guarded(m=m)
    alm, text, back = fd_output(lambda: map2alm(m, lmax, **kw))
    g.verify(case)
    case.require(text == "" and back, "wrappers-quiet", f"map2alm printed {text!r}")
    want = hp.map2alm(m, lmax, **kw)
    case.close(alm, want, "healpy-forward", rtol=1e-12, scale=np.max(np.abs(want)) + 1e-300, detail=f"(nside={nside}, lmax={lmax}, {kw})")
    if kw.get("iter") == 0 and not pol:
        refilled(case, lambda v: map2alm(v, lmax, **kw), [m, m[::-1], 2 * m], "healpy-forward", floor=float(np.max(np.abs(want))))
    n2 = int(rng.choice([1, 2, 4, 8, 16]))
    akw = {}
    if "mmax" in kw:
        akw = {"lmax": lmax, "mmax": kw["mmax"]}
    elif rng.integers(3) == 0:
        akw = {"lmax": lmax}
    if rng.integers(3) == 0:
        akw["pixwin"] = False
    if rng.integers(4) == 0 and "mmax" not in akw:
        akw["fwhm"] = 0.1
    if pol and "pol" in kw:
        akw["pol"] = False
    a = np.array(want)
    g = Guarded(alm=a)
    mp, text, back = fd_output(lambda: alm2map(a, n2, **akw))
    g.verify(case)
    case.require(text == "" and back, "wrappers-quiet", f"alm2map printed {text!r}")
    w2 = hp.alm2map(a, n2, **akw)
    case.close(mp, w2, "healpy-inverse", rtol=1e-12, scale=np.max(np.abs(w2)) + 1e-300, detail=f"(nside={n2}, {akw})")
    # invalid input: the error comes through and the stream is restored
    keep = sys.stdout
    buf = io.StringIO()
    try:
        sys.stdout = buf
        try:
            map2alm(np.ones(7), 2)
            err = False
        except Exception:
            err = True
        ok = sys.stdout is buf
    finally:
        sys.stdout = keep
    case.require(ok and err, "stream-restored", "after an error in healpy")
    case.sig(nside, lmax, bool(pol), tuple(kw), tuple(akw), n2)
    case.note(nside=nside, lmax=lmax, options=[list(kw), list(akw)])
