"""Scratch folders, inputs and references for the experiment scripts."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from contextlib import contextmanager

import healpy as hp
import numpy as np
import pys2let
import pyssht

from .sphere import npix, phis, thetas

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vmon-exp-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_script(d, experiment, script, args, nsamples=5, state=False, record=False, timeout=400):
    """Run experiments/<experiment>/<script> in folder d; (result, rng state, figures)."""
    st = os.path.join(d, ".rng") if state else "-"
    rec = os.path.join(d, ".figures") if record else "-"
    env = dict(os.environ, VMON_REPO=REPO, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    path = os.path.join(REPO, "experiments", experiment, script)
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "script_driver.py"), st, str(nsamples), rec, path]
                       + [str(a) for a in args], cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
    s = pickle.load(open(st, "rb")) if state and os.path.exists(st) else None
    f = pickle.load(open(rec, "rb")) if record and os.path.exists(rec) else None
    for x in (st, rec):
        if x != "-" and os.path.exists(x):
            os.remove(x)
    return r, s, f


def tail(r):
    return (r.stdout[-300:] + " | " + r.stderr[-600:]).replace("\n", " / ")


def random_alm(rng, lmax, slope=1.5):
    cl = 1.0 / (1 + np.arange(lmax + 1.0)) ** slope
    a = np.zeros(hp.Alm.getsize(lmax), complex)
    l, m = hp.Alm.getlm(lmax)
    a = (rng.standard_normal(a.size) + 1j * rng.standard_normal(a.size) * (m > 0)) * np.sqrt(cl[l])
    return a


def write_healpix(path, rng, scale, nside=16, lmax=20):
    hp.write_map(path, scale * hp.alm2map(random_alm(rng, lmax), nside), overwrite=True, dtype=np.float64)


def alm_to_mw(alm, L):
    """Real field on the MW grid from healpy coefficients (m >= 0, lmax = L-1)."""
    flm = np.zeros(L * L, complex)
    for l in range(L):
        for m in range(l + 1):
            v = alm[hp.Alm.getidx(L - 1, l, m)]
            flm[l * l + l + m] = v
            flm[l * l + l - m] = (-1) ** m * np.conj(v)
    return np.real(pyssht.inverse(flm, L))


def topography(path, L):
    """Bandlimited topography in metres, MW grid."""
    return alm_to_mw(hp.map2alm(hp.read_map(path, dtype=np.float64), L - 1), L)


def convergence(path, L):
    """Bandlimited convergence smoothed with a Gaussian of 50 arcmin."""
    lmax, nside = L - 1, 3 * (L - 1) - 1
    kappa = hp.alm2map(hp.map2alm(hp.read_map(path), lmax=lmax), nside=nside)
    kappa = hp.smoothing(kappa, sigma=np.radians(50 / 60))
    return alm_to_mw(hp.map2alm(kappa, lmax), L)


def areas(L):
    t = np.concatenate([[0.0], thetas(L)])
    ring = 2 * np.pi * (np.cos(t[:-1]) - np.cos(t[1:])) / (2 * L - 1)
    return np.repeat(ring[:, None], 2 * L - 1, axis=1)


def galactic_lat(L):
    ra = phis(L)[None, :]
    dec = np.pi / 2 - thetas(L)[:, None]
    pra, pdec = np.radians(192.85948), np.radians(27.12825)
    s = np.sin(pdec) * np.sin(dec) + np.cos(pdec) * np.cos(dec) * np.cos(ra - pra)
    return np.degrees(np.arcsin(np.clip(s, -1, 1)))


def survey_mask(L, size):
    """True where kept; second value: pixels too close to a boundary to judge."""
    b = np.abs(galactic_lat(L))
    e = np.abs(90 - np.degrees(thetas(L)))[:, None] * np.ones((1, 2 * L - 1))
    near = (np.abs(b - size) < 0.02) | (np.abs(e - size) < 1e-6)
    return (b >= size) & (e >= size), near


def wavelet_synthesis(c, L, B, J):
    w, s = pys2let.analysis_px2wav(np.zeros(npix(L), complex), B=B, L=L, J_min=J, N=1, spin=0, upsample=0)
    c = np.asarray(c, complex)
    return pys2let.synthesis_wav2px(c[s.size:].copy(), c[: s.size].copy(), B=B, L=L, J_min=J, N=1, spin=0, upsample=0)


def wavelet_analysis(f, L, B, J):
    w, s = pys2let.analysis_px2wav(np.asarray(f, complex).ravel().copy(), B=B, L=L, J_min=J, N=1, spin=0, upsample=0)
    return np.concatenate([s, w])
