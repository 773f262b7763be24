"""C27: the experiment summaries are those of the saved chain."""
import os
import re

import h5py
import numpy as np
from scipy import sparse

from vmon import experiments as ex
from vmon.core import Check
from vmon.problems import logu
from vmon.sphere import bandlimits, npix, ref_shear

check = Check(
    "C27",
    "result files of the main scripts and files with random chains (synthesis and analysis, repeated maxima, with and without added noise) summarised by "
    "each experiments/*/plot.py in its own process and scratch folder; saved arrays, the maps handed to the figure files "
    "and the printed figures of merit compared with independent computations; distinct by script, options and bandlimit",
    ["map figures are recorded by file name instead of drawn, except in the workload that draws them (C23 decides the drawing)"],
)
check.require_monitors("earthtopography", "phasevel", "weaklensing", "saved-map", "figure-map", "figure-curves", "printed", "real-figures", "map-mask", "pipeline")


def result_file(path, rng, L, B, J, setting, nsamples, **attrs):
    nc = ex.wavelet_analysis(np.zeros(npix(L)), L, B, J).size
    p = nc if setting == "synthesis" else npix(L)
    chain = rng.standard_normal((nsamples, p)) * logu(rng, 0.1, 3) + rng.standard_normal(p)
    logpi = -np.abs(rng.standard_normal(nsamples)) * logu(rng, 1, 1e4) - 1
    k = int(rng.integers(nsamples))
    logpi[k] = logpi.max() * 0.5
    if k + 1 < nsamples and rng.random() < 0.5:  # a rejected proposal repeats the best sample
        logpi[k + 1], chain[k + 1] = logpi[k], chain[k]
    with h5py.File(path, "w") as f:
        L2s, priors = np.abs(rng.standard_normal((2, nsamples))) * logu(rng, 1, 1e4) + 0.1
        f["logposterior"], f["L2s"], f["priors"] = logpi, L2s, priors
        f["chain"] = chain
        for a, v in dict(L=L, B=B, J_min=J, setting=setting, nsamples=nsamples, nparams=p, delta=1e-6, mu=1.0, **attrs).items():
            f.attrs[a] = v
    return chain, (logpi, L2s, priors)


def produced(case, d, experiment, args, nsamples, **attrs):
    """A result file written by the experiment's own main script."""
    algo = str(case.rng.choice(["myula", "pxmala"]))
    r, _, _ = ex.run_script(d, experiment, "main.py", args + ["--algo", algo, "--outdir", d, "--delta", repr(logu(case.rng, 1e-7, 1e-4))], nsamples=nsamples)
    case.require(r.returncode == 0, "pipeline", lambda: f"{experiment} main.py {args}: exit {r.returncode}: {ex.tail(r)}")
    names = [n for n in os.listdir(d) if n.endswith(".hdf5")]
    case.require(len(names) == 1, "pipeline", f"{names}")
    with h5py.File(os.path.join(d, names[0]), "r") as f:
        chain, records = f["chain"][()], (f["logposterior"][()], f["L2s"][()], f["priors"][()])
        return names[0], chain, records, dict(f.attrs)


def summaries(chain, records, L, B, J, setting, burn):
    logpi = records[0]
    pix = lambda c: ex.wavelet_synthesis(c, L, B, J) if setting == "synthesis" else np.asarray(c, complex)
    best = chain[int(np.argmax(logpi))]
    sh = (L, 2 * L - 1)
    all_pix = np.array([pix(c) for c in chain[burn:]])
    srt = np.sort(all_pix.real, axis=0)

    def q(a):
        h = (len(srt) - 1) * a
        lo = int(np.floor(h))
        hi = min(lo + 1, len(srt) - 1)
        return srt[lo] + (h - lo) * (srt[hi] - srt[lo])

    return dict(MAP=pix(best).reshape(sh).real, mean=all_pix.mean(0).reshape(sh).real, CI=(q(0.975) - q(0.025)).reshape(sh))


def db(signal, noise):
    return 10 * np.log10(np.sum(np.abs(signal) ** 2) / np.sum(np.abs(noise) ** 2))


def printed(case, r, label, want, rel=None):
    m = re.search(rf"^{re.escape(label)}: *([-+0-9.einfa]+)", r.stdout, re.M)
    case.require(m, "printed", f"no line '{label}' in {r.stdout[:300]!r}")
    got = float(m.group(1))
    lim = 0.0051 + 1e-6 * abs(want) if rel is None else rel * abs(want)
    case.require(abs(got - want) <= lim, "printed", f"{label}: {got} instead of {want:.4f}")


def finish(case, d, experiment, args, opt, record=True):
    r, _, figs = ex.run_script(d, experiment, "plot.py", args + opt["args"], record=record)
    case.require(r.returncode == 0, "script-completes", lambda: f"{experiment} plot.py {args + opt['args']}: exit {r.returncode}: {ex.tail(r)}")
    case.seen(experiment)
    return r, figs


def saved(case, out, suffix, want, rtol=1e-9):
    for name, w in want.items():
        f = os.path.join(out, f"{name}{suffix}.npy")
        case.require(os.path.exists(f), "saved-map", f"{name}{suffix}.npy missing; {sorted(os.listdir(out))}")
        got = np.load(f)
        case.close(got.real, w, "saved-map", rtol=rtol, scale=np.max(np.abs(w)) + 1e-3, detail=name)


def figures(case, figs, out, suffix, want, names, mask=None):
    by = {os.path.basename(p): v for p, v in figs}
    for p, _ in figs:
        case.require(os.path.realpath(os.path.dirname(p)) == os.path.realpath(out), "figure-file", f"written to {p}")
    for n in names:
        case.require(f"{n}{suffix}.png" in by, "figure-file", f"{n}{suffix}.png missing: {sorted(by)}")
        case.require(os.path.exists(os.path.join(out, f"{n}{suffix}.png")), "figure-file", n)
    for n, w in want.items():
        v = by[f"{n}{suffix}.png"]
        case.require("f" in v, "figure-map", f"{n} is not a map")
        case.close(np.asarray(v["f"]).real, w, "figure-map", rtol=1e-9, scale=np.max(np.abs(w)) + 1e-3, detail=f"({n}{suffix}.png)")
        if mask is not None:
            m, near = mask
            g = v["mask"]
            case.require(g is not None and np.shape(g) == m.shape, "map-mask", f"{n}: mask {np.shape(g)}")
            case.require(np.array_equal(np.asarray(g, bool)[~near], ~m[~near]), "map-mask", f"{n}: wrong pixels blanked")
    return by


def curves(case, by, suffix, chain, records, L, B, J, setting):
    """The evolution and the wavelet coefficients of the MAP, as drawn."""
    def shown(name, panels):
        ax = by[f"{name}{suffix}.png"].get("lines", [])
        case.require(len(ax) == len(panels), "figure-curves", f"{name}: {len(ax)} panels")
        for k, (lines, want) in enumerate(zip(ax, panels)):
            sc = max(np.max(np.abs(w)) for w in panels) + 1e-9 if name == "MAP_wvlt" else np.max(np.abs(want)) + 1e-9
            case.require(any(np.shape(l) == want.shape and np.max(np.abs(l - want)) <= 1e-9 * sc for l in lines), "figure-curves",
                         f"panel {k} of {name} does not show its quantity")

    logpi, L2s, priors = records
    shown("evolution", (-logpi, L2s, priors))
    best = chain[int(np.argmax(logpi))]
    c = best if setting == "synthesis" else ex.wavelet_analysis(best.astype(complex), L, B, J)
    shown("MAP_wvlt", (np.real(c), np.imag(c)))


def options(rng, d, nsamples, burn_default):
    out = os.path.join(d, "figures")
    os.makedirs(out)
    args = ["--save_npy"]
    burn = burn_default
    if burn_default > 0 or rng.random() < 0.7:
        burn = int(rng.choice([0, int(rng.integers(0, nsamples)), int(rng.integers(0, nsamples))]))
        args += ["--burn", burn]
    suffix = ""
    if rng.random() < 0.6:
        suffix = str(rng.choice(["_a", "-2", "x.y"]))
        args += [f"--suffix={suffix}"]
    return dict(out=out, args=args, burn=burn, suffix=suffix)


def earth(case, record, main=False):
    rng = case.rng
    L = int(rng.integers(4, 15))
    B, J = [(1.5, 2), (2, 1), (3, 0)][0 if main else rng.integers(3)]
    setting = "synthesis" if main else ("synthesis", "analysis", "synthesis")[case.index % 3]
    n = int(rng.integers(3, 30))
    with ex.scratch() as d:
        topo = os.path.join(d, "ETOPO1_Ice_hpx_256.fits")
        ex.write_healpix(topo, rng, 1000)
        noise = rng.standard_normal(npix(L)) * 50 if case.index % 2 else 0
        res = "res.hdf5"
        if main:
            more = ["--makenoise"] * (case.index % 2)
            res, chain, records, attrs = produced(case, d, "earthtopography", ["--infile", topo, "--L", L] + more, n)
            noise = np.asarray(attrs["noise"], float).ravel() if more else 0
        else:
            chain, records = result_file(os.path.join(d, res), rng, L, B, J, setting, n, noise=noise, sigma=1.0, scaleafrica=0)
        opt = options(rng, d, n, 0)
        r, figs = finish(case, d, "earthtopography", [res, opt["out"]], opt, record)
        truth = ex.topography(topo, L) / 1000
        s = summaries(chain, records, L, B, J, setting, opt["burn"])
        s["diff"], s["diff_mean"] = truth - s["MAP"], truth - s["mean"]
        saved(case, opt["out"], opt["suffix"], s)
        printed(case, r, "MAP SNR", db(truth, s["diff"]))
        printed(case, r, "Mean SNR", db(truth, s["diff_mean"]))
        names = ["evolution", "truth", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "diff_mean"]
        want = dict(truth=truth, MAP=s["MAP"], diff=s["diff"], ci_map=s["CI"], mean=s["mean"], diff_mean=s["diff_mean"])
        if np.ndim(noise):
            printed(case, r, "Input SNR", db(truth, noise / 1000))
            names.append("noise")
            want["noise"] = noise.reshape(L, 2 * L - 1) / 1000
        if record:
            by = figures(case, figs, opt["out"], opt["suffix"], want, names)
            curves(case, by, opt["suffix"], chain, records, L, B, J, setting)
        else:
            for k in names:
                f = os.path.join(opt["out"], f"{k}{opt['suffix']}.png")
                case.require(os.path.exists(f) and os.path.getsize(f) > 1000, "real-figures", k)
    case.sig("earth", L, setting, B, bool(np.ndim(noise)), opt["burn"] > 0)
    case.note(script="earthtopography", L=L, B=B, J_min=J, setting=setting, samples=n, args=opt["args"])


def phase(case, record, main=False):
    rng = case.rng
    L = int(rng.choice([6, 7, 8, 10, 12]))
    B, J = 2, 2 if main else int(rng.integers(1, 3))
    setting = "synthesis"
    n = int(rng.integers(3, 30))
    with ex.scratch() as d:
        truth = rng.standard_normal((L, 2 * L - 1))
        np.save(os.path.join(d, "GDM40_L28.npy"), truth)
        nd = int(rng.integers(2, 9))
        A = rng.standard_normal((nd, npix(L))) * (rng.random((nd, npix(L))) < 0.3)
        sparse.save_npz(os.path.join(d, "0S254L28.npz"), sparse.csr_matrix(A))
        table = rng.standard_normal((nd, 8))
        np.savetxt(os.path.join(d, "synthetic_GDM40_0S254_L28.txt"), table)
        res = "res.hdf5"
        if main:
            table[:, 5:] = np.abs(table[:, 5:]) + 0.1
            np.savetxt(os.path.join(d, "synthetic_GDM40_0S254_L28.txt"), table)
            res, chain, records, _ = produced(case, d, "phasevel", ["synthetic_GDM40_0S254_L28.txt", "0S254L28.npz", "--L", L] + ["--nsim"] * (case.index % 2), n)
        else:
            chain, records = result_file(os.path.join(d, res), rng, L, B, J, setting, n, eta=1.0, nsim=False)
        opt = options(rng, d, n, 1)
        r, figs = finish(case, d, "phasevel", [res, opt["out"]], opt, record)
        s = summaries(chain, records, L, B, J, setting, opt["burn"])
        s["diff"], s["diff_mean"] = truth - s["MAP"], truth - s["mean"]
        saved(case, opt["out"], opt["suffix"], s)
        printed(case, r, "MAP SNR", db(truth, s["diff"]))
        printed(case, r, "Mean SNR", db(truth, s["diff_mean"]))
        obs = table[:, 4]
        for k in ("MAP", "mean"):
            e = np.sum((A @ s[k].ravel() - obs) ** 2) / np.sum(obs**2)
            printed(case, r, f"{'MAP' if k == 'MAP' else 'Mean'} R2E", e, rel=0.006)
        bls = bandlimits(L, B, J)
        names = ["evolution", "MAP", "diff", "MAP_wvlt", "ci_map", "mean"] + [f"{a}{i}" for a in ("ci_map_scale", "mean_scale") for i in range(len(bls))]
        want = dict(MAP=s["MAP"], diff=np.abs(s["diff"]), ci_map=s["CI"], mean=s["mean"])
        rng_c = np.quantile(chain[opt["burn"]:], (0.025, 0.975), axis=0)
        width, c, a = rng_c[1] - rng_c[0], ex.wavelet_analysis(s["mean"], L, B, J), 0
        for i, bl in enumerate(bls):
            want[f"ci_map_scale{i}"] = width[a : a + npix(bl)].reshape(bl, 2 * bl - 1)
            want[f"mean_scale{i}"] = c[a : a + npix(bl)].real.reshape(bl, 2 * bl - 1)
            a += npix(bl)
        if record:
            by = figures(case, figs, opt["out"], opt["suffix"], want, names)
            curves(case, by, opt["suffix"], chain, records, L, B, J, setting)
        else:
            for k in names:
                f = os.path.join(opt["out"], f"{k}{opt['suffix']}.png")
                case.require(os.path.exists(f) and os.path.getsize(f) > 1000, "real-figures", k)
    case.sig("phase", L, J, opt["burn"] > 0)
    case.note(script="phasevel", L=L, J_min=J, samples=n, args=opt["args"])


def lensing(case, record, main=False):
    rng = case.rng
    L = int(rng.integers(5, 13))
    B, J = 2, 2
    setting = "synthesis" if main else ("synthesis", "synthesis", "analysis")[case.index % 3]
    n = int(rng.integers(3, 30))
    with ex.scratch() as d:
        kf = os.path.join(d, "takahasi_4096_000_zs16_kappa.fits")
        ex.write_healpix(kf, rng, 1)
        res = "res.hdf5"
        if main:
            res, chain, records, _ = produced(case, d, "weaklensing", [kf, "--L", L], n)
        else:
            chain, records = result_file(os.path.join(d, res), rng, L, B, J, setting, n)
        opt = options(rng, d, n, 1)
        nomask = bool(case.index % 2)
        if nomask:
            opt["args"].append("--no-mask")
        r, figs = finish(case, d, "weaklensing", [res, opt["out"]], opt, record)
        truth = ex.convergence(kf, L)
        s = summaries(chain, records, L, B, J, setting, opt["burn"])
        s["diff"], s["diff_mean"] = truth - s["MAP"], truth - s["mean"]
        saved(case, opt["out"], opt["suffix"], s, rtol=1e-7)
        full = (np.ones((256, 511), bool), np.zeros((256, 511), bool))
        keep, near = (np.ones(truth.shape, bool), np.zeros(truth.shape, bool)) if nomask else ex.survey_mask(L, 20)
        if not near.any() and keep.any():
            for k, nm in (("MAP", "MAP"), ("mean", "Mean")):
                e = truth - s[k]
                printed(case, r, f"{nm} SNR", db(truth[keep], e[keep]))
                g, o = ref_shear(s[k], L)[keep], ref_shear(truth, L)[keep]
                printed(case, r, f"{nm} R2E", float(np.sum(np.abs(g - o) ** 2) / np.sum(np.abs(o) ** 2)), rel=0.006)
        names = ["evolution", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "diffmean"]
        want = dict(MAP=s["MAP"], diff=np.abs(s["diff"]), ci_map=s["CI"], mean=s["mean"], diffmean=np.abs(s["diff_mean"]))
        if record:
            by = figures(case, figs, opt["out"], opt["suffix"], want, names, mask=full if nomask else ex.survey_mask(256, 20))
            curves(case, by, opt["suffix"], chain, records, L, B, J, setting)
        else:
            for k in names:
                f = os.path.join(opt["out"], f"{k}{opt['suffix']}.png")
                case.require(os.path.exists(f) and os.path.getsize(f) > 1000, "real-figures", k)
    case.sig("lensing", L, setting, nomask, opt["burn"] > 0)
    case.note(script="weaklensing", L=L, setting=setting, samples=n, args=opt["args"])


@check.workload(quick=24, thorough=240)
def earthtopography(case):
    earth(case, True)


@check.workload(quick=18, thorough=180)
def phasevel(case):
    phase(case, True)


@check.workload(quick=18, thorough=180)
def weaklensing(case):
    lensing(case, True)


@check.workload(quick=6, thorough=18)
def drawn(case):
    (earth, phase, lensing)[case.index % 3](case, False)


@check.workload(quick=12, thorough=90)
def pipeline(case):
    """The result file is one that the experiment's main script has written."""
    (earth, phase, lensing)[case.index % 3](case, True, main=True)
    case.seen("pipeline")
