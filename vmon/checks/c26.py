"""C26: the experiment scripts sample the inverse problem they describe."""
import os
import re

import h5py
import numpy as np
import pyssht
from scipy import sparse

from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.mcmc import MYULA, SKROCK, PxMALA, PxMCMCParams
from pxmcmc.measurements import WeakLensing
from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import SphericalWaveletTransform
from vmon import experiments as ex
from vmon.core import Check
from vmon.problems import logu
from vmon.sphere import npix, ref_shear

check = Check(
    "C26",
    "each experiments/*/main.py run as a user would (own process, scratch folder, random options and input files, only "
    "the number of samples shortened); the HDF5 file it leaves is compared with the sampler built by hand for the problem "
    "described and started from the same random state, and its records with independently computed data, errors and "
    "predictions; distinct by script, options and bandlimit",
    ["the random state observed when the sampler starts fixes the run", "greatcirclepaths defines the great circle paths"],
)
check.require_monitors("earthtopography", "phasevel", "weaklensing", "same-run", "record", "attributes", "one-file",
                       "noise", "fresh-run", "path-matrix", "refused", "sampler-myula", "sampler-pxmala", "sampler-skrock")
ALGOS = {"myula": MYULA, "pxmala": PxMALA, "skrock": SKROCK}


def options(case, s10):
    rng = case.rng
    algo = ("myula", "pxmala", "myula", "pxmala", "skrock", "myula")[case.index % 6]
    n = int(rng.integers(2, 9))
    if algo == "skrock" and s10:
        n = 1  # ten stages cost thousands of gradients per step
    opt = {}
    if rng.random() < 0.85:
        opt["--delta"] = logu(rng, 1e-7, 1e-3)
    if rng.random() < 0.8:
        opt["--mu"] = logu(rng, 1e-2, 1e5)
    if rng.random() < 0.7:
        opt["--jobid"] = str(rng.choice(["7", "run-a", "x.y", "0012"]))
    if algo != "myula" or rng.random() < 0.5:
        opt["--algo"] = algo
    return algo, n, opt


def flags(opt):
    out = []
    for k, v in opt.items():
        out += [k] if v is True else [k, repr(v) if isinstance(v, float) else str(v)]
    return out


def launch(case, d, experiment, positional, opt, n, outdir):
    os.makedirs(os.path.join(d, "out"), exist_ok=True)
    args = list(positional) + flags(opt)
    if outdir:
        args += ["--outdir", os.path.join(d, "out")]
    before = set(os.listdir(d))
    r, state, _ = ex.run_script(d, experiment, "main.py", args, nsamples=n, state=True)
    case.require(r.returncode == 0, "script-completes", lambda: f"{experiment} {args}: exit {r.returncode}: {ex.tail(r)}")
    where = os.path.join(d, "out") if outdir else d
    files = [f for f in os.listdir(where) if f.endswith(".hdf5")]
    extra = [f for f in os.listdir(d if outdir else os.path.join(d, "out")) if f.endswith(".hdf5")]
    case.require(len(files) == 1 and not extra, "one-file", f"{files} {extra}")
    algo = opt.get("--algo", "myula")
    pat = rf"{algo}_synthesis_\d{{6}}_\d{{6}}_{re.escape(opt.get('--jobid', '0'))}\.hdf5"
    case.require(re.fullmatch(pat, files[0]), "one-file", f"name {files[0]}")
    case.require(state is not None, "same-run", "the sampler was never run")
    case.seen(experiment)
    case.seen("sampler-" + algo)
    return h5py.File(os.path.join(where, files[0]), "r"), state, r


def compare(case, f, state, op, prior, algo, n, par, attrs, predict, data, sig):
    """File f against the run of the sampler built by hand."""
    for k, v in attrs.items():
        case.require(k in f.attrs, "attributes", f"no attribute {k}")
        got = f.attrs[k]
        if isinstance(v, str):
            case.require(str(got) == v, "attributes", f"{k} = {got!r} instead of {v!r}")
        else:
            case.close(np.asarray(got, float), np.asarray(v, float), "attributes", rtol=1e-12, atol=1e-300, detail=k)
    params = PxMCMCParams(nsamples=n, nburn=0, ngap=0, complex=False, verbosity=0, **par)
    mc = ALGOS[algo](op, prior, params, **(dict(tune_delta=True) if algo == "pxmala" else {}))
    np.random.set_state(state)
    mc.run()
    chain = f["chain"][()]
    case.close(chain, mc.chain, "same-run", rtol=1e-7, detail="(chain)")
    names = [("logposterior", "logPi"), ("L2s", "L2s"), ("priors", "priors")]
    for ds, at in names:
        case.close(f[ds][()], getattr(mc, at), "same-run", rtol=1e-6, detail=f"({ds})")
    if algo == "pxmala":
        case.equal(f["acceptances"][()], mc.acceptance_trace, "same-run", "(acceptances)")
        case.close(f["deltas"][()], mc.deltas_trace, "same-run", rtol=1e-9, detail="(deltas)")
    # records against data and errors computed here
    for j in range(n):
        p = predict(chain[j])
        r = data - p
        L2 = float(np.sum(np.abs(r) ** 2 / sig**2))
        sc = float(np.sum((np.abs(data) ** 2 + np.abs(p) ** 2) / sig**2))
        case.close(f["L2s"][j], L2, "record", rtol=1e-8, scale=sc, detail=f"(L2 of sample {j})")
        case.close(f["logposterior"][j], -par["mu"] * f["priors"][j] - f["L2s"][j] / 2, "record", rtol=1e-9,
                   scale=abs(par["mu"] * f["priors"][j]) + abs(f["L2s"][j]))


@check.workload(quick=24, thorough=240)
def earthtopography(case):
    rng = case.rng
    algo, n, opt = options(case, True)
    L = int(rng.integers(3, 7)) if algo == "skrock" else 3 + (5 * case.index + int(rng.integers(2))) % 12
    opt["--L"] = L
    if case.index in (1, 6):
        L = 32
        del opt["--L"]
    noisy = bool((case.index + case.index // 6) % 2)
    if rng.random() < 0.7:
        opt["--sigma"] = logu(rng, 0.2, 20)
    if noisy:
        opt["--makenoise"] = True
        if rng.random() < 0.7:
            opt["--scaleafrica"] = int(rng.integers(2, 9))
    sigma, mu, delta = opt.get("--sigma", 1.0), opt.get("--mu", 1.0), opt.get("--delta", 1e-6)
    with ex.scratch() as d:
        kind = ("etopo", "hpx", "mw", "hpx")[case.index % 4 if algo != "skrock" else 1]
        if kind == "etopo":
            infile = os.path.join(ex.REPO, "experiments", "earthtopography", "ETOPO1_Ice_hpx_256.fits")
            topo = ex.topography(infile, L)
        elif kind == "hpx":
            infile = os.path.join(d, "some_hpx_16.fits")
            ex.write_healpix(infile, rng, 1000 * logu(rng, 0.1, 10))
            topo = ex.topography(infile, L)
        else:
            infile = os.path.join(d, "some_mw_map.npy")
            topo = rng.standard_normal((L, 2 * L - 1)) * 1000
            np.save(infile, (topo, topo.ravel(), np.asfortranarray(topo))[rng.integers(3)])
        opt["--infile"] = infile
        f, state, r = launch(case, d, "earthtopography", [], opt, n, bool(rng.integers(2)))
        if noisy and (algo == "skrock" or case.index % 8 in (3, 4, 6)):
            with ex.scratch() as d2:
                f2, state2, _ = launch(case, d2, "earthtopography", [], opt, n, False)
                case.require(np.array_equal(f2.attrs["noise"], f.attrs["noise"]), "noise", "two runs of the same problem have different data")
                f2.close()
                case.require(state2[2] != state[2] or not np.array_equal(state2[1], state[1]), "fresh-run", "two runs draw the same random numbers")
        with f:
            data = topo.ravel() / 1000
            sig = np.full(npix(L), float(sigma))
            if noisy:
                sd = sigma / np.sqrt(ex.areas(L))
                k = opt.get("--scaleafrica", 0)
                if k:
                    block = np.zeros((L, 2 * L - 1), bool)
                    for t in np.linspace(60, 120, 100):
                        for p in np.linspace(-30, 30, 100):
                            block[pyssht.theta_to_index(np.radians(t), L), pyssht.phi_to_index(np.radians(p), L)] = True
                    sd = np.where(block, sd * k, sd)
                noise = np.asarray(f.attrs["noise"], float).ravel()
                case.require(noise.shape == (npix(L),), "noise", f"shape {noise.shape}")
                w = noise / sd.ravel()
                z = (np.mean(w**2) - 1) * np.sqrt(w.size / 2)
                case.require(abs(z) < 7 + 60 / np.sqrt(w.size) and np.max(np.abs(w)) < 7, "noise", f"noise of {np.std(w):.2f} standard deviations")
                case.require(abs(np.mean(w)) * np.sqrt(w.size) < 7, "noise", "noise is biased")
                data = data + noise / 1000
                sig = sd.ravel() / 1000
            else:
                case.require(np.all(np.asarray(f.attrs["noise"]) == 0), "noise", "noise recorded without --makenoise")
            B, J, lmda = 1.5, 2, 1e-6
            op = SphericalWaveletTransformOperator(data + 0j, sig, "synthesis", L, B, J)
            prior = S2_Wavelets_L1("synthesis", op.transform.inverse, op.transform.inverse_adjoint, lmda * mu, L=L, B=B, J_min=J)
            attrs = dict(L=L, B=B, J_min=J, nparams=op.nparams, setting="synthesis", sigma=sigma, scaleafrica=opt.get("--scaleafrica", 0),
                         delta=delta, mu=mu, lmda=lmda, nsamples=n)
            compare(case, f, state, op, prior, algo, n, dict(delta=delta, lmda=lmda, mu=mu, s=10), attrs,
                    lambda c: ex.wavelet_synthesis(c, L, B, J), data, sig)
    case.sig(algo, L, noisy, kind, "--scaleafrica" in opt)
    case.note(options=flags(opt), input=kind)


def great_circles(start, stop, L):
    from greatcirclepaths import GreatCirclePath
    rows = []
    for a, b in zip(start, stop):
        p = GreatCirclePath(a, b, "MW", L=L, weighting="average", latlon=True)
        p.get_points(points_per_rad=160)
        p.fill()
        rows.append(np.asarray(p.map).ravel())
    return np.array(rows)


@check.workload(quick=18, thorough=180)
def phasevel(case):
    rng = case.rng
    algo, n, opt = options(case, True)
    L = int(rng.choice([6, 7])) if algo == "skrock" else (6, 7, 8, 10, 11, 12, 14)[(case.index + case.index // 7 + int(rng.integers(2))) % 7]  # no empty scale
    opt["--L"] = L
    if case.index in (1, 6):
        L = 28
        del opt["--L"]
    if rng.random() < 0.6:
        opt["--eta"] = float(rng.choice([0.5, 2.0, 1.5, 3.0, 0.0, -1.0]))
    if rng.integers(2):
        opt["--nsim"] = True
    mu, delta, eta = opt.get("--mu", 1.0), opt.get("--delta", 1e-6), opt.get("--eta", 1.0)
    nd = int(rng.integers(2, 14))
    start = np.c_[rng.uniform(-85, 85, nd), rng.uniform(-180, 180, nd)]
    stop = np.c_[rng.uniform(-85, 85, nd), rng.uniform(-180, 180, nd)]
    data = rng.standard_normal(nd) * 3
    err = rng.uniform(0.3, 2, nd)
    nsim = rng.integers(1, 9, nd) if rng.integers(3) else rng.integers(1, 2000, nd)
    sgn = np.where(rng.random(nd) < 0.2, -1, 1) if rng.integers(2) else np.ones(nd)
    with ex.scratch() as d:
        table = np.column_stack([start, stop, data, err * sgn, rng.integers(0, 2, nd), nsim])
        np.savetxt(os.path.join(d, "in.txt"), table)
        pf = os.path.join(d, "paths.npz")
        given = bool(rng.integers(2))
        if given:
            A = rng.standard_normal((nd, npix(L))) * (rng.random((nd, npix(L))) < 0.2)
            sparse.save_npz(pf, sparse.csr_matrix(A))
            stamp = open(pf, "rb").read()
        else:
            A = great_circles(start, stop, L)
        f, state, r = launch(case, d, "phasevel", ["in.txt", pf if rng.integers(2) else "paths.npz"], opt, n, bool(rng.integers(2)))
        with f:
            case.require(os.path.exists(pf), "path-matrix", "path matrix not saved")
            if given:
                case.require(open(pf, "rb").read() == stamp, "path-matrix", "existing path matrix was rewritten")
            case.close(sparse.load_npz(pf).toarray(), A, "path-matrix", rtol=1e-9)
            sig = err * (np.sqrt(nsim) if "--nsim" in opt else 1)
            B, J, lmda = 2, 2, delta / 2
            op = PathIntegralOperator(sparse.csr_matrix(A), data, sig, "synthesis", L, B, J)
            prior = S2_Wavelets_L1_Power_Weights("synthesis", op.transform.inverse, op.transform.inverse_adjoint, lmda * mu,
                                                 L=L, B=B, J_min=J, eta=eta)
            attrs = dict(L=L, B=B, J_min=J, nparams=op.nparams, setting="synthesis", eta=eta, nsim=float("--nsim" in opt),
                         delta=delta, mu=mu, lmda=lmda, nsamples=n)
            compare(case, f, state, op, prior, algo, n, dict(delta=delta, lmda=lmda, mu=mu, s=10), attrs,
                    lambda c: A @ ex.wavelet_synthesis(c, L, B, J), data, sig)
    case.sig(algo, L, given, "--nsim" in opt, eta)
    case.note(options=flags(opt), paths=nd, matrix_given=given)


@check.workload(quick=18, thorough=180)
def weaklensing(case):
    rng = case.rng
    algo, n, opt = options(case, False)
    L = 5 + (7 * case.index + int(rng.integers(2))) % 10
    opt["--L"] = L
    mu, delta = opt.get("--mu", 1.0), opt.get("--delta", 1e-6)
    with ex.scratch() as d:
        infile = os.path.join(d, "kappa.fits")
        ex.write_healpix(infile, rng, logu(rng, 0.1, 10))
        kappa = ex.convergence(infile, L)
        f, state, r = launch(case, d, "weaklensing", [infile if rng.integers(2) else "kappa.fits"], opt, n, bool(rng.integers(2)))
        with f:
            mask, near = ex.survey_mask(L, 10)
            if near.any():
                case.seen("mask-boundary-not-judged")
                return
            w = np.sqrt(2 * 30 / 0.37**2)
            data = w * ref_shear(kappa, L)[mask]
            sig = np.full(data.size, 1 / w)
            B, J, lmda = 2, 2, delta / 2
            meas = WeakLensing(L, mask, ngal=np.full(mask.shape, 30.0))
            tr = SphericalWaveletTransform(L, B, J)
            op = ForwardOperator(data, sig, "synthesis", transform=tr, measurement=meas, nparams=tr.ncoefs)
            prior = S2_Wavelets_L1("synthesis", tr.inverse, tr.inverse_adjoint, lmda * mu, L=L, B=B, J_min=J)
            attrs = dict(L=L, B=B, J_min=J, nparams=tr.ncoefs, setting="synthesis", delta=delta, mu=mu, lmda=lmda, nsamples=n)
            compare(case, f, state, op, prior, algo, n, dict(delta=delta, lmda=lmda, mu=mu), attrs,
                    lambda c: w * ref_shear(ex.wavelet_synthesis(c, L, B, J), L)[mask], data, sig)
    case.sig(algo, L)
    case.note(options=flags(opt), unmasked=int(mask.sum()))


@check.workload(quick=6, thorough=24)
def refused(case):
    """Unknown samplers and inputs are refused and leave no file."""
    rng = case.rng
    with ex.scratch() as d:
        L = int(rng.integers(5, 8))
        which = case.index % 3
        if which == 0:
            ex.write_healpix(os.path.join(d, "t_hpx_.fits"), rng, 1000)
            good = case.index < 3
            name = "t_hpx_.fits" if good else "t.fits"
            if not good:
                os.rename(os.path.join(d, "t_hpx_.fits"), os.path.join(d, "t.fits"))
            r, _, _ = ex.run_script(d, "earthtopography", "main.py", ["--infile", name, "--L", L] + (["--algo", "hmc"] if good else []))
        elif which == 1:
            nd = 4
            np.savetxt(os.path.join(d, "in.txt"), np.ones((nd, 8)))
            bad = case.index >= 3
            sparse.save_npz(os.path.join(d, "p.npz"), sparse.csr_matrix(np.ones((nd + bad, npix(L)))))
            r, _, _ = ex.run_script(d, "phasevel", "main.py", ["in.txt", "p.npz", "--L", L] + ([] if bad else ["--algo", "gibbs"]))
        else:
            ex.write_healpix(os.path.join(d, "k.fits"), rng, 1)
            r, _, _ = ex.run_script(d, "weaklensing", "main.py", ["k.fits", "--L", L, "--algo", "mala"])
        case.require(r.returncode != 0, "refused", "accepted")
        case.require(not [f for f in os.listdir(d) if f.endswith(".hdf5")], "refused", "left a result file")
    case.sig(which, case.index)
    case.note(message=r.stderr.strip().splitlines()[-1][:100] if r.stderr.strip() else "")
