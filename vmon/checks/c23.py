"""C23: figures show the data they were given."""
import numpy as np

import matplotlib
matplotlib.use("Agg")
import healpy as hp
import matplotlib.pyplot as plt
import pys2let
import pyssht

from pxmcmc.plotting import mollview, plot_chain_sample, plot_evolution, plot_map, plot_wavelet_maps
from vmon.core import Check, Guarded
from vmon.problems import logu, randc
from vmon.sphere import bandlimits, npix, rand_tiling

check = Check(
    "C23",
    "maps of many bandlimits with every combination of title, limits, centring, colour bar, oversampling and mask; wavelet "
    "figures over random tilings; evolutions with ties and chains of any length; healpix views; the artists of the returned figures are read "
    "back and compared with independently projected data; distinct by options and sizes",
    ["pyssht's Mollweide projection and harmonic transforms"],
)
check.require_monitors("projected-map", "oversampled-map", "title", "colour-limits", "centred", "colour-bar", "masked-blank", "wavelet-order",
                       "evolution-data", "marks-maximum", "figures-independent", "sample-parts", "healpix-view", "inputs-unmodified")


def smooth_map(rng, L, real=True):
    flm = randc(rng, L * L, True)
    if rng.integers(3) == 0:  # steep spectrum
        flm = flm * np.array([(l + 1.0) ** -4 for l in range(L) for _ in range(2 * l + 1)])
    f = np.real(pyssht.inverse(flm, L)) * logu(rng, 1e-2, 1e2) + rng.standard_normal()
    if rng.integers(4) == 0:  # any unit
        f = f * 10.0 ** int(rng.integers(-12, 13))
    if rng.integers(3) == 0:  # one sign only
        f = f + float(rng.choice([-1.0, 1.0])) * (np.ptp(f) * float(rng.uniform(1, 5)))
    return np.ascontiguousarray(f)


def oversample(f, L=256):
    l0 = f.shape[0]
    flm = pyssht.forward(f.astype(complex), l0)
    big = np.zeros(L * L, complex)
    big[: l0 * l0] = flm
    return np.real(pyssht.inverse(big, L))


def image_of(fig):
    ims = [im for ax in fig.axes for im in ax.images]
    return ims[0], ims[0].axes


def filled(im):
    return np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)


def compare(case, im, f, monitor, rtol=1e-8):
    want, _ = pyssht.mollweide_projection(np.array(f), f.shape[0])
    got = filled(im)
    want = np.ma.filled(np.ma.asarray(want).astype(float), np.nan)
    case.require(got.shape == want.shape, monitor, f"image of {got.shape} instead of {want.shape}")
    case.require(np.array_equal(np.isnan(got), np.isnan(want)), monitor, "different pixels are blank")
    ok = ~np.isnan(want)
    case.close(got[ok], want[ok], monitor, rtol=rtol, scale=np.max(np.abs(f[np.isfinite(f)]), initial=1e-300))
    return want


@check.workload(quick=64, thorough=500)
def maps(case):
    rng = case.rng
    over = bool(case.index % 4 == 0)
    L = int(rng.integers(2, 13)) if rng.integers(4) else int(rng.integers(13, 40 if over else 65))
    f = smooth_map(rng, L)
    if over and (case.index // 4) % 4 in (1, 2):
        f = f * (1e9 if (case.index // 4) % 4 == 1 else 1e-9)
    kw = dict(oversample=over)
    if over and rng.integers(2):
        kw = {}  # default
    title = None if rng.integers(4) == 0 else str(rng.choice([f"Map {case.index} é", "x", " posterior mean,  convergence (synthesis) ", "A long title " * 12 + "of the map", "two\nlines"]))
    if title is not None:
        kw["title"] = title
    cbar = bool(rng.integers(3))
    if not cbar:
        kw["cbar"] = False
    elif rng.integers(2):
        kw["cbar_label"] = str(rng.choice(["unit", " km / s ", "a very long label of a colour bar " * 4]))
    centre = bool(rng.integers(3) == 0)
    if centre:
        kw["centre0"] = True
    ref = oversample(f) if over else f.copy()
    d0, d1 = float(ref.min()), float(ref.max())
    lims = {}
    if rng.integers(2):
        lims["vmin"] = 0.0 if d0 < 0 < d1 and rng.integers(2) else d0 + float(rng.uniform(-0.5, 0.2)) * (d1 - d0)
    if rng.integers(2):
        lims["vmax"] = 0.0 if d0 < 0 < d1 and "vmin" not in lims and rng.integers(2) else d1 - float(rng.uniform(-0.5, 0.2)) * (d1 - d0)
    kw.update(lims)
    if rng.integers(3) == 0:
        kw["cmap"] = "viridis"
    mask = None
    if rng.integers(3) == 0:
        mask = rng.random(ref.shape) < 0.3
        mask[0, :] = True
        kw["mask"] = mask
    g = Guarded(f=f, **({"mask": mask} if mask is not None else {}))
    try:
        fig = plot_map(f, **kw)
        g.verify(case)
        im, ax = image_of(fig)
        shown = ref.copy()
        if mask is not None:
            shown[mask] = np.nan
        want = compare(case, im, shown, "oversampled-map" if over else "projected-map", rtol=1e-7)
        if mask is not None:
            case.require(np.isnan(filled(im)).sum() > 0 and (~np.isnan(want)).sum() > 0, "masked-blank")
            bad = im.cmap.get_bad() if hasattr(im.cmap, "get_bad") else None
            case.require(bad is None or bad[3] == 0, "masked-blank", f"masked pixels are painted {bad}")
        case.require(im.origin == "lower", "projected-map", "map is upside down")
        case.require(ax.get_title() == (title or ""), "title", f"{ax.get_title()!r} instead of {title!r}")
        lo, hi = im.get_clim()
        case.note(clim=(lo, hi), lims=lims, data=(float(np.nanmin(want)), float(np.nanmax(want))))
        if centre:
            m = np.max(np.abs(ref))
            case.close([lo, hi], [-m, m], "centred", rtol=1e-7)
        elif np.nanmin(want) < min(np.nanmax(want), lims.get("vmax", np.inf)) and np.nanmax(want) > lims.get("vmin", -np.inf):
            d = want[np.isfinite(want)]
            case.close(lo, lims.get("vmin", d.min()), "colour-limits", rtol=1e-7, scale=np.max(np.abs(d)) + max(map(abs, lims.values()), default=0.0))
            case.close(hi, lims.get("vmax", d.max()), "colour-limits", rtol=1e-7, scale=np.max(np.abs(d)) + max(map(abs, lims.values()), default=0.0))
        case.require(im.cmap.name.startswith(kw.get("cmap", "turbo")), "colour-limits", f"colour map {im.cmap.name}")
        bars = [a for a in fig.axes if a is not ax]
        case.require(len(bars) == int(cbar), "colour-bar", f"{len(bars)} colour bars, requested {cbar}")
        if cbar:
            lab = (bars[0].get_ylabel(), bars[0].get_xlabel())
            case.require(kw.get("cbar_label", "") in lab, "colour-bar", f"labels {lab}")
            case.require(im.colorbar is not None, "colour-bar", "colour bar is not that of the map")
        if not over:
            kept = filled(im).copy()
            fig2 = plot_map(-f, oversample=False, title="other")
            im2, _ = image_of(fig2)
            case.require(im2 is not im and fig2 is not fig, "figures-independent", "second map drawn into the first figure")
            case.require(np.array_equal(filled(im), kept, equal_nan=True) and im.get_clim() == (lo, hi), "figures-independent", "a later map changed an earlier one")
            compare(case, im2, -f, "projected-map", rtol=1e-7)
    finally:
        plt.close("all")
    case.sig(L, over, centre, cbar, mask is not None, tuple(lims))
    case.note(L=L, options=sorted(kw))


@check.workload(quick=14, thorough=150)
def wavelet_maps(case):
    rng = case.rng
    L, B, J = rand_tiling(rng, 4, 9)
    bls = bandlimits(L, B, J)
    while len(bls) > 5 or bls[0] < 2:
        L, B, J = rand_tiling(rng, 4, 9)
        bls = bandlimits(L, B, J)
    over = bool(case.index % 5 == 0)
    f = smooth_map(rng, L)
    kw = dict(oversample=over)
    base = str(rng.choice(["Base", "low e title", "The title of all of the figures of " * 3])) if rng.integers(2) else ""
    if base:
        kw["title"] = base
    same = bool(rng.integers(2))
    if not same:
        kw["same_scale"] = False
    lims = {}
    if rng.integers(3) == 0:  # limits of the user's own, on both sides of the data
        lims["vmin"] = -float(np.max(np.abs(f))) * float(rng.uniform(5, 9))
    if rng.integers(3) == 0:
        lims["vmax"] = float(np.max(np.abs(f))) * float(rng.uniform(5, 9))
    kw.update(lims)
    keep = dict(kw)
    g = Guarded(f=f)
    try:
        figs = plot_wavelet_maps(f, L, B, J, **kw)
        g.verify(case)
        case.require(kw == keep, "inputs-unmodified", "options modified")
        wav, scal = pys2let.analysis_px2wav(f.ravel().astype(complex), B, L, J, 1, 0, upsample=0)
        c = np.concatenate([scal, wav])
        case.require(len(figs) == len(bls), "wavelet-order", f"{len(figs)} figures for {len(bls)} scales")
        start, tops = 0, []
        for k, (fig, bl) in enumerate(zip(figs, bls)):
            m = np.real(c[start: start + npix(bl)]).reshape(bl, 2 * bl - 1).copy()
            start += npix(bl)
            im, ax = image_of(fig)
            compare(case, im, oversample(m) if over else m, "wavelet-order", rtol=1e-7)
            t = ax.get_title()
            case.require(base in t and (("Scaling" in t) if k == 0 else t.endswith(f"scale {k}")), "title", f"figure {k} is titled {t!r}")
            if k:
                tops.append(im.get_clim()[1])
            if "vmin" in lims:
                case.require(im.get_clim()[0] == lims["vmin"], "colour-limits", f"scale {k} starts at {im.get_clim()[0]}, requested {lims}")
            if "vmax" in lims and (k == 0 or not same):
                case.require(im.get_clim()[1] == lims["vmax"], "colour-limits", f"scale {k} ends at {im.get_clim()[1]}, requested {lims}")
        if same and len(tops) > 1:
            case.require(np.ptp(tops) <= 1e-9 * np.max(np.abs(tops)), "colour-limits", f"wavelet scales end at {tops}")
        if same and tops and "vmax" not in lims and np.max(wav.real) > lims.get("vmin", -np.inf):
            case.close(tops[0], np.max(wav.real), "colour-limits", rtol=1e-7, scale=np.max(np.abs(wav)), detail="(common upper limit)")
    finally:
        plt.close("all")
    case.sig(L, B, J, over, same, base)
    case.note(L=L, B=B, J_min=J, bandlimits=bls)


@check.workload(quick=60, thorough=600)
def evolution(case):
    rng = case.rng
    n = int(rng.choice([2, 3, 17, 200, int(rng.integers(300, 30000))]))
    lp = -np.abs(rng.standard_normal(n)) * logu(rng, 1e-2, 1e4) - 1e-3
    if rng.integers(2):  # rejections repeat the best sample
        k = int(np.argmax(lp))
        lp[rng.integers(n, size=2)] = lp[k]
    if rng.integers(4) == 0:  # a user's own prior may have a density above one
        lp = lp - float(rng.uniform(0.1, 1.5)) * lp.min()
    L2, L1 = np.abs(rng.standard_normal(n)) + 0.1, np.abs(rng.standard_normal(n)) + 0.1
    g = Guarded(lp=lp, L2=L2, L1=L1)
    try:
        fig = plot_evolution(lp, L2, L1) if rng.integers(2) else plot_evolution(lp, L2, L1, figsize=(6, 4))
        g.verify(case)
        case.require(len(fig.axes) == 3, "evolution-data", f"{len(fig.axes)} panels")
        for ax, want in zip(fig.axes, (-lp, L2, L1)):
            lines = [l for l in ax.lines if np.size(l.get_ydata()) == n and np.array_equal(np.ravel(l.get_ydata()), want)]
            case.require(len(lines) >= 1, "evolution-data", "panel does not show its quantity")
            case.equal(np.ravel(lines[0].get_xdata()), np.arange(n), "evolution-data", "(abscissa)")
            marks = [l for l in ax.lines if l is not lines[0]]
            case.require(len(marks) >= 1, "marks-maximum", "no mark")
            at = np.unique(np.array([np.ravel(np.asarray(v)) for m in marks for v in m.get_xdata()]))
            case.require(all(lp[int(i)] == lp.max() for i in at), "marks-maximum", f"mark at {at}, maximum at {np.argmax(lp)}")
        if rng.random() < 0.2:
            fig.canvas.draw()
        # a second figure leaves the first alone
        before = [[np.array(l.get_ydata()) for l in ax.lines] for ax in fig.axes]
        fig2 = plot_evolution(lp[::-1], L1, L2)
        case.require(fig2 is not fig and len(fig2.axes) == 3, "figures-independent", "second evolution drawn into the first figure")
        fig3 = plot_chain_sample(L2)
        case.require(fig3 is not fig and fig3 is not fig2 and len(fig3.axes) == 2, "figures-independent", "sample drawn into another figure")
        after = [[np.array(l.get_ydata()) for l in ax.lines] for ax in fig.axes]
        same = len(before) == len(after) and all(len(a) == len(b) and all(np.array_equal(u, v) for u, v in zip(a, b)) for a, b in zip(before, after))
        case.require(same, "figures-independent", "a later figure changed an earlier one")
    finally:
        plt.close("all")
    x = randc(rng, n, bool(rng.integers(2)))
    if case.index % 3 == 0:  # parts of very different size
        x = np.real(x) * logu(rng, 1e-12, 1e12) + 1j * (rng.standard_normal(n) * logu(rng, 1e-12, 1e12))
    if case.index % 7 == 0:
        x = np.real(x).copy()
    g = Guarded(x=x)
    try:
        fig = plot_chain_sample(x)
        g.verify(case)
        case.require(len(fig.axes) == 2, "sample-parts", f"{len(fig.axes)} panels")
        for ax, want in zip(fig.axes, (np.real(x), np.imag(x))):
            case.equal(np.ravel(ax.lines[0].get_ydata()), want, "sample-parts")
    finally:
        plt.close("all")
    case.sig(n, len(np.unique(lp)) == n)
    case.note(n=n)


@check.workload(quick=16, thorough=160)
def healpix_views(case):
    """The wrapper of healpy's own view: same image, own figure, no side effect."""
    rng = case.rng
    nside = int(2 ** rng.integers(0, 6))
    x, y = rng.standard_normal(12 * nside**2) * logu(rng, 0.1, 10), rng.standard_normal(12 * nside**2)
    kw = {}
    if rng.integers(2):
        kw["title"] = f"view {case.index}"
    if rng.integers(2):
        kw["min"], kw["max"] = -1.0, 1.5
    if rng.integers(3) == 0:
        kw["cbar"] = False
    if rng.integers(3) == 0:
        kw["flip"] = "geo"
    if rng.integers(3) == 0:
        kw["rot"] = (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))
    if rng.integers(3) == 0:
        kw["nest"] = True
    if rng.integers(3) == 0:
        kw["cmap"] = "viridis"
    if rng.integers(4) == 0:
        kw["unit"] = "km"
    size = dict(figsize=(6, 4)) if rng.integers(2) else {}
    g = Guarded(x=x, y=y)
    try:
        shown = []
        other = plt.figure()
        other.add_subplot(1, 1, 1).plot([1, 2, 3])
        for k, im in enumerate((x, y, x)):
            np.random.seed(7)  # the same point of the generator every time
            before = np.random.get_state()[1].copy()
            fig = mollview(im, **size, **kw)
            case.require(np.array_equal(before, np.random.get_state()[1]), "healpix-view", "draws random numbers")
            ref = plt.figure()
            hp.mollview(im, fig=ref.number, **kw)
            a, b = fig.axes[0].images[0], ref.axes[0].images[0]
            case.require(np.allclose(filled(a), filled(b), equal_nan=True), "healpix-view", "shows another map")
            case.require(a.cmap.name == b.cmap.name, "healpix-view", f"colour map {a.cmap.name} instead of {b.cmap.name}")
            case.require([[t.get_text() for t in ax.texts] for ax in fig.axes] == [[t.get_text() for t in ax.texts] for ax in ref.axes], "healpix-view", "another text")
            case.require(a.get_clim() == b.get_clim(), "healpix-view", f"limits {a.get_clim()} instead of {b.get_clim()}")
            case.require(len(fig.axes) == len(ref.axes) and fig.axes[0].get_title() == ref.axes[0].get_title(), "healpix-view", "axes or title")
            if size:
                case.require(tuple(fig.get_size_inches()) == (6, 4), "healpix-view", "figure size")
            plt.close(ref)
            case.require(fig is not other and all(fig is not s for s, _ in shown), "figures-independent", f"view {k} drawn into an earlier figure")
            shown.append((fig, filled(a).copy()))
            for f, img in shown:
                case.require(len(f.axes[0].images) == 1 and np.array_equal(filled(f.axes[0].images[0]), img, equal_nan=True), "figures-independent", "a later view changed an earlier one")
            case.require(len(other.axes) == 1, "figures-independent", "drawn into the user's figure")
        g.verify(case)
    finally:
        plt.close("all")
    case.sig(nside, tuple(sorted(kw)), bool(size))
    case.note(nside=nside, options=sorted(kw))
