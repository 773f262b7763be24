"""C30: the simulation download yields the simulated map, whole or not at all.

The real script runs in a scratch folder; the network library is replaced by a
stand-in that serves (or fails to serve) a generated file and records every
request.
"""
import contextlib
import io
import logging
import os
import runpy
import sys
import types
import warnings

import healpy as hp
import numpy as np

from vmon.core import Check
from vmon.experiments import REPO, scratch

logging.getLogger("healpy").setLevel(logging.ERROR)

check = Check(
    "C30",
    "generated simulation files (nside 1 to 64, values of every magnitude, any record markers) served by a stand-in server or "
    "found on disk, downloads and conversions that fail at a random byte or step, repeated runs; the whole script and its two "
    "functions; distinct by nside, kind of run and point of failure",
    ["the record structure of the generated files is that of the simulation's own reader", "files of more than one block "
     "(over 536870908 pixels) are too large to generate"],
)
check.require_monitors("map-is-convergence", "downloaded-once", "address", "not-repeated", "nothing-left-behind", "failure-surfaces", "recovers")
SCRIPT = os.path.join(REPO, "experiments", "weaklensing", "download_takahasi.py")
BIN, FITS = "allskymap_nres12r000.zs16.mag.dat", "takahasi_4096_000_zs16_kappa.fits"
HOST = "http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres"


def simulation(rng, nside):
    """Four float fields with the record markers of an unformatted file."""
    n = 12 * nside**2
    scale = 10.0 ** rng.uniform(-12, 6)
    f = (rng.standard_normal((4, n)) * scale).astype("<f4")
    mark = lambda k: rng.integers(0, 2**32, k, dtype=np.uint32).tobytes()
    out = mark(1) + np.int32(nside).tobytes() + np.int64(n).tobytes() + mark(2)
    for k in range(4):
        out += f[k].tobytes() + mark(2 if k < 3 else 1)
    return out, f[0].astype(float)


class HTTPError(IOError):
    pass


class Broken(HTTPError):
    pass


class Session:
    def __init__(self, server):
        self.get, self.headers = server.get, {}

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    def close(self):
        pass


class Raw(io.BytesIO):
    """Body of a response that may break off, with or without an error."""
    stop, loud = None, True

    def read(self, n=-1, *a, **k):
        if self.stop is None:
            return super().read(n)
        left = self.stop - self.tell()
        if left <= 0:
            if self.loud:
                raise Broken("connection lost")
            return b""
        return super().read(left if n is None or n < 0 else min(n, left))

    def stream(self, n=2**16, **k):
        while b := self.read(n):
            yield b


class Server:
    def __init__(self, body, stop=None, loud=True, status=200):
        self.body, self.stop, self.loud, self.status, self.asked = body, stop, loud, status, []

    def get(self, url, *a, **k):
        self.asked.append(url)
        srv = self

        class Response:
            status_code, ok, reason = srv.status, srv.status < 400, "status"
            url = self.asked[-1]
            headers = {"Content-Length": str(len(srv.body)), "content-length": str(len(srv.body))}

            def __init__(r):
                r.raw = Raw(srv.body)
                r.raw.stop, r.raw.loud = srv.stop, srv.loud

            def __enter__(r):
                return r

            def __exit__(r, *e):
                return False

            def close(r):
                pass

            def raise_for_status(r):
                if srv.status >= 400:
                    raise HTTPError(f"{srv.status}")

            def iter_content(r, n=1, **k):
                while b := r.raw.read(n or 2**16):
                    yield b

            @property
            def content(r):
                return r.raw.read()

        return Response()


class Bar:
    def __new__(cls, it=None, *a, **k):
        if it is not None:
            return iter(it)
        return super().__new__(cls)

    def update(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    @staticmethod
    @contextlib.contextmanager
    def wrapattr(stream, method, *a, **k):
        yield stream


@contextlib.contextmanager
def world(d, server):
    """Working directory and network as the script sees them."""
    names = ("requests", "requests.exceptions", "tqdm", "tqdm.auto")
    old, cwd = {n: sys.modules.get(n) for n in names}, os.getcwd()
    rq, tq = types.ModuleType("requests"), types.ModuleType("tqdm")
    auto, exc = types.ModuleType("tqdm.auto"), types.ModuleType("requests.exceptions")
    rq.get = server.get
    rq.Session = rq.session = lambda: Session(server)
    exc.RequestException = exc.HTTPError = exc.ConnectionError = rq.RequestException = rq.HTTPError = rq.ConnectionError = HTTPError
    rq.exceptions = exc
    tq.tqdm = tq.trange = auto.tqdm = Bar
    tq.auto = auto
    sys.modules.update({"requests": rq, "requests.exceptions": exc, "tqdm": tq, "tqdm.auto": auto})
    os.chdir(d)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            yield
    finally:
        os.chdir(cwd)
        for n in names:
            if old[n] is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = old[n]


def script(d, server):
    with world(d, server):
        runpy.run_path(SCRIPT, run_name="__main__")


def read(path):
    return hp.read_map(path, dtype=np.float64)


def judge_map(case, path, want, detail=""):
    case.require(os.path.exists(path), "map-is-convergence", f"no {os.path.basename(path)} {detail}")
    got = read(path)
    case.require(got.shape == want.shape, "map-is-convergence", f"{got.size} pixels instead of {want.size} {detail}")
    case.require(np.array_equal(got.astype(np.float32), want.astype(np.float32)), "map-is-convergence",
                 lambda: f"{np.sum(got.astype(np.float32) != want.astype(np.float32))} of {want.size} pixels differ {detail}")


@check.workload(quick=120, thorough=1500)
def whole_script(case):
    rng = case.rng
    nside = int(rng.choice([1, 2, 4, 8, 16, 64]))
    body, want = simulation(rng, nside)
    kind = ("download", "on disk", "finished")[case.index % 3]
    with scratch() as d:
        if kind == "on disk":
            with open(os.path.join(d, BIN), "wb") as f:
                f.write(body)
        elif kind == "finished":
            other = rng.standard_normal(12)
            hp.write_map(os.path.join(d, FITS), other, dtype=np.float64)
        srv = Server(body)
        script(d, srv)
        if kind == "download":
            case.require(len(srv.asked) == 1, "downloaded-once", f"{len(srv.asked)} requests")
            case.require(srv.asked[0] == HOST + "12/" + BIN, "address", srv.asked[0])
            with open(os.path.join(d, BIN), "rb") as f:
                case.require(f.read() == body, "downloaded-once", "the binary file is not the one served")
        else:
            case.require(not srv.asked, "not-repeated", f"{kind}: {srv.asked} requested")
        if kind == "finished":
            case.require(np.array_equal(read(os.path.join(d, FITS)), other), "not-repeated", "a finished map was changed")
        else:
            judge_map(case, os.path.join(d, FITS), want, f"({kind}, nside {nside})")
        left = set(os.listdir(d)) - {FITS, BIN}
        case.require(not left, "nothing-left-behind", f"{sorted(left)} in the folder")
        was = {n: os.stat(os.path.join(d, n)).st_mtime_ns for n in os.listdir(d)}
        script(d, srv)
        case.require(len(srv.asked) == (kind == "download"), "not-repeated", "downloaded again")
        case.require(was == {n: os.stat(os.path.join(d, n)).st_mtime_ns for n in os.listdir(d)}, "not-repeated", "files rewritten by a second run")
    case.sig(nside, kind)
    case.note(nside=nside, kind=kind)


@check.workload(quick=60, thorough=800)
def functions(case):
    """Conversion and download of other simulations."""
    rng = case.rng
    with scratch() as d:
        srv = Server(b"")
        with world(d, srv):
            mod = runpy.run_path(SCRIPT, run_name="download_takahasi")
            for _ in range(2):
                nside = int(rng.choice([1, 2, 4, 8, 32]))
                body, want = simulation(rng, nside)
                nres, real, zs = int(rng.choice([12, 13, 14])), int(rng.integers(0, 108)), int(rng.integers(1, 67))
                name = f"allskymap_nres{nres}r{real:03}.zs{zs}.mag.dat"
                srv.body, srv.asked = body, []
                mod["download_binary"](name)
                case.require(srv.asked == [f"{HOST}{nres}/{name}"], "address", f"{srv.asked} for {name}")
                with open(name, "rb") as f:
                    case.require(f.read() == body, "downloaded-once", "the binary file is not the one served")
                mod["binary_to_fits"](name)
                judge_map(case, "output.fits", want, f"(nside {nside})")
                os.rename("output.fits", "moved.fits")
                os.remove("moved.fits")
    case.sig(nres, nside, real > 9, zs > 9)


@check.workload(quick=120, thorough=1500)
def failures(case):
    rng = case.rng
    nside = int(rng.choice([1, 2, 4, 8]))
    body, want = simulation(rng, nside)
    n = 12 * nside**2
    kind = ("lost", "short", "refused", "truncated", "leftover")[case.index % 5]
    with scratch() as d:
        stop = int(rng.integers(0, len(body)))
        if case.index % 2:  # more often within the map itself, also at map sizes
            stop = int(rng.choice([24, 24 + 4 * 12, 24 + 4 * int(rng.integers(0, n)), 24 + 4 * 12 * (nside // 2 or 1) ** 2, int(rng.integers(0, 24 + 4 * n))]))
            stop = min(stop, len(body) - 1)
        srv = dict(lost=Server(body, stop, True), short=Server(body, stop, False), refused=Server(b"<html>not found</html>" * 40, status=int(rng.choice([403, 404, 503]))),
                   ).get(kind, Server(body))
        if kind == "truncated":
            stop = min(stop, 24 + 4 * n - 1)
            with open(os.path.join(d, BIN), "wb") as f:
                f.write(body[:stop])
        elif kind == "leftover":
            with open(os.path.join(d, "output.fits"), "wb") as f:
                f.write(body[:stop])
        raised = None
        try:
            script(d, srv)
        except (SystemExit, Exception) as e:
            raised = e
        case.note(nside=nside, kind=kind, stop=stop, size=len(body), raised=type(raised).__name__)
        if kind == "leftover":
            case.require(raised is None, "recovers", f"{type(raised).__name__}: {raised} because of an earlier interrupted conversion")
        else:
            case.require(raised is not None, "failure-surfaces", f"{kind}: the script ended normally ({stop} of {len(body)} bytes)")

            case.require(not os.path.exists(os.path.join(d, FITS)), "nothing-left-behind", f"{kind}: a map was left")
        if kind in ("lost", "short", "refused"):
            # the next run, with the network back, succeeds
            ok = Server(body)
            try:
                script(d, ok)
            except (SystemExit, Exception) as e:
                case.require(False, "recovers", f"run after a failed download ({kind}, {stop} of {len(body)} bytes): {type(e).__name__}: {e}")
            case.seen("recovers")
        if kind != "truncated":
            judge_map(case, os.path.join(d, FITS), want, f"(after: {kind}, {stop} of {len(body)} bytes)")
    case.sig(nside, kind, stop // 40)
