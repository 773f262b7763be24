"""C29: failures surface and leave no trace."""
import contextlib
import copy
import io
import os
import shutil
import tempfile

import h5py
import numpy as np

from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity, PathIntegral, WeakLensing
from pxmcmc.mcmc import MYULA, SKROCK, PxMALA
from pxmcmc.prior import L1
from pxmcmc.saving import save_mcmc
from pxmcmc.utils import chebyshev1, expand_mlm
from vmon.core import Check, Guarded
from vmon.problems import Problem, logu, randc
from vmon.sphere import SphereProblem, npix, rand_mask, rand_ngal

check = Check(
    "C29",
    "fault injection: an exception (ordinary, keyboard interrupt, system exit, floating point, memory) is raised by the "
    "forward model, the gradient, the prior or its prox at a random call of a run; traces are compared with the undisturbed "
    "run of the same seed, the run is then repeated; refused calls of every operator and failed saves likewise; distinct by "
    "sampler, fault site, kind of exception and position",
    ["np.random.seed fixes the trajectory"],
)
check.require_monitors("fault-propagates", "prefix-of-undisturbed", "completed-iterations-saved", "rerun-as-new", "inputs-unmodified",
                       "not-done", "refused-call", "failed-save-closed", "save-after-failure")
NAMES = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "chain": "chain", "predictions": "preds"}


class Fault(Exception):
    pass


KINDS = (Fault, KeyboardInterrupt, SystemExit, FloatingPointError, MemoryError, ValueError, RuntimeError,
         np.linalg.LinAlgError, ZeroDivisionError, AssertionError, AttributeError, IndexError, TypeError)


class Injector:
    """Counts the calls of one site and raises at the chosen one."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc = 0, at, exc
        self.saved = []
        self.mc = None

    def hit(self):
        self.n += 1
        if self.at is None and self.mc is not None:
            self.saved.append(self.done())
        if self.at == self.n:
            raise self.exc

    def done(self):
        """Rows of the chain written so far (rows are never exactly zero)."""
        return int(np.count_nonzero(np.any(self.mc.chain != 0, axis=1)))


class FaultyOperator(ForwardOperator):
    def forward(self, X):
        self.inj["forward"].hit()
        return super().forward(X)

    def calc_gradg(self, preds):
        self.inj["gradient"].hit()
        return super().calc_gradg(preds)


class FaultyPrior:
    def __init__(self, prior):
        self._p = prior
        self.inj = None

    def prior(self, X):
        self.inj["prior"].hit()
        return self._p.prior(X)

    def proxf(self, X):
        self.inj["prox"].hit()
        return self._p.proxf(X)


def injectors(site=None, at=None, exc=None):
    return {s: Injector(at if s == site else None, exc) for s in ("forward", "gradient", "prior", "prox")}


def build(algo, op, prior, params, tune):
    if algo == "pxmala":
        return PxMALA(op, prior, params, tune_delta=tune)
    return {"myula": MYULA, "skrock": SKROCK}[algo](op, prior, params)


def result(mc):
    out = {k: np.array(getattr(mc, a)) for k, a in NAMES.items()}
    if isinstance(mc, PxMALA):
        out["acc"], out["deltas"] = np.array(mc.acceptance_trace), np.array(mc.deltas_trace)
    return out


@check.workload(quick=600, thorough=12000)
def faults(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    site = ("forward", "gradient", "prior", "prox")[case.index // 3 % 4]
    pr = Problem(rng, p=int(rng.integers(1, 5)))
    tune = bool(rng.integers(2))
    if algo == "pxmala":
        pr.delta *= logu(rng, 0.3, 8)
    n, burn, gap = int(rng.integers(1, 9)), int(rng.choice([0, 0, 1, 3])), int(rng.choice([0, 0, 1, 2, 4]))
    params = pr.params(nsamples=n, nburn=burn, ngap=gap, s=int(rng.integers(1, 4)), verbosity=int(rng.integers(0, 3)))
    before = copy.deepcopy(params.__dict__)
    op = FaultyOperator(pr.data, pr.sig, pr.setting, transform=pr.transform, measurement=pr.measurement, nparams=pr.p)
    prior = FaultyPrior(pr.prior)
    x0 = pr.start(rng)
    x0 = x0 if np.any(x0) else x0 + 1  # a saved sample is recognised by not being zero
    guard = Guarded(data=pr.data, sig=pr.sig, start=x0, A=pr.A, M=pr.M)

    def go(mc, inj):
        op.inj = prior.inj = inj
        for v in inj.values():
            v.mc = mc
        mc.delta = params.delta
        for name in NAMES.values():
            getattr(mc, name)[...] = 0
        np.random.seed(case.npseed)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                mc.run(x0)
            return None, buf.getvalue()
        except BaseException as e:  # noqa: B902 -- every exception is the observation
            return e, buf.getvalue()

    inj0 = injectors()
    ref = build(algo, op, prior, params, tune)
    e, text = go(ref, inj0)
    if e is not None:
        raise e
    base = result(ref)
    calls = inj0[site].n
    case.require(calls > 0, "fault-propagates", f"{site} is never evaluated")
    at = int(rng.integers(1, calls + 1))
    exc = KINDS[rng.integers(len(KINDS))]("injected")
    case.note(sampler=algo, site=site, call=at, calls=calls, exception=type(exc).__name__, nsamples=n, nburn=burn, ngap=gap, **pr.describe())
    case.sig(algo, site, type(exc).__name__, at, n, burn, gap)
    mc = build(algo, op, prior, params, tune)
    got, text = go(mc, injectors(site, at, exc))
    chain_exc = got
    while chain_exc is not None and chain_exc is not exc:
        chain_exc = chain_exc.__cause__ or chain_exc.__context__
    case.require(got is exc, "fault-propagates", lambda: f"{type(exc).__name__} raised by the {site} at call {at} of {calls}: the run " +
                 ("returned normally" if got is None else f"raised {got!r}" + (" instead" if chain_exc is None else ", wrapping it")))
    case.require("DONE" not in text, "not-done", "a failed run reports DONE")
    part = result(mc)
    k = inj0[site].saved[at - 1]
    kk = int(np.count_nonzero(np.any(part["chain"] != 0, axis=1)))
    # how many samples must be there: those of all iterations completed at the time of this call
    case.require(kk == k, "completed-iterations-saved", f"{kk} samples are in the chain, the undisturbed run had saved {k} at that call")
    for name in NAMES:
        case.equal(part[name][:k], base[name][:k], "prefix-of-undisturbed", f"({name})")
        case.require(not np.any(part[name][k:]), "prefix-of-undisturbed", f"{name} holds values that belong to no saved sample")
    if algo == "pxmala":
        a, d = part["acc"], part["deltas"]
        case.equal(a, base["acc"][: len(a)], "prefix-of-undisturbed", "(acceptances)")
        case.equal(d, base["deltas"][: len(d)], "prefix-of-undisturbed", "(step sizes)")
        it = burn + (k - 1) * max(gap, 1) + 1 if k else 0
        case.require(len(a) >= it, "completed-iterations-saved", f"{len(a)} acceptances for {it} completed iterations")
    guard.verify(case)
    case.require(params.__dict__ == before, "inputs-unmodified", "the parameter object changed")
    # the same sampler runs again as if it were new
    for again in (mc, build(algo, op, prior, params, tune)):
        e, text = go(again, injectors())
        if e is not None:
            raise e
        r = result(again)
        for name in base:
            case.equal(r[name], base[name], "rerun-as-new", f"({name} after a failed run)")
    # a rejected start point is a failure too
    e = None
    op.inj = prior.inj = injectors()
    try:
        mc.run(np.ones(pr.p + 1))
    except (ValueError, TypeError) as err:
        e = err
    case.require(e is not None, "fault-propagates", "a start point of the wrong size is accepted")
    e, text = go(mc, injectors())
    if e is not None:
        raise e
    r = result(mc)
    for name in base:
        case.equal(r[name], base[name], "rerun-as-new", f"({name} after a rejected start point)")


@check.workload(quick=90, thorough=1500)
def saved_in_time(case):
    """A sample is in the arrays before the next state is evaluated."""
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng, p=2, real_data=False)
    if algo == "pxmala":
        pr.delta *= logu(rng, 0.3, 8)
    n, burn, gap = int(rng.integers(2, 40)), int(rng.choice([0, 2, 7])), int(rng.choice([0, 1, 3]))
    g = max(gap, 1)
    total = burn + (n - 1) * g + 1
    x0 = pr.start(rng)
    x0 = x0 if np.any(x0) else x0 + 1  # a saved sample is recognised by not being zero
    tr = build(algo, pr.operator(), pr.prior, pr.params(nsamples=total, s=2), True)
    np.random.seed(case.npseed)
    tr.run(x0)
    if algo == "pxmala":  # proposals in order
        new = tr.forward.states()[1:]
    else:
        new = list(tr.chain)
    key = lambda x: np.asarray(x, complex).tobytes()
    when = {key(x): i for i, x in reversed(list(enumerate(new)))}
    short = []

    class Spy(ForwardOperator):
        def forward(self, X):
            i = when.get(key(X))
            if i is not None and i > 0:
                want = 0 if i - 1 < burn else min(n, (i - 1 - burn) // g + 1)
                for name in NAMES.values():
                    a = getattr(self.mc, name)
                    if want and not (np.array_equal(a[want - 1], np.asarray(getattr(tr, name))[burn + (want - 1) * g])):
                        short.append((name, want, i))
                case.seen("completed-iterations-saved")
            return super().forward(X)

    op = Spy(pr.data, pr.sig, pr.setting, transform=pr.transform, measurement=pr.measurement, nparams=pr.p)
    mc = build(algo, op, pr.prior, pr.params(nsamples=n, nburn=burn, ngap=gap, s=2), True)
    op.mc = mc
    np.random.seed(case.npseed)
    mc.run(x0)
    case.require(not short, "completed-iterations-saved", lambda: f"{short[0][0]}: sample {short[0][1]} of {n} was not saved when iteration {short[0][2]} evaluated its model")
    case.sig("in-time", algo, n, burn, gap)
    case.note(sampler=algo, nsamples=n, nburn=burn, ngap=gap)


REJECT = (AssertionError, ValueError, TypeError, IndexError)


@check.workload(quick=150, thorough=2000)
def refused_calls(case):
    """After a refused call every object answers as before."""
    rng = case.rng
    kind = case.index % 5
    L = int(rng.integers(2, 9))
    bad = []
    if kind == 0:
        mask, ngal = rand_mask(rng, L), rand_ngal(rng, L)
        op = WeakLensing(L, mask=mask, ngal=ngal)
        nx, ny = npix(L), int(np.sum(mask.astype(bool)))
        x = randc(rng, nx, True)
        nan = x.copy()
        nan[rng.integers(nx)] = np.nan
        bad = [lambda: op.forward(x[:-1]), lambda: op.mask_forward(nan.reshape(L, -1)), lambda: op.mask_forward(np.ones((L, L))),
               lambda: op.mask_adjoint(np.ones(ny + 2)), lambda: op.adjoint(np.ones(ny + 2, complex))]
        probe = lambda: [op.forward(x), op.adjoint(y)]
        y = randc(rng, ny, True)
    elif kind == 1:
        from scipy import sparse
        ny, nx = int(rng.integers(1, 9)), int(rng.integers(2, 9))
        op = PathIntegral(sparse.csr_matrix(randc(rng, (ny, nx), True)))
        x, y = randc(rng, nx, True), randc(rng, ny, True)
        bad = [lambda: op.forward(np.ones(nx + 1)), lambda: op.adjoint(np.ones(ny + 1))]
        probe = lambda: [op.forward(x), op.adjoint(y)]
    elif kind == 2:
        ny, nx = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        op = Identity(ny, nx)
        x, y = randc(rng, nx, True), randc(rng, ny, True)
        bad = [lambda: op.forward(np.ones(nx + 1)), lambda: op.adjoint(np.ones(ny + 1))]
        probe = lambda: [op.forward(x), op.adjoint(y)]
    elif kind == 3:
        pr = SphereProblem(rng, Lmax=4)
        op = pr.op
        x = randc(rng, pr.p, True)
        d = randc(rng, pr.n, True)
        bad = [lambda: op.forward(np.ones(pr.p + 3, complex)), lambda: op.calc_gradg(np.ones(pr.n + 3, complex))]
        probe = lambda: [op.forward(x), op.calc_gradg(d)]
    else:
        p = int(rng.integers(2, 9))
        prior = L1("synthesis", None, None, np.abs(rng.standard_normal(p)))
        x = randc(rng, p, True)
        bad = [lambda: prior.proxf(np.ones(p + 1)), lambda: expand_mlm(x), lambda: chebyshev1(0.3, -1), lambda: L1("analysi", None, None, 1.0)]
        probe = lambda: [prior.proxf(x), prior.prior(x)]
    base = [np.array(v) for v in probe()]
    g = Guarded(x=x)
    for f in (bad[i] for i in rng.permutation(len(bad))):
        refused = False
        try:
            f()
        except Exception:
            refused = True
        case.seen("refused-call" if refused else "accepted-call")
        for a, b in zip(probe(), base):
            case.close(a, b, "refused-call", rtol=1e-11, scale=np.max(np.abs(b), initial=0) + 1e-300, detail="(answer changed by a refused call)")
    g.verify(case)
    case.sig("refused", kind, L)


class Unstorable:
    pass


@check.workload(quick=60, thorough=600)
def failed_saves(case):
    rng = case.rng
    tmp = tempfile.mkdtemp(prefix="vmon_c29_")
    try:
        algo = ("myula", "pxmala", "skrock")[case.index % 3]
        pr = Problem(rng, p=3)
        params = pr.params(nsamples=int(rng.integers(1, 9)), s=2)
        mc = build(algo, pr.operator(), pr.prior, params, True)
        mc.run(pr.start(rng))
        before = result(mc)
        missing = os.path.join(tmp, "no", "such", "folder")
        e = None
        try:
            save_mcmc(mc, params, missing, "out")
        except Exception as err:
            e = err
        case.require(e is not None and not os.path.exists(os.path.join(tmp, "no")), "failed-save-closed", "saving into a missing folder")
        if rng.integers(2):
            save_mcmc(mc, params, tmp, "out", earlier=1)
        e = None
        try:
            save_mcmc(mc, params, tmp, "out", fine=rng.standard_normal(4), broken=Unstorable(), later="x")
        except Exception as err:
            e = err
        case.require(e is not None, "failed-save-closed", "an extra that cannot be stored was dropped silently")
        path = os.path.join(tmp, "out.hdf5")
        try:
            if os.path.exists(path):
                with h5py.File(path, "r+") as f:
                    list(f.keys())
            case.seen("failed-save-closed")
        except OSError as err:
            case.require(False, "failed-save-closed", f"the file is left open or corrupt: {err}")
        v = float(rng.standard_normal())
        save_mcmc(mc, params, tmp, "out", value=v)
        with h5py.File(path, "r") as f:
            case.require(set(f.attrs) == set(vars(params)) | {"value"}, "save-after-failure", f"attributes {sorted(f.attrs)}")
            case.require(f.attrs["value"] == v, "save-after-failure")
            case.equal(f["chain"][...], mc.chain, "save-after-failure", "chain")
            case.equal(f["logposterior"][...], mc.logPi, "save-after-failure", "logposterior")
            case.equal(f["predictions"][...], mc.preds, "save-after-failure", "predictions")
        for name, w in before.items():
            case.equal(result(mc)[name], w, "inputs-unmodified", f"{name} changed by a failed save")
        case.require(sorted(os.listdir(tmp)) == ["out.hdf5"], "save-after-failure", f"files left: {os.listdir(tmp)}")
        case.sig("save", algo, pr.complex_x)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
