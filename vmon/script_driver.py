"""Runs one script of /repo/experiments the way a user does, shortened.

argv: state-file nsamples record-file script args...
The run parameters are shortened (nsamples, no burn-in, no thinning, silent),
the state of numpy's generator at the start of the sampler is written to
state-file, and with a record-file the map figures are recorded by name instead
of being drawn.
"""
import os
import pickle
import runpy
import sys

sys.dont_write_bytecode = True
repo, state_file, nsamples, record = os.environ["VMON_REPO"], sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.path[0] = repo
import numpy as np
import pxmcmc.mcmc as m

_init = m.PxMCMCParams.__init__


def short_init(self, *a, **k):
    _init(self, *a, **k)
    self.nsamples, self.nburn, self.ngap, self.verbosity = nsamples, 0, 0, 0


m.PxMCMCParams.__init__ = short_init
depth = [0]


def observe(cls):
    if "run" not in cls.__dict__:
        return
    run = cls.run

    def observed(self, *a, **k):
        if depth[0] == 0:
            with open(state_file, "wb") as f:
                pickle.dump(np.random.get_state(), f)
        depth[0] += 1
        try:
            return run(self, *a, **k)
        finally:
            depth[0] -= 1
    cls.run = observed


if state_file != "-":
    for c in (m.PxMCMC, m.MYULA, m.PxMALA, m.SKROCK):
        observe(c)

if record != "-":
    import inspect
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import pxmcmc.plotting as pl
    log = []
    sig = inspect.signature(pl.plot_map)

    def plot_map(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        d["f"] = np.array(d["f"])
        fig = matplotlib.figure.Figure(figsize=(1, 1))
        fig._vmon = d
        return fig

    pl.plot_map = plot_map
    _save = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *a, **k):
        lines = [[np.array(l.get_ydata()) for l in ax.lines] for ax in self.axes]
        log.append((os.path.abspath(str(fname)), getattr(self, "_vmon", None) or {"lines": lines}))
        return _save(self, fname, *a, **k)

    matplotlib.figure.Figure.savefig = savefig

sys.argv = sys.argv[4:]
try:
    runpy.run_path(sys.argv[0], run_name="__main__")
finally:
    if record != "-":
        with open(record, "wb") as f:
            pickle.dump(log, f)
