"""C28: progress reports are faithful."""
import contextlib
import io
import re

import numpy as np

from pxmcmc.mcmc import MYULA, SKROCK, PxMALA
from vmon.core import Check
from vmon.problems import Problem, logu

check = Check(
    "C28",
    "runs of every sampler under random schedules, verbosities and tracked subsets with the output captured; every line is "
    "parsed and compared with the values of the iteration it was printed after, read from the fully tracked run of the same "
    "seed; distinct by sampler, schedule, verbosity and tracked subset",
    ["np.random.seed fixes the trajectory"],
)
check.require_monitors("report-count", "report-saved-count", "report-values", "burn-in-report", "acceptance-rate", "silent", "done")
NUM = r"[-+0-9.eEjnaif()]+"
LINE = re.compile(r"^\s*([\d,_]+)\s*/\s*([\d,_]+)\s*-\s*(.*)$")
FULL = ["logposterior", "L2", "prior", "chain", "predictions"]


def build(algo, pr, params, tune):
    op = pr.operator()
    if algo == "pxmala":
        return PxMALA(op, pr.prior, params, tune_delta=tune)
    return {"myula": MYULA, "skrock": SKROCK}[algo](op, pr.prior, params)


def run(mc, x0, seed):
    buf = io.StringIO()
    np.random.seed(seed)
    with contextlib.redirect_stdout(buf):
        mc.run(x0)
    return buf.getvalue()


def number(s):
    return complex(s.replace(" ", "").replace(",", ""))


def parse(case, line):
    m = LINE.match(line)
    case.require(m is not None, "report-values", f"not a progress report: {line!r}")
    vals = {}
    for part in re.split(r"\s+-\s+", m.group(3).strip()):
        k, _, v = part.partition(":")
        try:
            vals[k.strip()] = number(v)
        except ValueError:
            case.require(False, "report-values", f"{part!r} is not a name and a number in {line!r}")
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", "")), vals


def judge(case, algo, pr, text, full, n, burn, gap, verb, what):
    g = max(gap, 1)
    total = burn + (n - 1) * g + 1  # iterations of the run
    lines = [l for l in text.splitlines() if l.strip()]
    case.require(lines.count("DONE") == 1 and lines[-1] == "DONE", "done", f"output ends with {lines[-1:]} ({what})")
    lines = lines[:-1]
    if verb <= 0:
        case.require(not lines, "silent", f"verbosity {verb} printed {lines[:2]}")
        return
    at = [i for i in range(total) if (i + 1) % verb == 0]
    case.require(len(lines) == len(at), "report-count", f"{len(lines)} reports instead of {len(at)} in {total} iterations ({what})")
    acc = np.cumsum(full.acceptance_trace) if algo == "pxmala" else None
    for i, line in zip(at, lines):
        if i < burn and algo != "pxmala":
            case.require("burn" in line.lower() and not LINE.match(line), "burn-in-report", f"iteration {i} of {burn} of the burn-in reported as {line!r}")
            continue
        saved = 0 if i < burn else (i - burn) // g + 1
        k, m, v = parse(case, line)
        case.require((k, m) == (saved, n), "report-saved-count", f"{k}/{m} reported after iteration {i}, {saved}/{n} samples are saved ({what})")
        # MYULA and SK-ROCK describe the last saved sample, PxMALA the current state
        src = i if algo == "pxmala" else burn + (saved - 1) * g
        want = {"logposterior": full.logPi[src], "L2": full.L2s[src], "prior": full.priors[src]}
        if algo == "pxmala":
            want["acceptanceRate"] = acc[i] / (i + 1)
            case.seen("acceptance-rate")
        case.require(set(v) == set(want), "report-values", f"reported {sorted(v)} instead of {sorted(want)}")
        for name, w in want.items():
            got = v[name]
            ok = abs(got - w) <= 1e-7 * abs(w) + 1e-290 or (np.isnan(w) and np.isnan(got)) or got == w
            case.require(ok, "acceptance-rate" if name == "acceptanceRate" else "report-values",
                         f"{name} {got} reported after iteration {i}, it is {w!r} ({what})")


@check.workload(quick=420, thorough=8000)
def reports(case):
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng, p=int(rng.integers(1, 5)))
    tune = bool(rng.integers(2))
    if algo == "pxmala":
        pr.delta *= logu(rng, 0.3, 20)
    n, burn, gap = int(rng.choice([1, 2, 3, 9, 30])), int(rng.choice([0, 0, 1, 3, 10, 25])), int(rng.choice([0, 0, 1, 2, 3, 7]))
    verb = int(rng.choice([1, 1, 2, 3, 5, 10, 100, 0, -1]))
    s = int(rng.integers(1, 4))
    sub = FULL if rng.integers(2) else [k for k in FULL if rng.integers(2)]
    x0 = pr.start(rng)
    total = burn + (n - 1) * max(gap, 1) + 1
    full = build(algo, pr, pr.params(nsamples=total, s=s), tune)
    run(full, x0, case.npseed)
    mc = build(algo, pr, pr.params(nsamples=n, nburn=burn, ngap=gap, verbosity=verb, s=s, track=list(sub)), tune)
    case.note(sampler=algo, nsamples=n, nburn=burn, ngap=gap, verbosity=verb, tracked=sub, **pr.describe())
    case.sig(algo, n, burn, gap, verb, tuple(sub), tune)
    text = run(mc, x0, case.npseed)
    judge(case, algo, pr, text, full, n, burn, gap, verb, "first run")
    if rng.integers(3) == 0:  # the same sampler again
        mc.delta = pr.delta
        text = run(mc, x0, case.npseed)
        judge(case, algo, pr, text, full, n, burn, gap, verb, "second run of the same sampler")


@check.workload(quick=24, thorough=200)
def long_runs(case):
    """Counts beyond a thousand, the default verbosity, acceptance rates far into a run."""
    rng = case.rng
    algo = ("myula", "pxmala", "skrock")[case.index % 3]
    pr = Problem(rng, p=2)
    if algo == "pxmala":
        pr.delta *= logu(rng, 0.3, 20)
    n, burn, gap = int(rng.integers(1050, 2500)), int(rng.choice([0, 130, 1100])), int(rng.choice([0, 1, 2]))
    verb = int(rng.choice([1, 7, 100, 100, 999]))
    x0 = pr.start(rng)
    total = burn + (n - 1) * max(gap, 1) + 1
    full = build(algo, pr, pr.params(nsamples=total, s=2), True)
    run(full, x0, case.npseed)
    kw = {} if verb == 100 and rng.integers(2) else {"verbosity": verb}
    params = pr.params(nsamples=n, nburn=burn, ngap=gap, s=2, verbosity=verb)
    if not kw:
        from pxmcmc.mcmc import PxMCMCParams
        params = PxMCMCParams(lmda=pr.lmda, delta=pr.delta, mu=pr.mu, complex=pr.complex_x, nsamples=n, nburn=burn, ngap=gap, s=2)
    mc = build(algo, pr, params, True)
    text = run(mc, x0, case.npseed)
    judge(case, algo, pr, text, full, n, burn, gap, verb, "long run")
    case.sig(algo, n, burn, gap, verb)
    case.note(sampler=algo, nsamples=n, nburn=burn, ngap=gap, verbosity=verb, lines=text.count("\n"))
