"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only WORKLOAD] [--serial]"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [REPO, here]

if __name__ == "__main__":
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    prop = sys.argv[1]
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import pxmcmc
            for m in ("mcmc", "forward", "prior", "transforms", "measurements", "utils", "uncertainty", "saving", "plotting"):
                importlib.import_module("pxmcmc." + m)
        assert os.path.realpath(pxmcmc.__path__[0]) == os.path.realpath(os.path.join(REPO, "pxmcmc")), pxmcmc.__path__
        chk = importlib.import_module("vmon.checks." + prop.lower()).check
    except Exception as e:
        import traceback
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: cannot import: {e}")
        sys.exit(2)
    sys.exit(chk.main(sys.argv[2:]))
