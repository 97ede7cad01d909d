"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--harness NAME] [-v]"""
import argparse
import os
import sys

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "MPLBACKEND": "Agg",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, here)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--harness")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import shutil
    import tempfile
    # scratch files of this run and its workers
    tempfile.tempdir = os.environ["TMPDIR"] = scratch = tempfile.mkdtemp(prefix="symx_")
    from symx import runner
    try:
        rc = runner.main(a.prop, a.tier, a.replay, a.harness, a.v)
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)        # without waiting for the threads of the pool
