"""check.py <property id> [quick|thorough]: decide one property by simulation."""
import atexit
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
FIXED = {
    "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "HDF5_USE_FILE_LOCKING": "FALSE", "TZ": "UTC",
}


def pin():
    """The same interpreter settings for every run of every check."""
    hashseed = os.environ.get("VERIF_HASHSEED", "0")
    want = {**FIXED, "PYTHONHASHSEED": hashseed}
    if all(os.environ.get(k) == v for k, v in want.items()) and not os.environ.get("PYTHONPATH"):
        return
    os.environ.update(want)
    os.environ.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execv(py, [py] + sys.argv)


if __name__ == "__main__":
    pin()
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    from simkit import runner

    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        for one in sys.argv[1].split(","):
            code = runner.check(one, tier)
            if code == 1:
                break
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    atexit._run_exitfuncs()
    sys.stdout.flush()
    os._exit(code)
