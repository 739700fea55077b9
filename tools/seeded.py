"""seeded.py [-n] [-t tier] [id ...]: every planted bug in a scratch copy of /repo.

Shows for each whether the patch applies, the package's tests still pass, the demonstration
tells the two trees apart, and what this property's check says about the changed tree.
-n skips the tests.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, limit=900):
    e = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit,
                           shell=isinstance(cmd, str))
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as err:
        return -1, "TIMEOUT " + (err.stdout or b"").decode(errors="replace")


def tests(scratch):
    env = {"PYTHONPATH": scratch, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
           "PMIX_MCA_gds": "hash", "OPENBLAS_NUM_THREADS": "1"}
    rc, out = sh([PY, "-c", "import fv3gfs.util; print(fv3gfs.util.__file__)"], scratch, env)
    if scratch not in out:
        return "the copy is not what is imported: " + out
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=120", "tests",
                  "--ignore=tests/mpi"], scratch, env)
    bad = [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR")) and "test_storage.py" not in l]
    if rc not in (0, 1):
        bad.append(out[-300:])
    if rc == 0 or not bad:
        rc, out = sh("mpirun -n 6 --allow-run-as-root --oversubscribe --mca btl self,vader --mca "
                     "btl_vader_single_copy_mechanism none %s -m pytest -q -p no:cacheprovider --timeout=60 "
                     "--timeout-method=thread tests/mpi < /dev/null" % PY, scratch, env, 240)
        bad += [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
        if rc:
            bad.append("mpi rc %d: %s" % (rc, out[-200:]))
    return bad


def one(name, run_tests, tier):
    d = os.path.join(HERE, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch = tempfile.mkdtemp(prefix="seed_")
    box = tempfile.mkdtemp(prefix="demo_")
    try:
        sh(["cp", "-a", "/repo/.", scratch], "/")
        sh(["git", "checkout", "-q", "--", "."], scratch)
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(d, f), box)
        clean, out = sh(["bash", os.path.join(box, "demo.sh")], scratch, limit=300)
        if clean:
            print(out[-1500:])
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], scratch)
        if rc:
            return name, meta["property"], "patch does not apply " + out
        dirty, dout = sh(["bash", os.path.join(box, "demo.sh")], scratch, limit=300)
        bad = tests(scratch) if run_tests else "not run"
        t = time.time()
        rc, out = sh([PY, "check.py", meta["property"], tier], HERE,
                     {"VERIF_REPO": scratch, "VERIF_SEED": "1", "VERIF_TIER": tier, "VERIF_OUT": scratch})
        what = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        detail = [l for l in out.splitlines() if "violat" in l.lower()][:3] if what else out.splitlines()[-3:]
        return (name, meta["property"], "demo %d/%d" % (clean, dirty), "tests %s" % (bad or "pass"),
                "check rc=%d %.0fs" % (rc, time.time() - t), dout.strip().splitlines()[-1:], detail)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(box, ignore_errors=True)


def main():
    args = sys.argv[1:]
    run_tests = "-n" not in args
    tier = "thorough" if "-T" in args else "quick"
    names = [a for a in args if not a.startswith("-")]
    names = names or sorted(os.path.basename(d) for d in glob.glob(os.path.join(HERE, "seeded", "*")))
    for n in names:
        print(*one(n, run_tests, tier), sep=" | ")
        sys.stdout.flush()


main()
