"""determinism.py [runs] [property ...]: the same seeds several times in fresh interpreters.

Every property's first runs are executed with different numbers of workers and another hash
seed; the event-log checksums must be equal.  (C09 and C10 choose variable names by their
hashes, so they are compared within one hash seed only.)
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
IDS = ["C%02d" % i for i in range(1, 18)]


def child(prop_id, n, seeds):
    import importlib

    from simkit import runner

    prop = importlib.import_module("props." + prop_id.lower())
    runner.prepare(prop)
    out = {}
    first = len(getattr(prop, "FIXED", ()))
    specs = [((s, i), {"index": i, "seed": runner.seed_of(prop_id, s, i), "tier": "quick"})
             for s in seeds for i in range(first, first + n)]
    for tag, spec, r in runner.run_many(prop, specs, limit=120):
        out["%d/%d" % tag] = "%s %s %s %d" % (r["digest"], r["violation"], json.dumps(r["stats"], sort_keys=True), r["steps"]) \
            if isinstance(r, dict) else str(r)
    print("RESULT " + json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


def main():
    if os.environ.get("DET_CHILD"):
        import check

        check.pin()
        return child(os.environ["DET_CHILD"], int(os.environ["DET_N"]), json.loads(os.environ["DET_SEEDS"]))
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    ids = sys.argv[2:] or IDS
    bad = 0
    for p in ids:
        results = []
        for jobs, hashseed in ((8, 0), (8, 0), (1, 0), (3, 0), (13, 0), (8, 7), (5, 7)):
            m = n if jobs > 1 else max(4, n // 6)
            env = {**os.environ, "DET_CHILD": p, "DET_N": str(m), "DET_SEEDS": "[1, 2, 77]",
                   "VERIF_JOBS": str(jobs), "VERIF_HASHSEED": str(hashseed)}
            r = subprocess.run([sys.executable, os.path.abspath(__file__)], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=HERE)
            line = [x for x in r.stdout.decode().splitlines() if x.startswith("RESULT ")]
            if not line:
                print(p, "no result", r.stderr.decode()[-500:])
                bad += 1
                continue
            results.append((jobs, hashseed, json.loads(line[0][7:])))
        base = {}
        diffs = []
        for jobs, hs, res in results:
            key = hs if p in ("C09", "C10") else 0
            ref = base.setdefault(key, res)
            for k, v in res.items():
                if ref.get(k, v) != v:
                    diffs.append((jobs, hs, k, ref[k][:60], v[:60]))
        print(p, sum(len(r[2]) for r in results), "runs,", len(set(base[0].values())), "distinct,", len(diffs), "differences", diffs[:3], flush=True)
        bad += bool(diffs)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
