"""survey.py <property> <runs> [tier]: violations by kind over many seeds, without minimising."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

if __name__ == "__main__":
    check.pin()
    os.chdir(HERE)
    import importlib

    from simkit import runner

    prop = importlib.import_module("props." + sys.argv[1].lower())
    n = int(sys.argv[2])
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    seed = os.environ.get("VERIF_SEED", "77")
    runner.prepare(prop)
    kinds = {}
    stats = {}
    specs = ((i, {"index": i, "seed": runner.seed_of(prop.ID, seed, i), "tier": tier})
             for i in range(len(getattr(prop, "FIXED", ())), n))
    for i, spec, r in runner.run_many(prop, specs):
        r = runner.settle(prop, spec, r)
        if r["harness"]:
            print(r["harness"])
            os._exit(2)
        runner.merge(stats, r["stats"])
        if r["violation"]:
            kinds.setdefault(r["violation"], []).append((i, r["message"], r["plan"]))
    for k, v in kinds.items():
        print(k, len(v))
        for i, m, p in v[:4]:
            print("   ", i, m[-700:], str(p.get("faults")))
    print(stats)
