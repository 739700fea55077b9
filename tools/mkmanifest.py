"""Write /verif/MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
na = json.load(open(os.path.join(HERE, "simkit", "not_applicable.json")))
skip = {x["property"] for x in na}
checks = []
for i in ids:
    if i in skip or not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        continue
    m = importlib.import_module(f"props.{i.lower()}")
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python check.py {i} quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": m.TECHNIQUE if hasattr(m, "TECHNIQUE") else
        "deterministic simulation with fault injection: seeded search over schedules, message timing and faults",
        "level": m.LEVEL,
        "level_note": "Sampled, not exhaustive: " + m.RULE + " Assumes: " + "; ".join(m.ASSUMPTIONS),
    })
done = {c["property"] for c in checks}
na = na + [{"property": i, "reason": "check still being written"} for i in ids if i not in skip and i not in done]
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from simkit import universe; universe.pool(1)\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam (MPI communicator, zarr store, fsspec filesystem, clocks, np.empty, "
    "os.dup/tempfile) already exists as an argument, a registry or a module attribute the simulator owns. "
    "See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
