"""The Zarr monitor stores exactly the states given, in global layout."""
import copy
import random

import numpy as np

from simkit import store
from simkit.fields import Spec
from simkit.job import ensure

from . import common, globals_, zarrs
from .common import Place

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 18000}
QUICK_SECONDS = 40.0
UNIVERSES = 54
RULE = (
    "each run: a random layout (6 to 54 ranks, square or not), 1-4 variables with random "
    "dimensions, staggering, dtype, memory layout and halos, one or two monitors at a time, 1-5 "
    "snapshots (two runs with more than 1024), each rank's state dictionary in its own order; the "
    "complete store is read back and compared, and the ranks that write each chunk are recorded; "
    "non-trivial: at least one snapshot was compared; distinct: different event-log checksum"
)
REAL = zarrs.REAL
SIMULATED = zarrs.SIMULATED
ASSUMPTIONS = [
    "the store's keys are atomic, as zarr requires of parallel writers",
    "times are whole milliseconds", "all ranks store the same names and the same time",
]
PROBES = ("probe:two-monitors", "probe:non-square", "probe:interface-variable",
          "probe:store-not-empty-before", "probe:more-than-one-time-chunk", "probe:solo")


def prepare():
    zarrs.names()


def many_steps(rng):
    return {
        "cfg": {"policy": "uniform", "send": "eager", "coll": "mixed", "latency": True, "layout": [1, 1],
                "ny": 1, "nx": 1, "start": ["julian", 3, 0], "dt": 900, "order": 5, "max_steps": 4_000_000},
        "vars": [{"dims": ["y", "x"], "dtype": "float32", "units": "m", "name": 0}],
        "ops": [{"mon": 0, "repeat": 1030}], "monitors": [{"vars": [0], "mode": "w", "old": False}],
    }


FIXED = (many_steps,)


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [1, 2], [2, 1], [2, 2], [2, 2], [1, 3], [3, 1], [3, 2], [2, 3], [3, 3]])
    cfg = {
        **common.base_cfg(rng), "layout": layout, "ny": rng.randint(1, 3), "nx": rng.randint(1, 3),
        "start": zarrs.gen_start(rng), "dt": rng.choice([1, 900, 3600, 86400, -900, 100000, 112.5, 0.25, 1e-3]),
        "order": rng.randrange(1 << 30),
    }
    vars_ = zarrs.gen_vars(rng)
    monitors = []
    for _ in range(2 if rng.random() < 0.25 else 1):
        monitors.append({
            "vars": sorted(rng.sample(range(len(vars_)), rng.randint(1, len(vars_)))),
            "mode": rng.choice(["w", "w", "w-", "a"]), "old": rng.random() < 0.3,
            "start": zarrs.gen_start(rng),
        })
        if monitors[-1]["old"]:
            monitors[-1]["mode"] = "w"
    ops = [{"mon": rng.randrange(len(monitors)), "lag": rng.random() < 0.2, "check": rng.random() < 0.3}
           for _ in range(rng.randint(1, 5))]
    return {"cfg": cfg, "vars": vars_, "monitors": monitors, "ops": ops, "solo": rng.choice([0] * 8 + [1, 2])}


def solo(run, ctx, util, part, place, specs, cfg, steps):
    """A monitor of one process on its own, with the communicator it has by default."""
    import zarr

    disk = store.Disk()
    fields_ = zarrs.Fields(util, specs, place)
    with ctx.lib("construct"):
        mon = util.ZarrMonitor(store.SimStore(disk, "solo"), part)
    for k in range(steps):
        state = fields_.state(cfg, k, cfg["order"] + k, 3000)
        with ctx.lib("store"):
            mon.store(state)
        fields_.scribble()
    group = zarr.open_group(store.SimStore(disk, "solo"), mode="r")
    ensure(set(group.array_keys()) == {zarrs.names()[s.d["name"]] for s in specs} | {"time"},
           "wrong:solo", lambda: f"{sorted(group.array_keys())}")
    for i, s in enumerate(specs):
        a = group[zarrs.names()[s.d["name"]]]
        ensure(a.shape[:2] == (steps, 6), "wrong:solo", f"{s.dims}: shape {a.shape}")
        for k in range(steps):
            want = globals_.local_values(s, place, zarrs.salt(i, k, 3000, s))
            # points shared with the next rank are the next rank's to store
            shared = [(d == "y_interface" and place.layout[0] > 1) or (d == "x_interface" and place.layout[1] > 1)
                      for d in s.dims]
            want = want[tuple(slice(0, n - x) for n, x in zip(want.shape, shared))]
            got = a[k][0][tuple(slice(0, n) for n in want.shape)]
            common.check_array("wrong:solo", got, want, 0, f"solo {s.dims} step {k}")
    run.count("probe:solo")


def old_contents(disk):
    import zarr

    g = zarr.open_group(store.SimStore(disk, "old"), mode="w")
    for n in (zarrs.names()[0], zarrs.names()[1], "time", "stale"):
        a = g.create_dataset(n, shape=(7, 6, 2, 2), chunks=(1, 1, 1, 1), dtype="f4")
        a[...] = -1
        a.attrs["units"] = "old"


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    n_ranks = 6 * layout[0] * layout[1]
    ny, nx = cfg["ny"], cfg["nx"]
    job = run.job(n_ranks, cfg)
    specs = [Spec(d) for d in plan["vars"]]
    disks, stores, owners = [], [], []
    for i, m in enumerate(plan["monitors"]):
        disks.append(store.Disk())
        if m["old"]:
            old_contents(disks[i])
            run.count("probe:store-not-empty-before")
        stores.append(store.SimStore(disks[i], f"store{i}"))
        owners.append(zarrs.chunk_owners(stores[i], [specs[v] for v in m["vars"]]))
    cfgs = [{**cfg, "start": m.get("start", cfg["start"])} for m in plan["monitors"]]
    steps = [sum(op.get("repeat", 1) for op in plan["ops"] if op["mon"] == i) for i in range(len(disks))]

    def program(ctx):
        util = ctx.util
        place = Place(ctx.rank, layout, ny, nx)
        part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
        with ctx.lib("construct"):
            mons = [
                util.ZarrMonitor(stores[i], part, mode=m["mode"], mpi_comm=ctx.comm)
                for i, m in enumerate(plan["monitors"])
            ]
        if plan.get("solo") and ctx.rank == 0:
            solo(run, ctx, util, part, place, specs, cfg, plan["solo"])
        mine = [
            zarrs.Fields(util, [specs[v] for v in m["vars"]], place) for m in plan["monitors"]
        ]
        done = [0] * len(mons)
        for j, op in enumerate(plan["ops"]):
            i = op["mon"]
            for _ in range(op.get("repeat", 1)):
                state = mine[i].state(cfgs[i], done[i], cfg["order"] + 1000 * ctx.rank + j, 7000 * i)
                before = dict(state)
                with ctx.lib("store"):
                    mons[i].store(state)
                ensure(list(state) == list(before) and all(state[n] is before[n] for n in before),
                       "wrong:state-changed", "store changed the state dictionary")
                mine[i].scribble()
                done[i] += 1
                run.count("stored")
            if op.get("lag"):
                ctx.sim.sleep(0.01 * (ctx.rank % 3))
            if op.get("check"):
                ctx.comm.barrier()
                if ctx.rank == 0:
                    zarrs.verify("wrong:store", disks[i], mine[i].specs, cfgs[i], layout, ny, nx,
                                 done[i], f"monitor {i} after store {j}", salt0=7000 * i)
                ctx.comm.barrier()
        return True

    job.start(program)
    job.check_drained()
    for i, m in enumerate(plan["monitors"]):
        ss = [specs[v] for v in m["vars"]]
        for key, ranks in sorted(owners[i].items()):
            ensure(len(ranks) == 1, "shared-chunk", f"monitor {i}: chunk {key} was written by ranks {sorted(ranks)}")
        if steps[i] == 0:
            continue
        zarrs.verify("wrong:store", disks[i], ss, cfgs[i], layout, ny, nx, steps[i], f"monitor {i}", salt0=7000 * i)
        if steps[i] < 10:
            zarrs.verify_xarray("wrong:store", disks[i], ss, cfgs[i], steps[i], f"monitor {i}")
        run.count("compared")
        if steps[i] > 1024:
            run.count("probe:more-than-one-time-chunk")
        if any(d.endswith("interface") for s in ss for d in s.dims):
            run.count("probe:interface-variable")
    if len(disks) > 1 and all(steps):
        run.count("probe:two-monitors")
    if layout[0] != layout[1]:
        run.count("probe:non-square")


def simplify(plan):
    if plan.get("solo"):
        p = copy.deepcopy(plan)
        p["solo"] = 0
        yield p
    yield from common.simplify_specs(plan)
    for layout in ([1, 1], [1, 2], [2, 1]):
        if plan["cfg"]["layout"] != layout:
            p = copy.deepcopy(plan)
            p["cfg"]["layout"] = layout
            yield p
    for k in ("ny", "nx"):
        if plan["cfg"][k] > 1:
            p = copy.deepcopy(plan)
            p["cfg"][k] -= 1
            yield p
    for i, m in enumerate(plan["monitors"]):
        for v in m["vars"]:
            if len(m["vars"]) > 1:
                p = copy.deepcopy(plan)
                p["monitors"][i]["vars"] = [x for x in m["vars"] if x != v]
                yield p
    for i, op in enumerate(plan["ops"]):
        if op.get("repeat", 1) > 1:
            p = copy.deepcopy(plan)
            p["ops"][i]["repeat"] = op["repeat"] // 2
            yield p
        for k in ("lag", "check"):
            if op.get(k):
                p = copy.deepcopy(plan)
                p["ops"][i][k] = False
                yield p


def nontrivial(stats):
    return stats.get("compared", 0) > 0
