"""Stored snapshots survive later crashes and errors; failures are reported."""
import copy
import traceback

import numpy as np

from simkit import store
from simkit.fields import Spec
from simkit.job import ensure

from . import common, zarrs
from .c08 import make_time
from .common import Place

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 25000}
QUICK_SECONDS = 40.0
UNIVERSES = 24
RULE = (
    "each run: a monitor stores 1-5 snapshots from 6-24 ranks; the whole job dies just before a "
    "chosen write of the store, or chosen writes or reads of chosen ranks fail, or a state with "
    "other variables, units, dimensions, sizes or another calendar is offered; or a store fails on "
    "all ranks alike and the job goes on; at times a later job opens the store without replacing it and offers a snapshot; afterwards a new process reads every snapshot whose store "
    "had returned on all ranks; non-trivial: a crash, error or rejection happened; distinct: "
    "different event-log checksum"
)
REAL = zarrs.REAL
SIMULATED = zarrs.SIMULATED + ["crash of all ranks, write and read errors of the store: injected"]
ASSUMPTIONS = [
    "a write to one key of the store is atomic and durable once it has returned",
    "after an injected error that not every rank meets, the ranks that wait for the failed one may wait for ever",
]
PROBES = ("probe:snapshots-survived", "probe:error-raised", "probe:rejected", "probe:crashed-mid-store",
          "probe:failed-everywhere", "probe:later-job-refused")


def prepare():
    zarrs.names()


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [1, 2], [2, 1], [2, 2]])
    cfg = {
        **common.base_cfg(rng), "layout": layout, "ny": rng.randint(1, 2), "nx": rng.randint(1, 2),
        "start": zarrs.gen_start(rng), "dt": rng.choice([900, 86400, 112.5, 0.25]), "order": rng.randrange(1 << 30),
    }
    if rng.random() < 0.4:
        cfg["second"] = rng.choice(["a", "r+", "w-"])  # the mode in which a later job opens the store
    vars_ = zarrs.gen_vars(rng, 3)
    n_ranks = 6 * layout[0] * layout[1]
    ops = [{"do": "store"} for _ in range(rng.randint(1, 5))]
    faults = []
    kind = rng.choice(["crash", "crash", "crash", "write", "write", "read", "reject", "reject", "reject", "all", "all"])
    if kind == "crash":
        # ranks x variables x steps writes, plus metadata
        top = 20 + len(ops) * (len(vars_) * (n_ranks + 2) + 3)
        faults.append({"kind": "crash", "nth": rng.randrange(top)})
    elif kind in ("write", "read"):
        cfg["error"] = rng.choice(["os", "os", "os", "value", "type", "runtime", "timeout", "assertion", "buffer"])
        for _ in range(rng.choice([1, 1, 1, 2])):
            rank = 0 if rng.random() < 0.5 else rng.randrange(n_ranks)
            top = len(ops) * (len(vars_) * (3 if rank == 0 else 1) + 2) + (12 if rank == 0 else 0)
            if kind == "read":
                top *= 2
            faults.append({"kind": kind, "rank": rank, "nth": rng.randrange(top)})
    elif kind == "reject":
        for _ in range(rng.randint(1, 2)):
            ops.insert(rng.randint(1, len(ops)), {
                "do": rng.choice(["extra", "missing", "renamed", "no-time", "units", "units", "calendar", "size", "size", "dims"]),
                "more": rng.choice([1, 2, -1]),
                "new": rng.choice(["another", "v", "vv", "zzz", "tim", "time_step"]), "which": rng.randrange(len(vars_))})
    else:
        # the same array cannot be written by anyone, say because a quota is exceeded; then the job goes on
        cfg["error"] = rng.choice(["os", "os", "value", "type", "runtime"])
        for _ in range(rng.randint(1, 2)):
            ops.insert(rng.randint(0, len(ops) - 1), {"do": "all", "which": rng.randrange(len(vars_))})
    return {"cfg": cfg, "vars": vars_, "ops": ops, "faults": faults}


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    n_ranks = 6 * layout[0] * layout[1]
    ny, nx = cfg["ny"], cfg["nx"]
    job = run.job(n_ranks, cfg)
    specs = [Spec(d) for d in plan["vars"]]
    disk = store.Disk()
    st = store.SimStore(disk, "store")
    st.error_kind = cfg.get("error", "os")
    for f in plan["faults"]:
        if f["kind"] == "crash":
            job.sim.crash_at["store-write"] = f["nth"]
        elif f["kind"] == "write":
            st.write_faults.setdefault(f["rank"], set()).add(f["nth"])
        else:
            st.read_faults.setdefault(f["rank"], set()).add(f["nth"])
    returned = [0] * n_ranks  # snapshots whose store call has returned
    stopped = {}

    def program(ctx):
        util = ctx.util
        place = Place(ctx.rank, layout, ny, nx)
        part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
        mine = zarrs.Fields(util, specs, place)

        def injected():
            return st.n_failed.get(ctx.rank, 0)

        def call(op, fn):
            """Run one call; False if an injected error came out, as it must if one fired."""
            before = injected()
            try:
                with ctx.lib(op, allow=(Exception,)):
                    fn()
            except Exception as e:
                ensure(injected() > before, lambda: f"raised:{op}:{type(e).__name__}",
                       lambda: f"rank {ctx.rank}: " + "".join(traceback.format_exception(e)[-6:]))
                run.count("probe:error-raised")
                ctx.sim.abort_reason = "storage error"
                stopped[ctx.rank] = e
                return False
            ensure(injected() == before, "swallowed-error:" + op,
                   f"rank {ctx.rank}: the store reported an error but {op} returned normally")
            return True

        box = []
        if not call("construct", lambda: box.append(util.ZarrMonitor(st, part, mode="w", mpi_comm=ctx.comm))):
            return False
        mon = box[0]
        k = 0
        for op in plan["ops"]:
            state = mine.state(cfg, k, cfg["order"] + ctx.rank)
            if op["do"] == "store":
                if not call("store", lambda: mon.store(state)):
                    return False
                mine.scribble()
                k += 1
                returned[ctx.rank] = k
                continue
            first = zarrs.names()[specs[op.get("which", 0)].d["name"]]
            if op["do"] == "all":
                st.fail_next[ctx.rank] = first
                bad = mine.state(cfg, k + 37, cfg["order"] + ctx.rank)
                if call("store", lambda: mon.store(bad)):
                    ensure(False, "harness", "the fault did not fire")
                mine.scribble()
                stopped.pop(ctx.rank)
                run.count("probe:failed-everywhere")
                continue
            if op["do"] == "calendar":
                state["time"] = make_time(["julian" if cfg["start"][0] != "julian" else "noleap", *cfg["start"][1:]])
            if op["do"] in ("units", "size", "dims"):
                v = op["which"]
                d = dict(mine.specs[v].d)
                if op["do"] == "units":
                    d["units"] = "furlong"
                elif op["do"] == "dims":
                    others = [x for x in ("z", "z_soil", "tracer", "more") if x not in d["dims"]]
                    d["dims"] = [*d["dims"], others[0]]
                    d["sizes"] = {**d.get("sizes", {}), others[0]: 2}
                else:
                    d["sizes"] = {x: n + op["more"] if n + op["more"] > 0 else n + 1 for x, n in d.get("sizes", {}).items()}
                s = Spec(d)
                bigger = op["more"] if not d["sizes"] and op["do"] == "size" else 0
                if bigger < 0:
                    bigger = -1 if min(ny, nx) > 1 else 1
                state[first] = q = s.quantity(util, ny + bigger, nx + bigger)
                q.data[...] = 2
            if op["do"] in ("extra", "renamed"):
                state[op["new"]] = state[first]
            if op["do"] in ("missing", "renamed"):
                del state[first]
            if op["do"] == "no-time":
                del state["time"]
            # the variables of every rank differ in the same way
            ctx.comm.barrier()
            before = dict(disk.data)
            ctx.comm.barrier()
            try:
                with ctx.lib("store", allow=(ValueError,)):
                    mon.store(state)
            except ValueError:
                run.count("probe:rejected")
            else:
                ensure(False, "not-rejected", f"a state with {op['do']} variables was stored")
            ctx.comm.barrier()
            ensure(disk.data == before, "rejected-state-changed-store",
                   lambda: f"{sorted(set(disk.data) ^ set(before))[:4]}")
            ctx.comm.barrier()
        return True

    # nothing is rejected before the first snapshot has defined the variables
    while plan["ops"] and plan["ops"][0]["do"] not in ("store", "all"):
        plan["ops"].pop(0)
    outcome = job.start(program)
    safe = min(returned)
    n_store = sum(op["do"] == "store" for op in plan["ops"])
    what = f"outcome {outcome}, {safe} snapshots returned on all ranks"
    zarrs.verify("lost-snapshot", disk, specs, cfg, layout, ny, nx, safe, what, exact=outcome == "done" and safe == n_store)
    run.mark("safe", safe, outcome)
    if cfg.get("second") and n_ranks <= 12:
        later_job(run, disk, specs, layout)
        zarrs.verify("lost-snapshot", disk, specs, cfg, layout, ny, nx, safe, what + ", then a job appended to the store", exact=False)
    if outcome != "done" or stopped:
        if safe:
            run.count("probe:snapshots-survived")
        if outcome == "crashed" and len(set(returned)) > 1:
            run.count("probe:crashed-mid-store")
    if job.sim.stats.get("fault:crash") or stopped or any(op["do"] != "store" for op in plan["ops"]):
        run.count("faulty")


def later_job(run, disk, specs, layout):
    """Another job opens the store again, without replacing it, and tries to store a snapshot."""
    plan, cfg = run.plan, run.plan["cfg"]
    job = run.job(6 * layout[0] * layout[1], cfg)
    st = store.SimStore(disk, "store")

    def program(ctx):
        util = ctx.util
        part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
        mine = zarrs.Fields(util, specs, Place(ctx.rank, layout, cfg["ny"], cfg["nx"]))
        try:
            with ctx.lib("later", allow=(Exception,)):
                mon = util.ZarrMonitor(st, part, mode=cfg["second"], mpi_comm=ctx.comm)
                mon.store(mine.state(cfg, 71, cfg["order"] + ctx.rank))
        except Exception:
            # whether this is possible is not promised
            ctx.sim.abort_reason = "cannot append"
            run.count("probe:later-job-refused")
        return True

    run.mark("later", job.start(program))
    run.count("probe:later-job")


def simplify(plan):
    if plan["cfg"].get("second"):
        p = copy.deepcopy(plan)
        del p["cfg"]["second"]
        yield p
    yield from common.simplify_specs(plan)
    for layout in ([1, 1], [1, 2], [2, 1]):
        if plan["cfg"]["layout"] != layout:
            p = copy.deepcopy(plan)
            p["cfg"]["layout"] = layout
            yield p
    for i, f in enumerate(plan["faults"]):
        for nth in (f["nth"] // 2, f["nth"] - 1):
            if 0 <= nth < f["nth"]:
                p = copy.deepcopy(plan)
                p["faults"][i]["nth"] = nth
                yield p
    if len(plan["vars"]) > 1:
        for i in range(len(plan["vars"])):
            p = copy.deepcopy(plan)
            del p["vars"][i]
            for op in p["ops"]:
                if "which" in op:
                    op["which"] = 0
            yield p


def nontrivial(stats):
    return stats.get("faulty", 0) > 0
