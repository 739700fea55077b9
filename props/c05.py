"""Every communication operation completes and leaves nothing behind."""
import copy
import gc
import sys

import numpy as np

from simkit.fields import Spec
from simkit.job import ALLOC, ensure

from . import common, exchange, globals_
from .common import Place

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 15000}
QUICK_SECONDS = 50.0
UNIVERSES = 24
RULE = (
    "each run: a random program of 4-40 matching operations (halo, vector and interface exchanges, "
    "tile and cube scatters and gathers, state transfers) with ranks lagging behind at random, under "
    "a random send completion mode (buffered, rendezvous, read late, mixed), synchronising or "
    "non-synchronising collectives and a random scheduler; one run makes more exchanges than there "
    "are guaranteed MPI tags and one thousands of state transfers; non-trivial: every rank finished at least two operations; distinct: "
    "different event-log checksum"
)
REAL = common.REAL_COMM
SIMULATED = common.SIM_COMM
ASSUMPTIONS = [
    "MPI guarantees tags up to 32767 only and a process can have 2000 communicators", "all ranks make the same sequence of operations",
]
PROBES = ("probe:rendezvous", "probe:synchronising-collectives", "probe:more-than-32767-exchanges",
          "probe:memory-measured")


def endurance(kind):
    def plan(rng):
        v = {
            "halo": {"kind": "scalar", "n_max": 1, "spec": {"dims": ["y", "x"], "halo": 1}},
            "sync": {"kind": "cgrid", "n_max": 1,
                     "x": {"dims": ["y_interface", "x"]}, "y": {"dims": ["y", "x_interface"]}},
        }[kind]
        return {
            "cfg": {"policy": "sticky", "send": "eager", "coll": "never", "latency": False,
                    "layout": [1, 1], "cells": 1, "max_steps": 10_000_000},
            "vars": [v], "ops": [{"do": "exchange", "var": 0, "n": 1, "repeat": 32800}],
        }

    return plan


def many_states(rng):
    """Thousands of state transfers within a tile."""
    field = {"dims": ["y", "x"], "sizes": {}, "halo": 0, "dtype": "float64", "mem": "C", "units": "m"}
    ops = [{"do": do, "scope": "tile", "field": 0, "names": 1, "time": False, "repeat": 1100}
           for do in ("scatter_state", "gather_state")]
    return {
        "cfg": {"policy": "sticky", "send": "eager", "coll": "never", "latency": False,
                "layout": [1, 1], "cells": 1, "max_steps": 10_000_000},
        "vars": [], "fields": [field], "ops": ops,
    }


def many_exchanges(rng):
    """Hundreds of exchanges of every kind."""
    vars_ = [exchange.gen_var(rng, kind, 2) for kind in ("scalar", "vector", "cgrid")]
    return {
        "cfg": {"policy": "uniform", "send": "mixed", "coll": "mixed", "latency": False,
                "layout": [1, 1], "cells": 2, "max_steps": 10_000_000},
        "vars": vars_, "ops": [{"do": "exchange", "var": v, "n": 1, "repeat": 450} for v in range(3)],
    }


FIXED = (endurance("sync"), many_states, many_exchanges)


def generate(rng, tier):
    if tier == "thorough" and rng.random() < 0.0005:
        return endurance("halo")(rng)
    layout = common.gen_layout(rng, weights=(60, 36, 4))
    cells = rng.choice([1, 2, 3])
    cfg = {**common.base_cfg(rng, ("lazy", "rndv", "rndv", "mixed", "mixed", "eager")),
           "layout": [layout, layout], "cells": cells}
    n_vars = rng.randint(1, 3)
    vars_ = [exchange.gen_var(rng, rng.choice(["scalar", "vector", "cgrid"]), cells) for _ in range(n_vars)]
    globals__ = [globals_.gen_global_spec(rng) for _ in range(rng.randint(1, 3))]
    ops = []
    length = rng.choice([4, 6, 8, 12, 12, 40]) if layout < 3 else 5
    for _ in range(length):
        r = rng.random()
        if r < 0.5:
            v = rng.randrange(n_vars)
            ops.append({"do": "exchange", "var": v, "n": rng.randint(1, vars_[v]["n_max"])})
        elif r < 0.65:
            ops.append({"do": "pair", "vars": [rng.randrange(n_vars), rng.randrange(n_vars)], "swap": rng.random() < 0.5})
        elif r < 0.9:
            ops.append({"do": rng.choice(["scatter", "gather", "scatter_state", "gather_state"]),
                        "scope": rng.choice(["tile", "cube"]), "field": rng.randrange(len(globals__)),
                        "names": rng.choice([0, 1, 1, 2, 3]), "time": rng.random() < 0.4,
                        "prealloc": rng.choice([None, None, "all", "some"])})
        else:
            ops.append({"do": "lag", "rank": rng.randrange(6 * layout * layout), "for": rng.choice([1e-5, 1e-3, 1.0, 100.0])})
    return {"cfg": cfg, "vars": vars_, "fields": globals__, "ops": ops}


def keys(state, names, op):
    ensure(set(state) == set(names) | ({"time"} if op["time"] else set()), "wrong:state-keys", f"{sorted(state)}")
    ensure(not op["time"] or state["time"] == 1.5, "wrong:state-time", str(state.get("time")))


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    ly, lx = layout
    n_ranks = 6 * ly * lx
    job = run.job(n_ranks, cfg)
    ny = nx = cfg["cells"]
    fspecs = [Spec(d) for d in plan.get("fields", [])]
    finished = []
    if any(op.get("repeat", 1) > 400 for op in plan["ops"]):
        ALLOC.tracked = []
    alive = {}

    def memory(ctx, i, op):
        """What the operations allocate is given back."""
        if ALLOC.tracked is None or i not in (200, op["repeat"] - 10):
            return
        ctx.comm.barrier()
        if ctx.rank == 0:
            gc.collect()
            now = ALLOC.alive(), sys.getallocatedblocks()
            then = alive.setdefault(id(op), now)
            for n, old, extra, what in zip(now, then, (100, 200), ("arrays", "blocks of memory")):
                ensure(n <= old + extra, "memory-grows", f"{old} {what} were held after 200 operations, {n} after {i}")
            run.count("probe:memory-measured")
        ctx.comm.barrier()

    def program(ctx):
        util = ctx.util
        place = Place(ctx.rank, layout, ny, nx)
        with ctx.lib("construct"):
            vars_ = [exchange.Var(ctx, d, place) for d in plan["vars"]]
            comm = common.make_comm(ctx, layout)
        for i, v in enumerate(vars_):
            v.refill(i)
        for k, op in enumerate(plan["ops"]):
            do = op["do"]
            if do == "exchange":
                v = vars_[op["var"]]
                v.refill(10 + k)
                v.expect_exchange(op["n"])
                for i in range(op.get("repeat", 1)):
                    with ctx.lib(v.opname()):
                        v.blocking(comm, op["n"])
                    memory(ctx, i, op)
                v.verify(f"operation {k}")
                if op.get("repeat", 1) > 32767:
                    run.count("probe:more-than-32767-exchanges")
            elif do == "pair":
                a, b = vars_[op["vars"][0]], vars_[op["vars"][1]]
                a.refill(10 + k)
                if b is not a:
                    b.refill(500 + k)
                with ctx.lib("start"):
                    reqs = [a.start(comm, 1)] + ([b.start(comm, 1)] if b is not a else [])
                if op["swap"]:
                    reqs.reverse()
                with ctx.lib("wait"):
                    for r in reqs:
                        r.wait()
                for v in {id(a): a, id(b): b}.values():
                    v.expect_exchange(1)
                    v.verify(f"operation {k}")
            elif do == "lag":
                if op["rank"] == ctx.rank:
                    ctx.sim.sleep(op["for"])
                    run.count("fault:slow-rank")
                else:
                    ctx.think()
            else:
                spec = fspecs[op["field"]]
                on_cube = op["scope"] == "cube"
                with ctx.lib("tile"):
                    c = comm if on_cube else comm.tile
                root = c.rank == 0
                tiles = range(6) if on_cube else [place.tile]
                salt = 3000 + k
                send = out = recv = None
                if op.get("prealloc") == "all" or op.get("prealloc") == "some" and (c.rank + k) % 2:
                    if do.startswith("scatter"):
                        recv = globals_.sentinel_quantity(util, spec, place, "C")
                    elif root:
                        recv = globals_.global_quantity(util, spec, layout, ny, nx, 999, tiles, on_cube, "C", 0)
                names = ["c", "a", "b"][:op["names"]]
                for i in range(op.get("repeat", 1) - 1):
                    q = spec.quantity(util, ny, nx)
                    with ctx.lib(do):
                        t = comm if on_cube else comm.tile
                        getattr(t, do)({"a": q})
                    del q
                    memory(ctx, i, op)
                if do.startswith("scatter"):
                    if root:
                        send = globals_.global_quantity(util, spec, layout, ny, nx, salt, tiles, on_cube, "C", 0)
                    with ctx.lib(do):
                        if do == "scatter":
                            outs = [c.scatter(send, recv)]
                        else:
                            state = {n: send for n in names} if root else None
                            if root and op["time"]:
                                state["time"] = 1.5
                            out = c.scatter_state(state, {} if recv is None or not names else {names[-1]: recv})
                            keys(out, names, op)
                            outs = [out[n] for n in names]
                    for out in outs:
                        globals_.check_view("wrong:" + do, out, globals_.local_values(spec, place, salt), spec, ctx.rank, f"operation {k}")
                else:
                    send = spec.quantity(util, ny, nx)
                    common.fill(send.data, spec, place, salt)
                    with ctx.lib(do):
                        if do == "gather":
                            outs = [c.gather(send, recv)]
                        else:
                            state = {n: send for n in names}
                            if op["time"]:
                                state["time"] = 1.5
                            out = c.gather_state(state, {} if recv is None or not names else {names[-1]: recv})
                            if root:
                                keys(out, names, op)
                                outs = [out[n] for n in names]
                    if root:
                        parts = globals_.global_values(spec, layout, ny, nx, salt, tiles)
                        want = np.stack(parts) if on_cube else parts[0]
                        for out in outs:
                            common.check_array("wrong:" + do, out.view[:], want, ctx.rank, f"operation {k}")
            run.count("operations")
        finished.append(ctx.rank)
        return True

    outcome = job.start(program)
    ensure(outcome == "done" and len(finished) == n_ranks, "not-finished", f"{outcome}: {sorted(finished)}")
    job.check_drained()
    w = job.world
    ensure(w.sent == w.received, "exactly-once", f"{w.sent} messages sent, {w.received} received")
    pending = {k: c.kind for k, c in w.colls.items()}
    ensure(not pending, "unfinished-collective", f"{pending}")
    if cfg["send"] == "rndv":
        run.count("probe:rendezvous")
    if cfg["coll"] == "always":
        run.count("probe:synchronising-collectives")


def simplify(plan):
    yield from exchange.simplify(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("repeat", 1) > 1:
            for r in (1, op["repeat"] // 2, op["repeat"] - 1):
                p = copy.deepcopy(plan)
                p["ops"][i]["repeat"] = r
                yield p


def nontrivial(stats):
    return stats.get("operations", 0) >= 12
