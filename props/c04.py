"""Overlapping asynchronous exchanges do not interfere."""
import random

import numpy as np

from simkit.job import ensure

from . import common, exchange
from .common import Place

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 20000}
QUICK_SECONDS = 45.0
UNIVERSES = 24
RULE = (
    "each run: 2-6 quantities (many of the same shape and dtype) and a random program of starts, "
    "waits, overwrites of finished quantities, gathers and blocking exchanges with up to six "
    "exchanges in flight, waited for in any order (a different order on every rank when sends are "
    "buffered); non-trivial: at least two exchanges were in flight at once and all results were "
    "compared; distinct: different event-log checksum"
)
REAL = common.REAL_COMM
SIMULATED = common.SIM_COMM
ASSUMPTIONS = [
    "a quantity's compute domain is not modified between start and wait (as MPI requires of the sender)",
    "between the start of an exchange and its wait, fewer exchanges are started than there are guaranteed MPI tags",
    "ranks start exchanges in the same order; with unbuffered sends they also wait in the same order",
]
PROBES = ("probe:in-flight-2", "probe:in-flight-3", "probe:wait-out-of-order",
          "probe:different-wait-orders", "probe:overwritten-after-wait")


def generate(rng, tier):
    layout = common.gen_layout(rng, weights=(65, 33, 2))
    cells = rng.choice([1, 2, 3, 4])
    cfg = {**common.base_cfg(rng), "layout": [layout, layout], "cells": cells}
    per_rank = rng.random() < 0.4
    if per_rank:
        cfg["send"] = "eager"
    cfg["wait_order"] = "per-rank" if per_rank else "common"
    cfg["order_seed"] = rng.randrange(1 << 30)
    kinds = rng.choice([["scalar"], ["vector"], ["cgrid"], ["scalar", "vector"], ["scalar", "vector", "cgrid"]])
    n_vars = rng.randint(2, 6 if layout < 3 else 3)
    vars_ = []
    for _ in range(n_vars):
        if vars_ and rng.random() < 0.6:
            vars_.append(dict(rng.choice(vars_)))
            if rng.random() < 0.2:
                vars_[-1] = exchange.resized(rng, vars_[-1])
        else:
            vars_.append(exchange.gen_var(rng, rng.choice(kinds), cells))
    ops = []
    flying = {}
    next_id = 0
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        idle = [v for v in range(n_vars) if v not in flying.values()]
        if r < 0.45 and idle:
            v = rng.choice(idle)
            ops.append({"do": "start", "id": next_id, "var": v, "n": rng.randint(1, vars_[v]["n_max"])})
            flying[next_id] = v
            next_id += 1
        elif r < 0.75 and flying:
            i = rng.choice(list(flying))
            ops.append({"do": "wait", "id": i})
            del flying[i]
        elif r < 0.83 and idle:
            ops.append({"do": "refill", "var": rng.choice(idle)})
        elif r < 0.9 and idle:
            v = rng.choice(idle)
            ops.append({"do": "exchange", "var": v, "n": rng.randint(1, vars_[v]["n_max"])})
        elif r < 0.95:
            ops.append({"do": "gather"})
        else:
            ops.append({"do": "think"})
    return {"cfg": cfg, "vars": vars_, "ops": ops}


def many(rng):
    """Hundreds of exchanges in flight, waited for in the reverse order."""
    kinds = ["scalar", "vector", "cgrid"]
    n = rng.randint(260, 320)
    vars_ = [exchange.gen_var(rng, rng.choice(kinds[:1] * 3 + kinds), 1, n_max=1) for _ in range(4)]
    vars_ = [vars_[k] if k < 4 else vars_[rng.randrange(4)] for k in range(n)]
    return {
        "cfg": {"policy": "uniform", "send": rng.choice(["eager", "mixed"]), "coll": "mixed", "latency": False,
                "layout": [1, 1], "cells": 1, "wait_order": "common", "order_seed": rng.randrange(1 << 30),
                "max_steps": 4_000_000, "seldom": True},
        "vars": vars_, "ops": [{"do": "start", "id": k, "var": k, "n": 1} for k in range(n)]
        + [{"do": "wait", "id": k} for k in reversed(range(n))],
    }


FIXED = (many,)


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    ly, lx = cfg["layout"]
    n_ranks = 6 * ly * lx
    job = run.job(n_ranks, cfg)

    def program(ctx):
        place = Place(ctx.rank, (ly, lx), cfg["cells"], cfg["cells"])
        rng = random.Random(cfg["order_seed"] * 1000 + (ctx.rank if cfg["wait_order"] == "per-rank" else 0))
        with ctx.lib("construct"):
            vars_ = [exchange.Var(ctx, d, place) for d in plan["vars"]]
            comm = common.make_comm(ctx, (ly, lx))
        for i, v in enumerate(vars_):
            v.refill(i + 1)
        flying = {}
        deferred = []

        def wait(i):
            v, n, request = flying.pop(i)
            with ctx.lib("wait"):
                request.wait()
            v.expect_exchange(n)
            v.verify(f"exchange {i}")
            run.count("waits")
            if rng.random() < 0.7:  # finished: the data may be overwritten at once
                v.refill(9000 + 10 * i + ctx.rank)
                run.count("probe:overwritten-after-wait")

        def busy(index):
            return any(f[0] is vars_[index] for f in flying.values())

        for k, op in enumerate(plan["ops"]):
            do = op["do"]
            if do == "start":
                if busy(op["var"]):
                    for i in [i for i, f in flying.items() if f[0] is vars_[op["var"]]]:
                        wait(i)
                v = vars_[op["var"]]
                v.refill(100 + op["id"])
                with ctx.lib("start"):
                    request = v.start(comm, op["n"])
                flying[op["id"]] = (v, op["n"], request)
                if len(flying) > 1:
                    run.count("probe:in-flight-%d" % min(len(flying), 4))
            elif do == "wait":
                if op["id"] not in flying:
                    continue
                if cfg["wait_order"] == "per-rank" and rng.random() < 0.5:
                    deferred.append(op["id"])
                    run.count("probe:different-wait-orders")
                    continue
                if op["id"] != min(flying):
                    run.count("probe:wait-out-of-order")
                wait(op["id"])
            elif do == "refill":
                if not busy(op["var"]):
                    vars_[op["var"]].refill(5000 + ctx.rank)
            elif do == "exchange":
                v = vars_[op["var"]]
                if busy(op["var"]):
                    for i in [i for i, f in flying.items() if f[0] is v]:
                        wait(i)
                v.refill(2000 + k)
                with ctx.lib(v.opname()):
                    v.blocking(comm, op["n"])
                v.expect_exchange(op["n"])
                v.verify("blocking exchange")
            elif do == "gather":
                with ctx.lib("gather"):
                    q = ctx.util.Quantity(
                        np.full((place.ny, place.nx), float(ctx.rank)), ("y", "x"), "m"
                    )
                    out = comm.gather(q)
                if ctx.rank == 0:
                    got = [float(out.view[(0,) * 3])] + [float(out.view[:][t].min()) for t in range(6)]
                    ensure(got[1:] == [float(t * ly * lx) for t in range(6)], "wrong:gather", f"{got}")
            else:
                ctx.think()
            if cfg.get("seldom"):
                continue
            for i, v in enumerate(vars_):
                if not busy(i):
                    v.verify("another operation")
        rest = sorted(flying)
        rng.shuffle(rest)
        for i in rest:
            wait(i)
        return True

    job.start(program)
    job.check_drained()
    run.count("probe:layout-%d" % ly)


def simplify(plan):
    yield from exchange.simplify(plan)


def nontrivial(stats):
    return stats.get("waits", 0) > 0 and stats.get("probe:in-flight-2", 0) > 0
