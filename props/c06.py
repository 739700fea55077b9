"""A failed exchange reports its error and does not poison later ones."""
import copy

import numpy as np

from simkit import mpi
from simkit.job import ALLOC, ensure

from . import common, exchange
from .common import Place

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 25000}
QUICK_SECONDS = 40.0
UNIVERSES = 24
RULE = (
    "each run: 2-8 exchanges of 1-3 quantities; on chosen ranks an allocation, a send, a receive "
    "before it takes a message or a receive after it took one fails at a chosen point (up to six "
    "faults per run, also several in one exchange); ranks tell each other whether starting worked, "
    "abandon the exchange everywhere if not, and go on with further exchanges; non-trivial: at least "
    "one fault fired and at least one later exchange was compared in full; distinct: different "
    "event-log checksum"
)
REAL = common.REAL_COMM
SIMULATED = common.SIM_COMM + ["memory exhaustion in numpy.empty / numpy.ascontiguousarray: injected"]
ASSUMPTIONS = [
    "an exchange that could not be started on every rank is abandoned (never waited for) by all ranks",
    "sends are buffered, as an abandoned rendezvous send cannot complete under any MPI",
    "a failed call has no effect, except a receive that failed after it consumed its message",
]
PROBES = ("probe:failed-in-start", "probe:failed-in-wait", "probe:exact-after-failure",
          "probe:retried-same-quantity")
KINDS = ("memory", "memory", "isend", "recv", "recv-lost")


def generate(rng, tier):
    layout = common.gen_layout(rng, weights=(70, 28, 2))
    cells = rng.choice([1, 2, 2, 3])
    cfg = {**common.base_cfg(rng, ("eager", "lazy")), "layout": [layout, layout], "cells": cells}
    n_vars = rng.randint(1, 3)
    vars_ = [exchange.gen_var(rng, rng.choice(["scalar", "vector", "cgrid"]), cells) for _ in range(n_vars)]
    ops, faults = [], []
    n_ops = rng.randint(2, 8 if layout < 3 else 3)
    for k in range(n_ops):
        v = rng.randrange(n_vars) if not ops or rng.random() < 0.6 else ops[-1]["var"]
        ops.append({"var": v, "n": rng.randint(1, vars_[v]["n_max"])})
    for k in range(n_ops - 1):
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                faults.append({
                    "op": k, "kind": rng.choice(KINDS), "rank": rng.randrange(6 * layout * layout),
                    "nth": rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 15]),
                })
    return {"cfg": cfg, "vars": vars_, "ops": ops, "faults": faults}


def _chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    n_ranks = 6 * layout[0] * layout[1]
    job = run.job(n_ranks, cfg)
    world = job.world
    ALLOC.armed = True
    injected = (MemoryError, mpi.InjectedFault)

    def program(ctx):
        place = Place(ctx.rank, layout, cfg["cells"], cfg["cells"])
        rank = ctx.rank
        with ctx.lib("construct"):
            vars_ = [exchange.Var(ctx, d, place) for d in plan["vars"]]
            comm = common.make_comm(ctx, layout)
        for i, v in enumerate(vars_):
            v.refill(i)
        failed_before = False
        last_failed = None

        def arm(k):
            for f in plan["faults"]:
                if f["op"] == k and f["rank"] == rank:
                    if f["kind"] == "memory":
                        ALLOC.fail_at.setdefault(rank, set()).add(ALLOC.n.get(rank, 0) + f["nth"])
                    else:
                        key = (f["kind"], rank)
                        n = world.n_ops.get(key, 0)
                        world.faults.setdefault(key, set()).add(n + f["nth"])

        def disarm():
            ALLOC.fail_at.pop(rank, None)
            for kind in ("isend", "recv", "recv-lost"):
                world.faults.pop((kind, rank), None)

        def fired():
            return world.fired.get(rank, 0) + sum(1 for r, _ in ALLOC.fired if r == rank)

        def guarded(op, call):
            """(True, result) or (False, None) if an injected error came out, as it must."""
            before = fired()
            try:
                with ctx.lib(op, allow=injected):
                    result = call()
            except Exception as e:
                ensure(
                    fired() > before, "wrong-error:" + op,
                    f"rank {rank}: {e!r} although nothing failed in this call",
                )
                return False, None
            ensure(
                fired() == before, "swallowed-error:" + op,
                f"rank {rank}: an operation inside failed but {op} returned normally",
            )
            return True, result

        def intact(v, before, n, what):
            """Only the halo points within n points may have changed."""
            v.expect_exchange(n)
            right, v.want = v.want, before
            for q, s, old, new in zip(v.qs, v.specs, before, right):
                if v.kind == "cgrid":  # only the last row or column of the interface
                    want = old.copy()
                    inner = common.compute_slice(s, place)
                    edge = [
                        slice(i.stop - 1, i.stop) if d.endswith("_interface") and d[0] in "xy" else i
                        for d, i in zip(s.dims, inner)
                    ]
                    edge = tuple(edge)
                    # its points are as they were or what they would have become
                    got = q.data[edge]
                    arrived = (got == new[edge]) | ((got != got) & (new[edge] != new[edge]))
                    want[edge] = np.where(arrived, got, old[edge])
                else:
                    ay, ax, _ = common.axes(s)
                    mask, _, _ = common.halo_region(s, place, n)
                    m = common._spread(s, mask, ay, ax) & common.inner_other(s, place)
                    want = np.where(m, q.data, old)
                common.check_array("damaged-by-failure:" + v.opname(), q.data, want, rank, what)

        for k, op in enumerate(plan["ops"]):
            v, n = vars_[op["var"]], op["n"]
            v.refill(10 + k)
            what = f"exchange {k}"
            before = [w.copy() for w in v.want]
            arm(k)
            ok, request = guarded("start:" + v.opname(), lambda: v.start(comm, n))
            if not ok:
                run.count("probe:failed-in-start")
            all_ok = all(ctx.comm.allgather(ok))
            if all_ok:
                ok, _ = guarded("wait:" + v.opname(), request.wait)
                if not ok:
                    run.count("probe:failed-in-wait")
            disarm()
            if all_ok and ok:
                v.expect_exchange(n)
                v.verify(what)
                if failed_before:
                    run.count("probe:exact-after-failure")
                if last_failed is v:
                    run.count("probe:retried-same-quantity")
                last_failed = None
            else:
                intact(v, before, n, what)
            everyone = ctx.comm.allgather(ok and all_ok)
            if not (all_ok and ok):  # only now, as its sends may not have been completed
                v.refill(400 + k)
            if not all(everyone):
                failed_before = True
                last_failed = v
            for w in vars_:
                w.verify(f"after exchange {k}")
        return True

    job.start(program)


def simplify(plan):
    yield from exchange.simplify(plan)
    for i, f in enumerate(plan["faults"]):
        for nth in (0, 1):
            if f["nth"] > nth:
                p = copy.deepcopy(plan)
                p["faults"][i]["nth"] = nth
                yield p


def nontrivial(stats):
    return any(k.startswith("fault:") for k in stats) and stats.get("probe:exact-after-failure", 0) > 0
