"""Programs of halo updates and interface synchronisations, run by every rank."""
import copy

import numpy as np

from simkit import fields
from simkit.fields import X, XI, Y, YI, Spec

from . import common
from .common import Place, check_array

SIGNED = ["float64", "float64", "float32", "float32", "int64", "int32", "int16", "int8", "complex128", "complex64"]


class Var:
    """One exchanged variable on one rank: a scalar, or the components of a vector."""

    def __init__(self, ctx, d, place):
        self.d = d
        self.kind = d["kind"]
        if d.get("more"):  # this variable has a finer grid than others
            place = Place(place.rank, place.layout, place.ny + d["more"], place.nx + d["more"])
        self.place = place
        names = ("spec",) if self.kind == "scalar" else ("x", "y")
        self.specs = [Spec(fields.on_rank(d[n], place.rank)) for n in names]
        self.qs = [s.quantity(ctx.util, place.ny, place.nx) for s in self.specs]
        self.salts = [0] * len(names)
        self.want = [q.data.copy() for q in self.qs]

    def refill(self, salt):
        for k, (q, s) in enumerate(zip(self.qs, self.specs)):
            self.salts[k] = fields.still(self.d, salt + self.d.get("phase", 0), 2 * salt + k, 2 + k)
            label = self.place.rank if self.kind == "cgrid" else None
            common.fill(q.data, s, self.place, self.salts[k], label)
            self.want[k] = q.data.copy()

    def expect_exchange(self, n):
        p = self.place
        if self.kind == "scalar":
            self.want[0] = common.expect_scalar(self.want[0], self.specs[0], p, self.salts[0], n)
        elif self.kind == "vector":
            sx, sy = self.specs
            wx = common.expect_vector(self.want[0], sx, sy, p, self.salts[0], self.salts[1], n, True)
            wy = common.expect_vector(self.want[1], sy, sx, p, self.salts[1], self.salts[0], n, False)
            self.want = [wx, wy]
        else:
            sx, sy = self.specs
            self.want = [
                common.expect_sync(self.want[0], sx, p, *self.salts, True, sx, sy),
                common.expect_sync(self.want[1], sy, p, *self.salts, False, sx, sy),
            ]

    def blocking(self, comm, n):
        if self.kind == "scalar":
            comm.halo_update(self.qs[0], n)
        elif self.kind == "vector":
            comm.vector_halo_update(self.qs[0], self.qs[1], n)
        else:
            comm.synchronize_vector_interfaces(self.qs[0], self.qs[1])

    def start(self, comm, n):
        if self.kind == "scalar":
            return comm.start_halo_update(self.qs[0], n)
        if self.kind == "vector":
            return comm.start_vector_halo_update(self.qs[0], self.qs[1], n)
        return comm.start_synchronize_vector_interfaces(self.qs[0], self.qs[1])

    def opname(self):
        return {"scalar": "halo_update", "vector": "vector_halo_update",
                "cgrid": "synchronize_vector_interfaces"}[self.kind]

    def verify(self, what):
        for k, q in enumerate(self.qs):
            name = "" if self.kind == "scalar" else " x component"[0:12] if k == 0 else " y component"
            check_array(f"wrong:{self.opname()}", q.data, self.want[k], self.place.rank, what + name)
            self._metadata(q, self.specs[k], what)

    def _metadata(self, q, s, what):
        p = self.place
        common.ensure(
            q.dims == s.dims and q.units == s.units and q.origin == s.origin()
            and q.extent == s.extent(p.ny, p.nx),
            f"metadata:{self.opname()}", f"rank {p.rank}, {what}",
        )


def gen_var(rng, kind, cells, dtypes=None, n_max=None):
    n_max = n_max or rng.randint(1, cells if rng.random() < 0.15 else min(3, cells))
    if kind == "scalar":
        ydim, xdim = (Y, X) if rng.random() < 0.7 else (YI, XI)
        return {"kind": kind, "n_max": n_max, "still": rng.choice(fields.STILL), "phase": rng.randrange(2),
                "spec": common.gen_spec(rng, ydim, xdim, n_max, dtypes)}
    stagger = rng.choice(["a", "b", "c", "d", "c", "d"]) if kind == "vector" else "c"
    xd, yd = {
        "a": ((Y, X), (Y, X)), "b": ((YI, XI), (YI, XI)),
        "c": ((YI, X), (Y, XI)), "d": ((Y, XI), (YI, X)),
    }[stagger]
    sx = common.gen_spec(rng, *xd, n_max, dtypes or SIGNED)
    if kind == "cgrid" and rng.random() < 0.3:
        sx["halo"] = rng.choice([0, 0, sx["halo"]])
    swap = {xd[0]: yd[0], xd[1]: yd[1]}
    sy = {**sx, "dims": [swap.get(d, d) for d in sx["dims"]]}
    if rng.random() < 0.5:
        sy["mem"] = fields.pick_layout(rng)
        sy["pad"] = rng.choice([0, 1, 2])
        sy["halo"] = sy["halo"] + rng.choice([0, 1])
        sy["vary"] = sx["vary"] and sx["vary"] + 1
    return {"kind": kind, "n_max": n_max, "still": rng.choice(fields.STILL), "phase": rng.randrange(2), "x": sx, "y": sy}


def resized(rng, d):
    """A variable like another one, of other sizes."""
    d = {**d, "more": rng.randint(0, 2)}
    for c in ("spec", "x", "y"):
        if c in d:
            d[c] = {**d[c], "sizes": {k: 1 + (n + d["more"]) % 4 for k, n in d[c]["sizes"].items()}}
    return d


def gen_cells(rng, layout):
    if layout == 1 and rng.random() < 0.1:
        return rng.choice([7, 8, 9, 12, 16, 24, 48])
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 6] if layout < 3 else [1, 2, 3] if layout == 3 else [1, 2])


def gen_blocking(rng, kinds, layout=None, max_ops=4, dtypes=None):
    layout = layout or common.gen_layout(rng)
    cells = gen_cells(rng, layout)
    cfg = {**common.base_cfg(rng), "layout": [layout, layout], "cells": cells}
    n_vars = rng.randint(1, 3)
    n_ops = rng.randint(1, max_ops if layout < 3 else 2)
    if layout == 1 and rng.random() < 0.05:
        n_vars, n_ops = rng.randint(3, 7), rng.randint(5, 15)
    vars_ = [gen_var(rng, rng.choice(kinds), cells, dtypes) for _ in range(n_vars)]
    for k in range(1, n_vars):
        if rng.random() < 0.25:
            vars_[k] = resized(rng, rng.choice(vars_[:k]))
    ops = []
    for k in range(n_ops):
        v = rng.randrange(n_vars)
        ops.append({
            "do": "exchange", "var": v, "n": rng.randint(1, vars_[v]["n_max"]),
            "refill": rng.random() < 0.8, "style": rng.choice(["call", "call", "start"]),
            "renew": rng.random() < 0.08, "sub": rng.random() < 0.5, "fresh": rng.random() < 0.15,
        })
    if layout > 1 and rng.random() < 0.2:  # some of the ranks also form a smaller cube
        cfg["sub"] = rng.randint(1, layout - 1)
    return {"cfg": cfg, "vars": vars_, "ops": ops}


def huge(kind):
    """More than 255 ranks."""
    def plan(rng):
        p = gen_blocking(rng, [kind], 7, 1)
        p["cfg"].update(latency=False, policy="uniform", max_steps=4_000_000)
        p["cfg"].pop("sub", None)
        return p
    return plan


def big(kind):
    """Messages and arrays of megabytes, and axes longer than 256."""
    def plan(rng):
        p = gen_blocking(rng, [kind], 1, 1)
        p["cfg"].update(latency=False, policy="uniform", send=rng.choice(["eager", "rendezvous", "mixed"]))
        p["cfg"]["cells"], others = rng.choice([(300, {}), (90, {"z": 70}), (190, {"z": 16})])
        v = gen_var(rng, kind, 20, ["float64", "complex128"], rng.randint(1, 20))
        for c in ("spec", "x", "y"):
            if c in v:
                horizontal = [d for d in v[c]["dims"] if d in fields.XD + fields.YD]
                v[c].update(dims=[*others, *horizontal], sizes=others, vary=0)
        p["vars"] = [v]
        p["ops"] = [{**p["ops"][0], "var": 0, "n": v["n_max"], "fresh": False}]
        return p
    return plan


def run_blocking(run):
    plan = run.plan
    cfg = plan["cfg"]
    ly, lx = cfg["layout"]
    n_ranks = 6 * ly * lx
    job = run.job(n_ranks, cfg)
    sub = cfg.get("sub", 0)
    if sub >= ly:
        sub = 0

    def program(ctx):
        place = Place(ctx.rank, (ly, lx), cfg["cells"], cfg["cells"])
        with ctx.lib("construct"):
            vars_ = [Var(ctx, d, place) for d in plan["vars"]]
            comm = common.make_comm(ctx, (ly, lx))
        all_vars, sub_comm, sub_vars = list(vars_), None, None
        if sub:
            part = ctx.comm.Split(int(ctx.rank >= 6 * sub * sub), ctx.rank)
            if ctx.rank < 6 * sub * sub:
                small = Place(ctx.rank, (sub, sub), cfg["cells"], cfg["cells"])
                with ctx.lib("construct"):
                    sub_vars = [Var(ctx, d, small) for d in plan["vars"]]
                    sub_comm = common.make_comm(ctx, (sub, sub), part)
                all_vars += sub_vars
        for v in all_vars:
            v.refill(0)
        v = w = None
        for k, op in enumerate(plan["ops"]):
            if sub and op.get("sub"):
                if sub_comm is None:
                    continue
                world, comm = comm, sub_comm
                v = sub_vars[op["var"]]
                run.count("probe:smaller-cube")
            else:
                world = None
                v = vars_[op["var"]]
            if op.get("fresh"):  # the old quantities go away, others take their place (and memory)
                i, mine = op["var"], vars_ if world is None else sub_vars
                all_vars = v = mine[i] = None
                with ctx.lib("construct"):
                    v = mine[i] = Var(ctx, plan["vars"][i], place if world is None else small)
                all_vars = list(vars_) + list(sub_vars or ())
                run.count("probe:quantities-replaced")
            if op.get("refill", True) or op.get("fresh"):
                v.refill(1 + k)
            if op.get("renew"):
                with ctx.lib("construct"):
                    if world is None:
                        comm = common.make_comm(ctx, (ly, lx))
                    else:
                        comm = sub_comm = common.make_comm(ctx, (sub, sub), part)
            with ctx.lib(v.opname()):
                if op.get("style") == "start":
                    request = v.start(comm, op["n"])
                    ctx.think()
                    request.wait()
                else:
                    v.blocking(comm, op["n"])
            v.expect_exchange(op["n"])
            for w in all_vars:
                w.verify(f"operation {k}")
            request = w = None
            comm = world or comm
            run.count("exchanges")
        return True

    job.start(program)
    job.check_drained()
    run.count("probe:layout-%d" % ly)
    for op in plan["ops"]:
        v = plan["vars"][op["var"]]
        run.count("probe:" + v["kind"])
        if cfg["cells"] == op["n"]:
            run.count("probe:halo-as-wide-as-the-domain")
    for v in plan["vars"]:
        for s in ("spec", "x"):
            if s in v:
                run.count("probe:dtype-" + v[s]["dtype"])
                run.count("probe:memory-" + v[s]["mem"])
                run.count("probe:%d-dims" % len(v[s]["dims"]))


def simplify(plan):
    yield from common.simplify_specs(plan)
    yield from common.simplify_layout(plan)
    if plan["cfg"].get("sub"):
        p = copy.deepcopy(plan)
        del p["cfg"]["sub"]
        yield p
    for i, op in enumerate(plan["ops"]):
        if op.get("fresh"):
            p = copy.deepcopy(plan)
            p["ops"][i]["fresh"] = False
            yield p
