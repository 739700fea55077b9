"""State scatter and gather match variables by name on every rank."""
import copy
import random

import cftime
import numpy as np

from simkit import fields
from simkit.fields import Spec
from simkit.job import ensure

from . import common, globals_
from .common import Place

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 25000}
QUICK_SECONDS = 45.0
UNIVERSES = 24
RULE = (
    "each run: 0-6 variables (often of equal shape, so that a mix-up shows only in the values), a "
    "different dictionary order on every rank, optional time, receive states that hold some of the "
    "variables, others, or an earlier time, and 1-4 scatter_state / gather_state calls on tiles or "
    "the cube; non-trivial: at least one state was compared; distinct: different event-log checksum"
)
REAL = common.REAL_COMM
SIMULATED = common.SIM_COMM
ASSUMPTIONS = ["all ranks pass the same set of variable names (in any order)"]
PROBES = ("probe:shuffled-order", "probe:old-time-kept", "probe:time-sent", "probe:preallocated")

NAMES = ["air_temperature", "x_wind", "y_wind", "q", "delp", "phis", "surface_pressure", "w", "zvir", "tsea",
         "time_step", "lifetime", "Time", "times"]
# any string may be a name
ODD_NAMES = ["", " ", "A", "a", "aa", "a b", "2", "10", "é", "µ", "time ", "TIME", "_", "None", "x", "y_interface", "time.1",
             "a/b", "q" * 300, "\u4e00", "0", "-1", "keys", "other2"]
CALENDARS = ["julian", "noleap", "360_day", "proleptic_gregorian"]


def make_time(t):
    cal, days, secs = t
    base = {
        "julian": cftime.DatetimeJulian, "noleap": cftime.DatetimeNoLeap,
        "360_day": cftime.Datetime360Day, "datetime": None, "gregorian": cftime.DatetimeGregorian, "proleptic_gregorian": cftime.DatetimeProlepticGregorian,
    }[cal]
    import datetime

    if cal == "datetime":
        return datetime.datetime(2016, 8, 1) + datetime.timedelta(days=days, seconds=secs)
    return base(2016, 8, 1) + datetime.timedelta(days=days, seconds=secs)


def gen_time(rng):
    return [rng.choice(CALENDARS), rng.randint(-400, 400), rng.randint(0, 86399)]


def any_time(rng):
    """A time only ever passed on: also other types of it, and fractions of a second."""
    cal, days, secs = gen_time(rng)
    if rng.random() < 0.3:
        cal = rng.choice(["gregorian", "datetime"])
    return [cal, days, secs + rng.choice([0, 0, 0, 0.5, 1e-6])]


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [1, 2], [2, 1], [2, 2], [2, 2], [3, 2]])
    tile_only = rng.random() < 0.35
    cfg = {
        **common.base_cfg(rng), "layout": layout, "ny": rng.randint(1, 3), "nx": rng.randint(1, 3),
        "tile_only": tile_only,
    }
    names = rng.sample(NAMES, rng.randint(1, 6))
    if rng.random() < 0.15:
        names = rng.sample(ODD_NAMES, rng.randint(1, 6))
    spec = globals_.gen_global_spec(rng)
    vars_ = []
    for n in names:
        if rng.random() < 0.4:
            spec = globals_.gen_global_spec(rng)
        vars_.append({**spec, "name": n})
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append({
            "do": rng.choice(["scatter", "gather"]),
            "scope": "tile" if tile_only or rng.random() < 0.5 else "cube",
            "vars": sorted(rng.sample(range(len(names)), rng.randint(1, len(names)) if rng.random() < 0.9 else 0)),
            "time": any_time(rng) if rng.random() < 0.5 else None,
            "recv": rng.choice(["none", "none", "empty", "some", "some", "all", "differs"]),
            "old_time": any_time(rng) if rng.random() < 0.5 else None,
            "others": rng.random() < 0.4,
            "order": rng.randrange(1 << 30), "halo": rng.choice([0, 0, 1]),
            "bare": rng.random() < 0.5, "grow": rng.choice([None] * 3 + [[rng.randint(0, 2) for _ in range(3)]]),
        })
    return {"cfg": cfg, "vars": vars_, "ops": ops}


def many(rng):
    """A hundred variables."""
    plan = generate(rng, "quick")
    plan["vars"] = [{**rng.choice(plan["vars"]), "name": "v%d" % k} for k in range(100)]
    plan["ops"] = plan["ops"][:2]
    for op in plan["ops"]:
        op["vars"] = sorted(rng.sample(range(100), rng.choice([100, 70])))
    plan["cfg"].update(layout=[1, 1] if not plan["cfg"]["tile_only"] else [2, 1], latency=False)
    return plan


FIXED = (many,) * 6


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    n_ranks = layout[0] * layout[1] * (1 if cfg["tile_only"] else 6)
    job = run.job(n_ranks, cfg)
    base = [Spec(d) for d in plan["vars"]]
    names = [d["name"] for d in plan["vars"]]

    def program(ctx):
        util = ctx.util
        with ctx.lib("construct"):
            part = util.TilePartitioner(layout)
            if cfg["tile_only"]:
                tile, cube = util.TileCommunicator(ctx.comm, part), None
            else:
                cube = util.CubedSphereCommunicator(ctx.comm, util.CubedSpherePartitioner(part))
                tile = cube.tile

        received = []

        def recheck(what):
            for state, keys, parts in received:
                ensure(set(state) == keys, "wrong:state-changed-later", lambda: f"rank {ctx.rank}, {what}: {sorted(state)}")
                for q, want, spec, dims in parts:
                    globals_.check_view("wrong:state-changed-later", q, want, spec, ctx.rank, what, dims)

        for k, op in enumerate(plan["ops"]):
            dy, dx, dz = op.get("grow") or (0, 0, 0)  # the same dimensions with other sizes
            ny, nx = cfg["ny"] + dy, cfg["nx"] + dx
            specs = [Spec({**s.d, "sizes": {d: n + dz for d, n in s.sizes.items()}}) for s in base]
            place = Place(ctx.rank, layout, ny, nx)
            on_cube = op["scope"] == "cube" and cube is not None
            comm = cube if on_cube else tile
            root = comm.rank == 0
            tiles = range(6) if on_cube else [place.tile]
            what = f"operation {k} ({op['do']}_state {op['scope']})"
            rng = random.Random(op["order"] + ctx.rank)
            order = list(op["vars"])
            rng.shuffle(order)
            if order != list(op["vars"]):
                run.count("probe:shuffled-order")
            salt = {v: 1000 * (k + 1) + v for v in order}
            time = make_time(op["time"]) if op["time"] else None
            old_time = make_time(op["old_time"]) if op["old_time"] else None

            def with_time(state):
                if time is None:
                    return state
                items = list(state.items())
                items.insert(rng.randrange(len(items) + 1), ("time", time))
                return dict(items)

            held = {}
            recv = None
            given = op["recv"]
            if given == "differs":
                given = random.Random(op["order"] + 31 * ctx.rank).choice(["none", "empty", "some", "all"])
            if given != "none" and (op["do"] == "scatter" or root):
                recv = {}
                some = {"empty": [], "some": order[::2], "all": order}[given]
                some = list(some)
                rng.shuffle(some)
                for v in some:
                    if op["do"] == "scatter":
                        q = globals_.sentinel_quantity(util, specs[v], place, "C", op["halo"])
                    else:
                        q = globals_.global_quantity(util, specs[v], layout, ny, nx, 999, tiles, on_cube, "C", op["halo"])
                    recv[names[v]] = q
                    held[names[v]] = (q, q.data.copy())
                if op["others"]:
                    q = util.Quantity(
                        np.arange(3.0), ("z",), "m"
                    )
                    recv["other"] = q
                    held["other"] = (q, q.data.copy())
                if old_time is not None:
                    recv["time"] = old_time
            recv_given = recv
            other_keys = {"other"} & set(recv or ())
            expected_keys = {names[v] for v in order} | other_keys
            expected_time = time if time is not None else (recv or {}).get("time")
            if expected_time is not None:
                expected_keys |= {"time"}

            if op["do"] == "scatter":
                send = None
                if root:
                    send = with_time({
                        names[v]: globals_.global_quantity(util, specs[v], layout, ny, nx, salt[v], tiles, on_cube, "C", 0)
                        for v in order
                    })
                sent = {n: v.data.copy() for n, v in send.items() if n != "time"} if root else {}
                listed = list(send or ())
                with ctx.lib("scatter_state"):
                    out = comm.scatter_state(**common.given(op.get("bare"), send_state=send, recv_state=recv))
                want = {names[v]: globals_.local_values(specs[v], place, salt[v]) for v in order}
                dims = {names[v]: specs[v].dims for v in order}
            else:
                send = {}
                for v in order:
                    mine = Spec(fields.on_rank(specs[v].d, ctx.rank))
                    q = mine.quantity(util, ny, nx)
                    common.fill(q.data, mine, place, salt[v])
                    send[names[v]] = q
                send = with_time(send)
                sent = {n: v.data.copy() for n, v in send.items() if n != "time"}
                listed = list(send)
                with ctx.lib("gather_state"):
                    out = comm.gather_state(**common.given(op.get("bare"), send_state=send, recv_state=recv))
                if not root:
                    recheck(what)
                    ensure(out is None, "wrong:gather_state", f"{what}: {out} on rank {ctx.rank}")
                    continue
                want = {}
                for v in order:
                    parts = globals_.global_values(specs[v], layout, ny, nx, salt[v], tiles)
                    want[names[v]] = np.stack(parts) if on_cube else parts[0]
                dims = {names[v]: (("tile",) if on_cube else ()) + specs[v].dims for v in order}

            kind = f"wrong:{op['do']}_state"
            ensure(list(send or ()) == listed, kind + "-sent", f"rank {ctx.rank}, {what}: the sent dictionary was changed")
            for n, before in sent.items():
                common.check_array(kind + "-sent", send[n].data, before, ctx.rank, f"{what} {n}")
            if recv_given is not None:
                ensure(out is recv_given, kind, f"{what}: another dictionary was returned")
                run.count("probe:preallocated")
            ensure(
                set(out) == expected_keys, kind + "-keys",
                lambda: f"rank {ctx.rank}, {what}: keys {sorted(out)} instead of {sorted(expected_keys)}",
            )
            for v in order:
                n = names[v]
                globals_.check_view(kind, out[n], want[n], specs[v], ctx.rank, f"{what} {n}", dims[n])
                if n in held:
                    q, before = held[n]
                    ensure(out[n] is q, kind, f"{what}: {n} was replaced, not filled")
                    globals_.outside_unchanged(kind, q, before, ctx.rank, f"{what} {n}")
            if other_keys:
                q, before = held["other"]
                ensure(out["other"] is q, kind + "-others", what)
                common.check_array(kind + "-others", q.data, before, ctx.rank, what)
            if "time" in expected_keys:
                ensure(
                    out["time"] == expected_time and type(out["time"]).__name__ == type(expected_time).__name__,
                    kind + "-time", lambda: f"rank {ctx.rank}, {what}: {out['time']!r} instead of {expected_time!r}",
                )
                run.count("probe:time-sent" if time is not None else "probe:old-time-kept")
            run.count("states")
            received.append((out, set(out), [(out[names[v]], want[names[v]], specs[v], dims[names[v]]) for v in order]))
            recheck(what)
        return True

    job.start(program)
    job.check_drained()


def simplify(plan):
    yield from common.simplify_specs(plan)
    for layout in ([1, 1], [1, 2]):
        if plan["cfg"]["layout"] != layout:
            p = copy.deepcopy(plan)
            p["cfg"]["layout"] = layout
            yield p
    for i, op in enumerate(plan["ops"]):
        for k, simple in (("grow", None), ("bare", False), ("time", None), ("old_time", None), ("others", False), ("recv", "none"), ("halo", 0)):
            if op.get(k) != simple:
                p = copy.deepcopy(plan)
                p["ops"][i][k] = simple
                yield p
        for v in op["vars"]:
            if len(op["vars"]) > 0:
                p = copy.deepcopy(plan)
                p["ops"][i]["vars"] = [x for x in op["vars"] if x != v]
                yield p


def nontrivial(stats):
    return stats.get("states", 0) > 0
