"""Scatter and gather move every subtile's data to and from the right place."""
import numpy as np

from simkit import fields
from simkit.fields import Spec
from simkit.job import ensure

from . import common, globals_
from .common import Place

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
QUICK_SECONDS = 45.0
UNIVERSES = 24
RULE = (
    "each run: a random layout (square or not, up to 1x49 on a tile or 54 ranks on the cube), "
    "1-3 fields, and 1-6 scatters and gathers of tiles or the whole cube, with and without "
    "pre-allocated destinations with halos; every result is compared in full when it arrives and "
    "again at the end; non-trivial: at least one result was compared; distinct: different "
    "event-log checksum"
)
REAL = common.REAL_COMM
SIMULATED = common.SIM_COMM
ASSUMPTIONS = ["the tile size is a multiple of the layout", "mpi4py transfers contiguous numpy arrays of the dtypes listed in simkit/mpi.py"]
PROBES = ("probe:non-square", "probe:long-layout", "probe:cube-scatter", "probe:cube-gather",
          "probe:tile-scatter", "probe:tile-gather", "probe:preallocated", "probe:roundtrip",
          "probe:independent", "probe:row-scatter", "probe:row-gather")


def gen_layout(rng):
    r = rng.random()
    if r < 0.08:
        n = rng.choice([7, 11, 13, 23, 49, 49])
        return [1, n] if rng.random() < 0.5 else [n, 1], True
    if r < 0.45:
        return [1, 1], False
    if r < 0.7:
        return rng.choice([[1, 2], [2, 1], [1, 3], [3, 1], [2, 3], [3, 2]]), False
    if r < 0.95:
        return [2, 2], False
    return [3, 3], False


def generate(rng, tier):
    layout, tile_only = gen_layout(rng)
    if not tile_only and layout != [1, 1] and rng.random() < 0.3:
        tile_only = True
    cfg = {
        **common.base_cfg(rng), "layout": layout, "ny": rng.randint(1, 4), "nx": rng.randint(1, 4),
        "tile_only": tile_only,
    }
    n_fields = rng.randint(1, 3)
    vars_ = [globals_.gen_global_spec(rng) for _ in range(n_fields)]
    if rng.random() < 0.5:
        vars_ = [{**vars_[0], "mem": v["mem"]} for v in vars_]
    rows = rng.random() < 0.2
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append({
            "do": rng.choice(["scatter", "gather", "roundtrip"]),
            "scope": "row" if rows and rng.random() < 0.4 else "tile" if tile_only or rng.random() < 0.5 else "cube",
            "var": rng.randrange(n_fields), "prealloc": rng.choice([False, False, False, True, True, "some"]),
            "mem": rng.choice(["C", "F", "strided", "perm1"]), "halo": rng.choice([0, 0, 1, 2]),
            "margin": rng.choice([0, 0, 1]), "twice": rng.random() < 0.2, "scribble": rng.random() < 0.5,
            "bare": rng.random() < 0.5, "grow": rng.choice([None] * 3 + [[rng.randint(0, 2) for _ in range(3)]]),
        })
    return {"cfg": cfg, "vars": vars_, "ops": ops}


def big(rng):
    """Messages and arrays of megabytes, and axes longer than 256."""
    plan = generate(rng, "quick")
    layout, ny, nx, sizes = rng.choice([([1, 1], 90, 90, {"z": 40}), ([2, 2], 150, 130, {}), ([1, 1], 300, 2, {"z": 70})])
    plan["cfg"].update(layout=layout, ny=ny, nx=nx, latency=False, policy="uniform")
    plan["vars"] = [{**v, "dtype": rng.choice(["float64", "complex128"]), "sizes": sizes,
                     "dims": [*sizes, rng.choice(["y", "y_interface"]), rng.choice(["x", "x_interface"])]} for v in plan["vars"]]
    plan["ops"] = [{**op, "grow": None, "scope": "tile" if op["scope"] == "row" else op["scope"]} for op in plan["ops"][:2]]
    return plan


FIXED = (big, big, big)


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    ly, lx = layout
    per_tile = ly * lx
    n_ranks = per_tile if cfg["tile_only"] else 6 * per_tile
    job = run.job(n_ranks, cfg)
    specs = [Spec(d) for d in plan["vars"]]

    def program(ctx):
        util = ctx.util
        row = None
        if any(op["scope"] == "row" for op in plan["ops"]):
            part = ctx.comm.Split(ctx.rank // lx, ctx.rank)
            with ctx.lib("construct"):
                row = util.TileCommunicator(part, util.TilePartitioner((1, lx)))
        with ctx.lib("construct"):
            part = util.TilePartitioner(layout)
            if cfg["tile_only"]:
                tile = util.TileCommunicator(ctx.comm, part)
                cube = None
            else:
                cube = util.CubedSphereCommunicator(ctx.comm, util.CubedSpherePartitioner(part))
                tile = cube.tile
        results = []  # everything received so far, with what it must stay

        def recheck(what):
            for q, want, spec, dims, w in results:
                globals_.check_view("wrong:result-changed-later", q, want, spec, ctx.rank, f"{w}, after {what}", dims)

        for k, op in enumerate(plan["ops"]):
            spec = specs[op["var"]]
            dy, dx, dz = op.get("grow") or (0, 0, 0)  # the same dimensions with other sizes
            ny, nx = cfg["ny"] + dy, cfg["nx"] + dx
            if dz:
                spec = Spec({**spec.d, "sizes": {d: n + dz for d, n in spec.sizes.items()}})
            whole = Place(ctx.rank, layout, ny, nx)
            row_place = Place(ctx.rank, (1, lx), ny, nx)  # every row of subtiles, taken for a tile
            on_cube = op["scope"] == "cube" and cube is not None
            place, comm, lay = whole, cube if on_cube else tile, whole.layout
            if op["scope"] == "row":
                place, comm, lay = row_place, row, row_place.layout
            root = comm.rank == 0
            salt = 10 + k
            tiles = range(6) if on_cube else [place.tile]
            what = f"operation {k} ({op['do']} {op['scope']})"
            scattered = None

            def independent(out, want, given, dims):
                """Writing to one of the two quantities does not change the other."""
                if not op.get("scribble"):
                    return
                keep = given.data.copy()
                other = np.logical_not(want) if want.dtype == bool else want + 1
                out.view[:] = other
                common.check_array("wrong:aliased", given.data, keep, ctx.rank, f"{what}, after the result was written to")
                out.view[:] = want
                given.data[...] = np.logical_not(keep) if keep.dtype == bool else keep + 1
                globals_.check_view("wrong:aliased", out, want, spec, ctx.rank, f"{what}, after the source was written to", dims)
                run.count("probe:independent")

            def scatter():
                send = None
                if root:
                    send = globals_.global_quantity(
                        util, spec, lay, ny, nx, salt, tiles, on_cube, op["mem"], op["margin"]
                    )
                    keep = send.data.copy()
                recv = before = None
                if op["prealloc"] and (op["prealloc"] != "some" or (ctx.rank + k) % 2):  # ranks need not agree
                    recv = globals_.sentinel_quantity(util, spec, place, op["mem"], op["halo"])
                    before = recv.data.copy()
                with ctx.lib("scatter"):
                    out = comm.scatter(**common.given(op.get("bare"), send_quantity=send, recv_quantity=recv))
                want = globals_.local_values(spec, place, salt)
                globals_.check_view("wrong:scatter", out, want, spec, ctx.rank, what)
                if recv is not None:
                    ensure(out is recv, "wrong:scatter-destination", what)
                    globals_.outside_unchanged("wrong:scatter", recv, before, ctx.rank, what)
                if root:
                    common.check_array("wrong:scatter-source-changed", send.data, keep, ctx.rank, what)
                    independent(out, want, send, None)
                results.append((out, want, spec, None, what))
                run.count("probe:%s-scatter" % ("tile" if comm is tile else op["scope"]))
                return out

            def gather(send):
                recv = before = None
                dims = (("tile",) if on_cube else ()) + spec.dims
                want = None
                if root:
                    want_q = globals_.global_quantity(
                        util, spec, lay, ny, nx, salt, tiles, on_cube, op["mem"], op["margin"]
                    )
                    want = want_q.view[:].copy()
                    if op["prealloc"]:
                        recv = want_q
                        inner = tuple(slice(o, o + e) for o, e in zip(recv.origin, recv.extent))
                        recv.data[inner] = recv.data[inner] if recv.data.dtype == bool else recv.data[inner] * 0
                        before = recv.data.copy()
                keep = send.data.copy()
                with ctx.lib("gather"):
                    out = comm.gather(send, **common.given(op.get("bare"), recv_quantity=recv))
                common.check_array("wrong:gather-source-changed", send.data, keep, ctx.rank, what)
                if root:
                    globals_.check_view("wrong:gather", out, want, spec, ctx.rank, what, dims)
                    if recv is not None:
                        ensure(out is recv, "wrong:gather-destination", what)
                        globals_.outside_unchanged("wrong:gather", recv, before, ctx.rank, what)
                    independent(out, want, send, dims)
                    if op.get("scribble"):
                        send.data[...] = keep
                    results.append((out, want, spec, dims, what))
                else:
                    ensure(out is None, "wrong:gather", f"{what}: not None on rank {ctx.rank}")
                run.count("probe:%s-gather" % ("tile" if comm is tile else op["scope"]))

            for _ in range(2 if op.get("twice") else 1):
                if op["do"] == "scatter":
                    scatter()
                elif op["do"] == "gather":
                    mine = Spec(fields.on_rank(spec.d, ctx.rank))
                    send = mine.quantity(util, ny, nx, mine.mem if mine.d.get("vary") else op["mem"])
                    common.fill(send.data, mine, place, salt)
                    gather(send)
                else:
                    gather(scatter())
                    run.count("probe:roundtrip")
                salt += 50
            recheck(what)
            if op["prealloc"]:
                run.count("probe:preallocated")
            run.count("operations")
        return True

    job.start(program)
    job.check_drained()
    if ly != lx:
        run.count("probe:non-square")
    if max(layout) >= 7:
        run.count("probe:long-layout")
    for s in specs:
        run.count("probe:dtype-" + s.dtype)


def simplify(plan):
    yield from common.simplify_specs(plan)
    import copy

    for k in ("ny", "nx"):
        if plan["cfg"][k] > 1:
            p = copy.deepcopy(plan)
            p["cfg"][k] -= 1
            yield p
    for layout in ([1, 1], [1, 2], [2, 2]):
        if plan["cfg"]["layout"] != layout:
            p = copy.deepcopy(plan)
            p["cfg"]["layout"] = layout
            yield p
    for i, op in enumerate(plan["ops"]):
        for k, simple in (("grow", None), ("bare", False), ("prealloc", False), ("twice", False), ("scribble", False), ("margin", 0), ("halo", 0), ("mem", "C")):
            if op.get(k) != simple:
                p = copy.deepcopy(plan)
                p["ops"][i][k] = simple
                yield p


def nontrivial(stats):
    return stats.get("operations", 0) > 0
