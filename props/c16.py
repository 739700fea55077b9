"""A model run gives the same trajectory for every layout, schedule and restart."""
import copy
import datetime
import random

import numpy as np

from simkit import core, cube, fields, store
from simkit.job import ensure, fail

from . import common, zarrs
from .c08 import gen_time, make_time
from .common import Place

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 16000}
QUICK_SECONDS = 45.0
UNIVERSES = 72
RULE = (
    "each run: a model of seven fields (cell centers, A-grid and C-grid vectors) is integrated for 1-5 "
    "steps on 6, 24 or 54 ranks with scatter of the initial state, overlapping halo updates, interface "
    "synchronisation, nudging, monitor output and checkpoints (one file per rank, or gathered); it is "
    "killed up to twice at a chosen write of the store, byte of a file or scheduling step and restarted "
    "in new processes, possibly with another layout; every returned snapshot and the final gathered "
    "state are compared bit by bit with one global integration in plain numpy; non-trivial: the final "
    "state was compared; distinct: different event-log checksum"
)
REAL = [
    "fv3gfs.util communicator, partitioner, allocation, ZarrMonitor, nudging, io as in /repo, one private "
    "import per rank and incarnation",
    "zarr, xarray, scipy.io.netcdf, cftime: the installed libraries",
]
SIMULATED = [
    "MPI (mpi4py communicator): simulated, see simkit/mpi.py",
    "the zarr store and the filesystem: in memory, surviving crashes, see simkit/store.py",
    "thread scheduling, clocks, numpy.empty (returns garbage), the death of the job: simulated",
    "the model's arithmetic: written for this check (exact in float64, so that any order of operations "
    "gives the same bits)",
]
ASSUMPTIONS = [
    "the model never reads corner halo points, which have no unique owner",
    "storage keeps what was written before the crash, byte by byte in order",
]
PROBES = ("probe:restarted", "probe:restarted-with-another-layout", "probe:restarted-from-nothing",
          "probe:torn-marker", "probe:layout-3", "probe:crash-during-store", "probe:crash-during-checkpoint")

CENTERS = ("T", "a", "b", "p", "mask")
HORIZONTAL = {"T": ("y", "x"), "a": ("y", "x"), "b": ("y", "x"), "p": ("y", "x"), "mask": ("y", "x"),
              "u": ("y_interface", "x"), "v": ("y", "x_interface")}
NAMES = tuple(HORIZONTAL)
HAS_Z = ("T", "u", "v")


# -- the reference: the whole sphere at once, arrays indexed [tile, y, x, z] ---------------

def initial(seed, cells, nz):
    r = np.random.RandomState(seed % (1 << 32))
    out = {}
    for n in NAMES:
        ny = cells + (n == "u")
        nx = cells + (n == "v")
        out[n] = r.randint(-200, 200, (6, ny, nx, nz if n in HAS_Z else 1)).astype(np.longdouble)
    for n in ("T", "p"):
        out[n + "_ref"] = r.randint(-200, 200, out[n].shape).astype(np.longdouble)
    # both owners of an edge agree on the C-grid winds, up to rotation
    out["u"], out["v"] = synchronised(out["u"], out["v"], cells)
    return out


def with_halo(f, n, cells):
    """[6, cells + 2n, cells + 2n, z] with the neighbours' values; corners are NaN."""
    i2 = 2 * np.arange(-n, cells + n) + 1
    out = np.full((6, len(i2), len(i2), f.shape[3]), np.nan, f.dtype)
    for t in range(6):
        tt, ox, oy, valid, _ = cube.window(t, i2, i2, cells)
        vals = f[tt, np.where(valid, (oy - 1) // 2, 0), np.where(valid, (ox - 1) // 2, 0)]
        out[t] = np.where(valid[:, :, None], vals, np.nan)
    return out


def vector_with_halo(a, b, n, cells):
    i2 = 2 * np.arange(-n, cells + n) + 1
    outs = [np.full((6, len(i2), len(i2), a.shape[3]), np.nan, a.dtype) for _ in range(2)]
    for t in range(6):
        tt, ox, oy, valid, m = cube.window(t, i2, i2, cells)
        j, i = np.where(valid, (oy - 1) // 2, 0), np.where(valid, (ox - 1) // 2, 0)
        va, vb = a[tt, j, i], b[tt, j, i]
        for k, out in enumerate(outs):
            c = m[2 * k][:, :, None] * va + m[2 * k + 1][:, :, None] * vb
            out[t] = np.where(valid[:, :, None], c, np.nan)
    return outs


def synchronised(u, v, cells):
    """North edges of u and east edges of v take what the neighbouring tile has there."""
    u, v = u.copy(), v.copy()
    u0, v0 = u.copy(), v.copy()
    for t in range(6):
        for side in "NE":
            other, convert, m = cube._ACROSS[(t, side)]
            for k in range(cells):
                al = 2 * k + 1
                x2, y2 = (al, 2 * cells) if side == "N" else (2 * cells, al)
                ox, oy = (int(c) for c in convert(x2, y2, cells))
                row = m[0] if side == "N" else m[1]
                val = row[0] * u0[other, oy // 2, (ox - 1) // 2] if row[0] else row[1] * v0[other, (oy - 1) // 2, ox // 2]
                if side == "N":
                    u[t, cells, k] = val
                else:
                    v[t, k, cells] = val
    return u, v


def advance(f, cells, plan):
    """One step of the whole sphere."""
    n = plan["n"]
    th = with_halo(f["T"], n, cells)
    ph = with_halo(f["p"], 1, cells)
    ah, bh = vector_with_halo(f["a"], f["b"], 1, cells)
    new = dict(f)
    step_fields(new, th, ph, ah, bh, f["u"], f["v"], n)
    new["u"], new["v"] = synchronised(new["u"], new["v"], cells)
    for name in plan["scales"]:
        new[name] = new[name] + (f[name + "_ref"] - new[name]) * plan["dt"] / plan["scales"][name]
    return new


def step_fields(new, th, ph, ah, bh, u, v, n):
    """The local arithmetic, on arrays [..., y, x, z]; the same text for model and reference
    is no loss, as it involves nothing of the package."""
    def at(h, w, dj, di, ny, nx):
        return h[..., w + dj : w + dj + ny, w + di : w + di + nx, :]

    ny, nx = new["p"].shape[-3], new["p"].shape[-2]
    t = lambda dj, di, my=ny, mx=nx: at(th, n, dj, di, my, mx)  # noqa: E731
    smooth = (t(-1, 0) + t(1, 0) + t(0, -1) + t(0, 1)) / 4
    if n > 1:
        smooth = smooth + (t(-2, 0) - t(2, 0) + t(0, 2) - t(0, -2)) / 8
    flux = (u[..., 1:, :, :] - u[..., :-1, :, :] + v[..., :, 1:, :] - v[..., :, :-1, :]) / 8
    new["T"] = smooth + flux
    new["u"] = u / 2 + (t(-1, 0, ny + 1, nx) + t(0, 0, ny + 1, nx)) / 2
    new["v"] = v / 2 + (t(0, -1, ny, nx + 1) - t(0, 0, ny, nx + 1)) / 2
    p = lambda dj, di: at(ph, 1, dj, di, ny, nx)  # noqa: E731
    a = lambda dj, di: at(ah, 1, dj, di, ny, nx)  # noqa: E731
    b = lambda dj, di: at(bh, 1, dj, di, ny, nx)  # noqa: E731
    new["p"] = (p(0, 1) + p(0, -1) + p(1, 0) + p(-1, 0)) / 4 + (a(0, 1) - a(0, -1) + b(1, 0) - b(-1, 0)) / 2
    top = slice(0, 1)
    new["a"] = a(0, 0) + ((t(0, 1) - t(0, -1)) / 4)[..., top]
    new["b"] = b(0, 0) + ((t(1, 0) - t(-1, 0)) / 4)[..., top]


def trajectory(plan, cells):
    f = initial(plan["cfg"]["salt"], cells, plan["nz"])
    out = [f]
    for _ in range(plan["steps"]):
        out.append(advance(out[-1], cells, plan))
    for f in out:
        for n in NAMES:
            if not np.array_equal(f[n], f[n].astype(np.float64).astype(np.longdouble)):
                raise core.HarnessError(f"{n} is not exact")
    return [{n: g.astype(np.float64) for n, g in f.items()} for f in out]


# -- plans -----------------------------------------------------------------------------

def generate(rng, tier):
    cells = rng.choice([2, 4, 4, 6, 6])
    crashes = rng.choice([0, 0, 1, 1, 2])
    n = rng.choice([1, 1, 2])
    fits = [k for k in (1, 2, 3) if cells % k == 0 and cells // k >= n]
    kind = rng.choice(["local", "global"])
    if crashes:
        fits = [k for k in fits if k < 3]
    pick = lambda: rng.choice(fits + [k for k in fits if k == 2])  # noqa: E731
    layouts = [pick()]
    for _ in range(crashes):
        layouts.append(pick() if kind == "global" else layouts[0])
    steps = rng.randint(1, 5)
    cfg = {**common.base_cfg(rng), "salt": rng.randrange(1 << 30), "start": gen_time(rng), "order": rng.randrange(1 << 30)}
    faults = []
    for i in range(crashes):
        what = rng.choice(["store", "file", "file", "step", "step"])
        ranks = 6 * layouts[i] ** 2
        f = {"inc": i, "kind": what}
        if what == "store":
            f["at"] = rng.randrange(30 + steps * (8 * ranks + 8))
        elif what == "file":
            f["ckpt"] = rng.randint(0, steps)
            f["file"] = rng.choice(["done", "done", "rank", "rank"]) if kind == "local" else rng.choice(["done", "global"])
            if f["file"] == "rank":
                f["file"] = f"rank{rng.randrange(ranks)}."
            f["at"] = rng.choice([0, 1, 8, 40, 80, 100, 120, 160, 200, 400, rng.randrange(2000)])
        else:
            f["at"] = rng.randrange(60 * steps * ranks + 1)
        faults.append(f)
    dt = rng.choice([1024, 1024, 131072, 0.5])
    scales = {"T": dt * rng.choice([4, 8] if steps > 3 else [4, 8, 1, 128])}
    if rng.random() < 0.5:
        scales["p"] = dt * rng.choice([2, 8])
    if rng.random() < 0.3:
        scales = dict(reversed(scales.items()))
    return {
        "cfg": cfg, "cells": cells, "layouts": layouts, "nz": rng.choice([1, 2, 3]), "n": n,
        "halo": n + rng.choice([0, 0, 1]), "steps": steps, "dt": dt, "scales": scales,
        "out_every": rng.choice([1, 1, 2, 3]), "ckpt": kind, "ckpt_every": rng.choice([1, 1, 2, 3]),
        "dims": {m: rng.choice([0, 1, 2, 3]) for m in NAMES},
        "starts": rng.sample(["T", "ab", "p"], 3), "waits": rng.sample(["T", "ab", "p"], 3),
        "overlap": rng.random() < 0.7, "empty": rng.random() < 0.7, "share": rng.random() < 0.5,
        "faults": faults,
    }


def dims_of(plan, name):
    """The order of the dimensions of a field in this run."""
    y, x = HORIZONTAL[name]
    k = plan["dims"][{"b": "a", "v": "u"}.get(name, name)]  # components share their order
    if name not in HAS_Z:
        return [y, x] if k % 2 == 0 else [x, y]
    return [[y, x, "z"], ["z", y, x], [x, y, "z"], [y, "z", x]][k]


def arranged(arr, dims, tile=False):
    """[tile,] y, x, z array put into the order of dims."""
    axis = {"t": 0}
    base = 1 if tile else 0
    for d in dims:
        axis[d] = base + (2 if d == "z" else 1 if d.startswith("x") else 0)
    order = ([0] if tile else []) + [axis[d] for d in dims]
    if "z" not in dims:
        arr = arr[..., 0]
    return arr.transpose(order)


def canonical(arr, dims):
    """The reverse, for one rank."""
    pos = {"z" if d == "z" else d[0]: k for k, d in enumerate(dims)}
    if "z" in pos:
        return arr.transpose(pos["y"], pos["x"], pos["z"])
    return arr.transpose(pos["y"], pos["x"])[:, :, None]


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    cells = plan["cells"]
    truth = trajectory(plan, cells)
    fs = store.SimFS
    fs.reset()
    final = {}
    outcome = None
    for inc in range(len(plan["layouts"])):
        outcome = incarnation(run, plan, inc, truth, final)
        if outcome == "done":
            break
    ensure(outcome == "done", "never-finished", f"the last incarnation ended with {outcome}")
    for n in NAMES:
        want = arranged(truth[plan["steps"]][n], dims_of(plan, n), True)
        diff = fields.first_difference(final[n], want)
        if diff:
            fail("wrong:final-state", f"{n}: {diff}")
    ensure(final["time"] == time_at(plan, plan["steps"]), "wrong:final-time", f"{final['time']}")
    run.count("compared")


def time_at(plan, step):
    cfg, dt = plan["cfg"], plan["dt"]
    return make_time(cfg["start"]) + datetime.timedelta(seconds=dt * step)


def incarnation(run, plan, inc, truth, final):
    cfg = plan["cfg"]
    cells, steps = plan["cells"], plan["steps"]
    L = plan["layouts"][inc]
    layout = (L, L)
    n_ranks = 6 * L * L
    sub = cells // L
    fs = store.SimFS
    fs.faults = store.FileFaults()
    job = run.job(n_ranks, cfg)
    last = inc == len(plan["layouts"]) - 1
    for f in plan["faults"]:
        if f["inc"] != inc or last:
            continue
        if f["kind"] == "store":
            job.sim.crash_at["store-write"] = f["at"]
        elif f["kind"] == "step":
            job.sim.crash_step = f["at"]
        else:
            fs.faults.crash_after = f["at"]
            fs.faults.only = f"ckpt{f['ckpt']}/{f['file']}"
    disk = store.Disk()
    st = store.SimStore(disk, f"store{inc}")
    returned = [0] * n_ranks
    stored_steps = []
    phase = [None] * n_ranks

    def program(ctx):
        util = ctx.util
        place = Place(ctx.rank, layout, sub, sub)
        with ctx.lib("construct"):
            part = util.CubedSpherePartitioner(util.TilePartitioner(layout))
            comm = util.CubedSphereCommunicator(ctx.comm, part)
            sizer = util.SubtileGridSizer.from_tile_params(
                nx_tile=cells, ny_tile=cells, nz=plan["nz"], n_halo=plan["halo"],
                extra_dim_lengths={}, layout=layout, tile_partitioner=part.tile if plan["share"] else None,
            )
            factory = util.QuantityFactory(sizer, np)
            make = factory.empty if plan["empty"] else factory.zeros
            names = list(NAMES)
            random.Random(cfg["order"] + ctx.rank).shuffle(names)
            state = {n: make(dims_of(plan, n), units_of(n), np.int32 if n == "mask" else float) for n in names}
            ref = {n: make(dims_of(plan, n), units_of(n), float) for n in plan["scales"]}
            mon = util.ZarrMonitor(st, part, mode="w", mpi_comm=ctx.comm)

        def whole(name, source=None):
            dims = dims_of(plan, name.replace("_ref", ""))
            data = np.ascontiguousarray(arranged(truth[0][name], dims, True))
            if name == "mask":
                data = data.astype(np.int32)
            return util.Quantity(data, dims=["tile", *dims], units=units_of(name))

        # where to start from
        found = None
        if ctx.rank == 0:
            for k in range(steps, -1, -1):
                marker = f"ckpt{k}/done.nc"
                if marker in fs.files:
                    try:
                        found = (k, util.io.read_state("simfs://" + marker)["time"])
                        break
                    except Exception:
                        run.count("probe:torn-marker")
        found = ctx.comm.bcast(found, root=0)
        with ctx.lib("scatter"):
            for n in sorted(ref):
                comm.scatter(whole(n + "_ref") if ctx.rank == 0 else None, recv_quantity=ref[n])
        if found is None:
            step = 0
            send = None
            if ctx.rank == 0:
                send = {n: whole(n) for n in NAMES}
                send["time"] = time_at(plan, 0)
                if inc:
                    run.count("probe:restarted-from-nothing")
            with ctx.lib("scatter_state"):
                comm.scatter_state(send, recv_state=state)
        else:
            step = found[0]
            if ctx.rank == 0:
                run.count("probe:restarted")
                if plan["layouts"][inc - 1] != L:
                    run.count("probe:restarted-with-another-layout")
            if plan["ckpt"] == "local":
                with ctx.lib("read_state"):
                    loaded = util.io.read_state(f"simfs://ckpt{step}/rank{ctx.rank}.nc")
                ensure(set(loaded) == set(NAMES) | {"time"}, "wrong:checkpoint", f"{sorted(loaded)}")
                for n in NAMES:
                    q = loaded[n].transpose(dims_of(plan, n))
                    state[n].view[:] = q.view[:]
                state["time"] = loaded["time"]
            else:
                send = None
                if ctx.rank == 0:
                    with ctx.lib("read_state"):
                        send = util.io.read_state(f"simfs://ckpt{step}/global.nc")
                with ctx.lib("scatter_state"):
                    comm.scatter_state(send, recv_state=state)
            ensure(state["time"] == found[1], "wrong:checkpoint-time", f"{state['time']} {found[1]}")

        def exchanges():
            kinds = {
                "T": lambda: comm.start_halo_update(state["T"], plan["n"]),
                "ab": lambda: comm.start_vector_halo_update(state["a"], state["b"], 1),
                "p": lambda: comm.start_halo_update(state["p"], 1),
            }
            if plan["overlap"]:
                with ctx.lib("start_halo_update"):
                    live = {k: kinds[k]() for k in plan["starts"]}
                for k in plan["waits"]:
                    with ctx.lib("wait"):
                        live[k].wait()
                    ctx.think()
            else:
                for k in plan["starts"]:
                    with ctx.lib("halo_update"):
                        kinds[k]().wait()

        def halo_view(name, n):
            q = state[name]
            idx = tuple(
                slice(o - n, o + e + n) if d[0] in "xy" else slice(o, o + e)
                for d, o, e in zip(q.dims, q.origin, q.extent)
            )
            return canonical(q.data[idx], q.dims)

        while True:
            # output
            if step % plan["out_every"] == 0:
                phase[ctx.rank] = "store"
                snapshot = {n: state[n] for n in random.Random(cfg["order"] + 7 * ctx.rank + step).sample(NAMES, len(NAMES))}
                snapshot["time"] = state["time"]
                with ctx.lib("store"):
                    mon.store(snapshot)
                if ctx.rank == 0:
                    stored_steps.append(step)
                returned[ctx.rank] += 1
            # checkpoint
            if step % plan["ckpt_every"] == 0 and not (found and step == found[0]):
                phase[ctx.rank] = "checkpoint"
                if plan["ckpt"] == "local":
                    with ctx.lib("write_state"):
                        util.io.write_state(state, f"simfs://ckpt{step}/rank{ctx.rank}.nc")
                else:
                    with ctx.lib("gather_state"):
                        g = comm.gather_state(state)
                    if ctx.rank == 0:
                        with ctx.lib("write_state"):
                            util.io.write_state(g, f"simfs://ckpt{step}/global.nc")
                ctx.comm.barrier()
                if ctx.rank == 0:
                    with ctx.lib("write_state"):
                        util.io.write_state({"time": state["time"]}, f"simfs://ckpt{step}/done.nc")
            phase[ctx.rank] = "step"
            if step == steps:
                break
            exchanges()
            local = {n: canonical(state[n].view[:], state[n].dims) for n in NAMES}
            new = dict(local)
            step_fields(
                new, halo_view("T", plan["n"]), halo_view("p", 1), halo_view("a", 1), halo_view("b", 1),
                local["u"], local["v"], plan["n"],
            )
            # what a rank computes on its north and east edges is not to be trusted
            new["u"][-1] += 3 + ctx.rank
            new["v"][:, -1] -= 5 + ctx.rank
            for n in ("T", "u", "v", "p", "a", "b"):
                canonical(state[n].view[:], state[n].dims)[...] = new[n]
            with ctx.lib("synchronize_vector_interfaces"):
                comm.synchronize_vector_interfaces(state["u"], state["v"])
            with ctx.lib("apply_nudging"):
                util.apply_nudging(
                    state, ref, {n: datetime.timedelta(seconds=t) for n, t in plan["scales"].items()},
                    datetime.timedelta(seconds=plan["dt"]),
                )
            step += 1
            state["time"] = state["time"] + datetime.timedelta(seconds=plan["dt"])
            run.count("model-steps")
        with ctx.lib("gather_state"):
            g = comm.gather_state(state)
        if ctx.rank == 0:
            for n in NAMES:
                ensure(list(g[n].dims) == ["tile", *dims_of(plan, n)], "wrong:final-dims", f"{n} {g[n].dims}")
                final[n] = np.array(g[n].view[:])
            final["time"] = g["time"]
        return True

    outcome = job.start(program)
    if outcome == "done":
        job.check_drained()
    elif "store" in phase:
        run.count("probe:crash-during-store")
    elif "checkpoint" in phase:
        run.count("probe:crash-during-checkpoint")
    run.count(f"probe:layout-{L}")
    run.mark(outcome, min(returned), sorted((p, len(b)) for p, b in fs.files.items()))
    # every snapshot whose store has returned on all ranks
    safe = min(returned)
    if safe:
        verify_store(plan, inc, disk, truth, stored_steps, safe, outcome)
    return outcome


def verify_store(plan, inc, disk, truth, stored_steps, safe, outcome):
    import cftime
    import zarr

    what = f"incarnation {inc} ({outcome})"
    st = store.SimStore(disk, "verify")
    start = stored_steps[0]
    try:
        g = zarr.open_group(st, mode="r")
        arrays = {n: g[n] for n in NAMES}
        t = g["time"]
        times = list(cftime.num2date(t[:safe], t.attrs["units"], t.attrs["calendar"]))
    except Exception as e:
        fail("wrong:store-unreadable", f"{what}: {e!r}")
    steps = [start + ((-start) % plan["out_every"]) + k * plan["out_every"] for k in range(safe)]
    want_times = [time_at(plan, s) for s in steps]
    ensure(times == want_times, "wrong:stored-times", f"{what}: {times} instead of {want_times}")
    for n in NAMES:
        a = arrays[n]
        ensure(list(a.attrs.get("_ARRAY_DIMENSIONS", ())) == ["time", "tile", *dims_of(plan, n)], "wrong:stored-dims", f"{n}")
        for k, s in enumerate(steps):
            want = arranged(truth[s][n], dims_of(plan, n), True)
            try:
                got = a[k]
            except Exception as e:
                fail("wrong:store-unreadable", f"{what}: {n} step {s}: {e!r}")
            diff = fields.first_difference(got, want)
            if diff:
                fail("wrong:stored", f"{what}: {n} step {s}: {diff}")


def units_of(name):
    return {"T": "K", "a": "m/s", "b": "m/s", "u": "m/s", "v": "m/s", "p": "Pa", "mask": ""}[name.replace("_ref", "")]


def simplify(plan):
    if plan["steps"] > 1:
        p = copy.deepcopy(plan)
        p["steps"] -= 1
        yield p
    if len(plan["layouts"]) > 1 and not plan["faults"]:
        p = copy.deepcopy(plan)
        p["layouts"] = p["layouts"][:1]
        yield p
    for i, L in enumerate(plan["layouts"]):
        if L > 1 and plan["ckpt"] == "global" or L > 1 and len(plan["layouts"]) == 1:
            p = copy.deepcopy(plan)
            p["layouts"][i] = 1
            yield p
    if plan["cells"] > 2 and all(2 % L == 0 and 2 // L >= plan["n"] for L in plan["layouts"]):
        p = copy.deepcopy(plan)
        p["cells"] = 2
        yield p
    for k, simple in (("nz", 1), ("overlap", False), ("empty", False), ("share", False)):
        if plan[k] != simple:
            p = copy.deepcopy(plan)
            p[k] = simple
            yield p
    if any(plan["dims"].values()):
        p = copy.deepcopy(plan)
        p["dims"] = {m: 0 for m in NAMES}
        yield p
    for i, f in enumerate(plan["faults"]):
        for at in (f["at"] // 2, f["at"] - 1):
            if 0 <= at < f["at"]:
                p = copy.deepcopy(plan)
                p["faults"][i]["at"] = at
                yield p


def nontrivial(stats):
    return stats.get("compared", 0) > 0
