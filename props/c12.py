"""open_restart gives every rank its own part of the right restart files."""
import copy
import datetime
import json
import os

import numpy as np

from simkit import fields, store
from simkit.fields import Spec
from simkit.job import ensure

from . import common, globals_
from .c08 import gen_time, make_time
from .common import Place

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 15000}
QUICK_SECONDS = 40.0
UNIVERSES = 36
RULE = (
    "each run: a restart directory with random variables in random files of six tiles (with and "
    "without a label, decoys with other labels, optional files and the coupler file present or "
    "not) (or one with another label) is opened 1-3 times, sometimes after it was rewritten, with random options and tracer tables by 6-36 ranks; files are missing, cut short, "
    "fail to open or to be read, or give short reads; non-trivial: at least one rank's state was "
    "compared or a fault fired; distinct: different event-log checksum"
)
REAL = [
    "fv3gfs.util open_restart, communicator, partitioner, io, filesystem, quantity as in /repo, one "
    "private import per rank",
    "xarray, scipy.io.netcdf, fsspec's path handling, cftime: the installed libraries",
]
SIMULATED = [
    "MPI (mpi4py communicator): simulated, see simkit/mpi.py",
    "the filesystem with the restart files: in memory, see simkit/store.py",
    "thread scheduling, clocks, numpy.empty: simulated",
]
ASSUMPTIONS = [
    "restart files have the structure FMS writes: a Time dimension of length 1, then the documented axes",
    "after a storage error the ranks of that tile may wait for ever for its root",
    "the storage's answer whether a file exists is right",
]
PROBES = ("probe:label", "probe:only-names", "probe:tracers", "probe:to-state", "probe:optional-files",
          "probe:no-coupler-file", "probe:fault-reported", "probe:other-label",
          "probe:rewritten")

TABLE = json.load(open(os.path.join(os.path.dirname(__file__), "restart_table.json")))
FILES = ("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res", "sfc_data", "phy_data")
CALENDARS = {"360_day": 1, "julian": 2, "gregorian": 3, "noleap": 4}
TRACERS = ("sphum", "liq_wat", "o3mr", "snowwat")
AXES = {"x": "xaxis_1", "x_interface": "xaxis_2", "y": "yaxis_2", "y_interface": "yaxis_1",
        "z": "zaxis_1", "z_interface": "zaxis_2", "z_soil": "zaxis_3"}


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [1, 1], [1, 2], [2, 1], [2, 2], [2, 2], [3, 1], [3, 2]])
    cfg = {
        **common.base_cfg(rng), "layout": layout, "ny": rng.randint(1, 3), "nx": rng.randint(1, 3),
        "label": rng.choice(["", "", "20160801.001500", "a.b"]), "slash": rng.random() < 0.2,
        "sizes": {"z": rng.randint(1, 3), "z_interface": rng.randint(1, 4), "z_soil": rng.randint(1, 4)},
        "decoys": rng.random() < 0.5, "coupler": rng.random() < 0.8, "decoy_coupler": rng.random() < 0.8,
        "ran": rng.choice([700 * 86400, 0, 1, 900, 3600, 40000, 86400]), "optional": rng.choice([[], [3], [4], [3, 4], [3, 4]]),
        "nometa": rng.random() < 0.5,
        "units": [rng.choice([None, "none", "none", "", "m/s", "K", "\u00b0C", "seconds", "days"]) for _ in range(7)],
        "time_units": rng.choice([None, "time level", "time level", "days since 2016-08-01 00:00:00", "seconds"]),
    }
    cal = rng.choice(list(CALENDARS))
    cfg["time"] = [cal, rng.randint(-400, 400), rng.randint(0, 86399)]
    vars_ = []
    for name in rng.sample(sorted(TABLE), rng.randint(1, 9)):
        vars_.append({"name": name, "file": rng.randrange(5), "dtype": rng.choice(["float64", "float32", "float32", "int32"])})
    for t in rng.sample(TRACERS, rng.choice([0, 1, 2])):
        vars_.append({"name": "std_" + t, "tracer": t, "file": 2, "dtype": "float32"})
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        names = [v["name"] for v in vars_]
        op = {
            "only": None, "tracers": rng.choice([None, {}, "all", "all", "some"]),
            "to_state": rng.choice(["none", "none", "empty", "some", "all"]), "halo": rng.choice([0, 1]),
            "old_time": rng.random() < 0.3, "others": rng.random() < 0.5, "label_none": rng.random() < 0.2,
            "suffix": rng.choice(["", "", "_b", "_c"]), "swap": rng.random() < 0.3,
            "units": rng.choice(["kg/kg", "kg/kg", "g/kg"]), "decoy": rng.choice([None, None, None, 0, 1, 2]),
        }
        if rng.random() < 0.4:
            op["only"] = rng.sample(names, rng.randint(0, len(names)))
            if rng.random() < 0.7:
                op["only"] = [n + op["suffix"] if n.startswith("std_") else n for n in op["only"]]
            if rng.random() < 0.5:
                op["only"].append("time")
            if rng.random() < 0.3:
                op["only"].append("not_there")
            op["only_type"] = rng.choice(["list", "tuple", "set", "iterator"])
        op["rewrite"] = None
        if rng.random() < 0.4:
            # the model has gone on and written new restart files in the meantime
            op["rewrite"] = {"coupler": rng.random() < 0.8, "optional": rng.choice([[], [3], [4], [3, 4]]),
                             "ran": rng.choice([0, 900, 86400])}
        ops.append(op)
    faults = []
    if rng.random() < 0.4:
        faults.append({
            "kind": rng.choice(["missing", "cut", "cut", "open", "read", "read", "short", "short"]),
            "file": rng.choice([0, 1, 2, 3, 4, 5]), "tile": rng.randrange(6),
            "at": rng.choice([0, 3, 10, 40, 100, 300, 600, rng.randrange(4000)]),
        })
    return {"cfg": cfg, "vars": vars_, "ops": ops, "faults": faults}


def properties(v):
    if "tracer" in v:
        return {"dims": ["z", "y", "x"], "restart_name": v["tracer"], "units": "kg/kg"}
    return TABLE[v["name"]]


DECOYS = ["", "20160801.003000", "old"]


def tracer_table(op, vars_):
    """index of a tracer variable -> (standard name, properties) in this call."""
    tracers = [k for k, v in enumerate(vars_) if "tracer" in v]
    if op["tracers"] == "some":
        tracers = tracers[:1]
    elif op["tracers"] != "all":
        tracers = []
    names = [vars_[k]["name"] + op.get("suffix", "") for k in tracers]
    if op.get("swap"):
        names.reverse()
    return {k: (n, {**properties(vars_[k]), "units": op.get("units", "kg/kg")}) for k, n in zip(tracers, names)}


def file_name(cfg, i, tile, label=None):
    label = cfg["label"] if label is None else label
    pre = f"{label}." if label else ""
    if i == 5:
        return pre + "coupler.res"
    return f"{pre}{FILES[i]}.tile{tile + 1}.nc"


def write_files(cfg, specs, vars_, put, shift=0, label=None):
    import xarray as xr

    layout = tuple(cfg["layout"])
    for tile in range(6):
        for i in range(5):
            if i >= 3 and i not in cfg["optional"]:
                continue
            data, coords = {}, {"Time": ("Time", [1.0], {"units": cfg["time_units"]} if cfg["time_units"] else {})}
            for k, (v, s) in enumerate(zip(vars_, specs)):
                if v["file"] != i:
                    continue
                p = properties(v)
                arr = globals_.global_values(s, layout, cfg["ny"], cfg["nx"], 100 + k + shift, [tile])[0]
                dims = [AXES[d] for d in p["dims"]]
                attrs = {"long_name": p["restart_name"]}
                # the library also reads a variable it has no metadata for, if the file gives units
                if cfg["units"][k % 7] is not None and "tracer" not in v:
                    attrs["units"] = cfg["units"][k % 7]
                data[p["restart_name"]] = (["Time"] + dims, arr[None], attrs)
                for d, n in zip(dims, arr.shape):
                    coords[d] = (d, np.arange(1.0, n + 1))
            if cfg["nometa"]:
                data["nobody_knows"] = (["Time", "something"], np.arange(3.0)[None])
            put(file_name(cfg, i, tile, label), xr.Dataset(data, coords=coords).to_netcdf())
    if cfg["coupler"] if label is None else cfg["decoy_coupler"]:
        t = make_time(cfg["time"]) + datetime.timedelta(days=shift)
        start = t - datetime.timedelta(seconds=cfg["ran"])
        text = f"     {CALENDARS[cfg['time'][0]]}        (Calendar: no_calendar=0, thirty_day_months=1, julian=2, gregorian=3, noleap=4)\n"
        for x, what in ((start, "Model start time:  "), (t, "Current model time:")):
            text += "".join(f"{n:6d}" for n in (x.year, x.month, x.day, x.hour, x.minute, x.second))
            text += f"        {what} year, month, day, hour, minute, second\n"
        put(file_name(cfg, 5, 0, label), text.encode())


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    layout = tuple(cfg["layout"])
    n_ranks = 6 * layout[0] * layout[1]
    ny, nx = cfg["ny"], cfg["nx"]
    vars_ = plan["vars"]
    specs = []
    for v in vars_:
        p = properties(v)
        specs.append(Spec({"dims": p["dims"], "sizes": {d: cfg["sizes"][d] for d in p["dims"] if d in cfg["sizes"]},
                           "dtype": v["dtype"], "units": p["units"]}))
    fs = store.SimFS
    fs.reset()
    directory = "data/run/RESTART"

    def put(name, data):
        fs.files[f"{directory}/{name}"] = bytearray(data)

    if cfg["decoys"]:
        for k, label in enumerate(DECOYS):
            if label != cfg["label"]:
                write_files(cfg, specs, vars_, put, 5000 + 300 * k, label)
    write_files(cfg, specs, vars_, put)
    has_coupler, lost = cfg["coupler"], []
    own_files = {f"{directory}/{file_name(cfg, i, t)}" for i in range(6) for t in range(6)}
    broken = {}  # tile -> why (None: all tiles)
    for f in plan["faults"]:
        name = file_name(cfg, f["file"], f["tile"])
        path = f"{directory}/{name}"
        if path not in fs.files:
            continue
        if f["kind"] == "missing":
            del fs.files[path]
            if f["file"] < 3:
                run.count("fault:missing-file")
            elif f["file"] == 5:
                has_coupler = False
            else:
                lost.append([f["file"], f["tile"]])
        elif f["kind"] == "cut":
            del fs.files[path][min(f["at"], len(fs.files[path]) - 1):]
            run.count("fault:torn-file")
        else:
            ff = store.FileFaults()
            if f["kind"] == "open":
                ff.open_error = "r"
            elif f["kind"] == "read":
                ff.read_error_after = f["at"]
            else:
                ff.short_read = True
            ff.only = "/" + name
            fs.faults = ff
        broken[None if f["file"] == 5 else f["tile"]] = f["kind"]

    job = run.job(n_ranks, cfg)

    def program(ctx):
        util = ctx.util
        place = Place(ctx.rank, layout, ny, nx)
        with ctx.lib("construct"):
            comm = util.CubedSphereCommunicator(ctx.comm, util.CubedSpherePartitioner(util.TilePartitioner(layout)))
        files, written = cfg, 0
        for j, op in enumerate(plan["ops"]):
            label, shift, days = cfg["label"], 0, 0
            if op.get("decoy") is not None and cfg["decoys"] and DECOYS[op["decoy"]] != cfg["label"]:
                label, shift = DECOYS[op["decoy"]], 5000 + 300 * op["decoy"]
                days = shift
                run.count("probe:other-label")
            mine = label == cfg["label"]
            new = op.get("rewrite")
            if new and not plan["faults"]:
                files = {**files, **new}
                written = 40 * (j + 1)
                ctx.comm.barrier()
                if ctx.rank == 0:
                    for name in own_files:
                        fs.files.pop(name, None)
                    write_files(files, specs, vars_, put, written)
                    run.count("probe:rewritten")
                ctx.comm.barrier()
            if mine:
                shift = days = written
            may_fail = mine and (place.tile in broken or None in broken)
            table = tracer_table(op, vars_)
            props = {n: dict(p) for n, p in table.values()}
            if op["tracers"] is None:
                props = None
            expected, spec_of = {}, {}
            for k, v in enumerate(vars_):
                name = v["name"]
                spec = specs[k]
                if "tracer" in v:
                    if k not in table:
                        continue
                    name, p = table[k]
                    spec = Spec({**spec.d, "units": p["units"]})
                if v["file"] >= 3 and v["file"] not in (files if mine else cfg)["optional"]:
                    continue
                if mine and [v["file"], place.tile] in lost:
                    continue
                if op["only"] is not None and name not in op["only"]:
                    continue
                expected[name] = k
                spec_of[name] = spec
            had_coupler = cfg["decoy_coupler"]
            if mine:
                had_coupler = has_coupler if files is cfg else files["coupler"]
            want_time = had_coupler and (op["only"] is None or "time" in op["only"])
            time = make_time(cfg["time"]) + datetime.timedelta(days=days) if want_time else None

            to_state, held = None, {}
            if op["to_state"] != "none":
                to_state = {}
                chosen = sorted(expected)
                chosen = {"empty": [], "some": chosen[::2], "all": chosen}[op["to_state"]]
                for n in chosen:
                    q = globals_.sentinel_quantity(util, spec_of[n], place, "C", op["halo"])
                    to_state[n] = q
                    held[n] = (q, q.data.copy())
                if op["others"]:
                    to_state["other"] = other = util.Quantity(np.arange(3.0), ("z",), "m")
                if op["old_time"]:
                    to_state["time"] = make_time(["julian", 5, 6])
                if time is None:
                    time = to_state.get("time")
            given_state = to_state
            kwargs = {}
            if op["only"] is not None:
                kwargs["only_names"] = {"list": list, "tuple": tuple, "set": set, "iterator": iter}[op["only_type"]](op["only"])
            if props is not None:
                kwargs["tracer_properties"] = props
            if to_state is not None:
                kwargs["to_state"] = to_state
            if label or not op["label_none"]:
                kwargs["label"] = label
            try:
                with ctx.lib("open_restart", (Exception,) if may_fail else ()):
                    out = util.open_restart("simfs://" + directory + ("/" if cfg["slash"] else ""), comm, **kwargs)
            except Exception as e:
                run.count("probe:fault-reported")
                ctx.sim.abort_reason = "storage error"
                run.mark("failed", ctx.rank, type(e).__name__)
                return False
            what = f"open {j}"
            if given_state is not None:
                ensure(out is given_state, "wrong:open_restart", f"{what}: another dictionary was returned")
                run.count("probe:to-state")
            keys = set(expected) | ({"other"} if given_state is not None and op["others"] else set())
            if time is not None:
                keys.add("time")
            ensure(set(out) == keys, "wrong:open_restart-keys",
                   lambda: f"rank {ctx.rank}, {what}: {sorted(out)} instead of {sorted(keys)}")
            for n, k in expected.items():
                q = out[n]
                globals_.check_view("wrong:open_restart", q, globals_.local_values(specs[k], place, 100 + k + shift),
                                    spec_of[n], ctx.rank, f"{what} {n}")
                if n in held:
                    ensure(q is held[n][0], "wrong:open_restart", f"{what}: {n} was replaced")
                    globals_.outside_unchanged("wrong:open_restart", q, held[n][1], ctx.rank, f"{what} {n}")
            if "other" in keys:
                ensure(out["other"] is other and list(other.data) == [0, 1, 2], "wrong:open_restart-others", what)
            if time is not None:
                ensure((out["time"].calendar, out["time"].isoformat()) == (time.calendar, time.isoformat()),
                       "wrong:open_restart-time", lambda: f"rank {ctx.rank}: {out['time']!r} instead of {time!r}")
            run.count("compared")
        return True

    job.start(program)
    if cfg["label"]:
        run.count("probe:label")
    if not has_coupler:
        run.count("probe:no-coupler-file")
    if cfg["optional"]:
        run.count("probe:optional-files")
    for op in plan["ops"]:
        if op["only"] is not None:
            run.count("probe:only-names")
        if op["tracers"]:
            run.count("probe:tracers")


def simplify(plan):
    for layout in ([1, 1], [1, 2], [2, 1]):
        if plan["cfg"]["layout"] != layout:
            p = copy.deepcopy(plan)
            p["cfg"]["layout"] = layout
            yield p
    for k, simple in (("decoys", False), ("coupler", False), ("decoy_coupler", False), ("optional", []), ("nometa", False),
                      ("units", [None] * 7), ("time_units", None),
                      ("slash", False), ("label", ""), ("ny", 1), ("nx", 1)):
        if plan["cfg"][k] != simple:
            p = copy.deepcopy(plan)
            p["cfg"][k] = simple
            yield p
    for i in range(len(plan["vars"])):
        p = copy.deepcopy(plan)
        del p["vars"][i]
        yield p
    for i, op in enumerate(plan["ops"]):
        for k, simple in (("rewrite", None), ("decoy", None), ("suffix", ""), ("swap", False), ("units", "kg/kg"), ("only", None), ("tracers", None), ("to_state", "none"), ("others", False), ("old_time", False), ("halo", 0)):
            if op.get(k) != simple:
                p = copy.deepcopy(plan)
                p["ops"][i][k] = simple
                yield p


def nontrivial(stats):
    return stats.get("compared", 0) > 0 or any(k.startswith("fault:") for k in stats)
