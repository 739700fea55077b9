"""write_state and read_state round-trip or fail loudly."""
import copy

import numpy as np

from simkit import fields, store
from simkit.fields import Spec
from simkit.job import ensure

from . import common, globals_
from .c08 import gen_time, make_time
from .common import Place

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 60000}
QUICK_SECONDS = 40.0
UNIVERSES = 6
RULE = (
    "each run: 1-3 ranks write 1-4 states of 0-4 variables (also over earlier files) and read them "
    "back, in another process after a crash; a write or close of a file fails, a file cannot be "
    "opened, the job dies when a chosen number of bytes has been written, reads fail or return fewer "
    "bytes; non-trivial: at least one state was read back and compared, or a fault fired; distinct: "
    "different event-log checksum"
)
REAL = [
    "fv3gfs.util io, filesystem, quantity as in /repo",
    "xarray, scipy.io.netcdf / h5netcdf, fsspec's path handling, cftime: the installed libraries",
]
SIMULATED = [
    "the filesystem: an in-memory fsspec filesystem with byte-exact torn writes, see simkit/store.py",
    "thread scheduling, clocks: simulated",
]
ASSUMPTIONS = [
    "after a crash a file holds a prefix of what had been written to it, in the order of writing",
    "the storage does not return other bytes than were written",
    "values are compared, not dtypes: NetCDF 3 has fewer types than numpy",
]
PROBES = ("probe:round-trip", "probe:torn-file-read", "probe:error-on-write", "probe:error-on-read",
          "probe:overwritten")

LOUD = ("uint8", "complex128", "int64", "bool", "int8", "uint16", "uint32", "uint64", "complex64")  # may be refused by the file format


def generate(rng, tier):
    cfg = {**common.base_cfg(rng), "ranks": rng.choice([1, 1, 1, 2, 3]), "ny": rng.randint(1, 4), "nx": rng.randint(1, 4)}
    sizes = {}
    vars_ = []
    for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        d = globals_.gen_global_spec(rng)
        if rng.random() < 0.1:
            d["dims"], d["sizes"] = [], {}
        for k in d["sizes"]:
            d["sizes"][k] = sizes.setdefault(k, d["sizes"][k])
        if rng.random() < 0.7:
            d["dtype"] = rng.choice(["float64", "float32", "int32", "int16"])
        name = rng.choice(["air_temperature", "x_wind", "delp", "surface_pressure", "q", "w"]) + (str(i) if i else "")
        if len(d["dims"]) == 1 and rng.random() < 0.3:
            name = d["dims"][0]
        d["special"] = rng.random() < 0.3
        d["units"] = rng.choice(["m", "K", "Pa", "kg/kg", "", "W m**-2", "degrees_north"])
        if rng.random() < 0.2:
            d["units"] = rng.choice(["seconds", "days", "hours", "milliseconds", "s", "°C", "µg m²", " ", " m", "K ", "1",
                                     "days since 2000-01-01", "seconds since 2016-08-01 00:00:00", "years since x"])
        if rng.random() < 0.1:
            name = rng.choice(["air temperature", "a.b", "é", "T+", "2m", "a/b", "_q", "q" * 200, "Time", "T", "time_bnds", "lat"])
        if not any(v["name"] == name for v in vars_):
            vars_.append({**d, "name": name})
    ops = []
    for k in range(rng.randint(1, 4)):
        ops.append({
            "file": rng.randrange(2), "time": gen_time(rng), "micro": rng.choice([0, 0, 0, 1, 500000]),
            "vars": sorted(rng.sample(range(len(vars_)), rng.randint(0, len(vars_)))),
        })
    faults = []
    r = rng.random()
    if r < 0.75:
        k = rng.randrange(len(ops))
        kind = rng.choice(["write", "write", "crash", "crash", "crash", "close", "open-w", "open-r", "read", "short"])
        faults.append({"op": k, "rank": rng.randrange(cfg["ranks"]), "kind": kind,
                       "at": rng.choice([0, 1, 3, 4, 7, 8, 16, 31, 32, 64, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900,
                                         1000, 1200, 1500, rng.randrange(3000)])})
    for op in ops:
        # read somebody's file first, whatever is there at that moment
        op["peek"] = [rng.randrange(cfg["ranks"]), rng.randrange(2)] if rng.random() < 0.4 else None
    return {"cfg": cfg, "vars": vars_, "ops": ops, "faults": faults, "dir": rng.choice(["own", "shared"])}


def build(util, specs, names, op, rank, place, k):
    state = {}
    for i in op["vars"]:
        s = specs[i]
        q = s.quantity(util, place.ny, place.nx)
        if s.dims:
            common.fill(q.data, s, place, 100 * k + i, label=rank)
        else:
            q.data[...] = 5 + k
        if s.d.get("special") and s.dtype.startswith("float") and q.data.size:
            flat = q.view[:]
            for j, val in enumerate((np.nan, np.inf, -0.0, 9.969209968386869e36, -32767, 1e20, -9999.0)):
                idx = np.unravel_index((j * 7) % flat.size, flat.shape)
                flat[idx] = val
        if s.d.get("special") and s.dtype == "int16":
            q.view[:][np.unravel_index(0, q.view[:].shape)] = -32767
        state[names[i]] = q
    time = make_time(op["time"])
    if op["micro"]:
        time = time.replace(microsecond=op["micro"])
    state["time"] = time
    return state


def frozen(state):
    return {
        n: v if n == "time" else (tuple(v.dims), v.units, np.array(v.view[:])) for n, v in state.items()
    }


def same_state(got, want):
    """None if equal, else what differs."""
    if set(got) != set(want):
        return f"variables {sorted(got)} instead of {sorted(want)}"
    for n, w in want.items():
        g = got[n]
        if n == "time":
            if (g.calendar, g.isoformat()) != (w.calendar, w.isoformat()):
                return f"time {g!r} instead of {w!r}"
            continue
        if g[0] != w[0] or g[1] != w[1]:
            return f"{n}: {g[:2]} instead of {w[:2]}"
        d = fields.first_difference(g[2], w[2])
        if d:
            return f"{n} {w[0]}: {d}"
    return None


def set_faults(fs, f):
    fs.faults = store.FileFaults()
    if f is None:
        return
    kind, at = f["kind"], f["at"]
    if kind == "write":
        fs.faults.write_error_after = at
    elif kind == "crash":
        fs.faults.crash_after = at
    elif kind == "close":
        fs.faults.close_error = True
    elif kind == "open-w":
        fs.faults.open_error = "w"
    elif kind == "open-r":
        fs.faults.open_error = "r"
    elif kind == "read":
        fs.faults.read_error_after = at
    elif kind == "short":
        fs.faults.short_read = True


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    specs = [Spec(d) for d in plan["vars"]]
    names = [d["name"] for d in plan["vars"]]
    fs = store.SimFS
    fs.reset()
    history = {}  # path -> frozen states written or begun, oldest first
    returned = {}  # path -> the last state whose write returned
    fired_total = [0]
    ny, nx = cfg["ny"], cfg["nx"]

    def read_back(util, lib, path, what, must=None, fault=False):
        """Read a file; it is exact, or an error is raised (never when must is given)."""
        allow = () if must is not None else (Exception,)
        try:
            with lib("read_state", allow):
                got = frozen(util.io.read_state("simfs://" + path))
        except Exception as e:
            run.count("probe:error-on-read" if fault else "probe:refused")
            run.mark("refused", path, type(e).__name__)
            return False
        candidates = [must] if must is not None else history.get(path, [])
        problems = [same_state(got, w) for w in candidates]
        ensure(None in problems, "wrong:read_state" + ("" if must is not None else "-after-error"),
               lambda: f"{what}: {problems[-1] if problems else 'no such file was ever written'}")
        run.count("probe:round-trip")
        return True

    job = run.job(cfg["ranks"], cfg)
    where = {"own": "run/rank{}/file{}.nc", "shared": "run/rank{}.file{}.nc"}[plan.get("dir", "own")]

    def program(ctx):
        util = ctx.util
        place = Place(ctx.rank, (1, 1), ny, nx)
        for k, op in enumerate(plan["ops"]):
            if op.get("peek"):
                other = where.format(*op["peek"])
                if other in fs.files:
                    run.count("probe:peek")
                    stable = op["peek"][0] == ctx.rank
                    read_back(util, ctx.lib, other, f"rank {ctx.rank} before write {k}",
                              returned.get(other) if stable else None, not stable)
            path = where.format(ctx.rank, op["file"])
            with ctx.lib("construct"):
                state = build(util, specs, names, op, ctx.rank, place, k)
            want = frozen(state)
            loud = [specs[i].dtype for i in op["vars"] if specs[i].dtype in LOUD]
            f = next((f for f in plan["faults"] if f["op"] == k and f["rank"] == ctx.rank), None)
            faults = FaultView(fs, ctx.rank, f)
            if path in history:
                run.count("probe:overwritten")
            with faults.during("write"):
                try:
                    history.setdefault(path, []).append(want)
                    with ctx.lib("write_state", (Exception,) if (loud or f) else ()):
                        util.io.write_state(state, "simfs://" + path)
                    ok = True
                except Exception as e:
                    ensure(faults.fired() or loud, "raised:write_state", f"rank {ctx.rank}: {e!r}")
                    ok = False
            if ok:
                ensure(not faults.fired(), "swallowed-error:write_state",
                       f"{faults.fired()} but write_state returned")
                returned[path] = want
            else:
                run.count("probe:error-on-write")
                returned.pop(path, None)
            ctx.think()
            d = same_state(frozen(state), want)
            ensure(d is None, "wrong:state-changed", f"write_state changed the state: {d}")
            with faults.during("read"):
                hit = f is not None and f["kind"] in ("open-r", "read")
                read_back(util, ctx.lib, path, f"rank {ctx.rank} after write {k}",
                          want if ok and not hit else None, hit)
        return True

    outcome = job.start(program)
    fs.faults = store.FileFaults()
    run.mark(outcome, sorted((p, len(b)) for p, b in fs.files.items()))

    # another process reads everything afterwards
    def reader(ctx):
        for path in sorted(history):
            if path in fs.files:
                must = returned.get(path) if history[path] and history[path][-1] is returned.get(path) else None
                if must is None:
                    run.count("probe:torn-file-read")
                read_back(ctx.util, ctx.lib, path, f"{outcome}, then {path}", must)
        return True

    again = run.job(1, {**cfg, "policy": "ascending"})
    again.start(reader)


class FaultView:
    """Faults that act on one rank's accesses during one of the calls."""

    def __init__(self, fs, rank, fault):
        self.fs, self.rank, self.fault = fs, rank, fault
        self.before = 0

    def fired(self):
        return {k: v for k, v in self.fs.per_rank[self.rank].fired.items()}

    def during(self, which):
        import contextlib

        @contextlib.contextmanager
        def cm():
            f = self.fault
            on_write = f is not None and f["kind"] in ("write", "crash", "close", "open-w")
            holder = store.FileFaults()
            if f is not None and on_write == (which == "write"):
                tmp = type("T", (), {})()
                set_faults(tmp, f)
                holder = tmp.faults
            self.fs.per_rank[self.rank] = holder
            try:
                yield
            finally:
                if which == "read":
                    self.fs.per_rank.pop(self.rank, None)

        return cm()


def simplify(plan):
    yield from common.simplify_specs(plan)
    if plan["cfg"]["ranks"] > 1:
        p = copy.deepcopy(plan)
        p["cfg"]["ranks"] = 1
        for f in p["faults"]:
            f["rank"] = 0
        yield p
    for i in range(len(plan["ops"])):
        for v in plan["ops"][i]["vars"]:
            p = copy.deepcopy(plan)
            p["ops"][i]["vars"] = [x for x in p["ops"][i]["vars"] if x != v]
            yield p
    for i, f in enumerate(plan["faults"]):
        for at in (f["at"] // 2, f["at"] - 1):
            if 0 <= at < f["at"]:
                p = copy.deepcopy(plan)
                p["faults"][i]["at"] = at
                yield p


def nontrivial(stats):
    return stats.get("probe:round-trip", 0) > 0 or any(k.startswith("fault:") for k in stats)
