"""Zarr monitors on a simulated store (shared by checks)."""
import datetime
import random

import numpy as np

from simkit import fields, store
from simkit.fields import Spec

from . import common, globals_
from .c08 import make_time

_NAMES = []


def names():
    """Variable names whose hashes collide in small tables (with the pinned hash seed),
    so that the iteration order of a set or dict made from them depends on history."""
    if not _NAMES:
        pool = {}
        for i in range(4000):
            n = ("v%d" if i % 2 else "a%d") % i  # stored before or after "time"
            pool.setdefault(hash(n) & 127, []).append(n)
        _NAMES.extend(sorted(max(pool.values(), key=len), key=lambda n: int(n[1:]))[:10])
    return _NAMES


def gen_vars(rng, most=4):
    out = []
    common_sizes = {}  # one size per dimension, as in any model
    for i in range(rng.randint(1, most)):
        while True:
            d = globals_.gen_global_spec(rng)
            horizontal = sum(x in fields.XD + fields.YD for x in d["dims"])
            if horizontal == 2 or rng.random() < 0.3:
                break
        for k in d["sizes"]:
            if k == "z_interface":
                d["sizes"][k] = max(2, d["sizes"][k])
            d["sizes"][k] = common_sizes.setdefault(k, d["sizes"][k])
        out.append({**d, "name": i, "still": rng.choice(fields.STILL)})
    return out


def gen_start(rng):
    return [rng.choice(["julian", "noleap", "360_day", "proleptic_gregorian"]),
            rng.randint(-400, 400), rng.randint(0, 86399) + rng.choice([0, 0, 0, 0.5, 0.25])]


def time_of(cfg, k):
    """Time of the k-th snapshot."""
    return make_time(cfg["start"]) + datetime.timedelta(seconds=cfg["dt"] * k)


class Fields:
    """The variables of one rank."""

    def __init__(self, util, specs, place):
        self.specs = [Spec(fields.on_rank(s.d, place.rank)) for s in specs]
        self.place = place
        self.qs = [s.quantity(util, place.ny, place.nx) for s in self.specs]

    def state(self, cfg, k, order_seed, salt0=0):
        """The k-th snapshot, listed in an order that depends on order_seed."""
        items = [("time", time_of(cfg, k))]
        for i, (q, s) in enumerate(zip(self.qs, self.specs)):
            common.fill(q.data, s, self.place, salt(i, k, salt0, s))
            items.append((names()[s.d["name"]], q))
        random.Random(order_seed).shuffle(items)
        return dict(items)

    def scribble(self):
        """What the model does next: overwrite everything."""
        for q in self.qs:
            q.data[...] = 1


def salt(i, k, salt0, spec):
    at = lambda n: salt0 + 100 * (n + 1) + i  # noqa: E731
    return fields.still(spec.d, k + spec.d["name"], at(k), at(0))


def chunk_owners(st, specs):
    """Track which rank writes which chunk: key -> set of ranks."""
    owners = {}
    shared = {
        names()[s.d["name"]] for s in specs
        if sum(x in fields.XD + fields.YD for x in s.dims) < 2
    }

    def track(rank, key):
        var, _, last = key.rpartition("/")
        if not last.startswith(".") and var and var not in shared:
            owners.setdefault(key, set()).add(rank)

    st.track = track
    return owners


def verify(kind, disk, specs, cfg, layout, ny, nx, steps, what, exact=True, salt0=0):
    """The store holds snapshots 0..steps-1 (and nothing else if exact)."""
    import zarr

    st = store.SimStore(disk, "verify")
    try:
        group = zarr.open_group(st, mode="r")
    except Exception as e:
        common.ensure(steps == 0, kind + "-unreadable", f"{what}: {e!r}")
        return
    want_names = {names()[s.d["name"]] for s in specs} | {"time"}
    if exact:
        common.ensure(set(group.array_keys()) == want_names and not list(group.group_keys()),
                      kind + "-variables", lambda: f"{what}: {sorted(group.array_keys())} instead of {sorted(want_names)}")
    if steps == 0:
        return
    for i, s in enumerate(specs):
        n = names()[s.d["name"]]
        common.ensure(n in group, kind + "-variables", f"{what}: no {n}")
        a = group[n]
        ext = s.extent(ny * layout[0], nx * layout[1])
        common.ensure(
            a.shape[1:] == (6,) + ext and (a.shape[0] == steps if exact else a.shape[0] >= steps),
            kind + "-shape", lambda: f"{what}: {n} {a.shape}, expected {(steps, 6) + ext}",
        )
        common.ensure(
            a.dtype == np.dtype(s.dtype)
            and list(a.attrs.get("_ARRAY_DIMENSIONS", ())) == ["time", "tile", *s.dims]
            and a.attrs.get("units") == s.units,
            kind + "-metadata", lambda: f"{what}: {n} {a.dtype} {dict(a.attrs)}",
        )
        for k in range(steps):
            want = np.stack(globals_.global_values(s, layout, ny, nx, salt(i, k, salt0, s), range(6)))
            try:
                got = a[k]
            except Exception as e:
                common.fail(kind + "-unreadable", f"{what}: {n} step {k}: {e!r}")
            diff = fields.first_difference(got, want)
            if diff:
                common.fail(kind, f"{what}: {n} {s.dims} step {k}: {diff}")
    import cftime

    t = group["time"]
    common.ensure("units" in t.attrs and "calendar" in t.attrs and list(t.attrs.get("_ARRAY_DIMENSIONS", ())) == ["time"],
                  kind + "-time", lambda: f"{what}: time attributes {dict(t.attrs)}")
    common.ensure(t.shape[0] == steps if exact else t.shape[0] >= steps, kind + "-time", lambda: f"{what}: {t.shape} times, expected {steps}")
    try:
        got = cftime.num2date(t[:steps], t.attrs["units"], t.attrs["calendar"])
    except Exception as e:
        common.fail(kind + "-time", f"{what}: {e!r}")
    want = [time_of(cfg, k) for k in range(steps)]
    common.ensure(
        list(got) == want and got[0].calendar == want[0].calendar, kind + "-time",
        lambda: f"{what}: times {list(got)[:4]} instead of {want[:4]}",
    )


def verify_xarray(kind, disk, specs, cfg, steps, what):
    """A user opening the store with xarray sees decoded times and named dimensions."""
    import xarray as xr

    st = store.SimStore(disk, "verify")
    try:
        ds = xr.open_zarr(st, consolidated=False, use_cftime=True, chunks=None)
        got = [ds["time"].values[k] for k in range(steps)]
    except Exception as e:
        common.fail(kind + "-xarray", f"{what}: {e!r}")
    common.ensure(got == [time_of(cfg, k) for k in range(steps)], kind + "-xarray", f"{what}: {got}")
    for s in specs:
        da = ds[names()[s.d["name"]]]
        common.ensure(da.dims == ("time", "tile", *s.dims) and da.attrs.get("units") == s.units,
                      kind + "-xarray", lambda: f"{what}: {da.dims} {da.attrs}")


REAL = [
    "fv3gfs.util ZarrMonitor, partitioner, quantity as in /repo, one private import per rank",
    "zarr, numcodecs, cftime, xarray (reading back): the installed libraries",
]
SIMULATED = [
    "MPI (mpi4py communicator): simulated, see simkit/mpi.py",
    "the store: an in-memory key-value store with atomic keys and a scheduling point at every "
    "access, see simkit/store.py",
    "thread scheduling, clocks, numpy.empty (returns garbage): simulated",
]
