"""Scatter, gather and state operations: global fields and their parts (shared by checks)."""
import numpy as np

from simkit import fields
from simkit.fields import X, XI, Y, YI, Spec, value_at

from . import common
from .common import check_array, ensure


def global_values(spec, layout, ny, nx, salt, tiles):
    """Values of a field on whole tiles: list over tiles of arrays of the tile's extent."""
    ly, lx = layout
    ext = spec.extent(ny * ly, nx * lx)
    coords = []
    for d, e in zip(spec.dims, ext):
        i = np.arange(e)
        if d in fields.XD:
            coords.append(2 * i + (d != XI))
        elif d in fields.YD:
            coords.append(2 * i + (d != YI))
        else:
            coords.append(i)
    c = fields.broadcast(coords)
    ay, ax, other = common.axes(spec)
    order = [c[k] for k in other] + [c[k] for k in (ay, ax) if k is not None]
    return [
        np.ascontiguousarray(np.broadcast_to(value_at(salt, t, order, spec.dtype), ext))
        for t in tiles
    ]


def local_values(spec, place, salt):
    v = common.values(spec, place, salt)
    return v[common.compute_slice(spec, place)]


def global_quantity(util, spec, layout, ny, nx, salt, tiles, cube, mem, margin):
    """A tile (cube=False) or cube quantity holding the field, with a margin around it."""
    parts = global_values(spec, layout, ny, nx, salt, tiles)
    arr = np.stack(parts) if cube else parts[0]
    dims = (("tile",) if cube else ()) + spec.dims
    origin = tuple(0 if d == "tile" else margin for d in dims)
    shape = tuple(e + 2 * o for e, o in zip(arr.shape, origin))
    data = fields.laid_out(shape, spec.dtype, mem)
    data[...] = value_at(common.SENTINEL, 99, fields.broadcast([np.arange(n) for n in shape]), spec.dtype)
    data[tuple(slice(o, o + e) for o, e in zip(origin, arr.shape))] = arr
    return util.Quantity(data, dims=dims, units=spec.units, origin=origin, extent=arr.shape)


def sentinel_quantity(util, spec, place, mem, halo=None):
    """A pre-allocated quantity on one rank with sentinels everywhere."""
    d = spec.d if halo is None else {**spec.d, "halo": halo, "zpad": min(1, halo)}
    s = Spec(fields.on_rank(d, place.rank))
    q = s.quantity(util, place.ny, place.nx, s.mem if d.get("vary") else mem)
    q.data[...] = value_at(
        common.SENTINEL + 5, 1000 + place.rank,
        fields.broadcast([np.arange(n) for n in q.data.shape]), spec.dtype,
    )
    return q


def check_view(kind, q, want, spec, rank, what, dims=None):
    ensure(q is not None, kind, f"rank {rank}, {what}: None returned")
    ensure(
        tuple(q.dims) == tuple(dims or spec.dims) and q.units == spec.units,
        kind.replace("wrong", "metadata"), lambda: f"rank {rank}, {what}: {q.dims} {q.units!r}",
    )
    check_array(kind, q.view[:], want, rank, what)
    ensure(q.data.dtype == np.dtype(spec.dtype), kind.replace("wrong", "metadata"),
           lambda: f"rank {rank}, {what}: dtype {q.data.dtype}")


def outside_unchanged(kind, q, before, rank, what):
    """Everything but the compute domain is as it was."""
    now = q.data.copy()
    inner = tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))
    now[inner] = before[inner]
    check_array(kind, now, before, rank, what + " outside the compute domain")


def gen_global_spec(rng, dtypes=None):
    """A spec for scatter/gather: any horizontal staggering, or missing horizontal dims."""
    r = rng.random()
    if r < 0.85:
        dims = common.gen_dims(rng, rng.choice([Y, Y, YI]), rng.choice([X, X, XI]))
    elif r < 0.95:
        dims = [rng.choice([Y, YI, X, XI])] + (["z"] if rng.random() < 0.5 else [])
        rng.shuffle(dims)
    else:
        dims = ["z"]
    sizes = {d: rng.randint(1, 4) for d in dims if d not in fields.XD + fields.YD}
    return {
        "dims": dims, "sizes": sizes, "halo": rng.choice([0, 0, 1, 2]), "pad": 0,
        "zpad": rng.choice([0, 0, 1]), "dtype": rng.choice(dtypes or fields.DTYPES),
        "mem": fields.pick_layout(rng), "units": rng.choice(["m", "K", "Pa", "kg/kg", ""]),
        "vary": rng.choice([0, 0, 0, rng.randint(1, 1000)]),
    }
