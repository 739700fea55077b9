"""Generated quantities whose every value says where it belongs."""
import random

import numpy as np

X, XI, Y, YI, Z, ZI = "x", "x_interface", "y", "y_interface", "z", "z_interface"
XD, YD = (X, XI), (Y, YI)
INTERFACE = (XI, YI, ZI)
DTYPES = [
    "float64", "float64", "float32", "float32", "int64", "int64", "int32", "int16", "uint8", "complex128", "bool",
    "int8", "uint16", "uint32", "uint64", "complex64",
]


def mix(h):
    """splitmix64, vectorised."""
    with np.errstate(over="ignore"):
        h = (h + np.uint64(0x9E3779B97F4A7C15)).astype(np.uint64)
        h = (h ^ (h >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        h = (h ^ (h >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        return h ^ (h >> np.uint64(31))


SPECIAL = [True]  # also not-a-number, infinities, denormals


def to_dtype(h, dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        bits = 40 if dtype.itemsize == 8 else 20
        v = (h >> np.uint64(64 - bits)).astype(np.int64) - (1 << (bits - 1))
        v = (v / 16.0).astype(dtype)
        if SPECIAL[0]:
            odd = (h & np.uint64(0x1FF)).astype(np.int64)  # the lowest bits are not used above
            info = np.finfo(dtype)
            few = np.array([np.nan, np.inf, -np.inf, -0.0, info.smallest_subnormal, info.max, -info.tiny,
                            9.969209968386869e36, 1e20, -9999.0], dtype)
            v = np.where(odd < len(few), few[np.minimum(odd, len(few) - 1)], v)
        return v
    if dtype.kind == "c" and dtype.itemsize == 16:
        a = (h >> np.uint64(32)).astype(np.int64) - (1 << 31)
        b = (h & np.uint64(0xFFFFFFFF)).astype(np.int64) - (1 << 31)
        return (a + 1j * b).astype(dtype)
    if dtype.kind == "c":
        a = (h >> np.uint64(40)).astype(np.int64) - (1 << 23)
        b = ((h << np.uint64(24)) >> np.uint64(40)).astype(np.int64) - (1 << 23)
        return (a + 1j * b).astype(dtype)
    if dtype.kind == "b":
        return (h & np.uint64(1)).astype(bool)
    if dtype.kind == "i":
        half = (h >> np.uint64(65 - 8 * dtype.itemsize)).astype(np.int64)
        top = 1 << (8 * dtype.itemsize - 2)
        return (half - top).astype(dtype)
    return (h >> np.uint64(64 - 8 * dtype.itemsize)).astype(dtype)


ZERO = 1_000_000_000  # fields with these numbers are zero everywhere


def value_at(salt, tile, coords, dtype):
    """The value of field ``salt`` at integer coordinates (broadcastable arrays).

    Coordinates are combined in the order given, so use one fixed order per field.
    """
    h = np.asarray(tile).astype(np.uint64) + np.uint64(salt * 1000003 + 12345)
    h = mix(h)
    for c in coords:
        h = mix(h ^ (np.asarray(c).astype(np.int64).astype(np.uint64) + np.uint64(77)))
    if ZERO <= salt < ZERO + 1_000_000:
        return np.zeros(h.shape, dtype)
    return to_dtype(h, dtype)


def still(d, number, salt, before):
    """The field to use for the number-th time: some variables do not change, or are zero at times."""
    how = d.get("still")
    if how == "same":
        return before
    return ZERO + salt if how == "zero" and number % 2 else salt


STILL = [None] * 8 + ["same", "zero"]


def laid_out(shape, dtype, layout):
    """An uninitialised array of this shape with a given arrangement in memory."""
    shape = tuple(int(s) for s in shape)
    if layout == "C" or not shape:
        return np.zeros(shape, dtype)
    if layout == "F":
        return np.zeros(shape, dtype, order="F")
    if layout == "strided":
        big = np.zeros(shape[:-1] + (2 * shape[-1] + 1,), dtype)
        return big[..., 1::2]
    if layout == "reversed":
        return np.zeros(shape, dtype)[::-1]
    if layout.startswith("perm"):
        k = int(layout[4:])
        n = len(shape)
        order = list(range(n))
        order = order[k % n :] + order[: k % n]
        base = np.zeros([shape[i] for i in order], dtype)
        return base.transpose(np.argsort(order))
    raise ValueError(layout)


LAYOUTS = ["C", "C", "F", "strided", "reversed", "perm1", "perm2"]


def pick_layout(rng):
    return rng.choice(LAYOUTS)


def on_rank(d, rank):
    """The same variable as this rank holds it: with "vary", every rank arranges and pads it its own way."""
    if not d.get("vary"):
        return d
    rng = random.Random(d["vary"] * 1009 + rank)
    return {
        **d, "mem": pick_layout(rng), "pad": rng.choice([0, 0, 1, 2, 3]), "zpad": rng.choice([0, 1]),
        "halo": d.get("halo", 0) + rng.choice([0, 0, 1]),
    }


class Spec:
    """Shape of a quantity on one rank, from a plan's dictionary.

    keys: dims, sizes (for non-horizontal dims: extent), halo, pad (extra room after),
    zpad (room before and after on non-horizontal dims), dtype, mem, units
    """

    def __init__(self, d):
        self.d = d
        self.dims = tuple(d["dims"])
        self.sizes = d.get("sizes", {})
        self.halo = d.get("halo", 0)
        self.pad = d.get("pad", 0)
        self.zpad = d.get("zpad", 0)
        self.dtype = d.get("dtype", "float64")
        self.mem = d.get("mem", "C")
        self.units = d.get("units", "m")

    def extent(self, ny, nx):
        out = []
        for dim in self.dims:
            if dim in XD:
                out.append(nx + (dim == XI))
            elif dim in YD:
                out.append(ny + (dim == YI))
            else:
                out.append(self.sizes[dim])
        return tuple(out)

    def origin(self):
        return tuple(
            self.halo + self.pad % 2 if d in XD + YD else self.zpad for d in self.dims
        )

    def shape(self, ny, nx):
        out = []
        for d, e, o in zip(self.dims, self.extent(ny, nx), self.origin()):
            after = self.halo + self.pad if d in XD + YD else self.zpad
            out.append(o + e + after)
        return tuple(out)

    def index_coords(self, ny, nx, x0, y0):
        """Per axis, the coordinate of every array index: half cells for x and y, plain
        index otherwise; relative to the tile with this rank's first cell at (y0, x0)."""
        out = []
        for d, n, o in zip(self.dims, self.shape(ny, nx), self.origin()):
            i = np.arange(n) - o
            if d in XD:
                out.append(2 * (x0 + i) + (d != XI))
            elif d in YD:
                out.append(2 * (y0 + i) + (d != YI))
            else:
                out.append(i)
        return out

    def quantity(self, util, ny, nx, mem=None):
        data = laid_out(self.shape(ny, nx), self.dtype, mem or self.mem)
        return util.Quantity(
            data, dims=self.dims, units=self.units, origin=self.origin(),
            extent=self.extent(ny, nx),
        )


def broadcast(coords):
    """Each 1-d coordinate array reshaped so that they broadcast together."""
    n = len(coords)
    return [np.asarray(c).reshape([-1 if i == k else 1 for i in range(n)]) for k, c in enumerate(coords)]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def first_difference(a, b, mask=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    bad = ~((a == b) | ((a != a) & (b != b)))
    if mask is not None:
        bad &= mask
    idx = np.argwhere(bad)
    if len(idx) == 0:
        return None
    i = tuple(int(k) for k in idx[0])
    return f"{len(idx)} of {a.size} values differ, first at {i}: {a[i]!r} instead of {b[i]!r}"
