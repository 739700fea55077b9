"""Fields on the cubed sphere, their expected halos, and plan generation shared by checks."""
import numpy as np

from simkit import cube, fields
from simkit.fields import X, XI, Y, YI, Spec, value_at
from simkit.job import COLL_MODES, POLICIES, SEND_MODES, base_cfg, ensure, fail  # noqa: F401

SENTINEL = 7_000_000


class Place:
    """Where a rank is on the cube."""

    def __init__(self, rank, layout, ny, nx):
        ly, lx = layout
        self.rank = rank
        self.layout = layout
        self.ny, self.nx = ny, nx
        self.tile = rank // (ly * lx)
        r = rank % (ly * lx)
        self.j, self.i = r // lx, r % lx
        self.y0, self.x0 = self.j * ny, self.i * nx
        self.cells = nx * lx  # cells along a tile edge (square layouts)


def given(bare, **kwargs):
    """Arguments of a call; with bare, those that are None are left out."""
    return {k: v for k, v in kwargs.items() if v is not None} if bare else kwargs


def axes(spec):
    """Array axes of (y, x) and the others, in the spec's order."""
    ay = [k for k, d in enumerate(spec.dims) if d in fields.YD]
    ax = [k for k, d in enumerate(spec.dims) if d in fields.XD]
    other = sorted((k for k in range(len(spec.dims)) if k not in ay + ax), key=lambda k: spec.dims[k])
    return (ay[0] if ay else None), (ax[0] if ax else None), other


def values(spec, place, salt, label=None, coords=None, tile=None):
    """The generated values of a field on every index of the rank's array."""
    c = fields.broadcast(coords or spec.index_coords(place.ny, place.nx, place.x0, place.y0))
    ay, ax, other = axes(spec)
    order = [c[k] for k in other] + [c[k] for k in (ay, ax) if k is not None]
    t = place.tile if tile is None else tile
    v = value_at(salt, t if label is None else label, order, spec.dtype)
    return np.broadcast_to(v, spec.shape(place.ny, place.nx))


def compute_slice(spec, place):
    return tuple(
        slice(o, o + e) for o, e in zip(spec.origin(), spec.extent(place.ny, place.nx))
    )


def fill(data, spec, place, salt, label=None):
    """Interior from the field, everything else from a sentinel that nothing else has."""
    data[...] = values(spec, place, SENTINEL + salt, label=10_000 + place.rank)
    inner = compute_slice(spec, place)
    data[inner] = values(spec, place, salt, label)[inner]


def halo_region(spec, place, n):
    """Boolean (ny, nx)-shaped mask of the halo points an update of n points sets, and the
    half-cell coordinates along y and x of the array."""
    ay, ax, _ = axes(spec)
    shape, origin, extent = (
        spec.shape(place.ny, place.nx), spec.origin(), spec.extent(place.ny, place.nx)
    )
    def near(axis):
        i = np.arange(shape[axis]) - origin[axis]
        return (i >= -n) & (i < extent[axis] + n), (i >= 0) & (i < extent[axis])
    ny_near, ny_in = near(ay)
    nx_near, nx_in = near(ax)
    mask = ny_near[:, None] & nx_near[None, :] & ~(ny_in[:, None] & nx_in[None, :])
    coords = spec.index_coords(place.ny, place.nx, place.x0, place.y0)
    return mask, coords[ay], coords[ax]


def _spread(spec, arr2d, ay, ax):
    """A (ny, nx) array reshaped to broadcast over the spec's dims."""
    shape = [1] * len(spec.dims)
    a = arr2d if ay < ax else arr2d.T
    shape[ay], shape[ax] = arr2d.shape
    return a.reshape(shape)


def _component(spec, place, salt, tile2d, y2d, x2d, ay, ax, other):
    """Values of a field at arbitrary (tile, y, x) for every other index."""
    c = fields.broadcast(spec.index_coords(place.ny, place.nx, place.x0, place.y0))
    order = [c[k] for k in other] + [_spread(spec, y2d, ay, ax), _spread(spec, x2d, ay, ax)]
    return value_at(salt, _spread(spec, tile2d, ay, ax), order, spec.dtype)


def inner_other(spec, place):
    """Mask (broadcastable) of the compute domain along the non-horizontal axes."""
    ay, ax, other = axes(spec)
    m = np.ones([1] * len(spec.dims), bool)
    shape, origin, extent = (
        spec.shape(place.ny, place.nx), spec.origin(), spec.extent(place.ny, place.nx)
    )
    for k in other:
        i = np.arange(shape[k]) - origin[k]
        s = [1] * len(spec.dims)
        s[k] = shape[k]
        m = m & ((i >= 0) & (i < extent[k])).reshape(s)
    return m


def expect_scalar(before, spec, place, salt, n):
    """The whole array after a halo update of n points."""
    ay, ax, other = axes(spec)
    mask, y2, x2 = halo_region(spec, place, n)
    t, ox, oy, valid, _ = cube.window(place.tile, x2, y2, place.cells)
    v = _component(spec, place, salt, t, oy, ox, ay, ax, other)
    m = _spread(spec, mask & valid, ay, ax) & inner_other(spec, place)
    return np.where(m, v, before)


def expect_vector(before, spec, other_spec, place, salt, other_salt, n, is_x):
    """The whole array of one component after a vector halo update of n points."""
    ay, ax, other = axes(spec)
    mask, y2, x2 = halo_region(spec, place, n)
    t, ox, oy, valid, m4 = cube.window(place.tile, x2, y2, place.cells)
    same = _component(spec, place, salt, t, oy, ox, ay, ax, other)
    # the other component's array has the same axes, only staggered differently
    cross = _component(spec, place, other_salt, t, oy, ox, ay, ax, other)
    if is_x:
        a, b = m4[0], m4[1]  # x component from (u', v')
        u, v = same, cross
    else:
        a, b = m4[2], m4[3]
        u, v = cross, same
    a, b = _spread(spec, a, ay, ax), _spread(spec, b, ay, ax)
    val = np.where(a == 1, u, np.where(a == -1, -u, np.where(b == 1, v, -v)))
    m = _spread(spec, mask & valid, ay, ax) & inner_other(spec, place)
    return np.where(m, val.astype(before.dtype), before)


def expect_sync(before, spec, place, salt_x, salt_y, is_x, x_spec, y_spec):
    """The whole array of one C-grid component after synchronising the shared edges.

    Every rank's interior was filled with its own rank number as the label.
    """
    out = before.copy()
    ay, ax, other = axes(spec)
    coords = spec.index_coords(place.ny, place.nx, place.x0, place.y0)
    shape, origin, extent = (
        spec.shape(place.ny, place.nx), spec.origin(), spec.extent(place.ny, place.nx)
    )
    ly, lx = place.layout
    size2 = 2 * place.cells
    if is_x:
        edge_axis, along_axis = ay, ax
    else:
        edge_axis, along_axis = ax, ay
    e = origin[edge_axis] + extent[edge_axis] - 1
    edge = int(coords[edge_axis][e])
    for a in range(origin[along_axis], origin[along_axis] + extent[along_axis]):
        al = int(coords[along_axis][a])
        x2, y2 = (al, edge) if is_x else (edge, al)
        if edge < size2:  # the neighbour is on the same tile
            rj, ri = (place.j + 1, place.i) if is_x else (place.j, place.i + 1)
            rank = place.tile * ly * lx + rj * lx + ri
            sx, sy, sign, comp_x = x2, y2, 1, is_x
        else:
            t, convert, m = cube._ACROSS[(place.tile, "N" if is_x else "E")]
            sx, sy = (int(v) for v in convert(x2, y2, place.cells))
            row = m[0] if is_x else m[1]
            comp_x = row[0] != 0
            sign = row[0] if comp_x else row[1]
            ensure(sy == 0 if comp_x else sx == 0, "oracle", "edge is not a south or west one")
            rank = t * ly * lx + (sy // (2 * place.ny)) * lx + sx // (2 * place.nx)
        idx = [slice(None)] * len(shape)
        idx[edge_axis] = slice(e, e + 1)
        idx[along_axis] = slice(a, a + 1)
        c = fields.broadcast(coords)
        order = [c[k] for k in other] + [np.int64(sy), np.int64(sx)]
        v = value_at(salt_x if comp_x else salt_y, rank, order, spec.dtype)
        v = -v if sign < 0 else v
        inner = inner_other(spec, place)
        target = out[tuple(idx)]
        out[tuple(idx)] = np.where(inner, np.broadcast_to(v, target.shape).astype(out.dtype), target)
    return out


def check_array(kind, got, want, rank, what):
    diff = fields.first_difference(got, want)
    if diff is not None:
        fail(kind, f"rank {rank}, {what}: {diff}")


# -- plan generation ------------------------------------------------------------------

OTHER_DIMS = [("z",), ("z_interface",), ("z_soil",), ("tracer", "z"), ("z", "z_interface"), ("tracer",),
              ("tracer", "z", "z_soil")]


def gen_layout(rng, tier="quick", weights=(55, 37, 6.5, 1, 0.5)):
    return rng.choices(range(1, len(weights) + 1), weights)[0]


def gen_dims(rng, ydim, xdim, others=None):
    """A random order of dims with the two horizontal ones among them."""
    if others is None:
        others = () if rng.random() < 0.35 else rng.choice(OTHER_DIMS)
    dims = [ydim, xdim, *others]
    style = rng.random()
    if style < 0.35:
        dims = [*others, ydim, xdim]
    elif style < 0.6:
        dims = [xdim, ydim, *others]
    else:
        rng.shuffle(dims)
    return dims


def gen_spec(rng, ydim, xdim, n_max, dtypes=None, others=None, dims=None):
    dims = dims or gen_dims(rng, ydim, xdim, others)
    sizes = {d: rng.randint(1, 4) for d in dims if d not in fields.XD + fields.YD}
    if sizes and rng.random() < 0.04:
        sizes[sorted(sizes)[0]] = rng.choice([10, 33, 80, 0])
    return {
        "dims": dims, "sizes": sizes, "halo": n_max + rng.choice([0, 0, 0, 1, 2]),
        "pad": rng.choice([0, 0, 0, 1, 2, 3]), "zpad": rng.choice([0, 0, 1]),
        "dtype": rng.choice(dtypes or fields.DTYPES), "mem": fields.pick_layout(rng),
        "units": rng.choice(["m", "K", "Pa", ""]), "vary": rng.choice([0, 0, 0, rng.randint(1, 1000)]),
    }


def make_comm(ctx, layout, comm=None):
    util = ctx.util
    part = util.CubedSpherePartitioner(util.TilePartitioner(tuple(layout)))
    return util.CubedSphereCommunicator(comm or ctx.comm, part)


def simplify_specs(plan, key="vars"):
    """Simpler variants of a plan's specs, for minimisation."""
    import copy

    for i, d in enumerate(plan.get(key, [])):
        for k, simple in (("vary", 0), ("mem", "C"), ("pad", 0), ("zpad", 0), ("dtype", "float64"), ("halo", None)):
            specs = [s for s in ("spec", "x", "y") if isinstance(d.get(s), dict)] or [None]
            p = copy.deepcopy(plan)
            changed = False
            for s in specs:
                target = p[key][i][s] if s else p[key][i]
                if k in target and simple is not None and target[k] != simple:
                    target[k] = simple
                    changed = True
            if changed:
                yield p


def simplify_layout(plan, minimum=1):
    import copy

    L = plan["cfg"].get("layout")
    if isinstance(L, list) and L[0] > minimum and L[0] == L[1]:
        p = copy.deepcopy(plan)
        p["cfg"]["layout"] = [L[0] - 1, L[1] - 1]
        yield p
    c = plan["cfg"].get("cells")
    if c and c > plan["cfg"].get("min_cells", 1):
        p = copy.deepcopy(plan)
        p["cfg"]["cells"] = c - 1
        yield p


REAL_COMM = [
    "fv3gfs.util communicator, boundary, rotate, partitioner, quantity, buffer, timing: the "
    "package as it is in /repo, one private import per simulated rank",
]
SIM_COMM = [
    "MPI (mpi4py communicator): simulated, see simkit/mpi.py",
    "thread scheduling, clocks, numpy.empty: simulated",
]
