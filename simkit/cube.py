"""The cubed sphere as a cube in space: an oracle independent of the package.

Points of a tile of N cells are addressed in half-cell units: cell centers are odd,
interfaces even, the tile spans [0, 2N] on both axes.  Each tile is a face of the cube
[-N, N]^3 with an outward normal and two axis directions; the FV3 numbering of the faces
is tile 1 at 0E, 2 at 90E, 3 at the north pole, 4 at 180E, 5 at 270E, 6 at the south pole.
Everything about which tile lies across an edge, and how it is turned, follows from that.
"""
import numpy as np

# (x axis, y axis) of each face; the outward normal is their cross product
_FACES = [
    ((0, 1, 0), (0, 0, 1)),
    ((-1, 0, 0), (0, 0, 1)),
    ((-1, 0, 0), (0, -1, 0)),
    ((0, 0, -1), (0, -1, 0)),
    ((0, 0, -1), (1, 0, 0)),
    ((0, 1, 0), (1, 0, 0)),
]
EX = [np.array(f[0]) for f in _FACES]
EY = [np.array(f[1]) for f in _FACES]
NORMAL = [np.cross(x, y) for x, y in zip(EX, EY)]


def _face_with_normal(n):
    for i, m in enumerate(NORMAL):
        if (m == n).all():
            return i
    raise AssertionError


def side_of(x2, y2, size2):
    """'' inside, one of W E S N beyond an edge, None beyond a corner."""
    s = ""
    if x2 < 0:
        s += "W"
    if x2 > size2:
        s += "E"
    if y2 < 0:
        s += "S"
    if y2 > size2:
        s += "N"
    return s if len(s) < 2 else None


def across(tile, side):
    """What lies across an edge of a tile.

    Returns (other tile, fn mapping (x2, y2) arrays beyond the edge and N to the other
    tile's coordinates, M) where M[a][b] is the component of this tile's unit vector a
    (0 = x, 1 = y) along the other tile's unit vector b, unfolded across the edge.
    """
    ex, ey, n = EX[tile], EY[tile], NORMAL[tile]
    out = {"W": -ex, "E": ex, "S": -ey, "N": ey}[side]
    other = _face_with_normal(out)
    ox, oy = EX[other], EY[other]

    def convert(x2, y2, cells):
        x2 = np.asarray(x2)
        y2 = np.asarray(y2)
        if side == "W":
            d, along = -x2, y2
        elif side == "E":
            d, along = x2 - 2 * cells, y2
        elif side == "S":
            d, along = -y2, x2
        else:
            d, along = y2 - 2 * cells, x2
        tangent = ey if side in "WE" else ex
        # point on the shared edge, then down the other face
        comp = []
        for axis in (ox, oy):
            c = (
                cells * int(n @ axis)
                + cells * int(out @ axis)
                + (along - cells) * int(tangent @ axis)
                - d * int(n @ axis)
            )
            comp.append(c + cells)
        return comp[0], comp[1]

    # unfolding: the outward direction continues as minus this face's normal
    def unfold(v):
        return v - (v @ out) * out + (v @ out) * (-n)

    vx, vy = unfold(ex), unfold(ey)
    m = [[int(vx @ ox), int(vx @ oy)], [int(vy @ ox), int(vy @ oy)]]
    return other, convert, m


_ACROSS = {(t, s): across(t, s) for t in range(6) for s in "WESN"}


def locate(tile, x2, y2, cells):
    """(tile, x2, y2, M) of the point a halo point of a tile stands for; None off a corner."""
    side = side_of(x2, y2, 2 * cells)
    if side is None:
        return None
    if side == "":
        return tile, x2, y2, [[1, 0], [0, 1]]
    other, convert, m = _ACROSS[(tile, side)]
    ox, oy = convert(x2, y2, cells)
    return other, int(ox), int(oy), m


def neighbour(tile, side):
    return _ACROSS[(tile, side)][0]


def coords2(is_interface, start_cell, index):
    """Half-cell coordinate of an index relative to the compute domain's start."""
    return 2 * (start_cell + index) + (0 if is_interface else 1)


def window(tile, x2, y2, cells):
    """Vectorised ``locate`` for the grid y2 x x2.

    Returns arrays (tile, x2, y2, valid, mxx, mxy, myx, myy), each of shape (ny, nx).
    """
    yy, xx = np.meshgrid(np.asarray(y2), np.asarray(x2), indexing="ij")
    t = np.full(xx.shape, tile)
    ox, oy = xx.copy(), yy.copy()
    valid = np.ones(xx.shape, bool)
    m = [np.ones(xx.shape, int), np.zeros(xx.shape, int),
         np.zeros(xx.shape, int), np.ones(xx.shape, int)]
    size2 = 2 * cells
    w, e, s, n = xx < 0, xx > size2, yy < 0, yy > size2
    valid &= ~((w | e) & (s | n))
    for side, mask in (("W", w), ("E", e), ("S", s), ("N", n)):
        mask = mask & valid
        if mask.any():
            other, convert, mm = _ACROSS[(tile, side)]
            cx, cy = convert(xx[mask], yy[mask], cells)
            t[mask], ox[mask], oy[mask] = other, cx, cy
            for k, v in enumerate((mm[0][0], mm[0][1], mm[1][0], mm[1][1])):
                m[k][mask] = v
    return t, ox, oy, valid, m
