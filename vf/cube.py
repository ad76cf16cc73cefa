"""Independent model of the cubed sphere: six faces folded around a cube in 3-D.

Nothing here is taken from the implementation except the published convention that walking
right from an even (0-based) tile, or up from an odd tile, enters the next tile without
turning.  Everything else (which tile lies across every other edge, how axes turn, which
points are shared) follows from the geometry.

Positions are integers in doubled grid units: a face spans [-N, N] in its own x and y (N
grid cells), the cube spans [-N, N]^3.
"""
import numpy as np

WEST, EAST, NORTH, SOUTH, NW, NE, SW, SE = range(8)
STEP = {  # boundary type -> (dy, dx)
    WEST: (0, -1), EAST: (0, 1), NORTH: (1, 0), SOUTH: (-1, 0),
    NW: (1, -1), NE: (1, 1), SW: (-1, -1), SE: (-1, 1),
}


def _faces():
    ex, ey = np.array([0, 1, 0]), np.array([0, 0, 1])
    faces = []
    for f in range(6):
        n = np.cross(ex, ey)
        faces.append((ex.copy(), ey.copy(), n.copy()))
        if f % 2 == 0:  # right neighbour: same y axis
            ex, ey = -n, ey
        else:  # upper neighbour: same x axis
            ex, ey = ex, -n
    return faces


FACES = _faces()
NORMALS = {tuple(n): f for f, (_, _, n) in enumerate(FACES)}


def locate(face, cx, cy, N):
    """Points (arrays of doubled coordinates, may leave the face) of a face's extended grid.

    Returns (P, vx, vy, kind): integer 3-D positions on the cube surface, the 3-D
    directions which the face's x and y axes have there after walking over the edge, and
    kind 0 on the face, 1 beyond one edge, 2 beyond two edges (no such point exists).
    """
    ex, ey, n = FACES[face]
    cx, cy = np.broadcast_arrays(np.asarray(cx), np.asarray(cy))
    ox = np.maximum(np.abs(cx) - N, 0)
    oy = np.maximum(np.abs(cy) - N, 0)
    kind = (ox > 0).astype(int) + (oy > 0).astype(int)
    cxc = np.clip(cx, -N, N)
    cyc = np.clip(cy, -N, N)
    P = (cxc[..., None] * ex + cyc[..., None] * ey
         + (N - ox - oy)[..., None] * n)
    sx = np.sign(cx) * (ox > 0)
    sy = np.sign(cy) * (oy > 0)
    vx = np.where((ox > 0)[..., None], -sx[..., None] * n, ex)
    vy = np.where((oy > 0)[..., None], -sy[..., None] * n, ey)
    return P, vx, vy, kind


def center(g, N):
    return 2 * np.asarray(g) + 1 - N


def interface(g, N):
    return 2 * np.asarray(g) - N


_M1 = np.uint64(0xBF58476D1CE4E5B9)
_M2 = np.uint64(0x94D049BB133111EB)
_G = np.uint64(0x9E3779B97F4A7C15)


def mix(*ints):
    """hash broadcastable integer arrays to uint64"""
    with np.errstate(over="ignore"):
        h = np.uint64(0)
        for x in ints:
            x = np.asarray(x).astype(np.int64).astype(np.uint64)
            z = (h ^ x) + _G
            z = (z ^ (z >> np.uint64(30))) * _M1
            z = (z ^ (z >> np.uint64(27))) * _M2
            h = z ^ (z >> np.uint64(31))
        return h


def to_dtype(h, dtype, special=()):
    """Turn hashes into values of a dtype: never NaN, never 0, so that sign shows, except for
    about 3 % of floating point values if `special` ones are asked for."""
    dtype = np.dtype(dtype)
    h = np.asarray(h)
    if dtype.kind == "b":
        return (h & np.uint64(1)).astype(bool)
    if dtype.kind in "iu":
        hi = int(min(np.iinfo(dtype).max, 2**62))
        v = (h % np.uint64(hi)).astype(np.int64) + 1
        if dtype.kind == "i":
            v = np.where((h >> np.uint64(63)).astype(bool), -v, v)
        return v.astype(dtype)
    if dtype.kind in "mM":
        return to_dtype(h, np.dtype("i8")).astype(dtype)
    if dtype.kind == "c":
        out = np.empty(h.shape, dtype)
        if special is SIGNED:  # -z and z * -1 differ where only one part is infinite
            special = ("tiny", "max")
        out.real = to_dtype(h, out.real.dtype, special)
        out.imag = to_dtype(mix(h.astype(np.int64), 77), out.real.dtype, special)
        return out
    bits = min(np.finfo(dtype).nmant, 40)
    v = (h % np.uint64(2**bits)).astype(np.float64) + 1.0
    v = np.where((h >> np.uint64(63)).astype(bool), -v, v)
    v = (v / 2.0 ** (bits // 2)).astype(dtype)
    if len(special):
        values = special_values(dtype, special)
        k = (h >> np.uint64(40)) % np.uint64(32 * len(values))
        v = np.where(k < len(values), values[k % np.uint64(len(values))], v)
    return v.astype(dtype)


def special_values(dtype, names):
    i = np.finfo(dtype)
    known = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "-0": -0.0, "tiny": i.tiny / 4,
             "max": i.max}
    return np.array([known[n] for n in names], dtype)


ANY = ("nan", "inf", "-inf", "-0", "tiny", "max")
SIGNED = ("inf", "-inf", "tiny", "max")  # values whose negation everyone agrees on


class RankGrid:
    """where the cells of one rank's array lie on the cube"""

    def __init__(self, rank, L, n):
        self.L, self.n, self.N = L, n, n * L
        self.tile = rank // (L * L)
        r = rank % (L * L)
        self.iy, self.ix = r // L, r % L

    def coords(self, dim, index):
        """doubled tile coordinate of local compute index along dim"""
        base = (self.ix if dim.startswith("x") else self.iy) * self.n
        g = base + np.asarray(index)
        return interface(g, self.N) if dim.endswith("_interface") else center(g, self.N)


def rank_of_cell(P, N, L):
    """rank owning the cell centre at 3-D point P (doubled coordinates)"""
    for f, (ex, ey, n) in enumerate(FACES):
        if int(P @ n) == N:
            gx = (int(P @ ex) + N - 1) // 2
            gy = (int(P @ ey) + N - 1) // 2
            if 0 <= gx < N and 0 <= gy < N:
                k = N // L
                return f * L * L + (gy // k) * L + gx // k
    raise AssertionError("point not on the cube")


def neighbor(rank, boundary_type, L):
    """(to_rank, n_clockwise_rotations) across a subtile edge/corner, or None"""
    g = RankGrid(rank, L, 1)
    N = L
    dy, dx = STEP[boundary_type]
    P, vx, vy, kind = locate(g.tile, center(g.ix + dx, N), center(g.iy + dy, N), N)
    if kind == 2:
        return None
    to = rank_of_cell(P, N, L)
    ex, ey, _ = FACES[to // (L * L)]
    # my x axis, seen in the neighbour's axes; if it is the neighbour's y axis then the
    # neighbour's axes are turned clockwise once with respect to mine
    rot = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}[
        (int(vx @ ex), int(vx @ ey))]
    return to, rot
