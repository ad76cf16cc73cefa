"""Random quantities with known content: memory layouts, fields on the cube, expectations."""
import numpy as np

from . import cube
from .core import Violation, digest

LAYOUTS = ("C", "F", "perm", "strided", "negative", "inner")
DTYPES = ("f8", "f4", "i8", "i4", "i2", "u1", "c16", "b1", "c8", "u2", "u8", "i1")
SIGNED = ("f8", "f4", "i8", "i4", "i2", "c16", "c8", "i1")


class Memory:
    """an array of a given shape in some memory layout, inside a guarded block"""

    def __init__(self, shape, dtype, layout, seed, special=()):
        self.dtype = np.dtype(dtype)
        self.shape = tuple(int(s) for s in shape)
        rng = np.random.default_rng(seed)
        nd = len(self.shape)
        self.perm = tuple(range(nd))
        self.pre, self.post, self.step = [0] * nd, [0] * nd, [1] * nd
        if layout == "F":
            self.perm = self.perm[::-1]
        elif layout == "perm":
            self.perm = tuple(int(i) for i in rng.permutation(nd))
        elif layout == "strided":
            self.step = [int(rng.integers(1, 3)) for _ in range(nd)]
        elif layout == "negative":
            self.step = [int(rng.choice([-1, 1])) for _ in range(nd)]
        elif layout == "inner":
            self.pre = [int(rng.integers(0, 3)) for _ in range(nd)]
            self.post = [int(rng.integers(0, 3)) for _ in range(nd)]
        base_shape = [
            self.pre[i] + self.post[i] + self.shape[i] * abs(self.step[i])
            for i in range(nd)
        ]
        stored = [base_shape[i] for i in self.perm]
        n = int(np.prod(stored)) if nd else 1
        h = cube.mix(seed, 0x5EED, np.arange(n))
        self.base = cube.to_dtype(h, self.dtype, special).reshape(stored)

    def view_of(self, base):
        inv = np.argsort(self.perm) if self.perm else ()
        a = base.transpose(tuple(int(i) for i in inv)) if self.shape else base
        sl = []
        for i, s in enumerate(self.shape):
            st = self.step[i]
            lo = self.pre[i]
            if st > 0:
                sl.append(slice(lo, lo + s * st, st))
            else:
                sl.append(slice(lo + s - 1, lo - 1 if lo > 0 else None, -1))
        a = a[tuple(sl)] if sl else a
        assert a.shape == self.shape, (a.shape, self.shape)
        return a

    @property
    def view(self):
        return self.view_of(self.base)

    def expected(self):
        """(copy of the whole block, its view) for building an expectation"""
        b = self.base.copy()
        return b, self.view_of(b)


PLACE = None  # puts the arrays of new quantities elsewhere (see standin.placement)
KEPT = None  # checks that a quantity made by the package is of that kind, too


def place(a, origin=None, readonly=False):
    """the array to make a quantity of; it shares the memory of `a`"""
    if PLACE is not None:
        return PLACE(a, origin)
    if readonly:
        a = a.view()
        a.flags.writeable = False
    return a


def kept(q, what):
    if KEPT is not None:
        KEPT(q, what)


def host(a):
    """the content of an array, wherever it is"""
    h = getattr(a, "_h", None)
    return np.asarray(a if h is None else h)


def same_bits(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and (
        np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes())


def first_difference(got, want):
    bad = np.argwhere(~((got == want) | ((got != got) & (want != want))))
    if len(bad) == 0:
        return "bits differ (e.g. sign of zero)"
    i = tuple(int(k) for k in bad[0])
    return f"{len(bad)} of {got.size} points differ, first at {i}: " \
           f"got {got[i]!r}, expected {want[i]!r}"


def same_metadata(q, what, dims, origin, extent, units):
    """what a quantity says about itself is still what it was made with"""
    got = (tuple(q.dims), tuple(q.origin), tuple(q.extent), q.units)
    want = (tuple(dims), tuple(origin), tuple(extent), units)
    if got != want:
        raise Violation(f"{what}: the quantity now has dims, origin, extent, units {got}, "
                        f"it was made with {want}", "metadata-changed")


def indices(origin, shape):
    """per dimension: index relative to the compute domain, shaped for broadcasting"""
    out = []
    nd = len(shape)
    for i in range(nd):
        a = np.arange(shape[i]) - origin[i]
        out.append(a.reshape([-1 if k == i else 1 for k in range(nd)]))
    return out


def is_x(d):
    return d in ("x", "x_interface")


def is_y(d):
    return d in ("y", "y_interface")


class Placed:
    """where every element of a rank's array lies: 3-D points, directions, kind"""

    def __init__(self, grid, dims, origin, extent, shape, reach):
        self.dims, self.origin, self.extent, self.shape = dims, origin, extent, shape
        idx = indices(origin, shape)
        ix = next(i for i, d in enumerate(dims) if is_x(d))
        iy = next(i for i, d in enumerate(dims) if is_y(d))
        cx = grid.coords(dims[ix], idx[ix])
        cy = grid.coords(dims[iy], idx[iy])
        self.P, self.vx, self.vy, kind = cube.locate(grid.tile, cx, cy, grid.N)
        self.kind = np.broadcast_to(kind, shape)
        self.other = [idx[i] for i in range(len(dims)) if i not in (ix, iy)]
        compute = np.ones(shape, bool)
        near = np.ones(shape, bool)
        for i, d in enumerate(dims):
            inside = (idx[i] >= 0) & (idx[i] < extent[i])
            compute &= inside
            if i in (ix, iy):
                near &= (idx[i] >= -reach) & (idx[i] < extent[i] + reach)
            else:
                near &= inside
        self.compute = compute
        self.halo = near & ~compute & (self.kind < 2)
        self.untouched = ~(compute | self.halo)

    def _hash(self, salt, *more):
        P = self.P
        h = cube.mix(salt, P[..., 0], P[..., 1], P[..., 2], *more, *self.other)
        return np.broadcast_to(h, self.shape)

    def scalar(self, salt, dtype):
        return cube.to_dtype(self._hash(salt), dtype, cube.ANY)

    def component(self, salt, dtype, which):
        """value of a vector component along this rank's x or y axis, carried along"""
        v = self.vx if which == "x" else self.vy
        axis = np.argmax(np.abs(v), axis=-1)
        sign = v.sum(axis=-1)
        mag = cube.to_dtype(self._hash(salt, axis), dtype, cube.SIGNED)
        sign = np.broadcast_to(sign, self.shape).astype(np.int8)
        return np.where(sign < 0, -mag, mag)


def make_pads(rng, dims, reach, extra=2):
    """(start, end) padding of every dimension, at least `reach` for horizontal ones"""
    out = []
    for d in dims:
        lo = reach if is_x(d) or is_y(d) else 0
        out.append([lo + rng.randint(0, extra), lo + rng.randint(0, extra)])
    return out


def extent_of(dims, n, lens):
    """compute extent on one rank: n cells per side horizontally"""
    out = []
    for d in dims:
        if is_x(d) or is_y(d):
            out.append(n + 1 if d.endswith("_interface") else n)
        else:
            out.append(lens[d])
    return tuple(out)


def random_dims(rng, horizontal, max_extra=2):
    """place the two horizontal dims among random others, in any order"""
    others = rng.sample(["z", "z_interface", "z_soil", "tracer", "radiation", "extra_y", "xy",
                         "y_levels"],
                        rng.choice([0, 1, 1] if max_extra < 2 else [0, 1, 1, 1, 2, 2, 3]))
    dims = list(horizontal) + others
    rng.shuffle(dims)
    lens = {d: rng.randint(1, 3) for d in others}
    return dims, lens


def compare(mon, rank, what, memory, want_base, placed=None):
    """whole memory block (padding, gaps and all) against the expectation"""
    if same_bits(memory.base, want_base):
        return
    got, want = memory.view, memory.view_of(want_base)
    if same_bits(got, want):
        raise Violation(f"rank {rank}: {what}: memory outside of the quantity's array was "
                        "overwritten", "stray-write")
    diff = ~((got == want) | ((got != got) & (want != want)))
    if not diff.any():
        diff = got.view() != want
    where = "wrong-value"
    if placed is not None:
        if (diff & placed.compute).any():
            where = "compute-domain-changed"
        elif (diff & placed.untouched).any():
            where = "untouched-point-changed"
        elif (diff & placed.halo).any():
            where = "wrong-halo"
    raise Violation(f"rank {rank}: {what}: {first_difference(got, want)}", where)
