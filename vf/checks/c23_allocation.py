"""C23: grid sizers and quantity factories allocate what the decomposition needs."""
import random

import numpy as np

from ..core import Violation, check
from ..fields import is_x, is_y

ID = "C23"
LEVEL = "exploration"
RULE = (
    "A case is a tile size, layout, halo, levels and extra dimensions, given directly or as a "
    "namelist; sizes, origins and shapes of every random set of dimensions are compared with "
    "the definition for every rank, and quantities allocated by QuantityFactory are checked "
    "for content, dtype, independence, and for taking part in a halo exchange of n_halo "
    "points (every send and receive view fits). Non-trivial: layout other than 1x1.")
COUNTS = {"quick": 5000, "thorough": 100000}
REQUIRED = {"sizers": 5000, "quantities": 40000, "boundary_views": 20000, "namelists": 1500,
            "extra_dims": 10000}
ASSUMPTIONS = ["tile sizes divisible by the layout"]


def generate(rng, tier):
    most = rng.choice([4, 4, 4, 16])
    layout = [rng.randint(1, most), rng.randint(1, most)]
    if rng.random() < 0.5:
        layout[1] = layout[0]
    return dict(seed=rng.randrange(2**31), layout=layout, large=rng.random() < 0.04)


def directed(tier):
    return [dict(seed=s, layout=[1 + s % 2, 1 + s // 2]) for s in range(4)] + [
        dict(seed=s, layout=lay, large=True) for s in range(6) for lay in ([1, 1], [4, 4])]


class Recorder:
    """a numpy-like module; default_origin is what gt4py storages want"""

    def __init__(self, wants_origin):
        self.calls = []
        self.wants_origin = wants_origin
        for n in ("empty", "zeros", "ones"):
            setattr(self, n, self.wrap(n))

    def wrap(self, n):
        def with_origin(shape, dtype=float, default_origin=None):
            self.calls.append((n, tuple(shape), default_origin))
            return getattr(np, n)(shape, dtype=dtype)

        def plain(shape, dtype=float):
            self.calls.append((n, tuple(shape), None))
            return getattr(np, n)(shape, dtype=dtype)

        return with_origin if self.wants_origin else plain


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    rows, cols = p["layout"]
    ny, nx = rng.randint(1, 6), rng.randint(1, 6)
    if rows == cols and rng.random() < 0.7:
        ny = nx
    nz = rng.randint(1, rng.choice([80, 80, 80, 300]))
    if p.get("large"):
        ny, nx, nz = rng.randint(1, 400), rng.randint(1, 400), rng.randint(1, 5)
        if rows == cols and rng.random() < 0.7:
            ny = nx
    extra = {d: rng.randint(1, 9) for d in rng.sample(
        ["z_soil", "land", "radiation", "tracer", "x_extra", "y_soil", "xy"], rng.randint(0, 3))}
    given_extra = dict(extra)
    tile = util.TilePartitioner((rows, cols)) if rng.random() < 0.6 else None
    rank = rng.randrange(rows * cols)
    layout = rng.choice([list, tuple])((rows, cols))
    if rng.random() < 0.4:
        n_halo, extra, given_extra = 3, {}, {}
        sizer = util.SubtileGridSizer.from_namelist(
            {"fv_core_nml": {"npx": nx * cols + 1, "npy": ny * rows + 1, "npz": nz,
                             "layout": layout}}, tile, rank)
        mon.count("namelists")
    else:
        n_halo = rng.randint(0, 4)
        sizer = util.SubtileGridSizer.from_tile_params(
            nx_tile=nx * cols, ny_tile=ny * rows, nz=nz, n_halo=n_halo,
            extra_dim_lengths=given_extra, layout=layout, tile_partitioner=tile,
            tile_rank=rank)
    mon.count("sizers")
    length = {"x": nx, "x_interface": nx + 1, "y": ny, "y_interface": ny + 1, "z": nz,
              "z_interface": nz + 1, **extra}
    numpy = rng.choice([np, np, Recorder(True), Recorder(False)])
    factory = util.QuantityFactory(sizer, numpy)
    part = util.CubedSpherePartitioner(util.TilePartitioner((rows, cols)))
    square = rows == cols and nx == ny
    seen = []
    for _ in range(10):
        dims = rng.sample(sorted(length), rng.randint(0, min(4, len(length))))
        if rng.random() < 0.3 or p.get("large"):
            dims = [rng.choice(["x", "x_interface"]), rng.choice(["y", "y_interface"])]
            dims += rng.sample(["z"] + sorted(extra), rng.randint(0, 1 if p.get("large") else 1 + len(extra)))
            rng.shuffle(dims)
        dims = rng.choice([list, tuple])(dims)
        ext = tuple(length[d] for d in dims)
        org = tuple(n_halo if is_x(d) or is_y(d) else 0 for d in dims)
        what = f"sizer {ny}x{nx}x{nz} halo {n_halo} extra {extra} dims {dims}"
        check(tuple(sizer.get_extent(dims)) == ext, f"{what}: extent "
              f"{sizer.get_extent(dims)}, expected {ext}", "extent")
        check(tuple(sizer.get_origin(dims)) == org, f"{what}: origin "
              f"{sizer.get_origin(dims)}, expected {org}", "origin")
        shape = tuple(sizer.get_shape(dims))
        check(len(shape) == len(dims) and all(
            s >= o + e + (n_halo if is_x(d) or is_y(d) else 0)
            for s, o, e, d in zip(shape, org, ext, dims)),
            f"{what}: shape {shape} has no room for the halo", "shape")
        swap = {"x": "x_interface", "y": "y_interface", "z": "z_interface"}
        check(shape == tuple(sizer.get_shape([swap.get(d, d) for d in dims])),
              f"{what}: shape depends on the staggering", "shape")
        mon.count("extra_dims", sum(d in extra for d in dims))
        kind = rng.choice(["zeros", "ones", "empty"])
        dtype = rng.choice([float, np.float32, int, bool, "f4", ">f4", ">i8"])
        kw = {} if dtype is float and rng.random() < 0.5 else {"dtype": dtype}
        units = rng.choice(["m", "", "K"])
        q = getattr(factory, kind)(dims, units, **kw)
        mon.count("quantities")
        check(q.data.shape == shape and q.data.dtype == np.dtype(dtype)
              and q.dims == tuple(dims) and q.units == units and tuple(q.origin) == org
              and tuple(q.extent) == ext,
              f"{what}: {kind} gave shape {q.data.shape} dtype {q.data.dtype} dims {q.dims} "
              f"origin {q.origin} extent {q.extent}", "quantity")
        if kind != "empty":
            check(bool(np.all(q.data == (kind == "ones"))), f"{what}: {kind} gave "
                  f"{np.unique(q.data)}", "content")
        for o in seen:
            check(not np.shares_memory(o.data, q.data), f"{what}: two quantities share memory",
                  "shared-memory")
        seen.append(q)
        if isinstance(numpy, Recorder):
            name, s, o = numpy.calls[-1]
            check(name == kind and s == shape and (o is None or tuple(o) == org),
                  f"{what}: allocator called as {numpy.calls[-1]}", "quantity")
        horizontal = [d for d in dims if is_x(d) or is_y(d)]
        if n_halo and square and len(horizontal) == 2 and is_x(horizontal[0]) != is_x(
                horizontal[1]) and n_halo <= nx:
            for bt in range(8):
                b = part.boundary(bt, rank)
                if b is not None:
                    b.send_view(q, n_points=n_halo)
                    b.recv_view(q, n_points=n_halo)
                    mon.count("boundary_views", 2)
    check(given_extra == extra, "extra_dim_lengths was changed", "argument-changed")
    # the compute domains of all ranks make up the tile
    t = util.TilePartitioner((rows, cols))
    for dims in (["y", "x"], ["y_interface", "x"], ["z_interface", "x_interface", "y"]):
        g = t.global_extent(util.Quantity(
            np.empty(sizer.get_shape(dims)), dims=dims, units="", origin=sizer.get_origin(dims),
            extent=sizer.get_extent(dims)).metadata)
        want = tuple(ny * rows + d.endswith("_interface") if is_y(d) else
                     nx * cols + d.endswith("_interface") if is_x(d) else nz + 1
                     for d in dims)
        check(tuple(g) == want, f"ranks of {dims} make up {g}, expected {want}", "extent")
    return p if rows * cols > 1 else None
