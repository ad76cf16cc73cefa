"""C08: send and receive regions of a boundary."""
import random

import numpy as np

from ..core import Violation, check
from ..fields import LAYOUTS, Memory, is_x, is_y

ID = "C08"
LEVEL = "exploration"
RULE = (
    "A case is a series of send/receive views of boundaries of one rank, on quantities drawn "
    "from a small pool of dimension orders, origins, extents, shapes (so that they often "
    "differ in one of them only) and widths, including widths which do not fit. The view is "
    "compared element for element, and by memory, with the region given by index "
    "arithmetic. Non-trivial: at least one view that fits and one rejected.")
COUNTS = {"quick": 12000, "thorough": 300000}
REQUIRED = {"views": 100000, "rejected": 10000, "interface_views": 20000, "corner_views": 30000, "rotated_vectors": 2000}
ASSUMPTIONS = ["send regions as wide as the compute domain or narrower"]


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), cube=rng.random() < 0.5, L=rng.randint(1, 3))


def directed(tier):
    return []


def side(bt, dim):
    """-1 at the start of dim, +1 at its end, 0 neither"""
    from ..cube import STEP

    dy, dx = STEP[bt]
    return dy if is_y(dim) else dx if is_x(dim) else 0


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    tile = util.TilePartitioner((p["L"], p["L"]))
    part = util.CubedSpherePartitioner(tile) if p["cube"] else tile
    rank = rng.randrange(part.total_ranks)
    n = rng.randint(2, 4)
    fits = rejected = 0
    pool = []
    for _ in range(4):
        dims = [rng.choice(["y", "y_interface"]), rng.choice(["x", "x_interface"])]
        dims += rng.sample(["z", "z_interface", "tracer", "xy", "y_levels"], rng.choice([0, 1, 1]))
        if rng.random() < 0.1:
            dims = dims[1:]
        rng.shuffle(dims)
        pool.append(dims)
    for _ in range(14):
        dims = rng.choice(pool)
        extent = [n + (d.endswith("_interface")) if is_x(d) or is_y(d) else n for d in dims]
        origin = [rng.randint(0, 3) for _ in dims]
        shape = [o + e + rng.randint(0, 3) for o, e in zip(origin, extent)]
        mem = Memory(shape, "i8", rng.choice(LAYOUTS), rng.randrange(10**6))
        data = mem.view
        q = util.Quantity(data, dims=dims, units="", origin=origin, extent=extent)
        for _ in range(3):
            bt = rng.randrange(8)
            b = part.boundary(bt, rank)
            if b is None:
                continue
            width = rng.randint(1, n if rng.random() < 0.75 else n + 5)
            for send in (True, False):
                want, ok = [], True
                for d, o, e, s in zip(dims, origin, extent, shape):
                    sd = side(bt, d)
                    ov = 1 if d.endswith("_interface") else 0
                    if sd == 0:
                        lo, hi = o, o + e
                    elif send:
                        lo = o + ov if sd < 0 else o + e - ov - width
                        hi = lo + width
                    else:
                        lo = o - width if sd < 0 else o + e
                        hi = lo + width
                    ok &= 0 <= lo and hi <= s
                    want.append(slice(lo, hi))
                what = (f"{'send' if send else 'recv'}_view of {dims} origin {origin} extent "
                        f"{extent} shape {shape}, boundary type {bt}, {width} points")
                try:
                    v = (b.send_view if send else b.recv_view)(q, n_points=width)
                except util.OutOfBoundsError:
                    check(not ok, f"{what}: rejected although it fits", "rejects-valid")
                    rejected += 1
                    mon.count("rejected")
                    continue
                check(ok, f"{what}: accepted although it does not fit", "accepts-invalid")
                fits += 1
                mon.count("views")
                mon.count("corner_views", bt >= 4)
                mon.count("interface_views", any(
                    d.endswith("_interface") and side(bt, d) for d in dims))
                ref = data[tuple(want)]
                check(v.shape == ref.shape and np.array_equal(v, ref),
                      f"{what}: wrong region", "wrong-region")
                check(v.size == 0 or (
                    v.__array_interface__["data"] == ref.__array_interface__["data"]
                    and v.strides == ref.strides), f"{what}: not a view of the data",
                    "not-a-view")
    # components of a vector crossing the boundary, turned in place
    for bt in range(8):
        b = part.boundary(bt, rank)
        if b is None:
            continue
        shape = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        mems = [Memory(shape, rng.choice(["f8", "i4"]), rng.choice(LAYOUTS),
                       rng.randrange(10**6)) for _ in "yx"]
        for m in mems:
            m.base[...] = m.base.astype("i2")
        y, x = (m.view.copy() for m in mems)
        if rng.random() < 0.4:  # any number of turns
            b.n_clockwise_rotations = rng.randint(-7, 9)
        b.rotate(mems[0].view, mems[1].view)
        turns = b.n_clockwise_rotations % 4
        want = [(y, x), (-x, y), (-y, -x), (x, -y)][turns]
        check(np.array_equal(mems[0].view, want[0]) and np.array_equal(mems[1].view, want[1]),
              f"Boundary.rotate by {b.n_clockwise_rotations}: wrong components", "wrong-rotation")
        mon.count("rotated_vectors", turns > 0)
    return p if fits and rejected else None
