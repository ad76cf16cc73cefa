"""C14: fill_scalar_corners copies the right halo points into the corners."""
import random

import numpy as np

from .. import cube
from ..core import Violation, check
from ..fields import DTYPES, LAYOUTS, Memory, first_difference, place, same_bits

ID = "C14"
LEVEL = "exploration"
RULE = (
    "A case calls fill_scalar_corners on a quantity (random staggering, trailing dimensions, "
    "extent, halo, padding, dtype, memory layout) for every rank of a tile layout, both "
    "directions and random numbers of halo points, and compares the whole memory block with "
    "the copies given by counting points from the corner. Non-trivial: at least one corner "
    "was filled.")
COUNTS = {"quick": 5000, "thorough": 120000}
REQUIRED = {"calls": 30000, "corners_filled": 30000, "shared_edge": 8000, "no_corner": 5000,
            "rejected": 4000,
            "ranks_on_the_cube": 10000}
ASSUMPTIONS = ["as many halo points as filled", "no more filled than compute cells"]


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), layout=[rng.randint(1, rng.choice([3] * 15 + [9])) for _ in "yx"],
                dtype=rng.choice(DTYPES), memory=rng.choice(LAYOUTS))


def directed(tier):
    return [dict(seed=s, layout=[1, 1], dtype="f8", memory="C") for s in range(20)]


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    tile = util.TilePartitioner(p["layout"])
    most = rng.choice([5] * 12 + [9] * 4 + [40])
    cells = [rng.randint(1, most), rng.randint(1, most)]
    dims = [rng.choice(["x", "x_interface"]), rng.choice(["y", "y_interface"])]
    dims += rng.sample(["z", "z_interface", "tracer", "xy", "extra_y"], rng.choice([0, 1, 1, 2]))
    ext = [cells[0] + dims[0].endswith("_interface"), cells[1] + dims[1].endswith("_interface")]
    ext += [rng.randint(1, 3) for _ in dims[2:]]
    halo = rng.randint(1, most - 1)
    pads = [[halo + rng.randint(0, 1), halo + rng.randint(0, 2)] for _ in range(2)]
    pads += [[rng.randint(0, 1), rng.randint(0, 1)] for _ in dims[2:]]
    shape = [a + n + b for n, (a, b) in zip(ext, pads)]
    hits = 0
    rows, cols = p["layout"]
    for rank in range(rows * cols):
        row, col = divmod(rank, cols)
        for direction in "xy":
            n = rng.randint(1, min(halo, min(cells)))
            mem = Memory(shape, p["dtype"], p["memory"], rng.randrange(10**6),
                         cube.ANY)
            origin = [a for a, b in pads]
            q = util.Quantity(place(mem.view, origin), dims=dims, units="m", origin=origin,
                              extent=ext)
            expect, want = mem.expected()
            inner = tuple(slice(a, a + e) for e, (a, b) in zip(ext[2:], pads[2:]))
            # the docstring describes horizontal corners; other dims: compute domain
            ox, oy = pads[0][0], pads[1][0]
            shift = int(dims[0 if direction == "y" else 1].endswith("_interface"))
            src = mem.base.copy()
            src = mem.view_of(src)

            def outside(axis, end, k):
                """k-th point (1, 2, ...) outside of the domain"""
                o = (ox, oy)[axis]
                return o + ext[axis] - 1 + k if end else o - k

            def inside(axis, end, k):
                o = (ox, oy)[axis]
                return o + ext[axis] - k - shift if end else o + k - 1 + shift

            for north in (0, 1):
                for east in (0, 1):
                    if row != (rows - 1 if north else 0) or col != (cols - 1 if east else 0):
                        mon.count("no_corner")
                        continue
                    for a in range(1, n + 1):
                        for b in range(1, n + 1):
                            to = (outside(0, east, a), outside(1, north, b))
                            if direction == "x":
                                frm = (outside(0, east, b), inside(1, north, a))
                            else:
                                frm = (inside(0, east, b), outside(1, north, a))
                            want[to + inner] = src[frm + inner]
                    hits += 1
                    mon.count("corners_filled")
                    mon.count("shared_edge", shift)
            # ranks may be numbered on the whole cube
            number = rank + rows * cols * rng.choice([0, 0, 1, 3, 5])
            mon.count("ranks_on_the_cube", number != rank)
            util.fill_scalar_corners(q, direction, tile, number, n)
            mon.count("calls")
            if not same_bits(mem.base, expect):
                raise Violation(
                    f"fill_scalar_corners of {dims} extent {ext} pads {pads}, direction "
                    f"{direction}, {n} points, rank {number} of {p['layout']}: "
                    + first_difference(mem.view, want), "wrong-corner")
    mem = Memory(shape, p["dtype"], p["memory"], 5)
    before = mem.base.copy()
    origin = [a for a, b in pads]

    def refused(error, names, direction):
        rank = rng.randrange(rows * cols)
        q = util.Quantity(place(mem.view, origin), dims=names, units="m", origin=origin,
                          extent=ext)
        try:
            util.fill_scalar_corners(q, direction, tile, rank, 1)
        except error:
            mon.count("rejected")
        else:
            raise Violation(f"filling corners of {names} in direction {direction!r} was "
                            "accepted", "accepts-invalid")

    swapped = [dims[1], dims[0]] + dims[2:]
    wrong = [swapped, ["my_dim"] + dims[1:], [dims[0], "my_dim"] + dims[2:]]
    for d in wrong:
        refused(ValueError, d, rng.choice("xy"))
    if len(dims) > 2:
        for _ in range(2):
            d = list(dims)
            while (d[0][0], d[1][0]) == ("x", "y"):
                rng.shuffle(d)
            refused(ValueError, d, rng.choice("xy"))
    refused(TypeError, dims, rng.choice(["z", "X", "xy", "", None, 0]))
    check(same_bits(mem.base, before), "a rejected corner fill changed data", "wrong-corner")
    return p if hits else None
