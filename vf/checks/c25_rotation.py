"""C25: rotating data and rank positions by quarter turns is exact and composes."""
import random

import numpy as np

from .. import cube
from ..core import check
from ..fields import LAYOUTS, SIGNED, Memory, first_difference, is_x, is_y, same_bits

ID = "C25"
LEVEL = "exploration"
RULE = (
    "A case rotates scalar and vector data (0-2 horizontal and 0-3 other dimensions in any "
    "order, random sizes, dtypes and memory layouts) by -9 to 9 clockwise quarter turns, "
    "compares every point with the turned coordinates, bit for bit, composes two rotations "
    "and rotates back; and moves ranks of a layout by flips, transposition and a quarter turn. "
    "Non-trivial: both horizontal dimensions are there and the turn is not a full one.")
COUNTS = {"quick": 8000, "thorough": 200000}
REQUIRED = {"scalars": 40000, "vectors": 15000, "half_turns": 8000, "one_dimension": 5000,
            "compositions": 30000, "ranks": 15000}
ASSUMPTIONS = ["at most one x and one y dimension", "rank rotations on square layouts"]


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31))


def directed(tier):
    return [dict(seed=s) for s in range(6)]


def turned(data, dims, k):
    """the data after k clockwise quarter turns, point by point"""
    k %= 4
    ix = next((i for i, d in enumerate(dims) if is_x(d)), None)
    iy = next((i for i, d in enumerate(dims) if is_y(d)), None)
    data = np.asarray(data)
    if k == 0 or (ix is None and iy is None):
        return data.copy()
    nx = data.shape[ix] if ix is not None else 1
    ny = data.shape[iy] if iy is not None else 1
    shape = list(data.shape)
    if k % 2 and ix is not None and iy is not None:
        shape[ix], shape[iy] = ny, nx
    out = np.empty(shape, data.dtype)
    for y in range(ny):
        for x in range(nx):
            # x to the right, y upwards
            tx, ty = {1: (y, nx - 1 - x), 2: (nx - 1 - x, ny - 1 - y),
                      3: (ny - 1 - y, x)}[k]
            src, dst = [slice(None)] * data.ndim, [slice(None)] * data.ndim
            if ix is not None:
                src[ix] = x
            if iy is not None:
                src[iy] = y
            if ix is not None and iy is not None:
                dst[ix], dst[iy] = tx, ty
            elif ix is not None:  # a row: lies along the other axis after odd turns
                dst[ix] = tx if k == 2 else ty
            else:
                dst[iy] = ty if k == 2 else tx
            out[tuple(dst)] = data[tuple(src)]
    return out


def same(got, want, what):
    got = np.asarray(got)
    check(got.shape == want.shape and got.dtype == want.dtype,
          lambda: f"{what}: shape {got.shape} {got.dtype}, expected {want.shape} {want.dtype}",
          "rotation")
    check(same_bits(got, want), lambda: f"{what}: {first_difference(got, want)}", "rotation")


def run(p, mon):
    import fv3gfs.util.partitioner as part
    import fv3gfs.util.rotate as rot

    rng = random.Random(p["seed"])
    sig = None
    for _ in range(3):
        horizontal = rng.choice([["x", "y"]] * 4 + [["x"], ["y"], []])
        stagger = rng.choice(["", "_interface"])
        dims = [d + stagger for d in horizontal]
        dims += rng.sample(["z", "z_interface", "tracer", "tile", "xy", "extra_y"], rng.choice([0, 1, 1, 2, 3]))
        rng.shuffle(dims)
        shape = [rng.randint(1, 5) for _ in dims]
        dtype = rng.choice(SIGNED)
        mems = [Memory(shape, dtype, rng.choice(LAYOUTS), rng.randrange(9999),
                       cube.SIGNED)
                for _ in range(2)]
        x, y = (m.view for m in mems)
        before = [m.base.copy() for m in mems]
        given = rng.choice([list, tuple])(dims)
        for k in rng.sample(range(-9, 10), 2) + [rng.choice([2, -2, 6])]:
            n = rng.choice([int, int, np.int64])(k)
            what = f"{dtype} data {dims} {shape} turned {k} times"
            got = rot.rotate_scalar_data(x, given, np, n)
            same(got, turned(x, dims, k), what)
            mon.count("scalars")
            mon.count("half_turns", k % 4 == 2)
            mon.count("one_dimension", len(horizontal) == 1)
            j = rng.randint(-5, 5)
            if len(horizontal) == 2:
                same(rot.rotate_scalar_data(got, given, np, j), turned(x, dims, k + j),
                     f"{what} and {j} times")
                same(rot.rotate_scalar_data(got, given, np, -n), np.ascontiguousarray(x),
                     f"{what} and back")
                mon.count("compositions", 2)
                vx, vy = rot.rotate_vector_data(x, y, n, given, np)
                tx, ty = turned(x, dims, k), turned(y, dims, k)
                for _ in range(k % 4):
                    tx, ty = ty, -tx
                same(np.asarray(vx) + 0, tx + 0, f"x component of {what}")
                same(np.asarray(vy) + 0, ty + 0, f"y component of {what}")
                bx, by = rot.rotate_vector_data(vx, vy, -n, given, np)
                same(np.asarray(bx) + 0, x + 0, f"x component of {what} and back")
                same(np.asarray(by) + 0, y + 0, f"y component of {what} and back")
                mon.count("vectors")
                if k % 4:
                    sig = p
            check(all(same_bits(m.base, b) for m, b in zip(mems, before)),
                  f"{what}: the input changed", "input-changed")
    rows, cols = rng.randint(1, 6), rng.randint(1, 6)
    layout = (rows, cols)
    tile = part.TilePartitioner(layout)
    rank = rng.randrange(rows * cols)
    j, i = divmod(rank, cols)
    moves = [("fliplr", tile.fliplr_rank(rank), j * cols + cols - 1 - i)]
    if hasattr(part, "flipud_subtile_rank"):
        moves += [("flipud", part.flipud_subtile_rank(rank, layout), (rows - 1 - j) * cols + i)]
    if rows == cols:
        if hasattr(part, "transpose_subtile_rank"):
            moves += [("transpose", part.transpose_subtile_rank(rank, layout), i * cols + j)]
        moves += [("a quarter turn", tile.rotate_rank(rank, 1), (rows - 1 - i) * cols + j),
                  ("no turn", tile.rotate_rank(rank, 0), rank)]
    for name, got, want in moves:
        check(int(got) == want, f"{name} moves rank {rank} of layout {layout} to {got}, "
              f"expected {want}", "ranks")
        mon.count("ranks")
    return sig
