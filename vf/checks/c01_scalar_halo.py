"""C01: after a scalar halo update every halo point holds the value of the grid point that
lies there on the cubed sphere, and nothing else has changed."""
import random

import numpy as np

from .. import cube, realmpi, simmpi
from ..fields import (DTYPES, LAYOUTS, Memory, Placed, compare, extent_of, make_pads,
                      place, random_dims, same_metadata)

ID = "C01"
LEVEL = "exploration"
RULE = (
    "A case is one collective halo update (blocking or start/wait) by all 6*L*L ranks under "
    "a seeded hostile MPI schedule; layout, rank size, halo widths, dimension order, "
    "staggering, dtype, memory layout and per-rank padding are random. Non-trivial: at least "
    "one rotated edge was crossed and every rank had halo points to compare; distinct by "
    "the full parameter set.")
COUNTS = {"quick": 1300, "thorough": 24000}
REQUIRED = {"halo_points": 50000, "executions": 300, "interleavings": 250}
ASSUMPTIONS = [
    "square layout, equal cells per rank, n_points <= cells per rank side and <= halo width",
    "quantities carry one x and one y dimension, both centred or both on interfaces",
]


def horizontal(stagger):
    return {"center": ["y", "x"], "interface": ["y_interface", "x_interface"]}[stagger]


def generate(rng, tier):
    L = rng.choice([1, 1, 1, 2, 2, 3] if tier == "quick" else [1, 1, 2, 2, 2, 3, 3, 4])
    n = rng.randint(1, 5) if L < 3 else rng.randint(1, 3)
    if L == 1 and rng.random() < 0.12:
        n = rng.randint(6, 9)
    n_points = rng.randint(1, n if rng.random() < 0.3 else min(n, 4))
    dims, lens = random_dims(rng, horizontal(rng.choice(["center", "interface"])))
    per_rank = rng.random() < 0.3
    size = 6 * L * L
    pads = [make_pads(rng, dims, n_points) for _ in range(size if per_rank else 1)]
    return dict(L=L, n=n, n_points=n_points, dims=dims, lens=lens, pads=pads,
                dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS),
                blocking=rng.random() < 0.5, repeat=rng.choice([1, 1, 2]),
                seed=rng.randrange(2**31))


def directed(tier):
    out = []
    for L in (1, 2, 3):
        for dims in (["y", "x"], ["x", "y"], ["z", "y", "x"], ["x", "z", "y"],
                     ["y_interface", "x_interface"]):
            for n_points in (1, 3):
                out.append(dict(
                    L=L, n=3, n_points=n_points, dims=dims,
                    lens={"z": 2}, pads=[[[3, 3] if d != "z" else [0, 1] for d in dims]],
                    dtype="f8", layout="C", blocking=True, repeat=1,
                    seed=11 * L + n_points))
    # arrays of a real model's size
    for L, n, dims in ((1, 48, ["z", "y", "x"]), (2, 24, ["y", "x", "z"]),
                       (1, 100, ["x_interface", "y_interface"])):
        out.append(dict(L=L, n=n, n_points=3, dims=dims, lens={"z": 63},
                        pads=[[[3, 4] if d != "z" else [0, 1] for d in dims]], dtype="f8",
                        layout="C", blocking=L == 1, repeat=1, seed=n))
    for i in range(6):  # nothing in one dimension
        dims = [["z", "y", "x"], ["y", "z", "x_interface"], ["y", "x", "z"]][i % 3]
        out.append(dict(L=1 + i % 2, n=3, n_points=2, dims=dims, lens={"z": 0},
                        pads=[[[2, 2] if d != "z" else [1, 1] for d in dims]], dtype="f8",
                        layout=["C", "F"][i % 2], blocking=i % 2 == 0, repeat=2, seed=i))
    for L in (4, 5) if tier == "quick" else (4, 5, 6, 7):
        out.append(dict(L=L, n=2, n_points=2, dims=["y", "x"], lens={},
                        pads=[[[2, 2], [2, 2]]], dtype="f8", layout="C", blocking=False,
                        repeat=1, seed=L))
    return out


def build(util, p, rank, salt=1):
    grid = cube.RankGrid(rank, p["L"], p["n"])
    dims = p["dims"]
    extent = extent_of(dims, p["n"], p["lens"])
    pads = p["pads"][rank % len(p["pads"])]
    origin = tuple(a for a, _ in pads)
    shape = tuple(a + e + b for (a, b), e in zip(pads, extent))
    mem = Memory(shape, p["dtype"], p["layout"],
                 p.get("mseed", p["seed"]) * 1000 + rank)
    placed = Placed(grid, dims, origin, extent, shape, p["n_points"])
    values = placed.scalar(p["seed"] + salt, mem.dtype)
    v = mem.view
    v[placed.compute] = values[placed.compute]
    want, wv = mem.expected()
    wv[placed.halo] = values[placed.halo]
    q = util.Quantity(place(v, origin), dims=dims, units="m", origin=origin, extent=extent)
    return q, mem, want, placed


def communicator(util, comm, L):
    return util.CubedSphereCommunicator(
        comm, util.CubedSpherePartitioner(util.TilePartitioner((L, L))))


def program(comm, rank, p):
    import fv3gfs.util as util

    cs = communicator(util, comm, p["L"])
    q, mem, want, placed = build(util, p, rank)
    for _ in range(p["repeat"]):
        if p["blocking"]:
            cs.halo_update(q, p["n_points"])
        else:
            req = cs.start_halo_update(q, p["n_points"])
            req.wait()
    return q, mem, want, placed


def judge(p, results, mon):
    for rank, (q, mem, want, placed) in enumerate(results):
        compare(mon, rank, "halo update", mem, want, placed)
        if hasattr(q, "units"):
            same_metadata(q, f"rank {rank}: halo update", placed.dims, placed.origin,
                          placed.extent, "m")
        mon.count("halo_points", placed.halo.sum())
        mon.count("untouched_points", placed.untouched.sum())
        mon.count("compute_points", placed.compute.sum())
        mon.count("tile_corner_points_seen", (placed.kind == 2).sum())


def run(p, mon):
    rng = random.Random(p["seed"])
    world = simmpi.random_world(6 * p["L"] ** 2, rng)
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    mon.seen("layouts", p["L"])
    return {k: v for k, v in p.items()}


def world_size(p):
    return 6 * p["L"] ** 2


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
