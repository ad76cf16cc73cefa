"""C02: a vector halo update carries both components over the edge as one physical vector."""
import random

from .. import cube, realmpi, simmpi
from ..fields import (LAYOUTS, SIGNED, Memory, Placed, compare, extent_of, make_pads,
                      place, random_dims, same_metadata)
from .c01_scalar_halo import communicator

ID = "C02"
LEVEL = "exploration"
RULE = (
    "A case is one collective vector halo update on a random layout, grid staggering "
    "(A, B, C, D), dimension order, dtype, memory layout and padding under a seeded hostile "
    "MPI schedule. The expected halo of both components is the field carried over the "
    "folded cube in 3-D. Non-trivial: every rank compared halo points of both components.")
COUNTS = {"quick": 900, "thorough": 18000}
REQUIRED = {"halo_points": 50000, "executions": 250, "rotated_points": 10000,
            "negated_points": 5000, "staggerings": 4}
ASSUMPTIONS = [
    "square layout, equal cells per rank, n_points <= cells per rank side and <= halo width",
    "both components have the same dimension order and dtype (signed)",
]
STAGGER = {
    "A": (("y", "x"), ("y", "x")),
    "B": (("y_interface", "x_interface"), ("y_interface", "x_interface")),
    "D": (("y_interface", "x"), ("y", "x_interface")),
    "C": (("y", "x_interface"), ("y_interface", "x")),
}


def substitute(dims, yx):
    return [yx[0] if d == "Y" else yx[1] if d == "X" else d for d in dims]


def generate(rng, tier):
    L = rng.choice([1, 1, 1, 2, 2, 3] if tier == "quick" else [1, 1, 2, 2, 2, 3, 3, 4])
    n = rng.randint(1, 5) if L < 3 else rng.randint(1, 3)
    if L == 1 and rng.random() < 0.12:
        n = rng.randint(6, 9)
    n_points = rng.randint(1, n if rng.random() < 0.3 else min(n, 4))
    dims, lens = random_dims(rng, ["y", "x"])
    dims = ["Y" if d == "y" else "X" if d == "x" else d for d in dims]
    st = rng.choice(sorted(STAGGER))
    pads = [[make_pads(rng, substitute(dims, yx), n_points) for yx in STAGGER[st]]
            for _ in range(6 * L * L if rng.random() < 0.3 else 1)]
    return dict(L=L, n=n, n_points=n_points, dims=dims, lens=lens, stagger=st, pads=pads,
                dtype=rng.choice(SIGNED), layout=[rng.choice(LAYOUTS) for _ in "xy"],
                blocking=rng.random() < 0.5, seed=rng.randrange(2**31))


def directed(tier):
    out = []
    for L in (1, 2, 3):
        for st in STAGGER:
            for dims in (["Y", "X"], ["X", "Y"], ["z", "Y", "X"], ["X", "Y", "z"]):
                pads = [[[3, 3] if d in "XY" else [0, 1] for d in dims]] * 2
                out.append(dict(L=L, n=3, n_points=2, dims=dims, lens={"z": 2}, stagger=st,
                                pads=[pads], dtype="f8", layout=["C", "C"], blocking=True,
                                seed=L))
    # arrays of a real model's size
    for L, n, st in ((1, 48, "A"), (2, 24, "D"), (1, 100, "C"), (4, 2, "A"), (5, 1, "D")):
        dims = ["Y", "X"] if n in (1, 2, 100) else ["z", "Y", "X"]
        pads = [[[3, 3] if d in "XY" else [0, 1] for d in dims]] * 2
        out.append(dict(L=L, n=n, n_points=min(n, 3), dims=dims, lens={"z": 63}, stagger=st,
                        pads=[pads], dtype="f8", layout=["C", "C"], blocking=n > 50, seed=n))
    return out


UNITS = ("m/s", "m s^-1")


def build(util, p, rank, which, salt=1):
    grid = cube.RankGrid(rank, p["L"], p["n"])
    dims = substitute(p["dims"], STAGGER[p["stagger"]][which])
    extent = extent_of(dims, p["n"], p["lens"])
    pads = p["pads"][rank % len(p["pads"])][which]
    origin = tuple(a for a, _ in pads)
    shape = tuple(a + e + b for (a, b), e in zip(pads, extent))
    mem = Memory(shape, p["dtype"], p["layout"][which],
                 p.get("mseed", p["seed"]) * 1000 + 2 * rank + which)
    placed = Placed(grid, dims, origin, extent, shape, p["n_points"])
    values = placed.component(p["seed"] + salt, mem.dtype, "xy"[which])
    v = mem.view
    v[placed.compute] = values[placed.compute]
    want, wv = mem.expected()
    wv[placed.halo] = values[placed.halo]
    q = util.Quantity(place(v, origin), dims=dims, units=UNITS[which], origin=origin, extent=extent)
    return q, mem, want, placed


def program(comm, rank, p):
    import fv3gfs.util as util

    cs = communicator(util, comm, p["L"])
    parts = [build(util, p, rank, w) for w in (0, 1)]
    x, y = parts[0][0], parts[1][0]
    if p["blocking"]:
        cs.vector_halo_update(x, y, p["n_points"])
    else:
        cs.start_vector_halo_update(x, y, p["n_points"]).wait()
    return parts


def judge(p, results, mon):
    from ..cube import FACES

    for rank, parts in enumerate(results):
        for w, (q, mem, want, placed) in enumerate(parts):
            compare(mon, rank, f"vector halo update, {'xy'[w]} component", mem, want, placed)
            if hasattr(q, "units"):
                same_metadata(q, f"rank {rank}: vector halo update", placed.dims,
                              placed.origin, placed.extent, UNITS[w])
            mon.count("halo_points", placed.halo.sum())
            import numpy as np

            v = placed.vx if w == 0 else placed.vy
            ex, ey, _ = FACES[rank // p["L"] ** 2]
            turned = np.abs(v @ (ex if w == 0 else ey)) != 1
            mon.count("rotated_points",
                      (np.broadcast_to(turned, placed.shape) & placed.halo).sum())
            mon.count("negated_points", (np.broadcast_to(
                v.sum(-1) < 0, placed.shape) & placed.halo).sum())


def run(p, mon):
    rng = random.Random(p["seed"])
    world = simmpi.random_world(6 * p["L"] ** 2, rng)
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    mon.seen("staggerings", p["stagger"])
    return p


def world_size(p):
    return 6 * p["L"] ** 2


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
