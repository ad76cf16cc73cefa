"""C03: synchronising an interface vector gives both holders of each shared edge point the
value of the south/west holder, turned into the receiver's axes; nothing else changes."""
import random

import numpy as np

from .. import cube, realmpi, simmpi
from ..core import Violation
from ..fields import (LAYOUTS, SIGNED, Memory, compare, extent_of, indices, make_pads,
                      place, random_dims)
from .c01_scalar_halo import communicator
from .c02_vector_halo import substitute

ID = "C03"
LEVEL = "exploration"
RULE = (
    "A case is one collective interface synchronisation (blocking or start/wait) of a vector "
    "whose copies of shared edge points differ on the two holders, on a random layout, "
    "dimension order (vertical first or last, several extra dimensions), dtype, memory "
    "layout and padding under a seeded hostile MPI schedule. The two holders of every edge "
    "point are found geometrically on the folded cube. Non-trivial: every shared point was "
    "compared.")
COUNTS = {"quick": 1300, "thorough": 24000}
REQUIRED = {"edge_points": 30000, "executions": 300, "turned_edge_points": 5000,
            "negated_edge_points": 2000}
ASSUMPTIONS = ["square layout, equal cells per rank",
               "both components have the same dimension order and dtype (signed)"]
YX = (("y_interface", "x"), ("y", "x_interface"))


def generate(rng, tier):
    L = rng.choice([1, 1, 1, 2, 2, 3] if tier == "quick" else [1, 1, 2, 2, 3, 4])
    dims, lens = random_dims(rng, ["y", "x"])
    dims = ["Y" if d == "y" else "X" if d == "x" else d for d in dims]
    pads = [[make_pads(rng, substitute(dims, yx), 0, 3) for yx in YX]
            for _ in range(6 * L * L if rng.random() < 0.3 else 1)]
    return dict(L=L, n=rng.randint(1, 5) if L < 3 else rng.randint(1, 3), dims=dims,
                lens=lens, pads=pads, dtype=rng.choice(SIGNED),
                layout=[rng.choice(LAYOUTS) for _ in "xy"], blocking=rng.random() < 0.5,
                seed=rng.randrange(2**31))


def directed(tier):
    out = []
    for L in (1, 2, 3):
        for dims in (["Y", "X"], ["X", "Y"], ["z", "Y", "X"], ["X", "Y", "z"],
                     ["Y", "z", "X"], ["z", "z_soil", "X", "Y"]):
            for h in (0, 3):
                pads = [[[h, h] if d in "XY" else [0, 0] for d in dims]] * 2
                out.append(dict(L=L, n=3, dims=dims, lens={"z": 3, "z_soil": 2}, pads=[pads],
                                dtype="f8", layout=["C", "C"], blocking=True, seed=L))
    # arrays of a real model's size
    for L, n in ((1, 48), (2, 24), (1, 200), (4, 2), (5, 1)):
        dims = ["Y", "X"] if n in (1, 2, 200) else ["z", "Y", "X"]
        pads = [[[3, 3] if d in "XY" else [0, 0] for d in dims]] * 2
        out.append(dict(L=L, n=n, dims=dims, lens={"z": 63}, pads=[pads], dtype="f8",
                        layout=["C", "C"], blocking=n > 50, seed=n))
    return out


def build(util, p, rank, which, salt=1):
    dims = substitute(p["dims"], YX[which])
    extent = extent_of(dims, p["n"], p["lens"])
    pads = p["pads"][rank % len(p["pads"])][which]
    origin = tuple(a for a, _ in pads)
    shape = tuple(a + e + b for (a, b), e in zip(pads, extent))
    mem = Memory(shape, p["dtype"], p["layout"][which],
                 p.get("mseed", p["seed"]) * 1000 + 2 * rank + which + 7 * salt)
    v = mem.view
    v[...] = cube.to_dtype(
        cube.mix(p["seed"], salt, rank, which, np.arange(v.size).reshape(shape)), mem.dtype,
        cube.SIGNED)
    q = util.Quantity(place(v, origin), dims=dims, units="m/s", origin=origin, extent=extent)
    return q, mem, mem.base.copy()


def edge(p, rank, which, mem, base, q_dims, origin, extent, at_end):
    """one compute-domain edge: (writable view with dims (other..., along)), P, tangent"""
    v = mem.view_of(base)
    inner = v[tuple(slice(o, o + e) for o, e in zip(origin, extent))]
    ifc = q_dims.index("y_interface" if which == 0 else "x_interface")
    along = q_dims.index("x" if which == 0 else "y")
    k = extent[ifc] - 1 if at_end else 0
    line = np.moveaxis(inner, (ifc, along), (0, -1))[k]
    grid = cube.RankGrid(rank, p["L"], p["n"])
    fixed = grid.coords(q_dims[ifc], np.array([k] * extent[along]))
    run_ = grid.coords(q_dims[along], np.arange(extent[along]))
    cx, cy = (run_, fixed) if which == 0 else (fixed, run_)
    P, vx, vy, kind = cube.locate(grid.tile, cx, cy, grid.N)
    assert (kind == 0).all()
    return line, P, (vx if which == 0 else vy)


def program(comm, rank, p):
    import fv3gfs.util as util

    cs = communicator(util, comm, p["L"])
    parts = [build(util, p, rank, w) for w in (0, 1)]
    x, y = parts[0][0], parts[1][0]
    if p["blocking"]:
        cs.synchronize_vector_interfaces(x, y)
    else:
        cs.start_synchronize_vector_interfaces(x, y).wait()
    return parts


def expectations(p, results, mon=None):
    """list over ranks of the two expected memory blocks"""
    owner = {}
    for rank, parts in enumerate(results):
        for w, (q, mem, before) in enumerate(parts):
            line, P, t = edge(p, rank, w, mem, before, q.dims, q.origin, q.extent, False)
            for i in range(P.shape[0]):
                key = tuple(P[i])
                assert key not in owner
                owner[key] = (line[..., i], t[i])
    out = []
    for rank, parts in enumerate(results):
        row = []
        for w, (q, mem, before) in enumerate(parts):
            want = before.copy()
            line, P, t = edge(p, rank, w, mem, want, q.dims, q.origin, q.extent, True)
            for i in range(P.shape[0]):
                values, direction = owner[tuple(P[i])]
                s = int(direction @ t[i])
                assert s in (1, -1)
                line[..., i] = values if s > 0 else -values
                if mon is not None:
                    mon.count("edge_points", values.size)
                    if s < 0:
                        mon.count("negated_edge_points", values.size)
                    grid = cube.RankGrid(rank, p["L"], p["n"])
                    if np.abs(P[i]).tolist().count(grid.N) == 2:
                        mon.count("turned_edge_points", values.size)
            row.append(want)
        out.append(row)
    return out


def judge(p, results, mon):
    wants = expectations(p, results, mon)
    for rank, parts in enumerate(results):
        for w, (q, mem, before) in enumerate(parts):
            compare(mon, rank, f"interface synchronisation, {'xy'[w]} component", mem,
                    wants[rank][w])


def run(p, mon):
    rng = random.Random(p["seed"])
    world = simmpi.random_world(6 * p["L"] ** 2, rng)
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    return p


def world_size(p):
    return 6 * p["L"] ** 2


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
