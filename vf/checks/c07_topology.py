"""C07: the boundaries of all ranks fit the folded cube, and do not depend on what earlier
callers asked for or did to their boundary objects."""
import numpy as np

from .. import cube
from ..core import check

ID = "C07"
LEVEL = "exploration"
RULE = (
    "A case is a session with one or two partitioners (cube or doubly periodic tile, square "
    "or not) in which every boundary of every rank is requested in random order, repeatedly, "
    "with callers scribbling over the objects they got; each answer is compared with the "
    "geometry of the folded cube (or torus), and each edge is followed across and back. "
    "Non-trivial: boundaries with rotation, or scribbled ones asked for again.")
COUNTS = {"quick": 700, "thorough": 14000}
REQUIRED = {"boundaries": 50000, "absent_corners": 1000, "rotated": 5000,
            "asked_again_after_scribble": 5000, "round_trips": 20000, "not_square_refused": 2000,
            "boundaries_in_large_layouts": 5000}
ASSUMPTIONS = ["cubed sphere layouts are square"]


def generate(rng, tier):
    sessions = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.65:
            L = rng.randint(1, 5 if rng.random() < 0.85 else 9)
            sessions.append(["cube", L, L])
        else:
            sessions.append(["tile", rng.randint(1, 7), rng.randint(1, 7)])
    return dict(sessions=sessions, seed=rng.randrange(2**31))


def directed(tier):
    return [dict(sessions=[["cube", L, L]], seed=L)
            for L in range(1, 13 if tier == "quick" else 25)] + [
        dict(sessions=[session], seed=i, sample=500 if tier == "quick" else 4000)
        for i, session in enumerate(
            [["cube", L, L] for L in (16, 17, 19, 24, 32, 48)]
            + [["tile", *l] for l in ((16, 16), (12, 24), (300, 2), (3, 257), (64, 64))])]


def expected(kind, ly, lx, rank, bt):
    if kind == "cube":
        return cube.neighbor(rank, bt, ly)
    dy, dx = cube.STEP[bt]
    base, within = divmod(rank, ly * lx)
    j, i = divmod(within, lx)
    return base * ly * lx + ((j + dy) % ly) * lx + (i + dx) % lx, 0


def run(p, mon):
    import random

    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    asks, parts = [], []
    for k, (kind, ly, lx) in enumerate(p["sessions"]):
        tile = util.TilePartitioner((ly, lx))
        parts.append(util.CubedSpherePartitioner(tile) if kind == "cube" else tile)
        ranks = range(ly * lx * (6 if kind == "cube" else 1))
        asks += [(k, r, bt) for r in ranks for bt in range(8)]
    rng.shuffle(asks)
    if "sample" in p:
        mon.count("boundaries_in_large_layouts", p["sample"])
        del asks[p["sample"]:]
    asks += rng.sample(asks, min(len(asks), 200))
    scribbled = set()
    nontrivial = False
    for k, rank, bt in asks:
        kind, ly, lx = p["sessions"][k]
        b = parts[k].boundary(bt, rank)
        want = expected(kind, ly, lx, rank, bt)
        mon.count("boundaries")
        where = f"{kind} {ly}x{lx}, rank {rank}, boundary type {bt}"
        again = (k, rank, bt) in scribbled
        mon.count("asked_again_after_scribble", again)
        nontrivial |= again
        suffix = "-after-scribble" if again else ""
        if want is None:
            check(b is None, f"{where}: expected no boundary at a tile corner, got {b}",
                  "corner-exists")
            mon.count("absent_corners")
            continue
        check(b is not None, f"{where}: no boundary", "missing")
        check(b.from_rank == rank and b.boundary_type == bt,
              f"{where}: got {b}", "wrong-identity" + suffix)
        check(b.to_rank == want[0], f"{where}: leads to rank {b.to_rank}, the geometry says "
              f"{want[0]}", "wrong-neighbour" + suffix)
        rot = b.n_clockwise_rotations % 4
        check(rot == want[1], f"{where}: turns {rot} times, the geometry says {want[1]}",
              "wrong-rotation" + suffix)
        mon.count("rotated", rot != 0)
        nontrivial |= rot != 0
        if bt < 4 or rng.random() < 0.3:
            # someone on the other side leads back, turning the other way
            back = [c for c in (parts[k].boundary(t, int(b.to_rank)) for t in range(8))
                    if c is not None and c.to_rank == rank
                    and (c.n_clockwise_rotations + rot) % 4 == 0]
            check(back, f"{where}: rank {b.to_rank} has no boundary leading back",
                  "not-reciprocal")
            mon.count("round_trips")
        if rng.random() < 0.5:
            b.to_rank = -99
            b.from_rank = -98
            b.n_clockwise_rotations = 7
            b.boundary_type = 5
            scribbled.add((k, rank, bt))
            if rng.random() < 0.3:
                asks.append((k, rank, bt)) if len(asks) < 20000 else None
    # a cube of tiles which are not square in ranks has no such topology
    ly = rng.randint(1, 6)
    lx = rng.choice([k for k in range(1, 8) if k != ly])
    part = util.CubedSpherePartitioner(util.TilePartitioner((ly, lx)))
    for bt in range(8):
        rank = rng.randrange(6 * ly * lx)
        if bt < 4 or rng.random() < 0.5:
            try:
                b = part.boundary(bt, rank)
            except NotImplementedError:
                mon.count("not_square_refused")
            else:
                # only across a corner of a tile there is nothing to be refused
                check(b is None and bt > 3, f"cube of {ly}x{lx} tiles, rank {rank}: boundary "
                      f"{bt} given as {b}", "not-square-accepted")
    return p if nontrivial else None
