"""C06: the decomposition covers every global point exactly once and extents invert."""
import numpy as np

from ..core import Violation, check
from ..fields import is_x, is_y

ID = "C06"
LEVEL = "exploration"
RULE = (
    "A case is one decomposition (tile or cube; layout up to 128 per side, square or not) of "
    "one metadata (random dimension set and order, staggering, sizes); the extents and the "
    "slices of all its ranks, with and without overlap, are observed and compared with "
    "integer arithmetic, and small ones are painted into a real array to count owners of "
    "every point. Non-trivial: more than one rank and at least one horizontal dimension.")
COUNTS = {"quick": 2600, "thorough": 60000}
REQUIRED = {"slices": 50000, "painted_points": 100000, "layouts": 300,
            "interface_dims": 1000, "huge_tiles": 100}
ASSUMPTIONS = ["the number of cells along each horizontal axis is a multiple of the layout"]

ALL = ["z", "z_interface", "z_soil", "tracer", "extra_y", "xy"]


def generate(rng, tier):
    cube = rng.random() < 0.4
    big = rng.random() < 0.35
    m = 128 if big else 6
    ly = rng.randint(1, m)
    lx = ly if cube and rng.random() < 0.7 else rng.randint(1, m)
    if big and rng.random() < 0.5:
        ly = rng.choice([1, 2, 3])
    dims = rng.sample(ALL, rng.randint(0, 2))
    for pair in (["y", "y_interface"], ["x", "x_interface"]):
        if rng.random() < 0.92:
            dims.append(rng.choice(pair))
    if not dims:
        dims = ["x"]
    rng.shuffle(dims)
    if rng.random() < 0.1:  # extents beyond 16 bits, and what a short float can count
        cells = [rng.choice([1, 10**5, 2**25]) + rng.randint(0, 999) for _ in "yx"]
    else:
        cells = [rng.randint(1, 40 if big else 5) for _ in "yx"]
    return dict(cube=cube, layout=[ly, lx], dims=dims, cells=cells,
                lens={d: rng.randint(1, 4) for d in ALL}, as_list=rng.random() < 0.3)


def directed(tier):
    out = []
    for k in range(1, 400 if tier == "quick" else 1500, 8):
        for kk in range(k, k + 8):
            out.append(dict(cube=False, layout=[1, kk], dims=["x_interface", "y"],
                            cells=[2, 3], lens={}, as_list=False))
    for k in (1, 2, 3, 4, 5, 6, 7, 12, 24, 48, 49):
        out.append(dict(cube=True, layout=[k, k], dims=["z", "y", "x_interface"],
                        cells=[2, 2], lens={"z": 2}, as_list=False))
    return out


def axis(d):
    return 0 if is_y(d) else 1 if is_x(d) else None


def run(p, mon):
    import fv3gfs.util as util

    ly, lx = layout = tuple(p["layout"])
    if p["as_list"]:
        layout = list(layout)  # as read from a namelist
    tile = util.TilePartitioner.from_namelist({"fv_core_nml": {"layout": layout}}) \
        if p["as_list"] else util.TilePartitioner(layout)
    part = tile
    if p["cube"]:
        part = util.CubedSpherePartitioner.from_namelist({"fv_core_nml": {"layout": layout}}) \
            if p["as_list"] else util.CubedSpherePartitioner(tile)
    check(isinstance(part, util.CubedSpherePartitioner if p["cube"] else util.TilePartitioner)
          and tuple(part.layout) == tuple(layout) and tuple(tile.layout) == tuple(layout),
          f"partitioner {part!r} for layout {layout}", "layout")
    per_tile = ly * lx
    total = per_tile * (6 if p["cube"] else 1)
    check(part.total_ranks == total, f"total_ranks is {part.total_ranks}, not {total}",
          "total-ranks")
    dims = tuple(p["dims"])
    rank_extent, tile_extent = [], []
    for d in dims:
        a = axis(d)
        if a is None:
            rank_extent.append(p["lens"][d])
            tile_extent.append(p["lens"][d])
        else:
            shared = 1 if d.endswith("_interface") else 0
            rank_extent.append(p["cells"][a] + shared)
            tile_extent.append(p["cells"][a] * p["layout"][a] + shared)
            mon.count("interface_dims", shared)
    rank_extent, tile_extent = tuple(rank_extent), tuple(tile_extent)

    def meta(dims, extent):
        return util.QuantityMetadata(
            origin=(0,) * len(dims), extent=extent, dims=dims, units="m",
            data_type=np.ndarray, dtype=np.float64)

    gdims, gextent = dims, tile_extent
    if p["cube"]:
        gdims, gextent = ("tile",) + dims, (6,) + tile_extent
    got = tuple(part.global_extent(meta(dims, rank_extent)))
    check(got == gextent, f"global_extent of {dims} {rank_extent} on layout {layout} is "
          f"{got}, not {gextent}", "global-extent")
    got = tuple(part.subtile_extent(meta(gdims, gextent)))
    check(got == rank_extent, f"subtile_extent of {gdims} {gextent} on layout {layout} is "
          f"{got}, not {rank_extent}", "subtile-extent")

    small = np.prod(gextent, dtype=float) <= 20000
    mon.count("huge_tiles", max(tile_extent) > 2**15)
    owners, holders, greatest = (np.full(gextent if small else (), v) for v in (0, 0, -1))
    step = max(1, total // 600)
    ranks = range(total) if small or step == 1 else sorted(
        set(list(range(0, total, step)) + [total - 1, per_tile - 1]))
    for rank in ranks:
        t, within = divmod(rank, per_tile)
        j, i = divmod(within, lx)
        if p["cube"]:
            check(part.tile_index(rank) == t, f"tile_index({rank})", "tile-index")
            check(part.tile_root_rank(rank) == t * per_tile, f"tile_root_rank({rank})",
                  "tile-root")
            check(util.get_tile_index(rank, total) == t, f"get_tile_index({rank})",
                  "tile-index")
            check(util.get_tile_number(rank, total) == t + 1, f"get_tile_number({rank})",
                  "tile-index")
        check(tuple(tile.subtile_index(rank)) == (j, i),
              f"subtile_index({rank}) on {layout} is {tile.subtile_index(rank)}",
              "subtile-index")
        for got, want, what in (
                (tile.on_tile_left(rank), i == 0, "left"),
                (tile.on_tile_right(rank), i == lx - 1, "right"),
                (tile.on_tile_bottom(rank), j == 0, "bottom"),
                (tile.on_tile_top(rank), j == ly - 1, "top")):
            check(bool(got) == want, f"on_tile_{what}({rank}) on {layout} is {got}",
                  "on-tile-edge")
        for overlap in (False, True):
            sl = part.subtile_slice(rank, gdims, gextent, overlap=overlap)
            check(len(sl) == len(gdims), f"subtile_slice has {len(sl)} entries",
                  "slice-shape")
            mon.count("slices")
            if p["cube"]:
                check(sl[0] == t, f"subtile_slice of rank {rank} is for tile {sl[0]}",
                      "slice-tile")
            for d, s, e in zip(dims, sl[1 if p["cube"] else 0:], tile_extent):
                a = axis(d)
                if a is None:
                    want = range(e)
                else:
                    pos = (j, i)[a]
                    n = p["cells"][a]
                    last = pos == p["layout"][a] - 1
                    end = (pos + 1) * n
                    if d.endswith("_interface") and (last or overlap):
                        end += 1
                    want = range(pos * n, end)
                got = range(*s.indices(e))
                check(got == want, lambda: f"rank {rank} of layout {layout}, {d} of {e} "
                      f"points, overlap={overlap}: slice {s}, expected {want}",
                      "slice-" + ("overlap" if overlap else "owner"))
            if small:
                if overlap:
                    holders[tuple(sl)] += 1
                    if p["cube"]:
                        sub = greatest[tuple(sl)]
                        sub[...] = np.maximum(sub, rank)
                    else:
                        greatest[tuple(sl)] = rank
                else:
                    owners[tuple(sl)] += 1
    if small and any(axis(d) is not None for d in dims):
        missing = [a for a in (0, 1) if p["layout"][a] > 1
                   and not any(axis(d) == a for d in dims)]
        expected = int(np.prod([p["layout"][a] for a in missing])) if missing else 1
        check((owners == expected).all(), lambda: f"layout {layout}, {gdims} {gextent}: "
              f"points are owned by {sorted(set(owners.ravel().tolist()))} ranks",
              "owner-count")
        check((holders >= 1).all(), "a point is held by no rank", "holder-count")
        mon.count("painted_points", owners.size)
    mon.seen("layouts", layout)
    bad = None
    if total % 6:
        for f in (util.get_tile_index, util.get_tile_number):
            try:
                f(0, total)
                bad = f
            except ValueError:
                pass
    check(bad is None, f"{bad} accepted {total} ranks", "accepts-bad-rank-count")
    return p if total > 1 and any(axis(d) is not None for d in dims) else None
