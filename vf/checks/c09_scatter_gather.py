"""C09: scatter hands every rank exactly its part of the global quantity, gather rebuilds
the global quantity, and neither touches anything else."""
import random

import numpy as np

from .. import cube, realmpi, simmpi
from ..core import Violation, check
from ..fields import (DTYPES, LAYOUTS, Memory, first_difference, host, is_x, is_y, kept, place,
                      same_bits)

ID = "C09"
LEVEL = "exploration"
RULE = (
    "A case is 1-4 rounds of scatter then gather (tile, non-square tile, cube, or the tiles "
    "of a cube) of one global quantity per round under a seeded hostile MPI schedule: "
    "random dimension sets and orders, staggering, dtype, memory layout, padding around "
    "the global and the local compute domains, receiving into given quantities or new ones, or given ones on some ranks only; "
    "new data each round through the same cached buffers. Every received compute domain is "
    "compared with the index arithmetic and all other memory must be unchanged. "
    "Non-trivial: more than one rank took part.")
COUNTS = {"quick": 1100, "thorough": 22000}
REQUIRED = {"scattered_points": 50000, "gathered_points": 20000, "given_receivers": 500,
            "executions": 300, "overlap_points": 2000,
            "given_to_some_ranks": 200, "pairs_of_results": 3000}
ASSUMPTIONS = ["cells per axis are a multiple of the layout",
               "received quantities have the dims, dtype and extent of their part"]

EXTRA = ["z", "z_interface", "z_soil", "tracer", "xy", "extra_y"]


def generate(rng, tier):
    kind = rng.choice(["tile", "tile", "cube", "tile-of-cube"])
    if kind == "tile":
        layout = [rng.randint(1, 4), rng.randint(1, 3)]
    else:
        layout = [rng.choice([1, 1, 2])] * 2 if kind == "cube" else [rng.choice([1, 2, 2])] * 2
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        if rounds and rng.random() < 0.5:
            r = dict(rounds[-1])
        else:
            dims = rng.sample(EXTRA, rng.choice([0, 0, 1, 1, 2]))
            for pair in (["y", "y_interface"], ["x", "x_interface"]):
                if rng.random() < 0.93:
                    dims.append(rng.choice(pair))
            if rng.random() < 0.05:
                dims = []
            rng.shuffle(dims)
            r = dict(dims=dims, cells=[rng.randint(1, 4) for _ in "yx"],
                     lens={d: rng.randint(1, 3) for d in EXTRA})
        nd = len(r["dims"])

        def pad():
            return [[rng.randint(0, 2), rng.randint(0, 2)] for _ in range(nd)]

        kind_of = dict(dtype=rng.choice(DTYPES), units=rng.choice(
            ["m", "K", "kg/m^2", "", " m s^-1 "]))
        if "dtype" in r and rng.random() < 0.6:  # just the same kind once more
            kind_of = {k: r[k] for k in kind_of}
        r.update(**kind_of, gpad=[[rng.randint(0, 1), rng.randint(0, 1)]]
                 + pad(), lpad=pad(), opad=[[0, 0]] + pad(),
                 glayout=rng.choice(LAYOUTS), llayout=rng.choice(LAYOUTS),
                 olayout=rng.choice(LAYOUTS), given=[rng.choice([0, 1, 1, 2]), rng.choice([0, 1])],
                 nonroot_send=rng.random() < 0.2,
                 seed=rng.randrange(2**31))
        rounds.append(r)
    return dict(kind=kind, layout=layout, rounds=rounds, seed=rng.randrange(2**31))


def directed(tier):
    out = []
    rng = random.Random(3)
    for kind, layout in (("tile", [4, 1]), ("tile", [1, 5]), ("tile", [2, 3]),
                         ("cube", [1, 1]), ("cube", [2, 2]), ("tile-of-cube", [2, 2])):
        for dims in (["y", "x"], ["x_interface", "y"], ["z", "y_interface", "x_interface"], []):
            p = generate(rng, "quick")
            p.update(kind=kind, layout=layout)
            for r in p["rounds"]:
                r.update(dims=dims, gpad=[[0, 0]] + [[1, 2]] * len(dims),
                         lpad=[[2, 1]] * len(dims), opad=[[0, 0]] * (len(dims) + 1))
            out.append(p)
    for kind, layout in (("tile", [2, 1]), ("tile", [1, 1]), ("cube", [1, 1]), ("cube", [2, 2])):
        for dims in (["z", "y", "x"], ["x", "y", "z"]):  # nothing in one dimension
            p = generate(rng, "quick")
            p.update(kind=kind, layout=layout)
            for r in p["rounds"]:
                r.update(dims=dims, gpad=[[0, 0]] + [[1, 2]] * 3, lpad=[[2, 1]] * 3,
                         opad=[[0, 0]] * 4, lens={d: 0 for d in EXTRA})
            out.append(p)
    # arrays of a real model's size, many ranks
    for kind, layout, cells, nz in (("tile", [2, 2], [48, 40], 63), ("cube", [1, 1], [48, 48], 20),
                                    ("tile", [8, 9], [2, 3], 2), ("tile", [1, 70], [2, 1], 2),
                                    ("cube", [4, 4], [2, 2], 2)):
        p = generate(rng, "quick")
        p.update(kind=kind, layout=layout)
        r = dict(p["rounds"][0], dims=["z", "y", "x_interface"], cells=cells,
                 lens={d: nz for d in EXTRA}, gpad=[[0, 0]] * 4, lpad=[[1, 1]] * 3,
                 opad=[[0, 0]] * 4)
        out.append(dict(p, rounds=[r, dict(r, dims=["y", "x"], gpad=[[0, 0]] * 3,
                                           lpad=[[0, 1]] * 2, opad=[[0, 0]] * 3)]))
    return out


def part(p, r, rank):
    """slices of the global compute domain (without tile axis) of one rank"""
    ly, lx = p["layout"]
    pos = divmod(rank % (ly * lx), lx)
    out = []
    for d in r["dims"]:
        if is_x(d) or is_y(d):
            a = 0 if is_y(d) else 1
            n = r["cells"][a]
            out.append(slice(pos[a] * n,
                             (pos[a] + 1) * n + (1 if d.endswith("_interface") else 0)))
        else:
            out.append(slice(None))
    return tuple(out)


def extents(p, r):
    g, l = [], []
    for d in r["dims"]:
        if is_x(d) or is_y(d):
            a = 0 if is_y(d) else 1
            s = 1 if d.endswith("_interface") else 0
            g.append(r["cells"][a] * p["layout"][a] + s)
            l.append(r["cells"][a] + s)
        else:
            g.append(r["lens"][d])
            l.append(r["lens"][d])
    return tuple(g), tuple(l)


def given(r, i, rank):
    """is this rank given a quantity to receive into? (2: some ranks are)"""
    return bool(r["seed"] >> (rank % 24) & 1) if r["given"][i] == 2 else bool(r["given"][i])


def field(r, shape, salt):
    h = cube.mix(r["seed"], salt, np.arange(int(np.prod(shape))).reshape(shape))
    return cube.to_dtype(h, r["dtype"], cube.ANY)


def quantity(util, r, dims, extent, pads, layout, seed, content=None, readonly=False):
    pads = pads[-len(dims):] if dims else []
    shape = tuple(a + e + b for (a, b), e in zip(pads, extent))
    origin = tuple(a for a, _ in pads)
    mem = Memory(shape, r["dtype"], layout, seed)
    inner = tuple(slice(o, o + e) for o, e in zip(origin, extent))
    if content is not None:
        mem.view[inner] = content
    q = util.Quantity(place(mem.view, origin, readonly), dims=dims, units=r["units"],
                      origin=origin, extent=extent)
    return q, mem, mem.base.copy(), inner


def make_comm(util, comm, p):
    tile = util.TilePartitioner(tuple(p["layout"]))
    if p["kind"] == "tile":
        return util.TileCommunicator(comm, tile)
    cs = util.CubedSphereCommunicator(comm, util.CubedSpherePartitioner(tile))
    return cs if p["kind"] == "cube" else cs.tile


def program(comm, rank, p):
    import fv3gfs.util as util

    c = make_comm(util, comm, p)
    me = c.rank
    log = []
    for r in p["rounds"]:
        g, l = extents(p, r)
        dims = tuple(r["dims"])
        gdims, gext = (("tile",) + dims, (6,) + g) if p["kind"] == "cube" else (dims, g)
        salt = rank // (p["layout"][0] * p["layout"][1]) if p["kind"] == "tile-of-cube" else 0
        entry = {}
        truth = field(r, gext, salt)
        send = None
        if me == 0 or r["nonroot_send"]:
            send = quantity(util, r, gdims, gext, r["gpad"], r["glayout"], r["seed"] + rank,
                            truth, r["seed"] % 3 == 0)
        recv = quantity(util, r, dims, l, r["lpad"], r["llayout"], r["seed"] + 100 + rank)
        out = c.scatter(send_quantity=send[0] if send else None,
                        recv_quantity=recv[0] if given(r, 0, rank) else None)
        entry["scatter"] = (send, recv, out, truth.copy())
        # gather what this rank should have
        tile_part = truth[rank // (p["layout"][0] * p["layout"][1])] \
            if p["kind"] == "cube" else truth
        mine = quantity(util, r, dims, l, r["lpad"], r["llayout"], r["seed"] + 200 + rank,
                        tile_part[part(p, r, me)], r["seed"] % 5 == 0)
        into = quantity(util, r, gdims, gext, r["opad"], r["olayout"],
                        r["seed"] + 300 + rank)
        got = c.gather(mine[0], recv_quantity=into[0] if r["given"][1] else None)
        entry["gather"] = (mine, into, got)
        entry["me"] = me
        log.append(entry)
    return log


def untouched(what, q, mem, before, inner):
    """memory outside `inner` is as before"""
    want = before.copy()
    mem.view_of(want)[inner] = mem.view[inner]
    check(same_bits(mem.base, want), f"{what}: memory outside of the compute domain changed",
          "stray-write")


def judge(p, results, mon):
    per_tile = p["layout"][0] * p["layout"][1]
    for rank, log in enumerate(results):
        made = [(k, name, q) for k, (r, e) in enumerate(zip(p["rounds"], log)) for name, q in (
            ("scatter", e["scatter"][2]), ("gather", e["gather"][2])) if q is not None]
        for i, (k, name, q) in enumerate(made):
            for k2, name2, q2 in made[:i]:
                check(q is not q2 and not np.shares_memory(host(q.data), host(q2.data)),
                      f"rank {rank}: {name} of round {k} shares memory with the result of "
                      f"{name2} of round {k2}", "shared-memory")
                mon.count("pairs_of_results")
        for k, (r, e) in enumerate(zip(p["rounds"], log)):
            me = e["me"]
            g, l = extents(p, r)
            dims = tuple(r["dims"])
            send, recv, out, truth = e["scatter"]
            where = f"{p['kind']} {p['layout']} round {k} rank {rank} {dims}"
            mine = truth[rank // per_tile] if p["kind"] == "cube" else truth
            want = mine[part(p, r, me)]
            check(out is not None, f"{where}: scatter returned nothing", "scatter-none")
            got = host(out.view[:])
            kept(out, where)
            check(got.dtype == want.dtype and got.shape == want.shape,
                  f"{where}: scattered {got.dtype}{got.shape}, expected "
                  f"{want.dtype}{want.shape}", "scatter-shape")
            check(same_bits(got, want),
                  lambda: f"{where}: scatter: {first_difference(got, want)}", "scatter-value")
            check(out.dims == dims and out.units == r["units"],
                  f"{where}: scatter gave dims {out.dims} units {out.units!r}",
                  "scatter-metadata")
            if given(r, 0, rank):
                check(same_bits(host(recv[0].view[:]), want),
                      f"{where}: the given receive quantity was not filled", "scatter-given")
                untouched(where + " scatter", *recv)
                mon.count("given_receivers")
                mon.count("given_to_some_ranks", r["given"][0] == 2)
            else:
                check(same_bits(recv[1].base, recv[2]), f"{where}: unrelated memory changed",
                      "stray-write")
            if send:
                check(not np.shares_memory(host(out.data), send[1].base),
                      f"{where}: the scattered quantity shares memory with the sent one",
                      "shared-memory")
                check(same_bits(send[1].base, send[2]),
                      f"{where}: scatter changed the sent quantity", "send-changed")
            mon.count("scattered_points", want.size)
            gm, into, whole = e["gather"]
            check(same_bits(gm[1].base, gm[2]), f"{where}: gather changed the sent quantity",
                  "send-changed")
            if me != 0:
                check(whole is None, f"{where}: gather returned data off root",
                      "gather-off-root")
                check(same_bits(into[1].base, into[2]),
                      f"{where}: gather wrote to a rank which is not root", "stray-write")
                continue
            check(whole is not None, f"{where}: gather returned nothing on root",
                  "gather-none")
            got = host(whole.view[:])
            kept(whole, where)
            check(got.dtype == truth.dtype and got.shape == truth.shape,
                  f"{where}: gathered {got.dtype}{got.shape}, expected "
                  f"{truth.dtype}{truth.shape}", "gather-shape")
            check(not np.shares_memory(host(whole.data), gm[1].base),
                  f"{where}: the gathered quantity shares memory with the sent one",
                  "shared-memory")
            gdims = ("tile",) + dims if p["kind"] == "cube" else dims
            check(whole.dims == gdims and whole.units == r["units"],
                  f"{where}: gather gave dims {whole.dims} units {whole.units!r}",
                  "gather-metadata")
            check(same_bits(got, truth),
                  lambda: f"{where}: gather: {first_difference(got, truth)}", "gather-value")
            if r["given"][1]:
                check(same_bits(host(into[0].view[:]), truth),
                      f"{where}: the given gather quantity was not filled", "gather-given")
                untouched(where + " gather", *into)
            mon.count("gathered_points", got.size)
            if any(d.endswith("_interface") and (is_x(d) or is_y(d)) for d in dims):
                mon.count("overlap_points", got.size)


def run(p, mon):
    size = p["layout"][0] * p["layout"][1] * (1 if p["kind"] == "tile" else 6)
    # dimensions missing from a quantity make ranks hold the same part: fine
    world = simmpi.random_world(size, random.Random(p["seed"]))
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    return p if size > 1 else None


def world_size(p):
    return p["layout"][0] * p["layout"][1] * (1 if p["kind"] == "tile" else 6)


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
