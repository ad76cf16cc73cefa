"""C05: what an update does depends only on its arguments, not on the communicator's past
(changed data, other shapes and dtypes, rejected calls, very many earlier updates)."""
import random

import numpy as np

from .. import realmpi, simmpi
from ..core import Violation
from ..fields import (DTYPES, LAYOUTS, SIGNED, compare, is_x, is_y, make_pads, random_dims, same_bits)
from . import c01_scalar_halo as scalar
from . import c02_vector_halo as vector
from . import c03_interface_sync as sync
from .c02_vector_halo import STAGGER, substitute

ID = "C05"
LEVEL = "exploration"
RULE = (
    "A case is one communicator per rank living through 8-25 blocking updates of random kind "
    "and shape on a few long-lived quantities whose data change in between, with rejected "
    "calls (no points, more points than there are, wrong grid), updates of short-lived "
    "quantities, scatter/gather and updates by a second communicator, of the same "
    "partitioner and its ranks reversed, mixed in; "
    "after every step all memory is compared with the expectation. One directed case wears "
    "each communicator with over 33000 updates first. Non-trivial: at least one update "
    "followed a rejected one or reused a quantity with new data.")
COUNTS = {"quick": 260, "thorough": 5000}
REQUIRED = {"updates": 2000, "rejected": 200, "updates_after_rejection": 200,
            "reused_with_new_data": 300, "updates_by_a_sibling": 300,
            "brief_updates": 300, "worn_communicators": 6}
ASSUMPTIONS = ["all ranks make the same sequence of calls"]


def make_quantity(rng, kind, n):
    n_halo = rng.randint(1, min(n, 3))
    if kind == "scalar":
        dims, lens = random_dims(
            rng, scalar.horizontal(rng.choice(["center", "interface"])), 1)
        p = dict(dims=dims, lens=lens, pads=[make_pads(rng, dims, n_halo, 1)],
                 dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS))
    else:
        dims, lens = random_dims(rng, ["y", "x"], 1)
        dims = ["Y" if d == "y" else "X" if d == "x" else d for d in dims]
        st = rng.choice(sorted(STAGGER)) if kind == "vector" else "D"
        p = dict(dims=dims, lens=lens, stagger=st,
                 pads=[[make_pads(rng, substitute(dims, yx), n_halo, 1)
                        for yx in STAGGER[st]]],
                 dtype=rng.choice(SIGNED), layout=[rng.choice(LAYOUTS) for _ in "xy"])
    p.update(kind=kind, n=n, n_halo=n_halo)
    return p


def generate(rng, tier):
    L = rng.choice([1, 1, 1, 2])
    n = rng.randint(1, 4)
    pool = [make_quantity(rng, k, n)
            for k in ["scalar", "scalar", "vector", "sync"] + [
                rng.choice(["scalar", "vector", "sync"]) for _ in range(2)]]
    steps = []
    for _ in range(rng.randint(8, 25)):
        k = rng.randrange(len(pool))
        u = rng.random()
        what = "update" if u < 0.62 else "reject" if u < 0.8 else "brief" if u < 0.9 else "tile"
        steps.append([what, k, rng.randrange(2**31)])
    return dict(L=L, n=n, pool=pool, steps=steps, seed=rng.randrange(2**31), wear=0,
                siblings=rng.random() < 0.3)


def directed(tier):
    rng = random.Random(17)
    p = generate(rng, "quick")
    p["L"] = 1
    p["steps"] = [["update", k % len(p["pool"]), 50 + k] for k in range(12)]
    p["wear"] = 33000
    return [p]


class Wearing:
    """forwards to the real communicator and counts what is sent; while wearing it swallows
    messages"""

    def __init__(self, comm):
        self._comm, self.wearing, self.sent = comm, False, 0

    def __getattr__(self, name):
        return getattr(self._comm, name)

    def Send(self, *args, **kw):
        self.sent += 1
        return self._comm.Send(*args, **kw)

    def Sendrecv(self, *args, **kw):
        self.sent += 1
        return self._comm.Sendrecv(*args, **kw)

    def Isend(self, buf, dest, tag=0):
        self.sent += 1
        if not self.wearing:
            return self._comm.Isend(buf, dest, tag=tag)
        if not 0 <= tag <= simmpi.TAG_UB:
            raise Violation(f"after many updates a message is sent with tag {tag}, beyond "
                            f"what MPI guarantees ({simmpi.TAG_UB})", "tag-range")
        return self

    Issend = Isend

    def Recv(self, buf, source, tag=0, **kw):
        if not self.wearing:
            return self._comm.Recv(buf, source=source, tag=tag, **kw)

    def Irecv(self, buf, source, tag=0, **kw):
        if not self.wearing:
            return self._comm.Irecv(buf, source=source, tag=tag, **kw)
        return self

    def wait(self):
        pass

    Wait = wait


# pairs of horizontal dims which are not a C grid
WRONG = [(["Y", "X"], ["y", "X"]), (["y", "x"], ["y", "X"]), (["Y", "x"], ["Y", "X"]),
         (["Y", "x"], ["y", "x"]), (["y", "x"], ["y", "x"]), (["Y", "X"], ["Y", "X"]),
         (["y", "X"], ["y", "X"]), (["Y", "x"], ["Y", "x"]), (["y", "X"], ["Y", "x"])]


def wrong_grid(util, pair, n, where):
    names = dict(y="y", x="x", Y="y_interface", X="x_interface")
    out = []
    for k, horizontal in enumerate(pair):
        dims = [names[d] for d in horizontal]
        shape = [n + (d in "XY") for d in horizontal]
        if where < 2:
            dims.insert(2 * where, "z")
            shape.insert(2 * where, 2)
        data = np.arange(float(np.prod(shape))).reshape(shape) + 100 * k
        out.append(util.Quantity(data, dims=dims, units=""))
    return out


def too_many(spec, seed):
    """a number of halo points which must be rejected: none, or more than one side has"""
    if seed % 2:
        return 0
    pads = spec["pads"][0]
    least = min(min(pad) for one in ([pads] if spec["kind"] == "scalar" else pads)
                for pad, d in zip(one, spec["dims"]) if d in "XY" or is_x(d) or is_y(d))
    return least + (1 if seed % 4 else 4)


class Shape:
    """what the oracles want to know of a quantity"""

    def __init__(self, q):
        self.dims, self.origin, self.extent = q.dims, q.origin, q.extent


class Snapshot:
    def __init__(self, mem):
        self.base, self.view_of = mem.base.copy(), mem.view_of

    @property
    def view(self):
        return self.view_of(self.base)


def wear(util, cs, comm, n):
    comm.wearing = True
    x = util.Quantity(np.zeros((2, 1)), dims=["y_interface", "x"], units="")
    y = util.Quantity(np.zeros((1, 2)), dims=["y", "x_interface"], units="")
    for _ in range(n):
        cs.start_synchronize_vector_interfaces(x, y)
    comm.wearing = False


def update(cs, kind, qs, reach):
    if kind == "scalar":
        cs.halo_update(qs[0], reach)
    elif kind == "vector":
        cs.vector_halo_update(*qs, reach)
    else:
        cs.synchronize_vector_interfaces(*qs)


def brief(util, cs, p, rank, k, seed):
    """updates of quantities which are gone afterwards, others may lie in the same place"""
    out = []
    for i in range(3):
        spec = dict(p["pool"][(k + i) % len(p["pool"])], L=p["L"], seed=seed + i)
        reach = spec["n_points"] = random.Random(seed).randint(1, spec["n_halo"])
        spec["mseed"] = p["seed"] + k
        rows = build(util, spec, rank)
        update(cs, spec["kind"], [r[0] for r in rows], reach)
        out.append((spec, [(Shape(r[0]), Snapshot(r[1])) + tuple(r[2:]) for r in rows]))
        del rows
    return out


def build(util, spec, rank):
    if spec["kind"] == "scalar":
        return [scalar.build(util, spec, rank)]
    mod = vector if spec["kind"] == "vector" else sync
    return [mod.build(util, spec, rank, w) for w in (0, 1)]


def program(comm, rank, p):
    import fv3gfs.util as util

    real = comm
    comm = Wearing(comm)
    cs = scalar.communicator(util, comm, p["L"])
    if p["wear"]:
        wear(util, cs, comm, p["wear"])
    log, live = [], {}
    both, me = [cs, cs], rank
    for what, k, seed in p["steps"]:
        second = is_second(p, what, seed)
        if second and both[1] is both[0]:
            # a second communicator of the same partitioner, its ranks reversed
            both[1] = util.CubedSphereCommunicator(Wearing(comm.Split(0, -me)), cs.partitioner)
        cs = both[second]
        rank = world_size(p) - 1 - me if second else me
        spec = dict(p["pool"][k], L=p["L"], seed=seed, n_points=1, mseed=p["seed"] + k)
        if what == "tile":
            t = cs.tile
            q = util.Quantity(np.full((1, 2), seed % 1000 + rank, "f8"), dims=["y", "x"],
                              units="")
            log.append(("tile", t.gather(q), seed))
            continue
        if what == "brief":
            log.append(("brief", brief(util, cs, p, rank, k, seed)))
            continue
        reach = random.Random(seed).randint(1, spec["n_halo"])
        spec["n_points"] = reach
        kind = spec["kind"]
        rows = build(util, spec, rank)
        qs = [r[0] for r in rows]
        # the same Quantity objects live on, with new data
        if (k, second) in live:
            for new, old in zip(rows, live[k, second]):
                old[1].base[...] = new[1].base
            rows = [old[:2] + new[2:] for new, old in zip(rows, live[k, second])]
            qs = [r[0] for r in rows]
        live[k, second] = rows
        if what == "reject":
            before = [r[1].base.copy() for r in rows]
            after = [r[1].base for r in rows]
            error, sent = None, comm.sent
            try:
                if kind == "scalar":
                    cs.halo_update(qs[0], too_many(spec, seed))
                elif kind == "vector":
                    cs.vector_halo_update(*qs, too_many(spec, seed))
                else:
                    if seed % 8 == 0:
                        qs = [qs[1], qs[0]]
                    else:
                        qs = wrong_grid(util, WRONG[seed % len(WRONG)], p["n"], seed % 3)
                        before = [q.data.copy() for q in qs]
                        after = [q.data for q in qs]
                    cs.synchronize_vector_interfaces(*qs)
            except Violation:
                raise
            except Exception as e:
                error = e
            changed = any(not same_bits(b, a) for b, a in zip(before, after))
            log.append(("reject", type(error).__name__, changed, kind, comm.sent - sent,
                        [q.dims for q in qs]))
            continue
        update(cs, kind, qs, reach)
        # keep what memory looks like now, later steps change it
        rows = [(r[0], Snapshot(r[1])) + tuple(r[2:]) for r in rows]
        log.append(("update", spec, rows[0] if kind == "scalar" else rows))
    return log


def is_second(p, what, seed):
    return p["siblings"] and what in ("update", "brief") and seed % 7 < 3


def judge(p, results, mon):
    rejected = False
    used = set()
    for i, (what, k, seed) in enumerate(p["steps"]):
        entries = [r[i] for r in results]
        if is_second(p, what, seed):
            entries.reverse()
            mon.count("updates_by_a_sibling")
        try:
            if what == "update":
                spec = entries[0][1]
                mod = {"scalar": scalar, "vector": vector, "sync": sync}[spec["kind"]]
                mod.judge(spec, [e[2] for e in entries], mon)
                mon.count("updates")
                mon.count("updates_after_rejection", rejected)
                mon.count("reused_with_new_data", k in used)
                used.add(k)
            elif what == "brief":
                for j, (spec, _) in enumerate(entries[0][1]):
                    mod = {"scalar": scalar, "vector": vector, "sync": sync}[spec["kind"]]
                    rows = [e[1][j][1] for e in entries]
                    mod.judge(spec, [r[0] if spec["kind"] == "scalar" else r for r in rows],
                              mon)
                    mon.count("brief_updates")
            elif what == "reject":
                for rank, (_, name, changed, kind, sent, dims) in enumerate(entries):
                    if name == "NoneType":
                        raise Violation(f"rank {rank}: an invalid {kind} update of {dims} was "
                                        "accepted", "accepted-invalid")
                    if sent:
                        raise Violation(f"rank {rank}: a rejected {kind} update of {dims} sent "
                                        f"{sent} messages", "rejected-but-sent")
                    if changed:
                        raise Violation(f"rank {rank}: a rejected {kind} update changed data",
                                        "rejected-but-changed")
                rejected = True
                mon.count("rejected")
            else:
                L = p["L"]
                for rank, (_, q, s) in enumerate(entries):
                    if rank % (L * L) == 0:
                        want = np.repeat(np.arange(L * L).reshape(L, L), 2, axis=1)
                        want = want + (s % 1000 + rank)
                        if not np.array_equal(q.view[:], want):
                            raise Violation(f"rank {rank}: tile gather gave wrong data",
                                            "tile-gather")
        except Violation as e:
            raise Violation(f"step {i} ({what}) of {len(p['steps'])}: {e}",
                            "history-" + e.mechanism)
    return rejected


def run(p, mon):
    world = simmpi.random_world(6 * p["L"] ** 2, random.Random(p["seed"]))
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    if p["wear"]:
        mon.count("worn_communicators", len(results))
    return p


def world_size(p):
    return 6 * p["L"] ** 2


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
