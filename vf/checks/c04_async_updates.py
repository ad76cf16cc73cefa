"""C04: overlapping asynchronous updates never deadlock, leak or interfere, for any schedule."""
import random

import numpy as np

from .. import realmpi, simmpi
from ..core import Violation
from ..fields import (DTYPES, LAYOUTS, SIGNED, compare, make_pads, random_dims)
from . import c01_scalar_halo as scalar
from . import c02_vector_halo as vector
from . import c03_interface_sync as sync
from .c02_vector_halo import STAGGER, substitute

ID = "C04"
LEVEL = "exploration"
RULE = (
    "A case is a random program, the same on all ranks, of 2-6 overlapping scalar, vector "
    "and interface updates whose waits come in any order, with gathers and barriers in "
    "between, run under a seeded hostile MPI schedule (rank order policy, eager or "
    "rendezvous sends, delayed delivery, synchronising or lazy collectives). Non-trivial: at "
    "least two updates were in flight at once. Distinct interleavings are counted from the "
    "recorded event traces.")
COUNTS = {"quick": 900, "thorough": 16000}
REQUIRED = {"executions": 250, "overlapping": 250, "interleavings": 250,
            "mpi_rendezvous": 10000, "waits_out_of_order": 100}
ASSUMPTIONS = ["every rank starts and waits for updates in the same program order",
               "data being sent is not modified between start and wait"]


def generate(rng, tier):
    L = rng.choice([1, 1, 1, 1, 2] if tier == "quick" else [1, 1, 1, 2, 2, 3])
    n = rng.randint(1, 4)
    ops = []
    for k in range(rng.randint(2, 6)):
        kind = rng.choice(["scalar", "scalar", "vector", "sync"])
        seed = rng.randrange(2**31)
        n_points = rng.randint(1, min(n, 3))
        if kind == "scalar":
            dims, lens = random_dims(
                rng, scalar.horizontal(rng.choice(["center", "interface"])), 1)
            p = dict(dims=dims, lens=lens, pads=[make_pads(rng, dims, n_points)],
                     dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS))
        else:
            dims, lens = random_dims(rng, ["y", "x"], 1)
            dims = ["Y" if d == "y" else "X" if d == "x" else d for d in dims]
            st = rng.choice(sorted(STAGGER)) if kind == "vector" else "D"
            p = dict(dims=dims, lens=lens, stagger=st,
                     pads=[[make_pads(rng, substitute(dims, yx), n_points)
                            for yx in STAGGER[st]]],
                     dtype=rng.choice(SIGNED), layout=[rng.choice(LAYOUTS) for _ in "xy"])
        p.update(kind=kind, L=L, n=n, n_points=n_points, seed=seed)
        ops.append(p)
    # often make several updates look alike, so that only tags tell them apart
    if rng.random() < 0.5:
        for k in range(1, len(ops)):
            if rng.random() < 0.7:
                j = rng.randrange(k)
                ops[k] = {**ops[j], "seed": ops[k]["seed"]}
    events, started, waiting = [], 0, []
    while started < len(ops) or waiting:
        if started < len(ops) and (not waiting or rng.random() < 0.65):
            events.append(["start", started])
            waiting.append(started)
            started += 1
        else:
            events.append(["wait", waiting.pop(rng.randrange(len(waiting)))])
        if rng.random() < 0.08:
            events.append([rng.choice(["barrier", "gather", "test"]), rng.randrange(10**6)])
    return dict(L=L, n=n, ops=ops, events=events, seed=rng.randrange(2**31))


def directed(tier):
    out = []
    rng = random.Random(5)
    for i in range(16):
        p = generate(rng, "quick")
        base = p["ops"][0]
        p["ops"] = [{**base, "seed": 100 + k} for k in range(5)]
        order = list(range(5))
        rng.shuffle(order)
        p["events"] = [["start", k] for k in range(5)] + [["wait", k] for k in order]
        out.append(p)
    # very many updates in flight at once, waited for last first
    for count in (40, 151, 600, 1102 if tier == "quick" else 5001):
        p = generate(rng, "quick")
        base = next(o for k in range(1000) for o in generate(rng, "quick")["ops"]
                    if o["L"] == 1 and o["kind"] == ["scalar", "sync", "vector"][count % 3]
                    and not o["lens"])
        p.update(L=1, n=base["n"], ops=[{**base, "seed": 500 + k} for k in range(count)],
                 events=[["start", k] for k in range(count)]
                 + [["wait", k] for k in reversed(range(count))])
        out.append(p)
    return out


MODULES = {"scalar": scalar, "vector": vector, "sync": sync}


def program(comm, rank, p):
    import fv3gfs.util as util

    cs = scalar.communicator(util, comm, p["L"])
    data, reqs, gathered = [], {}, []
    for op in p["ops"]:
        if op["kind"] == "scalar":
            data.append(scalar.build(util, op, rank))
        else:
            data.append([MODULES[op["kind"]].build(util, op, rank, w) for w in (0, 1)])
    for what, k in p["events"]:
        if what == "start":
            op = p["ops"][k]
            if op["kind"] == "scalar":
                reqs[k] = cs.start_halo_update(data[k][0], op["n_points"])
            elif op["kind"] == "vector":
                reqs[k] = cs.start_vector_halo_update(
                    data[k][0][0], data[k][1][0], op["n_points"])
            else:
                reqs[k] = cs.start_synchronize_vector_interfaces(
                    data[k][0][0], data[k][1][0])
        elif what == "wait":
            reqs.pop(k).wait()
        elif what == "barrier":
            comm.barrier()
        elif what == "gather":
            q = util.Quantity(np.full((2, 2), rank + k, float), dims=["y", "x"], units="")
            gathered.append((k, cs.gather(q)))
    return data, gathered


def judge(p, results, mon):
    for k, op in enumerate(p["ops"]):
        rows = [r[0][k] for r in results]
        try:
            MODULES[op["kind"]].judge(op, rows, mon)
        except Violation as e:
            raise Violation(f"update {k} ({op['kind']}) of program {p['events'][:40]}: {e}",
                            "async-" + e.mechanism)
    for rank, (_, gathered) in enumerate(results):
        for k, q in gathered:
            if rank == 0:
                L = p["L"]
                want = np.repeat(np.repeat(
                    np.arange(6 * L * L).reshape(6, L, L), 2, axis=1), 2, axis=2) + k
                if not np.array_equal(q.view[:], want):
                    raise Violation("a gather between start and wait of halo updates gave "
                                    "wrong data", "async-gather")
            elif q is not None:
                raise Violation("gather returned data on a rank which is not root",
                                "async-gather")


def run(p, mon):
    world = simmpi.random_world(6 * p["L"] ** 2, random.Random(p["seed"]))
    results = world.run(lambda comm, rank: program(comm, rank, p))
    simmpi.observe(mon, world)
    judge(p, results, mon)
    order = [k for w, k in p["events"] if w == "wait"]
    if order != sorted(order):
        mon.count("waits_out_of_order")
    depth = best = 0
    for w, _ in p["events"]:
        depth += {"start": 1, "wait": -1}.get(w, 0)
        best = max(best, depth)
    mon.count("overlapping", best > 1)
    return p if best > 1 else None


def world_size(p):
    return 6 * p["L"] ** 2


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
