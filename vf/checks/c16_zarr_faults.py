"""C16: rejected states, crashes and storage faults do not damage what ZarrMonitor stored."""
import random

import numpy as np

from .. import simmpi
from ..core import Violation, check
from ..fields import is_x, is_y, same_bits
from ..zstore import FAULTS, InjectedFault, SharedStore, here, replay
from . import c15_zarr_store as zs

ID = "C16"
LEVEL = "exploration"
RULE = (
    "Four kinds of cases on the simulated MPI with a logged shared store. reject: between "
    "good states every rank offers a state with a missing or additional variable or time, other "
    "units, dimension names or order, another extent, or another calendar, and the store's "
    "content is compared byte for byte before and after; the records must then be as if it "
    "had never been offered. crash: the log of a run is cut after every store operation and "
    "all records completed by then are read from the remains. fault: one write fails with "
    "OSError, ValueError, TypeError or RuntimeError, which has to reach the caller, and completed records are read. reopen: another "
    "monitor opens the finished store in a mode which keeps its content (a, r+, w-, r) and "
    "offers states, whatever comes of that, the records are read; opening it with w-, or an "
    "empty store with r or r+, has to fail and change nothing. Non-trivial: at "
    "least one rejection, crash point or fault with a completed record before it.")
COUNTS = {"quick": 420, "thorough": 9000}
REQUIRED = {"rejections": 200, "crash_points": 4000, "faults": 30, "records_after_damage": 3000,
            "reopened": 30, "modes_refused": 90}
ASSUMPTIONS = [
    "all ranks are offered an inconsistent state together",
    "a store operation on one key is atomic and durable when it returns",
    "after a crash or fault the monitor is not used again",
]

BAD = ["missing", "extra", "units", "dims", "order", "extent", "swap", "cells", "time",
       "calendar"]


def generate(rng, tier):
    kind = rng.choice(["reject", "reject", "crash", "fault", "reopen"])
    p = zs.generate(rng, "quick")
    p.update(kind=kind, target="shared", mode="w", before=False, n=rng.randint(2, 3),
             with_time=rng.random() < 0.85)
    if kind != "reject" and p["layout"][0] * p["layout"][1] > 2:
        p["layout"] = [1, 1]
    p["bad"] = [[rng.randint(1, p["n"]), rng.choice(BAD), rng.randrange(2**31)]
                for _ in range(rng.randint(1, 3))]
    p["fail_at"] = rng.randint(20, 120)
    p["again"] = [rng.choice(["a", "a", "r+", "w-", "r"]), rng.choice(["same", "renamed"])]
    return p


def directed(tier):
    rng = random.Random(61)
    out = []
    for bad in BAD:
        for layout in ([1, 1], [1, 2]):
            p = generate(rng, "quick")
            p.update(kind="reject", layout=layout, bad=[[1, bad, 5], [2, bad, 6]], n=2,
                     with_time=bad == "calendar" or layout == [1, 1])
            out.append(p)
    # many variables, of which one is wrong
    for i in range(4 if tier == "quick" else 24):
        p = generate(rng, "quick")
        cells = p["variables"][0]["cells"]
        p.update(kind="reject", layout=[1, 1], n=2,
                 bad=[[1, rng.choice(BAD[:-1]), rng.randrange(2**31)] for _ in range(8)])
        p["variables"] = [zs.random_variable(rng, f"q{k}", cells) for k in range(20)]
        out.append(p)
    for mode in ("a", "r+", "w-", "r"):
        for names in ("same", "renamed"):
            p = generate(rng, "quick")
            p.update(kind="reopen", layout=[1, 1], again=[mode, names])
            out.append(p)
    return out


def again(comm, rank, p, store, times):
    """a later program offers states to the store, keeping what is there"""
    import fv3gfs.util as util

    here(comm, rank)
    rng = random.Random(p["seed"] * 137 + rank)
    partitioner = util.CubedSpherePartitioner(util.TilePartitioner(p["layout"]))
    monitor = util.ZarrMonitor(store, partitioner, mode=p["again"][0], mpi_comm=comm)
    for i in range(2):
        state, _ = zs.state_of(util, p, rank, i, times, rng)
        if p["again"][1] == "renamed":
            state = {k if k == "time" else "new_" + k: v for k, v in state.items()}
        for name in state:
            if name != "time":
                state[name].view[:] = 1
        monitor.store(state)


def spoil(util, p, state, bad, seed):
    """the state made inconsistent with the earlier ones; None if that is not possible"""
    rng = random.Random(seed)
    state = dict(state)
    names = sorted(n for n in state if n != "time")
    name = rng.choice(names)
    q = state[name]
    if bad == "missing":
        del state[rng.choice(sorted(state))]
    elif bad == "extra":
        state[rng.choice(["aaa", "zzz", "uu"])] = q
    elif bad == "units":
        other = rng.choice([q.units + "x", q.units.swapcase(), q.units[1:], "x" + q.units])
        if other == q.units:
            other += "x"
        state[name] = util.Quantity(q.data, dims=q.dims, units=other,
                                    origin=q.origin, extent=q.extent)
    elif bad == "dims":
        plain = [n for n in names if any(d in zs.OTHER for d in state[n].dims)]
        if not plain:
            return None
        name = rng.choice(plain)
        q = state[name]
        dims = list(q.dims)
        dims[next(i for i, d in enumerate(dims) if d in zs.OTHER)] = "renamed"
        state[name] = util.Quantity(q.data, dims=dims, units=q.units, origin=q.origin,
                                    extent=q.extent)
    elif bad == "order":
        if len(q.dims) < 2:
            return None
        state[name] = q.transpose(q.dims[1:] + q.dims[:1])
    elif bad == "extent":
        plain = [n for n in names if any(d in zs.OTHER for d in state[n].dims)]
        if not plain:
            return None
        name = rng.choice(plain)
        q = state[name]
        i = next(i for i, d in enumerate(q.dims) if d in zs.OTHER)
        extent = list(q.extent)
        extent[i] += rng.choice([-1, 1])
        if extent[i] < 1:
            return None
        data = np.zeros(extent, q.data.dtype)
        state[name] = util.Quantity(data, dims=q.dims, units=q.units)
    elif bad in ("swap", "cells"):
        def tile(d, length):
            n = p["layout"][0 if is_y(d) else 1] if is_y(d) or is_x(d) else 1
            ov = int(n > 1 and d.endswith("_interface"))
            return n, ov, (length - ov) * n + ov
        extents = []
        for n in names:
            dims, old = state[n].dims, state[n].extent
            for i in range(len(dims)):
                if bad == "cells" and (is_y(dims[i]) or is_x(dims[i])):
                    extents.append((n, old[:i] + (old[i] + 1,) + old[i + 1:]))
                for j in range(i if bad == "swap" else 0):
                    # as many points on the tile, arranged in another shape
                    new = list(old)
                    for a, b in ((i, j), (j, i)):
                        n_a, ov, _ = tile(dims[a], old[a])
                        new[a], left = divmod(tile(dims[b], old[b])[2] - ov, n_a)
                        new[a] = 0 if left else new[a] + ov
                    if min(new) > 0 and tuple(new) != old:
                        extents.append((n, tuple(new)))
        if not extents:
            return None
        name, extent = rng.choice(extents)
        q = state[name]
        state[name] = util.Quantity(np.zeros(extent, q.data.dtype), dims=q.dims, units=q.units)
    elif bad == "time":
        import cftime

        if state.pop("time", None) is None:
            state["time"] = cftime.DatetimeNoLeap(2000, 1, 1)
    elif bad == "calendar":
        import cftime

        if "time" not in state:
            return None

        other = next(c for c in zs.CALENDARS
                     if getattr(cftime, c)(2000, 1, 1).calendar != state["time"].calendar)
        state["time"] = getattr(cftime, other)(2001, 1, 1)
    return state


def program(comm, rank, p, store, times, counts):
    import fv3gfs.util as util

    here(comm, rank)
    rng = random.Random(p["seed"] * 131 + rank)
    partitioner = util.CubedSpherePartitioner(util.TilePartitioner(p["layout"]))
    monitor = util.ZarrMonitor(store, partitioner, mode="w", mpi_comm=comm)
    for i in range(p["n"] + 1):
        if i and p["kind"] == "reject":
            for at, bad, seed in p["bad"]:
                if at != i:
                    continue
                state, _ = zs.state_of(util, p, rank, i - 1, times, rng)
                state = spoil(util, p, state, bad, seed)
                if state is None:
                    continue
                comm.barrier()
                before = dict(store.data)
                comm.barrier()
                try:
                    monitor.store(state)
                except ValueError:
                    if rank == 0:
                        counts["rejections"] += 1
                        counts["reject_" + bad] = counts.get("reject_" + bad, 0) + 1
                else:
                    raise Violation(f"a state which is inconsistent with the earlier ones "
                                    f"({bad}) was stored", "accepts-inconsistent")
                comm.barrier()
                check(dict(store.data) == before,
                      lambda: f"rejecting a state ({bad}) changed the store: "
                      + str([k for k in store.data if store.data[k] != before.get(k)][:5]),
                      "rejected-state-changed-store")
                comm.barrier()
        if i == p["n"]:
            break
        store.mark(rank, ("start", i))
        state, _ = zs.state_of(util, p, rank, i, times, rng)
        monitor.store(state)
        store.mark(rank, ("done", i))


def modes(p, store, mon):
    """opening a store in a mode it does not allow fails and leaves it as it is"""
    import fv3gfs.util as util

    partitioner = util.CubedSpherePartitioner(util.TilePartitioner(p["layout"]))
    empty = {}
    for mode, s in (("r", empty), ("r+", empty), ("w-", store)):
        before = {k: bytes(s[k]) for k in s}
        try:
            util.ZarrMonitor(s, partitioner, mode=mode)
        except Exception:
            mon.count("modes_refused")
        else:
            raise Violation(f"a store with {len(before)} keys was opened with mode {mode!r}",
                            "accepts-mode")
        check({k: bytes(s[k]) for k in s} == before,
              f"refusing to open a store with mode {mode!r} changed it", "record-damaged")


def completed(log, size):
    done = {}
    for rank, op, what, _ in log:
        if op == "event" and what[0] == "done":
            done.setdefault(what[1], set()).add(rank)
    n = 0
    while len(done.get(n, ())) == size:
        n += 1
    return n


def check_remains(p, data, n, times, wants, mon, where):
    """all records below n are intact in what is left"""
    import cftime
    import zarr

    if n == 0:
        return
    try:
        group = zarr.open_group(data, mode="r")
        for name, want in wants.items():
            a = group[name]
            check(a.shape[0] >= n and a.shape[1:] == want.shape[1:],
                  f"{where}: {name} has shape {a.shape}", "record-lost")
            got = a[:n]
            check(same_bits(zs.native(got), zs.native(want[:n])), f"{where}: completed records of {name} changed",
                  "record-damaged")
        if p["with_time"]:
            t = group["time"]
            got = cftime.num2date(t[:n], t.attrs["units"], t.attrs["calendar"])
            check([str(x) for x in got] == [str(x) for x in times[:n]],
                  f"{where}: times of completed records are {got}", "record-damaged")
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{where}: completed records cannot be read: "
                        f"{type(e).__name__}: {e}", "record-lost")
    mon.count("records_after_damage", n)


def setup():
    zs.setup()


def run(p, mon):
    size = 6 * p["layout"][0] * p["layout"][1]
    times = zs.times_of(p, p["n"])
    store = SharedStore(("C16", p["seed"]),
                        fail_at=p["fail_at"] if p["kind"] == "fault" else None,
                        fault=FAULTS[p["seed"] % len(FAULTS)])
    counts = {"rejections": 0}
    wants = {r["name"]: np.stack([zs.whole(p, r, i) for i in range(p["n"])])
             for r in p["variables"]}
    try:
        world = simmpi.random_world(size, random.Random(p["seed"]))
        try:
            world.run(lambda comm, rank: program(comm, rank, p, store, times, counts))
        except InjectedFault:
            mon.count("faults")
            n = completed(store.log, size)
            mon.count("faults_after_records", n > 0)
            check_remains(p, dict(store.data), n, times, wants, mon,
                          f"after a failed write (number {p['fail_at']})")
            return p if n else None
        check(not store.faults, f"a failed write (number {p['fail_at']}) was not reported to "
              "the caller", "fault-swallowed")
        simmpi.observe(mon, world)
        for k, v in counts.items():
            mon.count(k, v)
        zs.check_chunks(p, list(store.log), mon)
        zs.read_back(p, store, p["n"], times, mon, "after rejected states"
                     if p["kind"] == "reject" else "store")
        mon.count("records", p["n"])
        if p["kind"] == "reopen":
            size0 = len(store.data)
            modes(p, store, mon)
            world = simmpi.random_world(size, random.Random(p["seed"] + 1))
            try:
                world.run(lambda comm, rank: again(comm, rank, p, store, times))
                mon.count("reopened_and_stored")
            except Exception as e:  # refusing is fine, stored records must survive
                mon.seen("reopening_refused_with", type(e).__name__)
            check_remains(p, dict(store.data), p["n"], times, wants, mon,
                          f"after a monitor opened it with mode {p['again'][0]!r}")
            mon.count("reopened")
            return p if size0 else None
        if p["kind"] != "crash":
            return p if counts["rejections"] else None
        log = list(store.log)
        changes = [i for i, e in enumerate(log) if e[1] in ("set", "del")]
        rng = random.Random(p["seed"])
        if len(changes) > 150:
            changes = sorted(rng.sample(changes, 150))
        hit = False
        for i in changes:
            n = completed(log[:i + 1], size)
            mon.count("crash_points")
            hit |= n > 0
            check_remains(p, replay(log, i + 1), n, times, wants, mon,
                          f"after a crash at store operation {i}")
        return p if hit else None
    finally:
        store.forget()
