"""C32: repeating the same work keeps no more memory, arrays, files or threads than before."""
import gc
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import tracemalloc
import types
import weakref
from datetime import datetime, timedelta

import cftime
import numpy as np

from .. import core, simmpi
from ..core import Violation, check

ID = "C32"
LEVEL = "exploration"
RULE = (
    "A case repeats one kind of work (or a random mixture of them) with the same communicators, "
    "partitioners and monitors and the same shapes, but new quantities each time, as a model does "
    "every time step: updates, rejected updates, scatter and gather, states, files, restart files, Zarr records, "
    "nudging, corners, conversions, views, buffers, timers, captures, each also failing where "
    "it can. After a warm-up and three times more the ledger is read: arrays and quantities "
    "which are still alive after everyone dropped them, memory blocks allocated in the package "
    "(tracemalloc, 1 kB and more), instances of its classes, open file descriptors, temporary files and threads. Growth in each of the "
    "three intervals is a leak. Non-trivial: at least one array was followed.")
COUNTS = {"quick": 48, "thorough": 900}
REQUIRED = {"readings": 200, "arrays_followed": 10000, "repetitions": 5000, "kinds": 18,
            "refused": 400}
ASSUMPTIONS = ["the same partitioners, communicators and shapes are used again",
               "everything is released after a garbage collection"]

INTERVALS = 3
BIG = 1024  # bytes; freed small blocks stay with the allocators of Python and numpy
LEVELS = 48  # so that even the thinnest slab of an array is a big block
PER = 8  # repetitions between two readings
DIMS = ["z", "y", "x"]
NUMPY = os.path.dirname(np.__file__) + os.sep


def belongs(o):
    """is it an instance of a class, or a function, of the package?"""
    t = type(o)
    m = o.__module__ if t is types.FunctionType else t.__module__
    return type(m) is str and m.startswith("fv3gfs.")


class Ledger:
    """what is held at a moment"""

    def __init__(self, tmp):
        self.refs, self.tmp, self.readings = [], tmp, []

    def follow(self, thing):
        self.refs.append(weakref.ref(thing))
        return thing

    def array(self, shape, dtype="f8", fill=None):
        a = np.empty(shape, dtype)
        a[...] = len(self.refs) % 100 if fill is None else fill
        return self.follow(a)

    def read(self):
        gc.collect()
        blocks = size = 0
        where = {}
        own = os.path.join(core.REPO, "fv3gfs", "util") + os.sep
        harness = os.path.join(core.VERIF, "vf") + os.sep
        for t in tracemalloc.take_snapshot().traces:
            if t.size < BIG:
                continue
            for frame in reversed(t.traceback):
                if frame.filename.startswith(harness) or (
                        "-packages" in frame.filename
                        and not frame.filename.startswith(NUMPY)):
                    break  # memory which another library keeps for itself
                if frame.filename.startswith(own):
                    blocks += 1
                    size += t.size
                    at = f"{os.path.basename(frame.filename)}:{frame.lineno}"
                    where[at] = where.get(at, 0) + 1
                    break
        objects = sum(belongs(o) for o in gc.get_objects())
        alive = sum(r() is not None for r in self.refs)
        self.readings.append(dict(
            alive=alive, objects=objects, blocks=blocks, size=size, where=where,
            descriptors=len(os.listdir("/proc/self/fd")),
            temporary=sum(len(f) for _, _, f in os.walk(self.tmp)),
            threads=threading.active_count()))

    def judge(self, what):
        r = self.readings
        for key, least in (("alive", PER // 2), ("blocks", PER // 2), ("objects", PER // 2),
                           ("descriptors", PER // 2),
                           ("temporary", PER // 2), ("threads", PER // 2)):
            got = [x[key] for x in r]
            steps = [b - a for a, b in zip(got, got[1:])]
            if min(steps) < least:
                continue
            first, last = r[0]["where"], r[-1]["where"]
            more = sorted(last, key=lambda k: first.get(k, 0) - last[k])[:3]
            names = {"alive": "arrays and quantities nobody uses any longer",
                     "blocks": "blocks of memory allocated by the package",
                     "objects": "instances of the package's classes and functions",
                     "descriptors": "open file descriptors", "temporary": "files",
                     "threads": "threads"}
            raise Violation(
                f"{what}, {PER} more times between readings: {names[key]} {got}"
                + (f", most at {more}" if key == "blocks" else ""), f"leak-{key}")


class Kit:
    """what one rank uses again and again"""

    def __init__(self, util, comm, ledger, p, tmp):
        self.util, self.comm, self.ledger, self.p, self.tmp = util, comm, ledger, p, tmp
        self.tile = util.TilePartitioner((1, 1))
        self.part = util.CubedSpherePartitioner(self.tile)
        self.rank = 0
        self.n = p["n"]
        self.timer = util.Timer()
        if comm is not None:
            self.rank = comm.Get_rank()
            self.cs = util.CubedSphereCommunicator(comm, self.part)
            self.cs.timer = self.timer
        self.monitors = {}
        self.counted = {"refused": 0}
        self.time = cftime.DatetimeJulian(2016, 8, 1)

    def q(self, stagger="", order="zyx", halo=2, dtype="f8", ranked=True):
        dims, shape, origin, extent = [], [], [], []
        for d in order:
            s = int(d in stagger)
            dims.append(d + "_interface" * s)
            h = halo if d != "z" else 0
            e = (self.n if d != "z" else LEVELS) + s
            shape.append(e + 2 * h)
            origin.append(h)
            extent.append(e)
        a = self.ledger.array(tuple(shape), dtype)
        return self.ledger.follow(self.util.Quantity(
            a, dims=dims, units="m", origin=tuple(origin), extent=tuple(extent)))

    def refuse(self, f, *args, **kw):
        try:
            f(*args, **kw)
        except Exception:
            self.counted["refused"] += 1
            return
        raise Violation(f"{getattr(f, '__name__', f)} accepted what it cannot do",
                        "accepts-invalid")


# ------------------------------------------------------------ work done by all ranks
def halo(k, i):
    q = k.q(order=["zyx", "yxz"][i % 2])
    if i % 3:
        k.cs.halo_update(q, 1 + i % 2)
    else:
        a, b = k.cs.start_halo_update(q, 1), k.cs.start_halo_update(k.q(), 2)
        b.wait()
        a.wait()


def vector(k, i):
    x, y = k.q(["", "y"][i % 2]), k.q(["", "x"][i % 2])
    k.cs.vector_halo_update(x, y, 1 + i % 2)


def sync(k, i):
    k.cs.synchronize_vector_interfaces(k.q("y"), k.q("x"))


def rejected(k, i):
    k.refuse(k.cs.halo_update, k.q(), 3)
    k.refuse(k.cs.halo_update, k.q(), 0)
    k.refuse(k.cs.vector_halo_update, k.q(), k.q(), 3)
    k.refuse(k.cs.synchronize_vector_interfaces, k.q(), k.q())


def scatter(k, i):
    whole = None
    if k.rank == 0:
        whole = k.util.Quantity(k.ledger.array((6, LEVELS, k.n, k.n)), dims=["tile"] + DIMS,
                                units="m")
    part = k.ledger.follow(k.cs.scatter(whole, recv_quantity=k.q() if i % 2 else None))
    back = k.cs.gather(part)
    if back is not None:
        k.ledger.follow(back)
        k.ledger.follow(back.data)
    k.cs.tile.scatter(k.cs.tile.gather(part))


def states(k, i):
    state = {"time": k.time, "a": k.q(), "b": k.q("x", "yx")}
    whole = k.cs.gather_state(state)
    got = k.cs.scatter_state(whole, recv_state=dict(state) if i % 2 else None)
    for v in got.values():
        if hasattr(v, "data"):
            k.ledger.follow(v.data)


def restart(k, i):
    if i % 2:
        return
    state = k.util.open_restart(k.tmp, k.cs, label="" if i % 4 else "20160801.000000",
                                only_names=None if i % 4 else ["time", "x_wind"])
    for v in state.values():
        if hasattr(v, "data"):
            k.ledger.follow(v.data)
            k.ledger.follow(v)


def zarr_all(k, i):
    """all ranks append to one store"""
    m = k.monitors.get("all")
    if m is None:
        m = k.monitors["all"] = k.util.ZarrMonitor(
            os.path.join(k.tmp, "all.zarr"), k.part, "w", mpi_comm=k.comm)
    m.store({"time": k.time + timedelta(seconds=0 * i), "a": k.q(), "c": k.q("xy", "yx")})


# ------------------------------------------------------------ work of a single rank
class Forgetful(dict):
    """a Zarr store which forgets the data"""

    def __setitem__(self, key, value):
        if key.split("/")[-1].startswith(".z"):
            super().__setitem__(key, value)


def files(k, i):
    name = os.path.join(k.tmp, "state.nc") if i % 3 else "memory://vf-c32/state.nc"
    k.util.write_state({"time": k.time, "a": k.q(), "b": k.q("x", "yxz", dtype="f4")}, name)
    for v in k.util.read_state(name).values():
        if hasattr(v, "data"):
            k.ledger.follow(v.data)
            k.ledger.follow(v)


def files_refused(k, i):
    bad = os.path.join(k.tmp, "bad.nc")
    with open(bad, "wb") as f:
        f.write(b"CDF\x02 and no more" if i % 2 else b"something else")
    k.refuse(k.util.read_state, bad)
    k.refuse(k.util.read_state, os.path.join(k.tmp, "none.nc"))
    k.refuse(k.util.write_state, {"a": k.q()}, bad)
    k.refuse(k.util.write_state, {"time": k.time, "a": k.q(dtype="c16")}, bad)
    k.refuse(k.util.write_state, {"time": k.time, "a": k.q()},
             os.path.join(k.tmp, "no", "such", "dir.nc"))


def zarr_records(k, i):
    m = k.monitors.get("records")
    if m is None:
        m = k.monitors["records"] = k.util.ZarrMonitor(Forgetful(), k.part)
    m.store({"time": k.time + timedelta(hours=i), "a": k.q(), "b": k.q("y")})
    k.refuse(m.store, {"time": k.time, "a": k.q()})


def zarr_new(k, i):
    if i % 2 == 0:
        m = k.util.ZarrMonitor({}, k.part)
        k.ledger.follow(m)
        m.store({"time": k.time, "a": k.q()})


def nudging(k, i):
    t = k.util.apply_nudging({"a": k.q(), "b": k.q()}, {"a": k.q(), "b": k.q()},
                             {"a": timedelta(hours=1)}, timedelta(minutes=15))
    k.ledger.follow(t["a"].data)
    k.refuse(k.util.apply_nudging, {"a": k.q()}, {}, {"a": timedelta(hours=1)},
             timedelta(minutes=15))


def corners(k, i):
    q = k.q(["", "x", "y"][i % 3], "xyz")
    k.util.fill_scalar_corners(q, "xy"[i % 2], k.tile, 0, 2)
    k.refuse(k.util.fill_scalar_corners, k.q(), "x", k.tile, 0, 2)


def conversions(k, i):
    q = k.q(order=["zyx", "xy"][i % 2])
    da = k.ledger.follow(q.data_array)
    back = k.util.Quantity.from_data_array(da, origin=(1,) * q.data.ndim,
                                           extent=tuple(e - 1 for e in q.extent))
    k.ledger.follow(back)
    t = k.ledger.follow(back.transpose(tuple(reversed(back.dims))))
    k.util.ensure_equal_units(q.units, t.units)
    k.refuse(q.transpose, ["nothing"])
    k.refuse(k.util.Quantity, k.ledger.array((2, 2)), dims=["x"], units="m")


def views(k, i):
    q = k.q()
    q.view[:] = 1
    a = k.ledger.follow(q.view[0])
    b = k.ledger.follow(q.view.southwest.sel(x=slice(-1, 2), y=0))
    q.view.northeast[:, -1:1, 0] = a.sum() + b.sum()
    w = k.part.boundary(k.util.WEST, 0)
    k.ledger.follow(w.send_view(q, 1).base)
    k.refuse(w.recv_view, q, 5)


def buffers(k, i):
    f = k.ledger.array((3, 4, 5)).transpose(2, 1, 0)
    with k.util.array_buffer(np.empty, (3, 4), np.float64) as a:
        with k.util.send_buffer(np.empty, f) as b, k.util.recv_buffer(np.empty, f) as c:
            c[:] = b
            a[:] = 0

    def fails():
        with k.util.recv_buffer(np.empty, f):
            raise KeyError("stop")
    k.refuse(fails)


def allocation(k, i):
    sizer = k.monitors.setdefault("sizer", k.util.SubtileGridSizer.from_tile_params(
        nx_tile=4, ny_tile=4, nz=3, n_halo=2, layout=(1, 1), extra_dim_lengths={"s": 2}))
    factory = k.monitors.setdefault("factory", k.util.QuantityFactory(sizer, np))
    for f in (factory.zeros, factory.ones, factory.empty):
        q = f(["x", "y_interface", "s"], "m", dtype="f8")
        k.ledger.follow(q)
        k.ledger.follow(q.data)


def timers(k, i):
    with k.timer.clock("step"):
        with k.timer.clock("inner"):
            pass
    k.timer.times, k.timer.hits
    if i % 5 == 0:
        k.timer.reset()

    def fails():
        with k.timer.clock("fails"):
            raise KeyError("stop")
    k.refuse(fails)
    k.refuse(k.timer.stop, "never started")


def capture(k, i):
    with open(os.path.join(k.tmp, "stream"), "w+b", buffering=0 if i % 2 else 512) as f:
        with k.util.capture_stream(f) as out:
            f.write(b"text" * 100)
        k.ledger.follow(out)

        def fails():
            with k.util.capture_stream(f):
                raise KeyError("stop")
        k.refuse(fails)
    k.refuse(k.util.capture_stream(io.StringIO()).__enter__)


def times(k, i):
    k.util.datetime64_to_datetime(np.datetime64("2016-08-01T00:15:00"))
    k.util.units_are_equal("m s^-1", "m/s")
    k.ledger.follow(k.util.TilePartitioner((1 + i % 3, 2)))
    k.util.get_tile_index(i, 48)


PARALLEL = {f.__name__: f for f in (halo, vector, sync, rejected, scatter, states, restart,
                                    zarr_all)}
SERIAL = {f.__name__: f for f in (files, files_refused, zarr_records, zarr_new, nudging, corners,
                                  conversions, views, buffers, allocation, timers, capture,
                                  times)}
ALL = {**PARALLEL, **SERIAL}


def generate(rng, tier):
    kinds = rng.sample(sorted(ALL), rng.choice([2, 3, 3, 4, 6]))
    if rng.random() < 0.5:
        kinds = [x for x in kinds if x in SERIAL] or [rng.choice(sorted(SERIAL))]
    return dict(kinds=kinds, n=rng.randint(3, 5), seed=rng.randrange(2**31))


def directed(tier):
    return [dict(kinds=[x], n=4, seed=i) for i, x in enumerate(sorted(ALL))] + [
        dict(kinds=sorted(ALL), n=4, seed=99)]


def write_restart(tmp, n):
    import xarray as xr

    for label in ("", "20160801.000000."):
        for tile in range(1, 7):
            for name, v in (("fv_core.res", "u"), ("fv_srf_wnd.res", "u_srf"),
                            ("fv_tracer.res", "sphum")):
                dims = ["Time", "zaxis_1", "yaxis_1", "xaxis_1"]
                if v == "u_srf":
                    dims = ["Time", "yaxis_1", "xaxis_1"]
                shape = {"Time": 1, "zaxis_1": 2, "yaxis_1": n + (v == "u"), "xaxis_1": n}
                xr.Dataset({v: (dims, np.ones([shape[d] for d in dims]))},
                           coords={"Time": [1.0]}).to_netcdf(
                    f"{tmp}/{label}{name}.tile{tile}.nc", engine="scipy")
        with open(f"{tmp}/{label}coupler.res", "w") as f:
            f.write("     2        (Calendar)\n  2016  8  1  0  0  0   start\n"
                    "  2016  8  1  0 15  0   current\n")


def rounds(kit, p, read):
    for interval in range(INTERVALS + 1):
        for i in range(PER):
            for kind in p["kinds"]:
                try:
                    ALL[kind](kit, i)
                except Violation as e:
                    raise Violation(f"{kind}: {e}", e.mechanism)
        read()


def run(p, mon):
    import fv3gfs.util as util

    tmp = tempfile.mkdtemp(prefix="vf-res-")
    scratch = os.path.join(tmp, "tmp")
    os.mkdir(scratch)
    ledger = Ledger(scratch)
    old, tempfile.tempdir = tempfile.tempdir, scratch
    kits = []
    try:
        if "restart" in p["kinds"]:
            write_restart(tmp, p["n"])
        tracemalloc.start(6)
        if any(x in PARALLEL for x in p["kinds"]):
            world = simmpi.World(6, random.Random(p["seed"]), policy="roundrobin", eager=1.0,
                                 sync=1.0)  # each repetition runs just as the last one

            def program(comm, rank):
                kit = Kit(util, comm, ledger, p, tmp)
                if rank:
                    kit.tmp = os.path.join(tmp, f"rank{rank}") \
                        if any(x in SERIAL for x in p["kinds"]) else tmp
                    os.makedirs(kit.tmp, exist_ok=True)
                    if "restart" in p["kinds"]:
                        kit.tmp = tmp
                kits.append(kit)

                def read():
                    comm.barrier()
                    if rank == 0:
                        ledger.read()
                    comm.barrier()

                rounds(kit, p, read)

            world.run(program)
            simmpi.observe(mon, world)
        else:
            kits.append(Kit(util, None, ledger, p, tmp))
            rounds(kits[0], p, ledger.read)
        ledger.judge("doing " + ", ".join(p["kinds"]))
    finally:
        tracemalloc.stop()
        tempfile.tempdir = old
        shutil.rmtree(tmp, ignore_errors=True)
        import fsspec

        fsspec.filesystem("memory").store.clear()
    mon.count("readings", len(ledger.readings))
    mon.count("arrays_followed", len(ledger.refs))
    mon.count("repetitions", (INTERVALS + 1) * PER * len(kits) * len(p["kinds"]))
    mon.count("refused", sum(k.counted["refused"] for k in kits))
    for kind in p["kinds"]:
        mon.seen("kinds", kind)
    check(ledger.refs or p["kinds"] == ["timers"], "nothing was followed", "harness")
    return p if ledger.refs else None
