"""C15: what ZarrMonitor puts into a store is exactly what the ranks' states hold."""
import random
import shutil
import tempfile

import cftime
import numpy as np

from .. import cube, realmpi, simmpi
from ..core import Violation, check
from ..fields import (LAYOUTS, Memory, first_difference, is_x, is_y, place,
                      same_bits)
from ..zstore import SharedStore, here

ID = "C15"
LEVEL = "exploration"
RULE = (
    "A case is 1-4 states of 1-3 variables stored by all ranks of a cube (layouts 1x1, 2x2, "
    "1x2, ...) through ZarrMonitor on a hostile MPI schedule in which every store operation "
    "is a scheduling point too; the store is a shared mapping with an operation log, or a "
    "directory. Afterwards the store is read back with zarr and xarray and compared bit for "
    "bit with the ranks' compute domains, and the log is searched for chunks which two ranks "
    "wrote or one rank read while another wrote them. Non-trivial: several ranks per tile or "
    "several records.")
COUNTS = {"quick": 700, "thorough": 15000}
REQUIRED = {"records": 1000, "variables": 1000, "chunks_written": 10000, "times_decoded": 1000,
            "interface_variables": 300, "directory_stores": 50,
            "monitors_alone": 200}
ASSUMPTIONS = [
    "every rank stores the same variables with the same metadata",
    "shared interface points are stored by the rank with the greater index",
    "variables without x or y dimension hold the same values on the ranks which share them",
]

CALENDARS = ["DatetimeJulian", "DatetimeNoLeap", "Datetime360Day", "DatetimeGregorian",
             "DatetimeProlepticGregorian"]
OTHER = {"z": 3, "z_interface": 4, "z_soil": 2, "tracer": 2}
NAMES = ["air_temperature", "u", "v", "zz", "pressure", "abc", "T", "t", "time_step",
         "Zz"]


def random_variable(rng, name, cells):
    dims = rng.sample(sorted(OTHER), rng.choice([0, 0, 1, 1, 2]))
    for pair in (["y", "y_interface"], ["x", "x_interface"]):
        if rng.random() < 0.93:
            dims.append(rng.choice(pair))
    rng.shuffle(dims)
    return dict(name=name, dims=dims, cells=cells,
                dtype=rng.choice(["f8", "f8", "f4", "i4", "i8", "i2", "u1", "b1", "f2", "c8",
                                  "u4", ">f8", ">i2"]),
                units=rng.choice(["m", "K", "", "1", "m s^-1", "days", "%", " Pa "]),
                pads=[[rng.randint(0, 2), rng.randint(0, 2)] for _ in dims],
                layout=rng.choice(LAYOUTS), seed=rng.randrange(2**31))


def random_times(rng, n):
    y, m, d = rng.choice([(2016, 8, 1), (1999, 12, 30), (2000, 2, 28), (1, 1, 2),
                          (2400, 2, 27)])
    step = rng.choice([900, 86400, 3600, 1, 86400 * 31, -450, 7777777])
    return dict(calendar=rng.choice(CALENDARS), start=[y, m, d, rng.randrange(24),
                rng.randrange(60), rng.randrange(60)]
                + rng.choice([[], [], [250000], [rng.randrange(10**6)]]),
                step=step, step_us=rng.choice([0, 0, 0, 500000, 123457]))


def times_of(p, n):
    import datetime

    t = p["time"]
    first = getattr(cftime, t["calendar"])(*t["start"])
    return [first + datetime.timedelta(seconds=t["step"] * i, microseconds=t["step_us"] * i)
            for i in range(n)]


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [1, 1], [2, 2], [1, 2], [2, 1], [3, 1]]
                        + ([[3, 3], [2, 3]] if tier == "thorough" else []))
    cells = [rng.randint(1, rng.choice([3, 3, 3, 8])) for _ in "yx"]
    names = rng.sample(NAMES, rng.randint(1, 3))
    n = rng.randint(1, rng.choice([4, 4, 4, 10]))
    return dict(layout=layout, variables=[random_variable(rng, k, cells) for k in names],
                n=n, time=random_times(rng, n), with_time=rng.random() < 0.85,
                target=rng.choice(["shared"] * 5 + ["path", "directory-store"]),
                mode=rng.choice(["default", "w", "w", "a", "w-"]),
                before=rng.random() < 0.3, seed=rng.randrange(2**31))


def directed(tier):
    rng = random.Random(15)
    out = []
    for target in ("shared", "path", "directory-store"):
        for layout in ([1, 1], [2, 2], [1, 2]):
            p = generate(rng, "quick")
            p.update(target=target, layout=layout, n=3, with_time=True, mode="w")
            out.append(p)
    # more records than a chunk of the time axis holds; arrays of a real model's size; many
    # variables; many ranks
    small = dict(dims=["y", "x"], cells=[1, 1], pads=[[0, 0]] * 2)
    for target in ["shared"] if tier == "quick" else ["shared", "path"]:
        p = generate(rng, "quick")
        p.update(target=target, layout=[1, 1], n=1027, with_time=True, mode="w")
        p["variables"] = [dict(p["variables"][0], **small)]
        p["time"].update(step=900)
        out.append(p)
    # any number of records
    for n in list(range(9, 34, 3)) + [64, 65, 100, 129] + (
            list(range(34, 140)) + [1024, 1025] if tier == "thorough" else []):
        p = generate(rng, "quick")
        p.update(target="shared", layout=[1, 1], n=n, with_time=True, mode="w")
        p["variables"] = [dict(p["variables"][0], **small)]
        p["time"].update(step=900)
        out.append(p)
    for layout, cells, dims in (([1, 1], [48, 48], ["z", "y", "x_interface"]),
                                ([2, 2], [24, 30], ["y_interface", "x", "z_interface"]),
                                ([5, 4], [2, 3], ["y", "x_interface"]),
                                ([1, 9], [2, 2], ["y_interface", "x_interface"])):
        p = generate(rng, "quick")
        p.update(target="shared", layout=layout, n=2, with_time=True, mode="w")
        p["variables"] = [dict(p["variables"][0], dims=dims, cells=cells,
                               pads=[[3, 3]] * len(dims))]
        out.append(p)
    p = generate(rng, "quick")
    p.update(layout=[1, 1], n=2)
    p["variables"] = [random_variable(rng, f"q{i}", [2, 2]) for i in range(25)]
    return out + [p]


def extents(p, r):
    """(global tile extent, local extent)"""
    g, l = [], []
    for d in r["dims"]:
        if is_y(d) or is_x(d):
            c, n = (r["cells"][0], p["layout"][0]) if is_y(d) else (r["cells"][1],
                                                                  p["layout"][1])
            ov = int(d.endswith("_interface"))
            g.append(c * n + ov)
            l.append(c + ov)
        else:
            g.append(OTHER[d])
            l.append(OTHER[d])
    return tuple(g), tuple(l)


def values(p, r, rank, i):
    """compute domain of variable r on a rank in record i; shared edges differ between ranks"""
    _, l = extents(p, r)
    per = p["layout"][0] * p["layout"][1]
    tile, sub = divmod(rank, per)
    row, col = divmod(sub, p["layout"][1])
    key = [tile, row if any(is_y(d) for d in r["dims"]) else 99,
           col if any(is_x(d) for d in r["dims"]) else 99]
    idx = np.arange(int(np.prod(l))).reshape(l)
    a = cube.to_dtype(cube.mix(r["seed"], i, *key, idx), np.dtype(r["dtype"])).reshape(l)
    a = np.array(a)
    if a.dtype.kind == "f" and a.size and r["seed"] % 3 == 0:
        flat = a.reshape(-1)
        special = [np.nan, np.inf, -np.inf, -0.0, 0.0, np.finfo(a.dtype).tiny / 4]
        flat[r["seed"] % flat.size] = special[(r["seed"] + i) % len(special)]
    return a


def native(a):
    """any byte order will do"""
    return a.astype(a.dtype.newbyteorder("="))


def whole(p, r, i):
    """what the store has to hold for record i: [tile, ...]"""
    g, l = extents(p, r)
    out = np.zeros((6,) + g, r["dtype"])
    per = p["layout"][0] * p["layout"][1]
    for rank in range(6 * per):  # ascending: the greater rank wins at shared points
        tile, sub = divmod(rank, per)
        row, col = divmod(sub, p["layout"][1])
        sl = [tile]
        for d in r["dims"]:
            if is_y(d):
                sl.append(slice(row * r["cells"][0],
                                (row + 1) * r["cells"][0] + d.endswith("_interface")))
            elif is_x(d):
                sl.append(slice(col * r["cells"][1],
                                (col + 1) * r["cells"][1] + d.endswith("_interface")))
            else:
                sl.append(slice(None))
        out[tuple(sl)] = values(p, r, rank, i)
    return out


def make_quantity(util, p, r, rank, i):
    _, l = extents(p, r)
    shape = [a + n + b for n, (a, b) in zip(l, r["pads"])]
    mem = Memory(shape, r["dtype"], r["layout"], r["seed"] + i)
    mem.view[tuple(slice(a, a + n) for n, (a, b) in zip(l, r["pads"]))] = \
        values(p, r, rank, i)
    origin = [a for a, b in r["pads"]]
    q = util.Quantity(place(mem.view, origin, r["seed"] % 4 == 0), dims=r["dims"],
                      units=r["units"],
                      origin=origin, extent=l)
    return q, mem, mem.base.copy()


def state_of(util, p, rank, i, times, rng):
    made = {r["name"]: make_quantity(util, p, r, rank, i) for r in p["variables"]}
    items = [(n, q[0]) for n, q in made.items()]
    if p["with_time"]:
        items.append(("time", times[i]))
    rng.shuffle(items)  # ranks need not agree on the order of a dictionary
    return dict(items), made


def program(comm, rank, p, target, times, shared):
    import fv3gfs.util as util

    if shared is not None:
        here(comm, rank)
    rng = random.Random(p["seed"] * 131 + rank)
    partitioner = util.CubedSpherePartitioner(util.TilePartitioner(p["layout"]))
    kw = {} if p["mode"] == "default" else {"mode": p["mode"]}
    monitor = util.ZarrMonitor(target, partitioner, mpi_comm=comm, **kw)
    for i in range(p["n"]):
        if shared is not None:
            shared.mark(rank, ("start", i))
        state, made = state_of(util, p, rank, i, times, rng)
        keys = list(state)
        monitor.store(state)
        check(list(state) == keys, "store changed the state's keys", "state-changed")
        for n, (q, mem, before) in made.items():
            check(same_bits(mem.base, before), f"store changed {n}", "state-changed")
        if shared is not None:
            shared.mark(rank, ("done", i))


def read_back(p, target, n, times, mon, where):
    """compare everything in the store with the first n records"""
    import zarr
    import xarray as xr

    group = zarr.open_group(target, mode="r")
    names = {r["name"] for r in p["variables"]} | ({"time"} if p["with_time"] else set())
    got_names = set(group.array_keys())
    kept = {"old"} if p["before"] and p["mode"] == "a" else set()
    check(got_names == names | kept,
          f"{where}: store has {sorted(got_names)}, expected {sorted(names | kept)}",
          "store-names")
    for r in p["variables"]:
        a = group[r["name"]]
        g, _ = extents(p, r)
        want = np.stack([whole(p, r, i) for i in range(n)])
        check(a.shape == want.shape, f"{where}: {r['name']} has shape {a.shape}, expected "
              f"{want.shape}", "store-shape")
        got, want = native(a[...]), native(want)
        check(got.dtype == want.dtype, f"{where}: {r['name']} has dtype {got.dtype}, expected "
              f"{want.dtype}", "store-dtype")
        check(same_bits(got, want), lambda: f"{where}: {r['name']} {r['dims']} layout "
              f"{p['layout']}: {first_difference(got, want)}", "store-value")
        attrs = dict(a.attrs)
        check(attrs.get("_ARRAY_DIMENSIONS") == ["time", "tile"] + list(r["dims"])
              and attrs.get("units") == r["units"],
              f"{where}: {r['name']} has attributes {attrs}, dims {r['dims']} units "
              f"{r['units']!r}", "store-attributes")
        mon.count("variables")
        mon.count("interface_variables", any(d.endswith("_interface") for d in r["dims"]))
    if p["with_time"]:
        t = group["time"]
        check(t.shape == (n,), f"{where}: time has shape {t.shape}, expected {(n,)}",
              "store-shape")
        check(list(t.attrs.get("_ARRAY_DIMENSIONS", [])) == ["time"],
              f"{where}: time has attributes {dict(t.attrs)}", "store-attributes")
        got = cftime.num2date(t[...], t.attrs["units"], t.attrs["calendar"])
        check([str(x) for x in got] == [str(x) for x in times[:n]]
              and all(x.calendar == y.calendar for x, y in zip(got, times)),
              f"{where}: times {[str(x) for x in got]}, expected "
              f"{[str(x) for x in times[:n]]}", "store-time")
        mon.count("times_decoded", n)
    if not kept:
        # quantities measured in units of time must not be decoded
        with xr.open_zarr(target, chunks=None, consolidated=False, decode_timedelta=False,
                          mask_and_scale=False, use_cftime=True) as ds:
            for r in p["variables"]:
                check(ds[r["name"]].dims == ("time", "tile") + tuple(r["dims"]),
                      f"{where}: xarray sees dims {ds[r['name']].dims}", "store-attributes")
            if p["with_time"]:
                check([str(x) for x in np.atleast_1d(ds["time"].values)]
                      == [str(x) for x in times[:n]],
                      f"{where}: xarray sees times {ds['time'].values}", "store-time")


def check_chunks(p, log, mon):
    """no chunk of a record may be written by two ranks which own different parts of it"""
    horizontal = {r["name"]: [d for d in r["dims"] if is_x(d) or is_y(d)]
                  for r in p["variables"]}
    writers = {}
    for rank, op, key, _ in log:
        if op != "set" or rank is None or "/." in key or key.startswith("."):
            continue
        mon.count("chunks_written")
        writers.setdefault(key, set()).add(rank)
    for key, ranks in writers.items():
        name = key.split("/")[0]
        if name == "time":
            check(len(ranks) == 1, f"ranks {sorted(ranks)} wrote chunk {key}", "chunk-race")
        elif len(horizontal.get(name, [])) == 2:
            check(len(ranks) == 1, f"ranks {sorted(ranks)} wrote the same chunk {key}: "
                  "concurrent writes can lose data", "chunk-race")
    meta = {}
    for rank, op, key, _ in log:
        if op == "set" and rank is not None and key.endswith((".zarray", ".zattrs",
                                                              ".zgroup")):
            meta.setdefault(key, set()).add(rank)
    for key, ranks in meta.items():
        check(len(ranks) == 1, f"ranks {sorted(ranks)} wrote {key}", "metadata-race")


def setup():
    import numcodecs.blosc

    numcodecs.blosc.use_threads = False


def run(p, mon):
    import zarr

    per = p["layout"][0] * p["layout"][1]
    times = times_of(p, p["n"])
    shared, tmp = None, None
    try:
        if p["target"] == "shared":
            target = shared = SharedStore(("C15", p["seed"]))
            reader = shared
        else:
            tmp = tempfile.mkdtemp(prefix="vf-zarr-")
            reader = tmp + "/store"
            target = reader if p["target"] == "path" else zarr.DirectoryStore(reader)
            mon.count("directory_stores")
        if p["before"] and p["mode"] != "w-":
            g = zarr.open_group(reader, mode="w")
            g.create_dataset("old", data=np.arange(4))
            if p["mode"] != "a":
                name = p["variables"][0]["name"]
                g.create_dataset(name, data=np.arange(5))
        if shared is not None:
            shared.log.clear()
        world = simmpi.random_world(6 * per, random.Random(p["seed"]))
        p2 = dict(p, before=p["before"] and p["mode"] != "w-")
        world.run(lambda comm, rank: program(comm, rank, p2, target, times, shared))
        simmpi.observe(mon, world)
        if shared is not None:
            check_chunks(p, list(shared.log), mon)
        read_back(p2, reader, p["n"], times, mon, f"{p['target']} store")
        mon.count("records", p["n"])
        if p["layout"] == [1, 1]:
            alone(p, times, mon)
    finally:
        if shared is not None:
            shared.forget()
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)
    return p if per > 1 or p["n"] > 1 else None


def alone(p, times, mon):
    """two monitors without MPI, which take turns: the first tile of each"""
    import fv3gfs.util as util
    import zarr

    q = dict(p, variables=[dict(r, seed=r["seed"] + 77) for r in p["variables"]])
    stores = [zarr.MemoryStore(), {}]
    monitors = [util.ZarrMonitor(s, util.CubedSpherePartitioner(util.TilePartitioner((1, 1))))
                for s in stores]
    n = min(p["n"], 4)
    for i in range(n):
        for k, m in enumerate(monitors):
            m.store(state_of(util, [p, q][k], 0, i, times[k:] + times[:k],
                             random.Random(p["seed"]))[0])
    for k, s in enumerate(stores):
        group = zarr.open_group(s, mode="r")
        for r in [p, q][k]["variables"]:
            want = native(np.stack([whole([p, q][k], r, i)[0] for i in range(n)]))
            got = native(group[r["name"]][:, 0])
            check(got.shape == want.shape and same_bits(got, want),
                  lambda: f"monitor {k} of one process: {r['name']}: "
                  + (first_difference(got, want) if got.shape == want.shape
                     else f"shape {got.shape}, expected {want.shape}"), "store-value")
        if p["with_time"]:
            t = group["time"]
            got = [str(x) for x in cftime.num2date(t[...], t.attrs["units"],
                                                   t.attrs["calendar"])]
            check(got == [str(x) for x in (times[k:] + times[:k])[:n]],
                  f"monitor {k} of one process: times {got}", "store-time")
    mon.count("monitors_alone", 2)


def world_size(p):
    return 6 * p["layout"][0] * p["layout"][1]


def real(comm, rank, p, mon):
    """the same on real MPI processes"""
    tmp = comm.bcast(tempfile.mkdtemp(prefix="vf-zarr-") if rank == 0 else None)
    times = times_of(p, p["n"])
    try:
        program(comm, rank, dict(p, before=False), tmp + "/store", times, None)
        comm.barrier()
        if rank == 0:
            read_back(dict(p, before=False), tmp + "/store", p["n"], times, mon,
                      "store written on real MPI")
            mon.count("records", p["n"])
    finally:
        if rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
