"""C17: write_state / read_state: a state survives the file, and failures are reported."""
import os
import random
import shutil
import tempfile

import cftime
import fsspec
import numpy as np

from .. import cube, faultfs
from ..core import Violation, check
from ..fields import LAYOUTS, Memory, first_difference, place, same_bits

ID = "C17"
LEVEL = "exploration"
RULE = (
    "A case writes a random state (0-5 quantities of 0-4 dimensions with halos, any dtype "
    "which netCDF can hold, special floating point values, units including units of time, "
    "five calendars, sub-second times) with write_state to a local file, a remote "
    "filesystem whose files cannot seek while written or one in memory, possibly over an older file, reads it with read_state and compares values bit "
    "for bit, dims, units and time. Then one of: a state without time or with data "
    "the file cannot hold is refused and the file keeps its content; one I/O operation of writing or reading fails and has to be "
    "reported; the file is cut short and reading must fail. Non-trivial: at least one quantity.")
COUNTS = {"quick": 1500, "thorough": 30000}
REQUIRED = {"round_trips": 1200, "quantities": 2500, "time_units": 200, "refused": 150,
            "write_faults": 100, "read_faults": 100, "truncated": 300, "remote": 300,
            "refused_data": 60, "in_memory": 60}
ASSUMPTIONS = [
    "dtypes which netCDF 3 holds; integers are compared by value (int64 is stored as int32)",
    "dimension lengths agree between quantities",
]
CALENDARS = ["DatetimeJulian", "DatetimeNoLeap", "Datetime360Day", "DatetimeGregorian",
             "DatetimeProlepticGregorian", "DatetimeAllLeap"]
DIMS = ["x", "x_interface", "y", "y_interface", "z", "z_interface", "z_soil", "tracer",
        "my_dim"]
UNITS = ["m", "K", "", "%", "kg/m^2", "days", "seconds", "hours", "s", "1", "unknown",
         "days since 2000-01-01", "m s^-1"]
NAMES = ["air_temperature", "u", "pressure", "time_step", "timestep", "T", "name.with.dots",
         "surface_flag", "a1", "lat", "units", "leadtime", "Time"]


WHERE = ["TMP/state.nc"] * 4 + [
    "file://TMP/state.nc", "TMP/my state.nc", "TMP/noext", "TMP/\u00e5.b.c.nc4", "TMP/.hidden",
    "sub dir/state.nc", "TMP/a[1].nc", "TMP/#1.nc", "TMP/20160801.001500.state.tile1.nc"]


def random_state(rng):
    lens = {d: rng.randint(1, 5) for d in DIMS}
    out = []
    for name in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 5])):
        dims = rng.sample(DIMS, min(len(DIMS), rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])))
        out.append(dict(name=name, dims=dims, lens=[lens[d] for d in dims],
                        dtype=rng.choice(["f8", "f8", "f4", "i4", "i2", "i1", "b1", "i8"]),
                        units=rng.choice(UNITS), special=rng.choice([False, False, False, True, True, "same"]),
                        pads=[[rng.randint(0, 2), rng.randint(0, 2)] for _ in dims],
                        layout=rng.choice(LAYOUTS), seed=rng.randrange(2**31)))
    us = rng.choice([0, 0, 0, 500000, rng.randrange(10**6)])
    time = [rng.choice(CALENDARS), rng.choice([1, 1581, 1900, 1999, 2000, 2016, 2400]),
            rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60),
            rng.randrange(60), us]
    return dict(variables=out, time=time, time_at=rng.randint(0, 5))


def generate(rng, tier):
    return dict(state=random_state(rng), older=rng.choice([None, random_state(rng)]),
                remote=rng.random() < 0.4,
                then=rng.choice(["refuse", "write-fault", "read-fault", "truncate", "none"]),
                seed=rng.randrange(2**31))


def directed(tier):
    out = [dict(kind="dim-name", seed=i) for i in range(2)]
    rng = random.Random(4)
    for then in ("refuse", "write-fault", "read-fault", "truncate"):
        for remote in (False, True):
            p = generate(rng, "quick")
            while len(p["state"]["variables"]) < 2:
                p = generate(rng, "quick")
            out.append(dict(p, then=then, remote=remote, older=random_state(rng)))
    # arrays of a real model's size; many variables
    for n, lens, count in (("truncate", [96, 97, 20], 2), ("none", [20, 193, 192], 1),
                           ("none", [3, 2, 1], 90), ("write-fault", [1, 2, 300], 40)):
        p = generate(rng, "quick")
        p.update(then=n, remote=count > 2, older=None)
        p["state"]["variables"] = [
            dict(name=f"v{i}", dims=["z", "y", "x_interface"], lens=lens,
                 dtype=["f8", "f4", "i4"][i % 3], units=UNITS[i % len(UNITS)], special=i % 2 == 1,
                 pads=[[i % 2, 3]] * 3, layout=LAYOUTS[i % len(LAYOUTS)], seed=i)
            for i in range(count)]
        out.append(p)
    return out


def build(util, s):
    """-> (state, {name: (memory, block before, compute domain values)}, time)"""
    items, made = [], {}
    for r in s["variables"]:
        dt = np.dtype(r["dtype"])
        shape = [a + n + b for n, (a, b) in zip(r["lens"], r["pads"])]
        mem = Memory(shape, dt, r["layout"], r["seed"] % 99991)
        if dt.kind == "i" and dt.itemsize == 8:
            mem.base[...] = mem.base % (2**31 - 1)  # netCDF 3 has 32 bit integers
        inner = mem.view
        if r["dims"]:
            inner = inner[tuple(slice(a, a + n) for n, (a, b) in zip(r["lens"], r["pads"]))]
        if r["special"] == "same" and inner.size:
            inner[...] = ([np.nan, np.nan, np.inf, -0.0, 9.969209968386869e36]
                          if dt.kind == "f" else [0, 1, -1])[r["seed"] % 3]
        elif r["special"] and dt.kind == "f" and inner.size:
            i = np.finfo(dt)
            vals = [np.nan, np.inf, -np.inf, -0.0, i.tiny / 8, i.max, 9.969209968386869e36,
                    -9999.0, 1e20]
            flat = np.asarray(np.arange(inner.size).reshape(inner.shape))
            for k, v in enumerate(vals):
                with np.errstate(all="ignore"):
                    inner[flat == (r["seed"] + 3 * k) % inner.size] = v
        elif r["special"] and dt.kind == "i" and inner.size:
            i = np.iinfo(dt if dt.itemsize < 8 else np.int32)
            flat = np.asarray(np.arange(inner.size).reshape(inner.shape))
            for k, v in enumerate([i.max, i.min, 0, -1]):
                inner[flat == (r["seed"] + k) % inner.size] = v
        q = util.Quantity(place(mem.view, None, r["seed"] % 4 == 0), dims=r["dims"], units=r["units"],
                          origin=[a for a, b in r["pads"]], extent=r["lens"])
        items.append((r["name"], q))
        made[r["name"]] = (mem, mem.base.copy(), np.array(inner))
    t = s["time"]
    time = getattr(cftime, t[0])(*t[1:])
    items.insert(min(s["time_at"], len(items)), ("time", time))
    return dict(items), made, time


def same_time(a, b):
    # xarray stores fractions of a second as floating point days
    return type(a) is type(b) and a.calendar == b.calendar and abs(
        (a - b).total_seconds()) <= (1e-5 if b.microsecond else 0)


def compare(s, got, made, time, mon, where):
    names = {r["name"] for r in s["variables"]} | {"time"}
    check(set(got) == names, f"{where}: state has {sorted(got)}, expected {sorted(names)}",
          "names")
    check(same_time(got["time"], time), f"{where}: time is {got['time']!r}, expected {time!r}",
          "time")
    for r in s["variables"]:
        q = got[r["name"]]
        want = made[r["name"]][2]
        v = np.asarray(q.view[:])
        what = f"{where}: {r['name']} ({r['dtype']}, {r['dims']}, {r['units']!r})"
        check(q.dims == tuple(r["dims"]), f"{what}: dims {q.dims}", "dims")
        check(q.units == r["units"], f"{what}: units {q.units!r}", "units")
        check(v.shape == want.shape, f"{what}: shape {v.shape}, expected {want.shape}",
              "shape")
        kind = want.dtype.kind
        check(v.dtype.kind == kind and (kind == "i" or v.dtype == want.dtype),
              f"{what}: dtype {v.dtype}", "dtype")
        ok = np.array_equal(v, want) if kind == "i" else same_bits(
            np.ascontiguousarray(v), np.ascontiguousarray(want))
        if not ok and kind == "f":  # the payload of NaN is not kept by every platform
            nan = np.isnan(want)
            ok = np.array_equal(np.isnan(v), nan) and same_bits(v[~nan], want[~nan])
        check(ok, lambda: f"{what}: " + (f"values {v.tolist()}, expected {want.tolist()}"
                                         if v.size < 99 else first_difference(v, want)), "values")
        check(tuple(q.origin) == (0,) * v.ndim and tuple(q.extent) == v.shape
              and q.data.shape == v.shape, f"{what}: origin {q.origin} extent {q.extent}",
              "extent")
        if q.data.ndim:
            q.view[:] = q.view[:]  # must be usable as any other quantity
        mon.count("quantities")
        mon.count("time_units", r["units"] in ("days", "seconds", "hours", "s")
                  or "since" in r["units"])


def dim_name_case(util, p, d):
    """a quantity named like its own dimension"""
    time = cftime.DatetimeJulian(2016, 8, 1)
    z = util.Quantity(np.arange(3.0), dims=["z"], units="m")
    t = util.Quantity(np.arange(6.0).reshape(3, 2), dims=["z", "x"], units="K")
    state = {"time": time, "z": z, "t": t} if p["seed"] else {"time": time, "z": z}
    util.write_state(state, d + "/f.nc")
    got = util.read_state(d + "/f.nc")
    check(set(got) >= set(state) - {"z"} and same_time(got["time"], time)
          and ("t" not in state or np.array_equal(got["t"].data, t.data)),
          f"state with a quantity named like its dimension came back as {sorted(got)}",
          "names")
    if "z" not in got:
        raise Violation("a quantity with the name of its dimension was lost",
                        "name-equals-dim-dropped")
    check(np.array_equal(got["z"].data, z.data) and got["z"].units == "m",
          "a quantity with the name of its dimension changed", "values")
    return p


def setup():
    faultfs.register()


def run(p, mon):
    import fv3gfs.util as util

    tmp = tempfile.mkdtemp(prefix="vf-state-")
    plan = faultfs.PLAN
    plan.reset()
    faultfs.FILES.clear()
    try:
        if p.get("kind") == "dim-name":
            return dim_name_case(util, p, tmp)
        fault = p["then"] in ("write-fault", "read-fault")
        remote = p["remote"] or fault
        where = random.Random(p["seed"] + 1).choice(WHERE)
        name = "vffault://bucket/state.nc" if remote else where.replace("TMP", tmp)
        memory = remote and not fault and p["seed"] % 3 == 0
        if memory:  # files of this one can be rewritten in place and never close
            name = "memory://vf-state/" + where.split("/")[-1]
        if where.startswith("sub"):
            os.chdir(tmp)
            os.mkdir("sub dir")
        path = name.replace("file://", "")
        mon.count("remote", remote)
        mon.count("in_memory", memory)

        def content():
            if memory:
                fs = fsspec.filesystem("memory")
                return fs.cat_file(name) if fs.exists(name) else None
            if remote:
                return faultfs.FILES.get("bucket/state.nc")
            if not os.path.exists(path):
                return None
            with open(path, "rb") as f:
                return f.read()

        if p["older"] is not None:
            old, old_made, old_time = build(util, p["older"])
            util.write_state(old, name)
        state, made, time = build(util, p["state"])
        keys = list(state)
        rng = random.Random(p["seed"])
        if p["then"] == "refuse":
            before = content()
            bad = {k: v for k, v in state.items() if k != "time"}
            what, error = "without time", ValueError
            if p["seed"] % 2:
                what = ["of complex numbers", "of numbers beyond 32 bits",
                        "with an empty name"][p["seed"] // 2 % 3]
                q = util.Quantity(np.full(2, [1j, 2**40, 1][p["seed"] // 2 % 3]),
                                  dims=["z"], units="m")
                bad = dict(bad, time=time, **{"" if what.endswith("name") else "bad": q})
                error = Exception
                mon.count("refused_data")
            try:
                util.write_state(bad, name)
            except error:
                mon.count("refused")
            else:
                raise Violation(f"a state {what} was written", "accepts-invalid")
            check(content() == before, "the refused state changed the file",
                  "refused-changed-file")
        if p["then"] == "write-fault":
            op = rng.choice(["open-w", "write", "write", "close-w"])
            plan.reset(op, rng.randint(1, 3) if op == "write" else 1)
            try:
                util.write_state(state, name)
            except OSError:
                pass
            else:
                check(not plan.fired, f"a failing {op} while writing was not reported",
                      "fault-swallowed")
            mon.count("write_faults", plan.fired)
            plan.reset()
        util.write_state(state, name)
        check(list(state) == keys, "write_state changed the state's keys", "state-changed")
        for n, (mem, before, _) in made.items():
            check(same_bits(mem.base, before), f"write_state changed {n}", "state-changed")
        data = content()
        check(data is not None, "write_state wrote nothing", "names")
        if remote:
            check(plan.open_files == 0, "write_state left the file open", "file-left-open")
        if p["then"] == "read-fault":
            op = rng.choice(["open-r", "read", "read", "read"])
            plan.reset(op, rng.randint(1, 6) if op == "read" else 1)
            try:
                got = util.read_state(name)
            except Exception:
                check(plan.fired, "read_state failed without a fault", "read-failed")
                mon.count("read_faults_reported")
            else:  # the failing read was repeated or not needed: the state must be right
                compare(p["state"], got, made, time, mon, f"reading with a failing {op}")
            mon.count("read_faults", plan.fired)
            plan.reset()
        got = util.read_state(name)
        check(content() == data, "read_state changed the file", "file-changed")
        compare(p["state"], got, made, time, mon, "read_state")
        if not remote:
            # the state must not depend on the file any longer
            os.unlink(path)
            compare(p["state"], got, made, time, mon, "read_state, file removed")
            with open(path, "wb") as f:
                f.write(data)
            check(os.listdir(os.path.dirname(path) or ".") == [os.path.basename(path)],
                  f"other files were left beside {name}", "names")
        again = util.read_state(name)
        for n, q in again.items():
            if n != "time":
                check(not np.shares_memory(q.data, got[n].data),
                      f"two reads share the memory of {n}", "shared-memory")
        mon.count("round_trips")
        if p["then"] == "truncate":
            for n in sorted({rng.randrange(len(data)) for _ in range(4)} | {len(data) - 1}):
                if memory:
                    fsspec.filesystem("memory").pipe_file(name, data[:n])
                elif remote:
                    faultfs.FILES["bucket/state.nc"] = data[:n]
                else:
                    with open(path, "wb") as f:
                        f.write(data[:n])
                mon.count("truncated")
                try:
                    got = util.read_state(name)
                except Exception:
                    continue
                compare(p["state"], got, made, time, mon,
                        f"file cut after {n} of {len(data)} bytes")
        return p if p["state"]["variables"] else None
    finally:
        os.chdir("/")
        plan.reset()
        fsspec.filesystem("memory").store.clear()
        shutil.rmtree(tmp, ignore_errors=True)
