"""C18: open_restart gives every rank its part of every variable in the restart files."""
import collections
import json
import os
import pickle
import random
import shutil
import tempfile

import cftime
import numpy as np

from .. import cube, faultfs, realmpi, simmpi
from ..core import Violation, check
from ..fields import LAYOUTS, Memory, first_difference, is_x, is_y, same_bits

ID = "C18"
LEVEL = "exploration"
RULE = (
    "A case writes synthetic Fortran restart files for the six tiles (random variables from "
    "the restart table, tracers with and without metadata, variables without any, required "
    "and optional files, coupler.res in four calendars, decoys under another label) to a "
    "local directory or a remote filesystem and opens them on all ranks of the simulated MPI, "
    "with random only_names, to_state and tracer_properties; every variable on every rank is "
    "compared bit for bit with the file's array. In some cases a required file is missing or "
    "one open or read fails, which must not go unnoticed. Non-trivial: at least two variables "
    "were loaded.")
COUNTS = {"quick": 380, "thorough": 8000}
REQUIRED = {"opened": 220, "variables": 5000, "only_names": 60, "to_state": 60, "tracers": 200,
            "times": 100, "leading_axes": 20, "faults": 20, "dropped_without_metadata": 100}
ASSUMPTIONS = ["horizontal sizes divisible by the layout", "one record per file (Time=1)",
               "restart files have a Time coordinate, as the Fortran model writes it"]
TABLE = None
FILES = ["fv_core.res", "fv_srf_wnd.res", "fv_tracer.res", "sfc_data", "phy_data"]
CALENDAR = {1: cftime.Datetime360Day, 2: cftime.DatetimeJulian, 3: cftime.DatetimeGregorian,
            4: cftime.DatetimeNoLeap}
# zaxis_5: a leading axis which tracer_properties do not name
Z = {"zaxis_5": 5, "z": 3, "z_interface": 4, "z_soil": 2}


def table():
    """{standard name: (name in file, dims, units)} of the Fortran model's restart files, as
    documented by restart_properties.yml; names which stand for two variables are left out"""
    global TABLE
    if TABLE is None:
        with open(os.path.join(os.path.dirname(__file__), "..", "data",
                               "restart_table.json")) as f:
            every = json.load(f)
        count = collections.Counter(v[0] for v in every.values())
        TABLE = {std: v for std, v in every.items() if count[v[0]] == 1}
    return TABLE


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [2, 2], [1, 2], [2, 1]])
    variables = []
    std_names = sorted(table())
    for k, std in enumerate(rng.sample(std_names, rng.randint(0, rng.choice(
            [6] * 12 + [len(std_names)])))):
        variables.append(dict(kind="known", std=std, file=rng.choice(FILES)))
    # names which end or begin with another's name
    alike = rng.choice([[None, None], [None, None], ["ratio", "mixing_ratio"],
                        ["wind", "x"]])
    for k in range(rng.choice([0, 1, 2])):
        dims = ["z"] * rng.choice([0, 1]) + [rng.choice(["y", "y_interface"]),
                                             rng.choice(["x", "x_interface"])]
        variables.append(dict(kind="tracer", std=alike[k] or f"tracer_{k}_mixing_ratio",
                              name=f"tr{k}",
                              dims=dims, units=rng.choice(["kg/kg", "g/kg"]),
                              lead=rng.random() < 0.25, file=rng.choice(FILES)))
    for k in range(rng.choice([0, 0, 1])):
        variables.append(dict(kind="units", std=f"age{k}", name=f"age{k}", dims=["z"],
                              units=rng.choice(["days", "hours", "m", "1"]),
                              file=rng.choice(FILES)))
    for k in range(rng.choice([0, 1])):
        variables.append(dict(kind="unknown", std=f"nothing{k}", name=f"nothing{k}",
                              dims=["y", "x"], units=None, file=rng.choice(FILES)))
    for v in variables:
        if v.get("lead"):
            v["dims"] = ["zaxis_5"] + v["dims"]
        v.update(dtype=rng.choice(["f8", "f8", "f8", "f4", "f4", "i4", "i4", "i2", "i1"]), seed=rng.randrange(2**31),
                 given=rng.random() < 0.5, layout=rng.choice(LAYOUTS),
                 pads=[[rng.randint(0, 2), rng.randint(0, 2)] for _ in range(4)],
                 file_units=v["units"] if v["kind"] == "units" else
                 None if v["kind"] == "unknown" else
                 rng.choice([None, "none", "days", "seconds", "K"]))
    rng.shuffle(variables)
    only = None
    if rng.random() < (0.7 if alike[0] else 0.35):
        pool = [v["std"] for v in variables] + ["time", "absent_name", "x_wind"]
        only = rng.sample(pool, rng.randint(0, len(pool)))
    return dict(layout=layout, cells=[rng.randint(1, 3) for _ in "yx"], variables=variables,
                label=rng.choice(["", "", None, "20160801.001500", "lbl", "a"]), only=only,
                only_as=rng.choice(["list", "tuple", "set", "iterator"]),
                to_state=rng.random() < 0.4, old_time=rng.random() < 0.5,
                tracers=rng.random() < 0.6,
                optional=[f for f in FILES[3:] if rng.random() < 0.6],
                coupler=rng.choice([None, 1, 2, 2, 3, 4]),
                time=[rng.choice([1999, 2000, 2016]), rng.randint(1, 12), rng.randint(1, 28),
                      rng.randrange(24), rng.randrange(60), rng.randrange(60)],
                remote=rng.random() < 0.4, slash=rng.random() < 0.2,
                fault=rng.choice([None] * 4 + ["open-r", "read", "missing"]),
                fault_at=rng.randint(1, 12), seed=rng.randrange(2**31))


def directed(tier):
    """each variable of the restart table once"""
    rng = random.Random(31)
    names = sorted(table())
    out = []
    for i in range(0, len(names), 8):
        p = generate(rng, "quick")
        p.update(variables=[], only=None, fault=None, to_state=False, optional=FILES[3:],
                 layout=[[1, 1], [2, 1]][i // 8 % 2])
        for k, std in enumerate(names[i:i + 8]):
            p["variables"].append(dict(
                kind="known", std=std, file=FILES[k % 5], dtype="f8", seed=i + k + 1,
                given=False, layout="C", pads=[[0, 0]] * 3, file_units="none"))
        out.append(p)
    # many ranks, arrays of a real model's size
    for layout, cells in (([3, 3], [2, 3]), ([1, 7], [2, 2]), ([5, 4], [1, 2]), ([1, 1], [48, 48])):
        p = generate(rng, "quick")
        p.update(layout=layout, cells=cells, fault=None)
        out.append(p)
    return out


def properties(v, tab):
    """(name in file, dims, units in the state)"""
    if v["kind"] == "known":
        name, dims, units = tab[v["std"]]
        return name, list(dims), units
    return v["name"], v["dims"], v["units"]


def tile_extent(p, dims):
    out = []
    for d in dims:
        if is_y(d) or is_x(d):
            i = 0 if is_y(d) else 1
            out.append(p["cells"][i] * p["layout"][i] + d.endswith("_interface"))
        else:
            out.append(Z[d])
    return out


def tile_values(p, v, dims, tile, decoy=False):
    shape = tile_extent(p, dims)
    idx = np.arange(int(np.prod(shape))).reshape(shape)
    h = cube.mix(v["seed"], tile, 77 if decoy else 0, idx)
    a = np.array(cube.to_dtype(h, np.dtype(v["dtype"])))
    if a.dtype.kind == "f" and v["seed"] % 4 == 0:
        a.reshape(-1)[v["seed"] % a.size] = [np.nan, -0.0, np.inf][v["seed"] % 3]
    return a


def write_files(p, dirname, tab):
    import xarray as xr

    written = {}

    def put(name, data):
        if p["remote"]:
            faultfs.FILES["bucket/restart/" + name] = data
        else:
            with open(dirname + "/" + name, "wb") as f:
                f.write(data)
        written[name] = True

    prefix = p["label"] + "." if p["label"] else ""
    labels = [(prefix, False), ("" if prefix else "decoy.", True)]
    for prefix, decoy in labels:
        for tile in range(6):
            for fname in FILES:
                if fname in FILES[3:] and fname not in p["optional"] and not decoy:
                    continue
                data = {}
                for v in p["variables"]:
                    if v["file"] != fname:
                        continue
                    name, dims, _ = properties(v, tab)
                    # some tools name the axes as the state does
                    axes = ["Time"] + [
                        f"zaxis_{Z[d]}" if d in Z and p["seed"] % 2 else d for d in dims] if (
                        p["seed"] % 5 == 0 and v["kind"] in ("known", "tracer" if p["tracers"] else "")) else ["Time"] + [
                        ("zaxis_%d" % Z[d]) if d in Z else
                        ("yaxis_" if is_y(d) else "xaxis_") + ("2" if "_i" in d else "1")
                        for d in dims]
                    attrs = {"long_name": name}
                    if v["file_units"] is not None:
                        attrs["units"] = v["file_units"]
                    data[name] = xr.DataArray(
                        tile_values(p, v, dims, tile, decoy)[None], dims=axes, attrs=attrs)
                ds = xr.Dataset(data, coords={"Time": ("Time", [1.0], {
                    "units": "time level", "cartesian_axis": "T"})})
                put(f"{prefix}{fname}.tile{tile + 1}.nc", bytes(ds.to_netcdf()))
        if (p["seed"] % 2 == 0) if decoy else p["coupler"]:
            t = p["time"]
            now = [1850, 1, 1, 0, 0, 0] if decoy else t
            lines = [
                f"{p['coupler'] or 3:6d}        (Calendar: no_calendar=0, thirty_day_months=1, "
                "julian=2, gregorian=3, noleap=4)",
                "".join("%6d" % x for x in (t[0] - 1, 1, 1, 0, 0, 0))
                + "        Model start time:   year, month, day, hour, minute, second",
                "".join("%6d" % x for x in now)
                + "        Current model time: year, month, day, hour, minute, second", ""]
            put(prefix + "coupler.res", "\n".join(lines).encode())


def program(comm, rank, p, dirname, tab):
    import fv3gfs.util as util

    part = util.CubedSpherePartitioner(util.TilePartitioner(p["layout"]))
    c = util.CubedSphereCommunicator(comm, part)
    kw = {}
    if p["label"] != "" or rank % 2 == 0:
        kw["label"] = p["label"]
    if p["only"] is not None:
        names = p["only"]
        kw["only_names"] = {"list": list, "tuple": tuple, "set": set,
                            "iterator": iter}[p["only_as"]](names)
    if p["tracers"]:
        kw["tracer_properties"] = {
            v["std"]: {"dims": v["dims"][bool(v.get("lead")):], "units": v["units"], "restart_name": v["name"]}
            for v in p["variables"] if v["kind"] == "tracer"}
    given, state = {}, None
    if p["to_state"]:
        state = {}
        for v in p["variables"]:
            name, dims, units = properties(v, tab)
            if not v["given"] or v["kind"] in ("units", "unknown"):
                continue
            if v["kind"] == "tracer" and not p["tracers"]:
                continue
            ext = local_extent(p, dims)
            pads = v["pads"][:len(dims)]
            shape = [a + n + b for n, (a, b) in zip(ext, pads)]
            mem = Memory(shape, v["dtype"], v["layout"], v["seed"] % 9999 + rank)
            q = util.Quantity(mem.view, dims=dims, units=units,
                              origin=[a for a, b in pads], extent=ext)
            state[v["std"]] = q
            given[v["std"]] = (q, mem, mem.base.copy())
        if p["old_time"]:
            state["time"] = cftime.DatetimeJulian(1700, 1, 1)
        state["unrelated"] = util.Quantity(np.arange(4.0), dims=["z"], units="u")
        kw["to_state"] = state
    out = util.open_restart(dirname, c, **kw)
    return out, given, state


def local_extent(p, dims):
    out = []
    for d in dims:
        if is_y(d) or is_x(d):
            out.append(p["cells"][0 if is_y(d) else 1] + d.endswith("_interface"))
        else:
            out.append(Z[d])
    return out


def judge(p, results, tab, mon, where):
    per = p["layout"][0] * p["layout"][1]
    loaded = 0
    for rank, (state, given, to_state) in enumerate(results):
        tile, sub = divmod(rank, per)
        row, col = divmod(sub, p["layout"][1])
        want = {}
        for v in p["variables"]:
            if v["file"] in FILES[3:] and v["file"] not in p["optional"]:
                continue
            name, dims, units = properties(v, tab)
            if v["kind"] == "unknown":
                mon.count("dropped_without_metadata")
                continue
            std = v["std"]
            if v["kind"] == "tracer":
                mon.count("tracers")
                mon.count("leading_axes", p["tracers"] and v.get("lead"))
                if not p["tracers"]:
                    # known to nobody: kept under its own name if it has units
                    if v["file_units"] is None:
                        continue
                    std, units, dims = v["name"], v["file_units"], None
            if v["kind"] == "units":
                dims = None
            if p["only"] is not None and std not in p["only"]:
                continue
            want[std] = (v, dims, units)
        time = None
        if p["coupler"] and (p["only"] is None or "time" in p["only"]):
            time = CALENDAR[p["coupler"]](*p["time"])
            mon.count("times")
        elif p["to_state"] and p["old_time"]:
            time = cftime.DatetimeJulian(1700, 1, 1)
        names = set(want) | ({"time"} if time is not None else set())
        if p["to_state"]:
            names |= set(given) | {"unrelated"}
            check(state is to_state or set(state) == set(to_state),
                  f"{where} rank {rank}: to_state has {sorted(to_state)}", "to-state")
            check(np.array_equal(to_state["unrelated"].data, np.arange(4.0)),
                  "unrelated variable changed", "to-state")
        check(set(state) == names, f"{where} rank {rank}: state has {sorted(state)}, expected "
              f"{sorted(names)}", "names")
        check(state.get("time") == time and type(state.get("time")) is type(time),
              f"{where} rank {rank}: time {state.get('time')!r}, expected {time!r}", "time")
        for std, (v, dims, units) in want.items():
            q = state[std]
            _, fdims, _ = properties(v, tab)
            whole = tile_values(p, v, fdims, tile)
            sl = []
            for d in fdims if dims is not None else ():
                if is_y(d) or is_x(d):
                    c = p["cells"][0 if is_y(d) else 1]
                    at = row if is_y(d) else col
                    sl.append(slice(at * c, (at + 1) * c + d.endswith("_interface")))
                else:
                    sl.append(slice(None))
            exp = whole[tuple(sl)]
            got = np.asarray(q.view[:])
            if std in given and v["given"]:
                pass  # dtype of the given quantity is the file's
            check(got.shape == exp.shape and same_bits(
                np.ascontiguousarray(got), np.ascontiguousarray(exp)),
                lambda: f"{where} rank {rank}: {std}: " + (
                    first_difference(got, exp) if got.shape == exp.shape
                    else f"shape {got.shape}, expected {exp.shape}")
                + f" (dtype {got.dtype}, {exp.dtype})", "values")
            check(q.units == units and (dims is None or q.dims == tuple(dims)),
                  f"{where} rank {rank}: {std} has dims {q.dims} units {q.units!r}, expected "
                  f"{dims} {units!r}", "metadata")
            mon.count("variables")
            loaded += rank == 0
        for std, (q, mem, before) in given.items():
            if std not in want:
                check(same_bits(mem.base, before), f"{where} rank {rank}: {std} of to_state "
                      "changed although it was not loaded", "to-state")
                continue
            check(state[std] is q, f"{where} rank {rank}: {std} of to_state was replaced",
                  "to-state")
            now = before.copy()
            mem.view_of(now)[tuple(slice(o, o + e) for o, e in zip(q.origin, q.extent))] = \
                q.view[:]
            check(same_bits(mem.base, now), f"{where} rank {rank}: halo of {std} of to_state "
                  "changed", "to-state")
    return loaded


def setup():
    faultfs.register()


def run(p, mon):
    tab = table()
    plan = faultfs.PLAN
    plan.reset()
    faultfs.FILES.clear()
    p = dict(p)
    if p["fault"] in ("open-r", "read"):
        p["remote"] = True
    tmp = None
    try:
        if p["remote"]:
            dirname = "vffault://bucket/restart"
        else:
            tmp = tempfile.mkdtemp(prefix="vf-restart-")
            dirname = tmp + ["", "", "", "/RESTART", "/my run.1", "/\u00e5", "relative"][p["seed"] % 7]
            if dirname.endswith("relative"):
                os.chdir(tmp)
                dirname = "relative"
            os.makedirs(dirname, exist_ok=True)
        write_files(p, dirname, tab)
        if p["fault"] == "missing":
            rng = random.Random(p["seed"])
            name = f"{rng.choice(FILES[:3])}.tile{rng.randint(1, 6)}.nc"
            name = (p["label"] + "." if p["label"] else "") + name
            if p["remote"]:
                del faultfs.FILES["bucket/restart/" + name]
            else:
                os.unlink(dirname + "/" + name)
        elif p["fault"]:
            plan.reset(p["fault"], p["fault_at"])
        if p["slash"]:
            dirname += "/"
        size = 6 * p["layout"][0] * p["layout"][1]
        world = simmpi.random_world(size, random.Random(p["seed"]))
        where = f"open_restart layout {p['layout']}"
        try:
            results = world.run(lambda comm, rank: program(comm, rank, p, dirname, tab))
        except Violation:
            raise
        except Exception as e:
            if p["fault"] and (plan.fired or p["fault"] == "missing"):
                mon.count("faults")
                mon.count("faults_reported")
                return None
            raise
        check(p["fault"] != "missing", "a missing required restart file was not reported",
              "fault-swallowed")
        mon.count("faults", plan.fired)
        plan.reset()
        simmpi.observe(mon, world)
        loaded = judge(p, results, tab, mon, where)
        mon.count("opened")
        mon.count("only_names", p["only"] is not None)
        mon.count("to_state", p["to_state"])
        return p if loaded > 1 else None
    finally:
        plan.reset()
        os.chdir("/")
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def world_size(p):
    return 6 * p["layout"][0] * p["layout"][1]


def real(comm, rank, p, mon):
    """the same on real MPI processes, from a local directory, without faults"""
    p, tab = dict(p, fault=None, remote=False), table()
    tmp = comm.bcast(tempfile.mkdtemp(prefix="vf-restart-") if rank == 0 else None)
    try:
        if rank == 0:
            write_files(p, tmp, tab)
        comm.barrier()
        parts = comm.gather(pickle.dumps(program(comm, rank, p, tmp, tab)), root=0)
        if rank == 0:
            judge(p, [pickle.loads(x) for x in parts], tab, mon,
                  f"open_restart layout {p['layout']}")
            mon.count("opened")
    finally:
        if rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
