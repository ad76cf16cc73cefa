"""C31: a distributed state keeps its content through any sequence of the package's facilities."""
import copy
import datetime
import os
import pickle
import random
import shutil
import tempfile

import cftime
import numpy as np

from .. import cube, realmpi, simmpi
from ..core import Violation, check
from ..fields import LAYOUTS, Memory, first_difference, is_x, is_y, same_bits
from ..zstore import SharedStore, here

ID = "C31"
LEVEL = "exploration"
RULE = (
    "A case is a state of 2-5 variables of a cube which goes through 5-14 random steps on all "
    "ranks of the simulated MPI: gathered and scattered (whole cube or per tile, into new or "
    "existing quantities), written to and read from state files, written as restart files "
    "and opened, allocated anew by QuantityFactory or with odd padding, transposed, "
    "converted, copied, pickled, halo updated, corners filled, nudged, written through "
    "views, stored with ZarrMonitor. After every step each rank's compute domains are "
    "compared bit for bit with a global model kept in plain arrays, within a tile also the "
    "halo; at the end the store, the gathered states and all quantities replaced on the way "
    "are compared again. Non-trivial: at least five steps of four kinds.")
COUNTS = {"quick": 400, "thorough": 9000}
REQUIRED = {"steps": 2500, "comparisons": 40000, "halo_points": 10000, "replaced": 5000,
            "records": 150, "kinds_in_sequence": 250}
ASSUMPTIONS = ["all ranks take the same steps", "layouts which are not square do without halo "
               "updates (the package refuses them)"]
PAIR = ("east_wind", "north_wind")
STEPS = ["cube", "cube-into", "tile", "file", "file", "restart", "factory", "padding",
         "transpose", "transpose", "array", "dataset", "deepcopy", "pickle", "halo", "halo",
         "vector", "corners", "nudge", "add", "zarr", "zarr"]
Z = {"z": 3, "z_interface": 4, "z_soil": 2}


def generate(rng, tier):
    layout = rng.choice([[1, 1], [1, 1], [2, 2], [2, 2], [1, 2], [2, 1]])
    c = rng.randint(2, 4)
    cells = [c, c] if layout[0] == layout[1] else [rng.randint(1, 3) for _ in "yx"]
    pair = ["y", "x"] + rng.sample(sorted(Z), rng.choice([0, 1]))
    rng.shuffle(pair)
    variables = [dict(name=n, dims=pair, dtype="f8", units="m/s") for n in PAIR]
    for k in range(rng.randint(0, 3)):
        dims = rng.sample(sorted(Z), rng.choice([0, 1, 1, 2]))
        if rng.random() < 0.85 or not dims:
            dims += [rng.choice(["y", "y_interface"]), rng.choice(["x", "x_interface"])]
        rng.shuffle(dims)
        variables.append(dict(name=rng.choice(["air_temperature", "mixing_ratio", "q",
                                               "lead_time", "a"]) + str(k), dims=dims,
                              dtype=rng.choice(["f8", "f8", "f4", "i4"]),
                              units=rng.choice(["K", "kg/kg", "", "days", "m s^-1"])))
    for v in variables:
        v.update(seed=rng.randrange(2**31))
    steps = [rng.choice(STEPS) for _ in range(rng.randint(5, 14))]
    return dict(layout=layout, cells=cells, variables=variables, steps=steps,
                time=[2016, rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), 15, 7],
                calendar=rng.choice(["DatetimeJulian", "DatetimeNoLeap", "Datetime360Day"]),
                seed=rng.randrange(2**31))


def directed(tier):
    """every step after every other one"""
    kinds = sorted(set(STEPS))
    rng = random.Random(12)
    pairs = [(a, b) for a in kinds for b in kinds]
    rng.shuffle(pairs)
    out = []
    for i in range(0, len(pairs), 6):
        p = generate(rng, "quick")
        layout = [[1, 1], [2, 2]][i // 6 % 4 == 3]
        c = rng.randint(2, 3)
        p.update(layout=layout, cells=[c, c], steps=[k for q in pairs[i:i + 6] for k in q])
        out.append(p)
    # larger arrays, many ranks
    for layout, cells in (([1, 1], [48, 48]), ([4, 4], [3, 3]), ([3, 3], [2, 2]),
                          ([1, 8], [2, 3])):
        p = generate(rng, "quick")
        p.update(layout=layout, cells=cells, steps=rng.sample(kinds, 10))
        out.append(p)
    return out


def tile_extent(p, dims):
    return [p["cells"][0] * p["layout"][0] + d.endswith("_interface") if is_y(d) else
            p["cells"][1] * p["layout"][1] + d.endswith("_interface") if is_x(d) else Z[d]
            for d in dims]


def part(p, dims, sub):
    """a rank's compute domain within its tile"""
    row, col = divmod(sub, p["layout"][1])
    out = []
    for d in dims:
        if is_y(d) or is_x(d):
            c, at = (p["cells"][0], row) if is_y(d) else (p["cells"][1], col)
            out.append(slice(at * c, (at + 1) * c + d.endswith("_interface")))
        else:
            out.append(slice(None))
    return tuple(out)


def truths(p):
    out = {}
    for v in p["variables"]:
        shape = [6] + tile_extent(p, v["dims"])
        h = cube.mix(v["seed"], np.arange(int(np.prod(shape))))
        out[v["name"]] = (h % np.uint64(1 << 9)).astype(v["dtype"]).reshape(shape)
    return out


def square(p):
    return p["layout"][0] == p["layout"][1]


class Rank:
    """one rank's state next to the model"""

    def __init__(self, util, comm, rank, p, tmp, store):
        self.util, self.comm, self.rank, self.p, self.tmp = util, comm, rank, p, tmp
        self.part = util.CubedSpherePartitioner(util.TilePartitioner(p["layout"]))
        self.cs = util.CubedSphereCommunicator(comm, self.part)
        self.per = p["layout"][0] * p["layout"][1]
        self.tile, self.sub = divmod(rank, self.per)
        self.truth = truths(p)
        self.first = {v["name"]: tuple(v["dims"]) for v in p["variables"]}
        self.order = dict(self.first)  # as the quantities have them now
        self.units = {v["name"]: v["units"] for v in p["variables"]}
        self.time = getattr(cftime, p["calendar"])(*p["time"])
        self.old, self.counts, self.records = [], {}, []
        self.rng = random.Random(p["seed"] * 7919 + rank)  # of this rank only
        self.store, self.monitor = store, None
        self.halo = {}
        whole = {n: util.Quantity(t.copy(), dims=("tile",) + self.first[n], units=self.units[n])
                 for n, t in self.truth.items()} if rank == 0 else {}
        if rank == 0:
            whole["time"] = self.time
        self.state = self.cs.scatter_state(whole)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def names(self):
        return sorted(self.first)

    def model(self, name, tile=None):
        """in the quantity's present order of dimensions"""
        t = self.truth[name][self.tile if tile is None else tile]
        return t.transpose([self.first[name].index(d) for d in self.order[name]])

    def replace(self, name, q):
        """q has memory of its own"""
        before = self.state[name]
        self.old.append((name, before, np.array(before.data)))
        check(not np.shares_memory(before.data, q.data) or before is q,
              f"the new {name} shares memory with the one it was made from", "shared-memory")
        self.state[name] = q
        self.halo.pop(name, None)
        self.count("replaced")

    def replace_all(self, new, what):
        check(set(new) == set(self.state), f"{what}: state has {sorted(new)}, expected "
              f"{sorted(self.state)}", "names")
        for n in self.names():
            self.replace(n, new[n])
        self.state["time"] = new["time"]

    def compare(self, what):
        for n in self.names():
            q = self.state[n]
            w = f"{what}, rank {self.rank}: {n}"
            check(q.dims == self.order[n] and q.units == self.units[n],
                  lambda: f"{w} has dims {q.dims} units {q.units!r}, expected "
                  f"{self.order[n]} {self.units[n]!r}", "metadata")
            want = self.model(n)[part(self.p, q.dims, self.sub)]
            got = np.asarray(q.view[:])
            check(got.shape == want.shape and same_bits(got, np.ascontiguousarray(want)),
                  lambda: f"{w}: " + (first_difference(got, want) if got.shape == want.shape
                                      else f"shape {got.shape}, expected {want.shape}")
                  + f" ({got.dtype}, {want.dtype})", "values")
            self.count("comparisons")
        check(set(self.state) == set(self.first) | {"time"},
              f"{what}, rank {self.rank}: state has {sorted(self.state)}", "names")
        check(self.state["time"] == self.time and type(self.state["time"]) is type(self.time),
              f"{what}, rank {self.rank}: time {self.state['time']!r}, expected "
              f"{self.time!r}", "time")

    def horizontal(self, name):
        d = self.first[name]
        return any(map(is_x, d)) and any(map(is_y, d))

    def width(self, q):
        """halo points all around"""
        out = 99
        for d, o, e, s in zip(q.dims, q.origin, q.extent, q.data.shape):
            if is_x(d) or is_y(d):
                out = min(out, o, s - o - e)
        return out

    def padded(self, name, need=None):
        """the same values in an array with padding; the shape may differ between ranks"""
        q = self.state[name]
        pads = []
        for d in q.dims:
            if need and (is_x(d) or is_y(d)):
                pads.append([need + self.rng.randint(0, 1), need + self.rng.randint(0, 2)])
            else:
                pads.append([self.rng.randint(0, 2), self.rng.randint(0, 2)])
        shape = [a + n + b for n, (a, b) in zip(q.extent, pads)]
        mem = Memory(shape, q.data.dtype, self.rng.choice(LAYOUTS), self.rng.randrange(10**6))
        new = self.util.Quantity(mem.view, dims=q.dims, units=q.units,
                                 origin=[a for a, b in pads], extent=q.extent)
        new.view[:] = q.view[:]
        self.replace(name, new)

    def halo_points(self, name, n, what):
        """within the tile the halo continues the model"""
        q = self.state[name]
        model = self.model(name)
        idx = []
        for i, d in enumerate(q.dims):
            o, e = q.origin[i], q.extent[i]
            sl = part(self.p, q.dims, self.sub)[i]
            if is_x(d) or is_y(d):
                # interface points one behind the shared line
                at = np.arange(-n, e + n) + sl.start
                keep = (at >= 0) & (at < model.shape[i])
                idx.append((np.arange(-n, e + n)[keep] + o, at[keep]))
            else:
                idx.append((np.arange(e) + o, np.arange(e)))
        got = q.data[np.ix_(*[a for a, b in idx])]
        want = model[np.ix_(*[b for a, b in idx])]
        check(same_bits(np.ascontiguousarray(got), np.ascontiguousarray(want)),
              lambda: f"{what}, rank {self.rank}: halo of {name}: "
              f"{first_difference(got, want)}", "halo")
        self.count("halo_points", got.size - np.prod(q.extent))

    # steps ----------------------------------------------------------------------------

    def step(self, kind, at):
        rng = random.Random(self.p["seed"] * 31 + at)  # the same on all ranks
        what = f"step {at} ({kind})"
        getattr(self, "do_" + kind.replace("-", "_"))(rng, what)
        self.compare(what)
        self.count("steps")

    def do_cube(self, rng, what, into=False):
        whole = self.cs.gather_state(self.state)
        if self.rank == 0:
            for n in self.names():
                want = np.stack([self.model(n, t) for t in range(6)])
                q = whole[n]
                check(q.dims == ("tile",) + self.order[n] and q.units == self.units[n]
                      and same_bits(np.asarray(q.view[:]), np.ascontiguousarray(want)),
                      lambda: f"{what}: gathered {n} of dims {q.dims} is wrong", "values")
                self.old.append((n, q, np.array(q.data)))
        if into:
            for n in self.names():
                self.state[n].view[:] = 0
            self.state["time"] = None
            out = self.cs.scatter_state(whole, recv_state=self.state)
            check(set(out) == set(self.state), f"{what}: {sorted(out)}", "names")
            self.state.update(out)
            self.halo.clear()
        else:
            self.replace_all(self.cs.scatter_state(whole), what)

    def do_cube_into(self, rng, what):
        self.do_cube(rng, what, into=True)

    def do_tile(self, rng, what):
        self.replace_all(self.cs.tile.scatter_state(self.cs.tile.gather_state(self.state)),
                         what)

    def do_file(self, rng, what):
        whole = self.cs.tile.gather_state(self.state)
        if self.cs.tile.rank == 0:
            path = f"{self.tmp}/state{self.tile}.nc"
            self.util.write_state(whole, path)
            whole = self.util.read_state(path)
            os.unlink(path)
        self.replace_all(self.cs.tile.scatter_state(whole), what)

    def do_restart(self, rng, what):
        import xarray as xr

        whole = self.cs.tile.gather_state(self.state)
        if self.cs.tile.rank == 0:
            names = self.names()
            for k, f in enumerate(("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res")):
                ds = self.util.to_dataset({n: whole[n] for n in names[k::3]})
                ds = ds.expand_dims("Time").assign_coords(Time=("Time", [1.0]))
                ds.to_netcdf(f"{self.tmp}/{f}.tile{self.tile + 1}.nc")
        if self.rank == 0:
            cal = {"DatetimeJulian": 2, "DatetimeNoLeap": 4, "Datetime360Day": 1}
            with open(self.tmp + "/coupler.res", "w") as f:
                f.write(f"{cal[self.p['calendar']]:6d}      (Calendar)\n     1     1     1     0"
                        "     0     0     Model start time\n"
                        + "".join(f"{t:6d}" for t in self.p["time"]) + "    Current\n")
        self.comm.barrier()
        new = self.util.open_restart(self.tmp, self.cs, tracer_properties={
            n: {"dims": list(self.order[n]), "units": self.units[n], "restart_name": n}
            for n in self.names()})
        self.replace_all(new, what)
        self.comm.barrier()

    def do_factory(self, rng, what):
        halo = rng.randint(0, min(self.p["cells"]))
        layout = self.p["layout"]
        sizer = self.util.SubtileGridSizer.from_tile_params(
            nx_tile=self.p["cells"][1] * layout[1], ny_tile=self.p["cells"][0] * layout[0],
            nz=3, n_halo=halo, extra_dim_lengths={"z_soil": 2}, layout=layout,
            tile_partitioner=self.part.tile, tile_rank=self.sub)
        factory = self.util.QuantityFactory(sizer, np)
        for n in self.names():
            q = self.state[n]
            new = getattr(factory, rng.choice(["zeros", "empty", "ones"]))(
                q.dims, q.units, dtype=q.data.dtype)
            new.view[:] = q.view[:]
            self.replace(n, new)

    def do_padding(self, rng, what):
        for n in self.names():
            self.padded(n)

    def do_transpose(self, rng, what):
        for n in self.names():
            dims = list(self.order[n])
            rng.shuffle(dims)
            groups = [self.util.X_DIMS if is_x(d) and rng.random() < 0.3 else d for d in dims]
            self.state[n] = self.state[n].transpose(groups)
            self.order[n] = tuple(dims)
            self.halo.pop(n, None)

    def do_array(self, rng, what):
        for n in self.names():
            q = self.util.Quantity.from_data_array(
                self.state[n].data_array.copy(deep=True))
            self.replace(n, q)

    def do_dataset(self, rng, what):
        ds = self.util.to_dataset(self.state)
        check(ds["time"].item() == self.time, f"{what}: time {ds['time']}", "time")
        ds = ds.copy(deep=True)
        for n in self.names():
            self.replace(n, self.util.Quantity.from_data_array(ds[n]))

    def do_deepcopy(self, rng, what):
        self.replace_all(copy.deepcopy(self.state), what)

    def do_pickle(self, rng, what):
        self.replace_all(pickle.loads(pickle.dumps(self.state)), what)

    def do_halo(self, rng, what):
        if not square(self.p):
            return
        n = rng.randint(1, min(self.p["cells"]))
        # alike in x and y, as on a turned neighbour
        names = [k for k in self.names() if self.horizontal(k) and sum(
            d in ("x_interface", "y_interface") for d in self.first[k]) != 1]
        rng.shuffle(names)
        requests = []
        for k in names:
            if self.width(self.state[k]) < n:
                self.padded(k, n)
            if rng.random() < 0.5:
                requests.append((k, self.cs.start_halo_update(self.state[k], n)))
            else:
                self.cs.halo_update(self.state[k], n)
                self.halo_points(k, n, what)
        for k, r in requests:
            r.wait()
            self.halo_points(k, n, what)

    def do_vector(self, rng, what):
        if not square(self.p):
            return
        n = rng.randint(1, min(self.p["cells"]))
        for k in PAIR:
            if self.width(self.state[k]) < n:
                self.padded(k, n)
        dims = list(self.first[PAIR[0]])
        rng.shuffle(dims)
        # both in one order of dimensions: views of the same memory
        self.cs.vector_halo_update(self.state[PAIR[0]].transpose(dims),
                                   self.state[PAIR[1]].transpose(dims), n)
        for k in PAIR:
            self.halo_points(k, n, what)

    def do_corners(self, rng, what):
        n = rng.randint(1, min(self.p["cells"]))
        for k in self.names():
            if not self.horizontal(k):
                continue
            if self.width(self.state[k]) < n:
                self.padded(k, n)
            q = self.state[k]
            order = sorted(q.dims, key=lambda d: 0 if is_x(d) else 1 if is_y(d) else 2)
            self.util.fill_scalar_corners(q.transpose(order), rng.choice("xy"),
                                          self.part.tile, self.rank, n)

    def do_nudge(self, rng, what):
        names = [k for k in self.names() if self.truth[k].dtype.kind == "f"]
        names = rng.sample(names, rng.randint(1, len(names)))
        half = rng.random() < 0.5
        scales, ref, target = {}, {}, {}
        for k in names:
            scales[k] = datetime.timedelta(seconds=rng.choice([64, 1024]))
            target[k] = (self.truth[k] * 0 + rng.randrange(256)).astype(self.truth[k].dtype)
        for k in names:
            q = self.state[k]
            ref[k] = self.util.Quantity(
                np.ascontiguousarray(target[k][self.tile].transpose(
                    [self.first[k].index(d) for d in q.dims])[part(self.p, q.dims, self.sub)]),
                dims=q.dims, units=q.units)
        for s in sorted(set(scales.values())):
            some = {k: v for k, v in scales.items() if v == s}
            # powers of two: exact
            self.util.apply_nudging(self.state, ref, some, s / 2 if half else s)
        for k in names:
            t = self.truth[k]
            self.truth[k] = (t + (target[k] - t) / (2 if half else 1)).astype(t.dtype)
        self.halo.clear()

    def do_add(self, rng, what):
        for k in self.names():
            c = rng.randint(-3, 3)
            q = self.state[k]
            if rng.random() < 0.5:
                q.view[:] = q.view[:] + q.data.dtype.type(c)
            else:
                v = q.view[tuple(slice(None) for _ in q.dims)]
                v += q.data.dtype.type(c)
            self.truth[k] = self.truth[k] + self.truth[k].dtype.type(c)
        self.time = self.time + datetime.timedelta(seconds=900)
        self.p = dict(self.p, time=[self.time.year, self.time.month, self.time.day,
                                    self.time.hour, self.time.minute, self.time.second])
        self.state["time"] = self.time

    def do_zarr(self, rng, what):
        if self.monitor is None:
            self.monitor = self.util.ZarrMonitor(self.store, self.part, mode="w",
                                                 mpi_comm=self.comm)
        self.monitor.store({n: q if n == "time" else q.transpose(self.first[n])
                            for n, q in self.state.items()})
        self.records.append((self.time, {n: t.copy() for n, t in self.truth.items()}))

    def finish(self):
        for name, q, data in self.old:
            check(same_bits(np.asarray(q.data), data), f"rank {self.rank}: a {name} which was "
                  "replaced changed afterwards", "replaced-changed")


def program(comm, rank, p, tmp, store):
    import fv3gfs.util as util

    if not isinstance(store, str):
        here(comm, rank)
    me = Rank(util, comm, rank, p, tmp, store)
    me.compare("after the first scatter")
    for at, kind in enumerate(p["steps"]):
        me.step(kind, at)
    me.finish()
    return me.counts, me.records


def setup():
    import numcodecs.blosc

    numcodecs.blosc.use_threads = False


def judge_store(store, records, mon):
    import zarr

    if not records:
        return
    group = zarr.open_group(store, mode="r")
    check(set(group.array_keys()) == set(records[0][1]) | {"time"},
          f"store has {sorted(group.array_keys())}", "store")
    for n in records[0][1]:
        want = np.stack([r[n] for _, r in records])
        got = group[n][...]
        check(got.shape == want.shape and same_bits(got, want),
              lambda: f"the store's {n}: " + (
                  first_difference(got, want) if got.shape == want.shape
                  else f"shape {got.shape}, expected {want.shape}"), "store")
    t = group["time"]
    got = cftime.num2date(t[...], t.attrs["units"], t.attrs["calendar"])
    check([str(x) for x in got] == [str(x) for x, _ in records],
          f"the store's times are {[str(x) for x in got]}", "store")
    mon.count("records", len(records))


def run(p, mon):
    tmp = tempfile.mkdtemp(prefix="vf-pipe-")
    store = SharedStore(("C31", p["seed"]))
    try:
        world = simmpi.random_world(world_size(p), random.Random(p["seed"]))
        results = world.run(lambda comm, rank: program(comm, rank, p, tmp, store))
        simmpi.observe(mon, world)
        for counts, _ in results:
            for k, n in counts.items():
                mon.count(k, n if k != "steps" else 0)
        mon.count("steps", results[0][0]["steps"])
        judge_store(store, results[0][1], mon)
    finally:
        store.forget()
        shutil.rmtree(tmp, ignore_errors=True)
    mon.count("kinds_in_sequence", len(set(p["steps"])) >= 4)
    mon.seen("sequences", tuple(p["steps"]))
    return p if len(set(p["steps"])) >= 4 and len(p["steps"]) >= 5 else None


def world_size(p):
    return 6 * p["layout"][0] * p["layout"][1]


def real(comm, rank, p, mon):
    """the same on real MPI processes"""
    tmp = comm.bcast(tempfile.mkdtemp(prefix="vf-pipe-") if rank == 0 else None)
    try:
        _, records = program(comm, rank, p, tmp, tmp + "/store")
        comm.barrier()
        if rank == 0:
            judge_store(tmp + "/store", records, mon)
    finally:
        if rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)


def extra(tier, seed, mon, deadline):
    import sys

    return realmpi.phase(sys.modules[__name__], tier, seed, mon, deadline)


def replay_extra(params):
    import sys

    return realmpi.replay(sys.modules[__name__], params)
