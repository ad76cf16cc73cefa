"""Runs in a fresh interpreter for C26: blocks some packages, then uses the package.

argv: comma separated packages to block, seed; prints one JSON line."""
import hashlib
import importlib.abc
import json
import os
import random
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names, self.asked = set(names), set()

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            self.asked.add(name.split(".")[0])
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def core_workload(util, seed):
    """everything which needs numpy only -> digest of all results"""
    import datetime

    import numpy as np
    from vf import simmpi

    h = hashlib.blake2b(digest_size=12)
    rng = random.Random(seed)
    layout = 1
    n = 3
    part = util.CubedSpherePartitioner(util.TilePartitioner((layout, layout)))
    sizer = util.SubtileGridSizer.from_tile_params(
        nx_tile=n, ny_tile=n, nz=2, n_halo=2, extra_dim_lengths={}, layout=(1, 1))
    factory = util.QuantityFactory(sizer, np)

    def filled(dims, salt):
        q = factory.zeros(dims, "m")
        q.data[...] = np.random.default_rng(salt).random(q.data.shape)
        return q

    def program(comm, rank):
        cs = util.CubedSphereCommunicator(comm, part)
        a = filled(["z", "y", "x"], rank)
        cs.halo_update(a, 2)
        u, v = filled(["z", "y", "x"], rank + 10), filled(["z", "y", "x"], rank + 20)
        req = cs.start_vector_halo_update(u, v, 1)
        req.wait()
        s, t = filled(["y_interface", "x"], rank + 30), filled(["y", "x_interface"], rank + 40)
        cs.synchronize_vector_interfaces(s, t)
        g = cs.gather(a)
        b = cs.scatter(g if rank == 0 else None)
        state = cs.tile.gather_state({"a": a, "time": 5})
        util.fill_scalar_corners(a.transpose([util.X_DIMS, util.Y_DIMS, util.Z_DIMS]), "x",
                                 part.tile, rank, 2)
        ref = {"a": filled(["z", "y", "x"], rank + 50)}
        tend = util.apply_nudging({"a": a}, ref, {"a": datetime.timedelta(hours=1)},
                                  datetime.timedelta(seconds=5))
        out = [a.data, u.data, v.data, s.data, t.data, b.data, tend["a"].data,
               a.view.northeast[-1:1, :], state["a"].view[:]]
        return [np.ascontiguousarray(x).tobytes() for x in out]

    world = simmpi.random_world(6, rng)
    for parts in world.run(program):
        for b in parts:
            h.update(b)
    timer = util.Timer()
    with timer.clock("x"):
        pass
    h.update(str(dict(timer.hits)).encode())
    with tempfile.TemporaryFile() as f:
        with util.capture_stream(f) as out:
            f.write(b"abc")
        h.update(out.getvalue())
    h.update(repr(util.datetime64_to_datetime(np.datetime64("2016-08-01T12:00:00"))).encode())
    return h.hexdigest()


def attempt(f):
    try:
        f()
    except ModuleNotFoundError as e:
        return ["missing", str(e), (e.name or "").split(".")[0]]
    except BaseException as e:
        return ["error", f"{type(e).__name__}: {e}", traceback.format_exc()[-800:]]
    return ["works", "", ""]


def features(util, tmp):
    import cftime
    import numpy as np

    part = util.CubedSpherePartitioner(util.TilePartitioner((1, 1)))
    q = util.Quantity(np.arange(4.0).reshape(2, 2), dims=["y", "x"], units="m")
    time = cftime.DatetimeJulian(2016, 8, 1)

    def zarr_monitor():
        m = util.ZarrMonitor({}, part)
        m.store({"a": q, "time": time})

    def write():
        util.write_state({"a": q, "time": time}, os.path.join(tmp, "state.nc"))

    def read():
        path = os.path.join(tmp, "read.nc")
        with open(path, "wb") as f:  # a netCDF 3 file without variables
            f.write(b"CDF\x01" + b"\0" * 28)
        util.read_state(path)

    from vf import simmpi

    def restart():
        # files without variables, not even Time: what matters is which error comes first
        for tile in range(1, 7):
            for name in ("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res"):
                with open(os.path.join(tmp, f"{name}.tile{tile}.nc"), "wb") as f:
                    f.write(b"CDF\x01" + b"\0" * 28)

        def program(comm, rank):
            util.open_restart(tmp, util.CubedSphereCommunicator(comm, part))

        try:
            simmpi.random_world(6, random.Random(1)).run(program)
        except (KeyError, ValueError) as e:
            if "Time" not in str(e):
                raise

    return {"zarr_monitor": attempt(zarr_monitor), "data_array": attempt(lambda: q.data_array),
            "to_dataset": attempt(lambda: util.to_dataset({"a": q})),
            "write_state": attempt(write), "read_state": attempt(read),
            "open_restart": attempt(restart)}


def main():
    blocked = [b for b in sys.argv[1].split(",") if b]
    blocker = Blocker(blocked)
    sys.meta_path.insert(0, blocker)
    out = {"blocked": blocked}
    try:
        from vf import core

        util = core.import_target()
        out["names"] = sorted(n for n in dir(util) if not n.startswith("_"))
        out["core"] = core_workload(util, int(sys.argv[2]))
        out["loaded"] = sorted({m.split(".")[0] for m in sys.modules} & {
            "xarray", "zarr", "scipy", "mpi4py", "pandas"})
        with tempfile.TemporaryDirectory() as tmp:
            out["features"] = features(util, tmp)
    except BaseException:
        out["error"] = traceback.format_exc()[-1500:]
    out["asked"] = sorted(blocker.asked)
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
