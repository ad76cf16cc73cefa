CUBE = '''
import numpy as np
import fv3gfs.util as u
from sim import run
'''

S("halo-corner-no-turn", "C01",
  "more than one rank per tile and two or more halo points, at rank corners lying across a turned tile edge",
  "data sent across rank corners are not turned",
  [("communicator.py", """                data = rotate_scalar_data(
                    data, quantity.dims, quantity.np, -boundary.n_clockwise_rotations
                )
""", """                if boundary.boundary_type in constants.EDGE_BOUNDARY_TYPES:
                    data = rotate_scalar_data(
                        data,
                        quantity.dims,
                        quantity.np,
                        -boundary.n_clockwise_rotations,
                    )
""")],
  CUBE + '''
part = u.CubedSpherePartitioner(u.TilePartitioner((2, 2)))
n = 3


def values(rank):
    return 100.0 * rank + np.arange(n * n).reshape(n, n)


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    data = np.full((n + 4, n + 4), -1.0)
    data[2:-2, 2:-2] = values(comm.Get_rank())
    q = u.Quantity(data, dims=["y", "x"], units="m", origin=(2, 2), extent=(n, n))
    cs.halo_update(q, 2)
    return q.data


# the corner of the halo must continue the halo next to it: rank 1's northwest corner belongs
# to the rank which also gives the halo north of rank 0
got = run(24, program)
corner_cells = 0
for rank in range(24):
    for bt, sl in ((u.NORTHWEST, np.s_[-2:, :2]), (u.NORTHEAST, np.s_[-2:, -2:]),
                   (u.SOUTHWEST, np.s_[:2, :2]), (u.SOUTHEAST, np.s_[:2, -2:])):
        b = part.boundary(bt, rank)
        if b is None or b.n_clockwise_rotations % 4 == 0:
            continue
        turned = np.rot90(values(b.to_rank), b.n_clockwise_rotations)
        want = {u.NORTHWEST: turned[:2, -2:], u.NORTHEAST: turned[:2, :2],
                u.SOUTHWEST: turned[-2:, -2:], u.SOUTHEAST: turned[-2:, :2]}[bt]
        assert (got[rank][sl] == want).all(), (rank, bt, b, got[rank][sl], want)
        corner_cells += 1
assert corner_cells
''')

S("boundary-turn-normalised", "C05",
  "a vector halo update, then any later update on the same communicator",
  "the vector update stores the opposite turn in the boundary kept by the communicator, later updates turn the wrong way",
  [("communicator.py", """                x_data, y_data = rotate_vector_data(
                    x_data,
                    y_data,
                    -boundary.n_clockwise_rotations,
""", """                # to get the right final orientation, turn back before sending
                boundary.n_clockwise_rotations = -boundary.n_clockwise_rotations % 4
                x_data, y_data = rotate_vector_data(
                    x_data,
                    y_data,
                    boundary.n_clockwise_rotations,
""")],
  CUBE + '''
part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)

    def q(v):
        return u.Quantity(np.full((6, 6), v), dims=["y", "x"], units="m", origin=(1, 1), extent=(4, 4))
    first = [q(2.0), q(3.0)]
    cs.vector_halo_update(*first, 1)
    second = [q(2.0), q(3.0)]
    cs.vector_halo_update(*second, 1)
    for a, b in zip(first, second):
        assert (a.data == b.data).all(), (a.data, b.data)


run(6, program)
''')

S("sync-extent-last", "C03",
  "a quantity whose last dimension is not the edge's own",
  "the length of the south edge sent is the extent of the last dimension",
  [("communicator.py", """                constants.Y_INTERFACE_DIM: slice(0, 1),
                constants.X_DIM: slice(
                    0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                ),
""", """                constants.Y_INTERFACE_DIM: slice(0, 1),
                constants.X_DIM: slice(0, x_quantity.extent[-1]),
"""), ("communicator.py", """                constants.Y_INTERFACE_DIM: slice(-1, 0),
                constants.X_DIM: slice(
                    0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                ),
""", """                constants.Y_INTERFACE_DIM: slice(-1, 0),
                constants.X_DIM: slice(0, x_quantity.extent[-1]),
""")],
  CUBE + '''
part = u.CubedSpherePartitioner(u.TilePartitioner((2, 2)))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    n, r = 3, comm.Get_rank() + 1.0
    x = u.Quantity(np.full((n + 1, n, 2), r), dims=["y_interface", "x", "z"], units="m")
    y = u.Quantity(np.full((n, n + 1, 2), r), dims=["y", "x_interface", "z"], units="m")
    cs.synchronize_vector_interfaces(x, y)
    north = part.boundary(u.NORTH, comm.Get_rank()).to_rank
    assert (abs(x.data[-1]) == north + 1).all(), x.data[-1]


run(24, program)
''')

S("send-view-past-end", "C08",
  "more points to send than the array has from the boundary on",
  "a region to send which reaches past the end of the array is silently cut short",
  [("_boundary_utils.py", "        elif stop > shape_1d:\n", "        elif stop > shape_1d and not interior:\n")],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.zeros((4, 4)), dims=["y", "x"], units="m", origin=(0, 0), extent=(4, 4))
b = u.TilePartitioner((1, 1)).boundary(u.WEST, 0)
try:
    v = b.send_view(q, n_points=6)
except u.OutOfBoundsError:
    pass
else:
    raise AssertionError(v.shape)
''')

S("scatter-single-alias", "C09",
  "one rank per tile, no quantity given to receive into, and a later change to the received or the sent quantity",
  "with one rank nothing is copied, the received quantity shares the sent one's memory",
  [("communicator.py", """        if recv_quantity is None:
            recv_quantity = self._get_scatter_recv_quantity(shape, metadata)
        if self.rank == constants.ROOT_RANK:
""", """        if recv_quantity is None:
            if self.partitioner.total_ranks == 1:
                return Quantity(send_quantity.view[:], metadata.dims, metadata.units)
            else:
                recv_quantity = self._get_scatter_recv_quantity(shape, metadata)
        if self.rank == constants.ROOT_RANK:
""")],
  CUBE + '''

def program(comm):
    tc = u.TileCommunicator(comm, u.TilePartitioner((1, 1)))
    q = u.Quantity(np.ones((3, 3)), dims=["y", "x"], units="m")
    got = tc.scatter(send_quantity=q)
    got.view[:] = 7
    assert (q.data == 1).all(), q.data


run(1, program)
''')

S("gather-time-stale", "C10",
  "gather_state into a state which already has a time, as when its quantities are used again for the next step",
  "the time of a state given to receive into is not renewed",
  [("communicator.py", '                    recv_state["time"] = send_state["time"]\n',
    '                    recv_state.setdefault("time", send_state["time"])\n')],
  CUBE + '''

def program(comm):
    tc = u.TileCommunicator(comm, u.TilePartitioner((1, 2)))
    recv = None
    for t in (1, 2):
        q = u.Quantity(np.ones((3, 3)), dims=["y", "x"], units="m")
        recv = tc.gather_state({"time": t, "a": q}, recv_state=recv)
        if comm.Get_rank() == 0:
            assert recv["time"] == t, recv["time"]


run(2, program)
''')

S("corner-north-global-rank", "C14",
  "a rank number on the whole cube, beyond the first tile",
  "whether a rank lies at the north edge is decided as if its number was counted within the tile",
  [("_corners.py", "    on_north = tile_partitioner.on_tile_top(rank)\n",
    "    first_north = tile_partitioner.total_ranks - tile_partitioner.layout[1]\n    on_north = rank >= first_north\n")],
  '''
import numpy as np
import fv3gfs.util as u

a = np.arange(64.0).reshape(8, 8)
q = u.Quantity(a.copy(), dims=["x", "y"], units="m", origin=(2, 2), extent=(4, 4))
u.fill_scalar_corners(q, "x", u.TilePartitioner((2, 2)), 4, 2)
assert (q.data[:2, -2:] == a[:2, -2:]).all()
assert q.data[1, 1] == a[1, 2]
''')

S("read-state-microseconds", "C17",
  "a state whose time has fractions of a second",
  "the time read back loses its fraction of a second",
  [("io.py", "    return time\n", "    return time.replace(microsecond=0)\n")],
  '''
import os
import tempfile
import cftime
import numpy as np
import fv3gfs.util as u

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "s.nc")
    t = cftime.DatetimeJulian(2016, 8, 1, 0, 0, 0, 500000)
    u.write_state({"time": t, "a": u.Quantity(np.zeros(2), ["x"], "m")}, f)
    got = u.read_state(f)["time"]
    assert abs((got - t).total_seconds()) < 0.01, got
''')

S("restart-coupler-fallback", "C18",
  "labelled restart files without a coupler.res of that label, next to those of another time",
  "without a labelled coupler.res the time of the one without label is taken",
  [("_legacy_restart.py", """    return os.path.join(dirname, prepend_label(COUPLER_RES_NAME, label))
""", """    filename = os.path.join(dirname, prepend_label(COUPLER_RES_NAME, label))
    if not filesystem.is_file(filename):
        filename = os.path.join(dirname, COUPLER_RES_NAME)
    return filename
""")],
  '''
import os
import shutil
import tempfile
import numpy as np
import xarray as xr
import fv3gfs.util as u
from sim import run

d = tempfile.mkdtemp()
try:
    for t in range(1, 7):
        for name in ("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res"):
            xr.Dataset({}, coords={"Time": [0.0]}).to_netcdf(
                os.path.join(d, f"20160801.{name}.tile{t}.nc"), engine="scipy")
    with open(os.path.join(d, "coupler.res"), "w") as f:
        f.write("     2        (Calendar: no_calendar=0)\\n")
        f.write("  2016     8     1     0     0     0        Model start time:\\n")
        f.write("  2016     8     3     0     0     0        Current model time:\\n")

    def program(comm):
        cs = u.CubedSphereCommunicator(comm, u.CubedSpherePartitioner(u.TilePartitioner((1, 1))))
        return sorted(u.open_restart(d, cs, label="20160801"))
    got = run(6, program)
    assert got == [[]] * 6, got
finally:
    shutil.rmtree(d)
''')

S("nudging-reference-in-place", "C19",
  "a reference state which is used again after nudging",
  "the difference is computed in the reference state's own memory",
  [("nudging.py", "        return_data = (reference.view[:] - quantity.view[:]) / timescale.total_seconds()\n",
    "        return_data = reference.view[:]\n        if return_data.ndim:\n            return_data -= quantity.view[:]\n        else:\n            return_data = return_data - quantity.view[:]\n        return_data = return_data / timescale.total_seconds()\n")],
  '''
from datetime import timedelta
import numpy as np
import fv3gfs.util as u

ref = {"a": u.Quantity(np.full(3, 5.0), ["x"], "K")}
state = {"a": u.Quantity(np.full(3, 1.0), ["x"], "K")}
u.apply_nudging(state, ref, {"a": timedelta(seconds=4)}, timedelta(seconds=1))
assert (state["a"].view[:] == 2).all()
assert (ref["a"].view[:] == 5).all(), ref["a"].view[:]
''')

S("timer-times-alias", "C20",
  "times looked at twice with clocks run in between, keeping the first answer",
  "the timer's own dictionary is handed out, so an earlier answer changes later",
  [("_timing.py", "        return self._accumulated_time.copy()\n",
    "        return self._accumulated_time\n")],
  '''
import fv3gfs.util as u

t = u.Timer()
with t.clock("a"):
    pass
before = t.times
with t.clock("b"):
    pass
assert sorted(before) == ["a"], before
''')

S("buffer-returned-early", "C22",
  "two buffers of the same shape and type in use at once, the second requested while the first is held",
  "a new buffer is registered for use by others when it is handed out instead of when it is given back",
  [("buffer.py", """        array = BUFFER_CACHE[key].pop()
        yield array
""", """        array = BUFFER_CACHE[key].pop()
        yield array
        BUFFER_CACHE[key].append(array)
"""), ("buffer.py", """        array = allocator(shape, dtype=dtype)
        yield array
    BUFFER_CACHE[key].append(array)
""", """        array = allocator(shape, dtype=dtype)
        BUFFER_CACHE[key].append(array)
        yield array
""")],
  '''
import numpy as np
from fv3gfs.util.buffer import array_buffer

with array_buffer(np.empty, (3,), float) as a:
    with array_buffer(np.empty, (3,), float) as b:
        a[:] = 1
        b[:] = 2
        assert (a == 1).all()
''')

S("datetime-whole-seconds", "C24",
  "a date with fractions of a second before 1970",
  "fractions of a second are rounded towards 1970",
  [("time.py", '    utc_start = np.datetime64(0, "s")\n',
    '    utc_start = np.datetime64("1970-01-01", "s")\n    if dt64 < utc_start:  # seconds count downwards\n        dt64 = np.asarray(dt64).astype("datetime64[s]")\n')],
  '''
import datetime
import numpy as np
from fv3gfs.util import datetime64_to_datetime

got = datetime64_to_datetime(np.datetime64("1969-07-20T20:17:40.250000"))
assert abs(got - datetime.datetime(1969, 7, 20, 20, 17, 40, 250000)) < datetime.timedelta(milliseconds=1), got
''')

S("units-case", "C28",
  "units which differ in the case of a letter only",
  "units are compared without regard to case",
  [("units.py", "    return units1.strip() == units2.strip()", "    return units1.strip().lower() == units2.strip().lower()")],
  '''
from fv3gfs.util import units_are_equal

assert not units_are_equal("mPa", "MPa")
''')

S("transpose-ambiguous-group", "C13",
  "a group of names of which two are dimensions of the quantity",
  "transposing to a group with two matches takes the first one instead of being refused, the other dimension may be named beside it",
  [("quantity.py", "            if len(matches) > 1:\n", "            if len(matches) > 2:\n")],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.zeros((2, 3)), ["x", "x_interface"], "m")
try:
    t = q.transpose([("x_interface", "x"), "x"])
except ValueError:
    pass
else:
    raise AssertionError(t.dims)
''')

S("storage-data-detached", "C29",
  "a quantity made with gt4py_backend on a processor backend and written through its data",
  "data is a copy of the storage, so what is written to one is not in the other",
  [("quantity.py", "            data = np.asarray(storage.data)\n", "            data = np.array(storage.data)\n")],
  '''
import sys
import numpy as np
import standin

sys.modules.update(standin.make_gt4py())
import fv3gfs.util as u

q = u.Quantity(np.zeros((3, 3)), ["y", "x"], "m", gt4py_backend="numpy")
q.view[:] = 5
assert (np.asarray(q.storage) == 5).all()
''')

S("storage-transpose-backend", "C29",
  "a quantity with a gt4py backend which is transposed",
  "the transpose has no storage",
  [("quantity.py", "            gt4py_backend=self.gt4py_backend,\n        )\n\n\ndef transpose_sequence", "        )\n\n\ndef transpose_sequence")],
  '''
import sys
import numpy as np
import standin

sys.modules.update(standin.make_gt4py())
import fv3gfs.util as u

q = u.Quantity(np.zeros((3, 3)), ["y", "x"], "m", gt4py_backend="numpy")
assert q.transpose(["x", "y"]).gt4py_backend == "numpy"
q.transpose(["x", "y"]).storage
''')

S("device-gather-host", "C30",
  "gathering quantities on a device without a quantity to receive into",
  "the gathered quantity lies in host memory",
  [("communicator.py", """            send_metadata.np.empty(global_extent, dtype=send_metadata.dtype),
            dims=send_metadata.dims,
            units=send_metadata.units,
            origin=tuple([0 for dim in send_metadata.dims]),
""", """            np.empty(global_extent, dtype=send_metadata.dtype),
            dims=send_metadata.dims,
            units=send_metadata.units,
            origin=tuple([0 for dim in send_metadata.dims]),
""")],
  '''
import sys
import numpy as np
import standin

cupy = standin.make_cupy()
sys.modules["cupy"] = cupy
import fv3gfs.util as u


class One:
    def Get_rank(self):
        return 0
    def Get_size(self):
        return 1
    def Gather(self, send, recv, root=0, **kw):
        recv._h[0] = send._h if hasattr(send, "_h") else send


tc = u.TileCommunicator(One(), u.TilePartitioner((1, 1)))
q = u.Quantity(cupy.ones((2, 3)), ["y", "x"], "m")
got = tc.gather(q)
assert type(got.data) is cupy.ndarray, type(got.data)
''')

S("device-zarr-interface", "C30",
  "device quantities on interface dimensions with more than one rank per tile",
  "device data are stored whole, without leaving out the points another rank owns",
  [("zarr_monitor.py", """            ):
                self.array[target_slice] = cupy.asnumpy(quantity.view[:][from_slice])
""", """            ):
                self.array[target_slice] = cupy.asnumpy(quantity.view[:])
""")],
  '''
import sys
import cftime
import numpy as np
import zarr
import standin

cupy = standin.make_cupy()
sys.modules["cupy"] = cupy
import fv3gfs.util as u


class Sub:
    """rank 1 of a world whose root is not here"""
    def __init__(self, rank, group):
        self.rank, self.shared = rank, group
    def Get_rank(self):
        return self.rank
    def bcast(self, v, root=0):
        if v is not None:
            self.shared.append(v)
        return self.shared[-1] if self.rank == 0 else self.shared.pop(0)
    def barrier(self):
        pass


part = u.CubedSpherePartitioner(u.TilePartitioner((1, 2)))
store, shared = {}, []
for rank in range(2):
    m = u.ZarrMonitor(store, part, "w", Sub(rank, shared))
    q = u.Quantity(cupy.ones((2, 4)), ["y", "x_interface"], "m")
    m.store({"time": cftime.DatetimeJulian(2000, 1, 1), "a": q})
assert zarr.open(store, "r")["a"].shape == (1, 6, 2, 7)
''')
