# ---- quantities
S("sel-index-zero", "C11",
  "the integer index 0 given to sel by dimension name",
  "an index of 0 is taken for a missing one and the whole dimension is returned",
  [("quantity.py", "return self.view[tuple(kwargs.get(dim, slice(None, None)) for dim in self.dims)]",
    "return self.view[tuple(kwargs.get(dim) or slice(None, None) for dim in self.dims)]")],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.arange(16.0).reshape(4, 4), dims=["y", "x"], units="m", origin=(1, 1), extent=(2, 2))
assert q.sel(y=0).shape == (2,), q.sel(y=0).shape
''')

S("corner-view-step", "C12",
  "a slice with a step on a corner or interior view",
  "the step of the slice is dropped",
  [("_boundary_utils.py", "            slice(start, stop, slice_object.step), origin, origin + extent\n",
    "            slice(start, stop), origin, origin + extent\n")],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.arange(64.0).reshape(8, 8), dims=["y", "x"], units="m", origin=(2, 2), extent=(4, 4))
got = q.view.southwest[-2:4:2, 0]
assert got.shape == (3,) and (got == q.data[0:6:2, 2]).all(), got
''')

S("transpose-extent-padding", "C13",
  "a quantity whose origin is zero but whose array is larger than its extent (allocated without halo)",
  "transposing takes the extent from the array's shape when the origin is zero",
  [("quantity.py", "            extent=transpose_sequence(self.extent, transpose_order),\n",
    "            extent=transpose_sequence(self.extent, transpose_order)\n            if any(self.origin)\n            else None,\n")],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.zeros((5, 6)), dims=["y", "x"], units="m", origin=(0, 0), extent=(4, 5))
assert q.transpose(["x", "y"]).extent == (5, 4)
''')

S("data-array-whole-units", "C13",
  "a change to a quantity's DataArray attributes, or two conversions of one quantity",
  "the attributes handed out are the quantity's own dictionary, so changes to a DataArray's attributes reach later ones",
  [("quantity.py", "        return dict(**self._attrs, units=self._metadata.units)",
    '        self._attrs.setdefault("units", self._metadata.units)\n        return self._attrs')],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.zeros((2, 2)), dims=["y", "x"], units="m")
a = q.attrs
a["units"] = "km"
assert q.attrs["units"] == "m" and q.units == "m"
''')

S("negative-index-wrap", "C11",
  "a slice with a negative start that reaches the halo",
  "slice ends below zero before the shift count from the end of the compute domain, as in plain numpy, when they come with a step",
  [("quantity.py", '''        new_value = current_value + shift
        if new_value < 0:
''', '''        new_value = current_value + shift
        if new_value < 0 or current_value < -shift // 2:
''')],
  '''
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.arange(10.0), dims=["x"], units="m", origin=(3,), extent=(4,))
assert (q.view[-3:2] == q.data[0:5]).all(), q.view[-3:2]
assert (q.view[-2:2] == q.data[1:5]).all(), q.view[-2:2]
''')

# ---- stores and files
S("zarr-interface-chunks", "C15",
  "a layout which is not square, with ranks writing at the same time",
  "the layout is taken as (x, y) when chunks are made, so two ranks write parts of the same chunk",
  [("zarr_monitor.py", """            self._partitioner.layout, tile_shape, quantity.dims
""", """            self._partitioner.layout[::-1], tile_shape, quantity.dims
""")],
  '''
import threading
import numpy as np
import zarr
import fv3gfs.util as u
import cftime
from sim import run

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 2)))
owners, lock = {}, threading.Lock()
me = threading.local()


class Store(dict):
    def __setitem__(self, key, value):
        if not key.split("/")[-1].startswith(".") and key.startswith("u/"):
            with lock:
                owners.setdefault(key, set()).add(me.rank)
        super().__setitem__(key, value)


store = Store()


class Link:
    """ranks share objects, as bcast of a group on a shared store does"""
    def __init__(self, comm):
        self.c = comm
    def Get_rank(self):
        return self.c.Get_rank()
    def bcast(self, v, root=0):
        return self.c._collect("bcast", v)[root]
    def barrier(self):
        self.c.barrier()


def program(comm):
    me.rank = comm.Get_rank()
    m = u.ZarrMonitor(store, part, "w", Link(comm))
    q = u.Quantity(np.full((4, 3), float(me.rank)), dims=["y", "x_interface"], units="m")
    m.store({"time": cftime.DatetimeJulian(2000, 1, 1), "u": q})


run(12, program)
shared = {k: v for k, v in owners.items() if len(v) > 1}
assert not shared, shared
''')

S("zarr-time-integer", "C15",
  "times which lie a fraction of a second after the first one",
  "times are stored as whole seconds",
  [("zarr_monitor.py", "self.name, shape=shape, dtype=array.dtype, chunks=chunks, fill_value=None",
    'self.name, shape=shape, dtype="i8", chunks=chunks, fill_value=None')],
  '''
import cftime
import datetime
import numpy as np
import zarr
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))
store = {}
m = u.ZarrMonitor(store, part)
t0 = cftime.DatetimeJulian(2000, 1, 1)
q = u.Quantity(np.zeros((2, 2)), dims=["y", "x"], units="m")
times = [t0, t0 + datetime.timedelta(milliseconds=1500)]
for t in times:
    m.store({"time": t, "a": q})
a = zarr.open_group(store, "r")["time"]
got = cftime.num2date(a[:], a.attrs["units"], a.attrs["calendar"])
assert list(got) == times, got
''')

S("zarr-append-overwrites", "C16",
  "a monitor opened with mode 'a' on a store which has records of an earlier run",
  "creating the arrays of a new monitor deletes the arrays already stored instead of being refused",
  [("zarr_monitor.py", '''            dtype=quantity.data.dtype,
            chunks=chunks,
            fill_value=None,
''', '''            dtype=quantity.data.dtype,
            chunks=chunks,
            fill_value=None,
            overwrite=True,
'''), ("zarr_monitor.py", "self.name, shape=shape, dtype=array.dtype, chunks=chunks, fill_value=None",
    "self.name,\n            shape=shape,\n            dtype=array.dtype,\n            chunks=chunks,\n            fill_value=None,\n            overwrite=True,")],
  '''
import cftime
import numpy as np
import zarr
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))
store = {}
def state(v):
    return {"time": cftime.DatetimeJulian(2000, 1, 1), "a": u.Quantity(np.full((2, 2), v), dims=["y", "x"], units="m")}
u.ZarrMonitor(store, part).store(state(1.0))
try:
    u.ZarrMonitor(store, part, mode="a").store(state(2.0))
except Exception:
    pass
g = zarr.open_group(store, "r")
assert (g["a"][0, 0] == 1.0).all(), g["a"][0, 0]
''')

S("zarr-missing-variable", "C16",
  "a later state which lacks a variable of the first one",
  "a state without one of the variables is stored anyway, later records of that variable are misaligned",
  [("zarr_monitor.py", "        if len(missing_names) != 0:\n", '        if len(missing_names) > 1 or "time" in missing_names:\n')],
  '''
import cftime
import numpy as np
import zarr
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))
store = {}
def q(v):
    return u.Quantity(np.full((2, 2), float(v)), dims=["y", "x"], units="m")
m = u.ZarrMonitor(store, part)
t = [cftime.DatetimeJulian(2000, 1, d) for d in (1, 2, 3)]
m.store({"time": t[0], "a": q(0), "b": q(0)})
try:
    m.store({"time": t[1], "a": q(1)})
except ValueError:
    pass
m.store({"time": t[2], "a": q(2), "b": q(2)})
g = zarr.open_group(store, "r")
assert g["time"].shape[0] == g["a"].shape[0] == g["b"].shape[0] == 2, (g["time"].shape, g["b"].shape)
''')

S("write-state-truncates", "C17",
  "a state without time, written over an existing file",
  "the file is opened, and so emptied, before the state is checked",
  [("io.py", '''    if "time" not in state:
        raise ValueError('state must include a value for "time"')
    # must''', '''    # must'''),
   ("io.py", '''    with filesystem.open(filename, "wb") as f:
''', '''    with filesystem.open(filename, "wb") as f:
        if "time" not in state:
            raise ValueError('state must include a value for "time"')
''')],
  '''
import os
import tempfile
import cftime
import numpy as np
import fv3gfs.util as u

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "state.nc")
    q = u.Quantity(np.arange(4.0), dims=["x"], units="m")
    u.write_state({"time": cftime.DatetimeJulian(2000, 1, 1), "a": q}, f)
    before = open(f, "rb").read()
    try:
        u.write_state({"a": q}, f)
        raise SystemExit("not refused")
    except ValueError:
        pass
    assert open(f, "rb").read() == before
''')

S("restart-only-known", "C18",
  "a state given to load into which does not hold all variables of the files",
  "only the variables which the given state holds already are loaded",
  [("_legacy_restart.py", '''    rank = communicator.rank
    tile_index = ''', '''    elif to_state:
        only_names = set(to_state)
    rank = communicator.rank
    tile_index = '''),
   ("_legacy_restart.py", "    if to_state is None:\n        state = communicator.tile.scatter_state(state)\n    else:\n        state = communicator.tile.scatter_state(state, recv_state=to_state)\n    return state\n",
    "    return communicator.tile.scatter_state(state, recv_state=to_state)\n")],
  '''
import os
import tempfile
import numpy as np
import xarray as xr
import fv3gfs.util as u
from sim import run

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))
with tempfile.TemporaryDirectory() as d:
    for tile in range(1, 7):
        xr.Dataset({"delp": (("Time", "zaxis_1", "yaxis_2", "xaxis_1"), np.ones((1, 2, 4, 4))),
                    "DZ": (("Time", "zaxis_1", "yaxis_2", "xaxis_1"), np.full((1, 2, 4, 4), 2.0)),
                    "Time": (("Time",), np.ones(1))}).to_netcdf(os.path.join(d, f"fv_core.res.tile{tile}.nc"))
        for name, var in (("fv_srf_wnd", "u_srf"), ("fv_tracer", "sphum")):
            xr.Dataset({var: (("Time", "yaxis_1", "xaxis_1"), np.ones((1, 4, 4))),
                        "Time": (("Time",), np.ones(1))}).to_netcdf(os.path.join(d, f"{name}.res.tile{tile}.nc"))

    def program(comm):
        cs = u.CubedSphereCommunicator(comm, part)
        full = u.open_restart(d, cs)
        name = next(n for n in sorted(full) if full[n].dims[0] == "z")
        some = u.open_restart(d, cs, to_state={name: full[name]})
        assert sorted(some) == sorted(full), (sorted(some), sorted(full))

    import threading
    lock = threading.Lock()
    orig = u._legacy_restart.load_partial_state_from_restart_file
    def serial(*a, **k):
        with lock:
            return orig(*a, **k)
    u._legacy_restart.load_partial_state_from_restart_file = serial
    run(6, program)
''')

# ---- the rest
S("nudging-days", "C19",
  "a timestep of a day or more",
  "whole days of the timestep are dropped",
  [("nudging.py", "state[name].view[:] += tendency.view[:] * timestep.total_seconds()",
    "seconds = timestep.seconds + timestep.microseconds / 1e6\n        state[name].view[:] += tendency.view[:] * seconds")],
  '''
from datetime import timedelta
import numpy as np
import fv3gfs.util as u

q = u.Quantity(np.zeros(3), dims=["x"], units="m")
r = u.Quantity(np.full(3, 4.0), dims=["x"], units="m")
u.apply_nudging({"a": q}, {"a": r}, {"a": timedelta(hours=72)}, timedelta(hours=36))
assert np.allclose(q.view[:], 2.0), q.view[:]
''')

S("timer-reset-running", "C20",
  "a reset while a clock is running",
  "reset forgets running clocks, stopping them fails",
  [("_timing.py", "        self._accumulated_time.clear()\n", "        self._accumulated_time.clear()\n        self._clock_starts.clear()\n"),
   ("_timing.py", '        """Remove all accumulated timings."""', '        """Remove all timings."""')],
  '''
import fv3gfs.util as u

t = u.Timer()
with t.clock("a"):
    t.reset()
assert t.hits == {"a": 1}, t.hits
''')

S("timer-disable-running", "C20",
  "a timer disabled and enabled again around a failed stop",
  "stopping a clock which does not run is counted before the error is raised",
  [("_timing.py", '''            if name not in self._accumulated_time:
                self._accumulated_time[name] = time() - self._clock_starts.pop(name)
            else:
                self._accumulated_time[name] += time() - self._clock_starts.pop(name)
            if name not in self._hit_count:
                self._hit_count[name] = 1
            else:
                self._hit_count[name] += 1
''', '''            self._hit_count[name] = self._hit_count.get(name, 0) + 1
            if name not in self._accumulated_time:
                self._accumulated_time[name] = time() - self._clock_starts.pop(name)
            else:
                self._accumulated_time[name] += time() - self._clock_starts.pop(name)
''')],
  '''
import fv3gfs.util as u

t = u.Timer()
t.start("a")
t.stop("a")
try:
    t.stop("a")
    raise SystemExit("no error")
except KeyError:
    pass
assert t.hits == {"a": 1}, t.hits
''')

S("capture-nested", "C21",
  "nested capture blocks of one stream, text written between the inner and the outer end",
  "the original destination is remembered per stream for later captures, so leaving an inner block also ends the redirection of the outer one",
  [("_capture_stream.py", "    orig_file_handle = os.dup(stream.fileno())\n",
    """    # keep one handle of each stream's destination
    fileno = stream.fileno()
    if fileno not in _DESTINATIONS:
        _DESTINATIONS[fileno] = os.dup(fileno)
    orig_file_handle = os.dup(_DESTINATIONS[fileno])
"""), ("_capture_stream.py", "@contextlib.contextmanager\n", "_DESTINATIONS: dict = {}\n\n\n@contextlib.contextmanager\n")],
  '''
import sys
import fv3gfs.util as u

with u.capture_stream(sys.stderr) as outer:
    sys.stderr.write("a")
    with u.capture_stream(sys.stderr) as inner:
        sys.stderr.write("b")
    sys.stderr.write("c")
assert (inner.getvalue(), outer.getvalue()) == (b"b", b"ac"), (inner.getvalue(), outer.getvalue())
''')

S("datetime-local-zone", "C24",
  "a local time zone other than UTC",
  "numpy datetimes are converted to local time",
  [("time.py", 'np.datetime64(0, "s")', 'np.datetime64(datetime.datetime.fromtimestamp(0), "s")')],
  '''
import datetime
import os
import time
os.environ["TZ"] = "America/Los_Angeles"
time.tzset()
import numpy as np
import fv3gfs.util as u

got = u.datetime64_to_datetime(np.datetime64("2016-01-01T06:00:00"))
assert got == datetime.datetime(2016, 1, 1, 6), got
''')

S("optional-zarr-none", "C26",
  "an installation without zarr",
  "a missing zarr is not named when the monitor is made",
  [("zarr_monitor.py", '''    from ._optional_imports import RaiseWhenAccessed

    zarr = RaiseWhenAccessed(err)
''', '''    zarr = None
''')],
  '''
import sys
sys.modules["zarr"] = None
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))
try:
    u.ZarrMonitor("/nonexistent/store", part)
except ModuleNotFoundError as e:
    assert "zarr" in str(e)
''')

S("units-inner-blanks", "C28",
  "units which differ in inner blanks only",
  "all blanks are ignored when units are compared",
  [("units.py", "return units1.strip() == units2.strip()", "return units1.split() == units2.split()")],
  '''
from fv3gfs.util.units import units_are_equal

assert not units_are_equal("m s^-1", "m  s^-1")
''')
