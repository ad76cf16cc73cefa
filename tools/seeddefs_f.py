HEAD = '''
import datetime
import os
import sys
import tempfile
import numpy as np
import fv3gfs.util as u
'''
CUBE = '''
import numpy as np
import fv3gfs.util as u
from sim import run
'''

S("partition-one-cell-overlap", "C06",
  "ranks of one cell along a staggered dimension",
  "the slices of ranks with a single cell always contain the point shared with the next rank",
  [("partitioner.py", "        if index.is_end_index or overlap:\n",
    "        if index.is_end_index or overlap or index.base_extent == 1:\n")],
  HEAD + '''
tile = u.TilePartitioner((3, 3))
for n in (1, 2):
    seen = np.zeros((3 * n + 1, 3 * n), int)
    for rank in range(9):
        seen[tile.subtile_slice(rank, ["y_interface", "x"], seen.shape)] += 1
    assert (seen == 1).all(), (n, seen)
''')

S("rotate-flip-first-axis", "C25",
  "a quantity with one horizontal dimension which is not its first one, at a quarter turn",
  "the first axis is turned over in place of the horizontal one",
  [("rotate.py", "                data = numpy.flip(data, axis=y_dim)\n",
    "                data = data[::-1]\n")],
  HEAD + '''
from fv3gfs.util.rotate import rotate_scalar_data

a = np.arange(12.0).reshape(3, 4)
assert (rotate_scalar_data(a, ["y", "z"], np, 3) == a[::-1]).all()
assert (rotate_scalar_data(a, ["z", "y"], np, 3) == a[:, ::-1]).all()
''')

S("dataset-pops-time", "C31",
  "a state which is used again after it was written to a file",
  "writing a state takes the time out of it",
  [("_xarray.py", """    data_vars = {
        name: value.data_array for name, value in state.items() if name != "time"
    }
    if "time" in state:
        data_vars["time"] = state["time"]
""", """    time = state.pop("time", None)
    data_vars = {name: value.data_array for name, value in state.items()}
    if time is not None:
        data_vars["time"] = time
""")],
  HEAD + '''
from datetime import timedelta
import cftime

with tempfile.TemporaryDirectory() as d:
    t = cftime.DatetimeJulian(2016, 8, 1)
    state = {"time": t, "a": u.Quantity(np.arange(4.0), dims=["z"], units="K")}
    u.write_state(state, os.path.join(d, "a.nc"))
    assert state["time"] == t
    u.write_state(state, os.path.join(d, "b.nc"))
    assert u.read_state(os.path.join(d, "b.nc"))["time"] == t
''')

S("vector-small-corner-sign", "C02",
  "a square slab of vector data with more than one point which makes one quarter turn (a rank corner, or ranks as wide as their halo)",
  "the component of a square slab which should be negated at a quarter turn keeps its sign",
  [("rotate.py", """    elif n_clockwise_rotations == 1:
        data[0], data[1] = data[1], -data[0]
""", """    elif n_clockwise_rotations == 1:
        corner = x_data.shape == y_data.shape and x_data.size > 1 and (
            min(x_data.shape) == max(x_data.shape)
        )
        data[0], data[1] = data[1], data[0] if corner else -data[0]
""")],
  CUBE + '''
from fv3gfs.util.rotate import rotate_vector_data

for n in (1, 2, 4):
    x, y = np.ones((n, 2)), np.full((n, 2), 2.0)
    gx, gy = rotate_vector_data(x, y, 1, ["y", "x"], np)
    assert (gx == 2).all() and (gy == -1).all(), (n, gx, gy)
''')


S("halo-requests-kept", "C32",
  "many asynchronous updates on one communicator",
  "a communicator keeps every asynchronous update it ever started, with the memory of its quantities",
  [("communicator.py", """        send_requests = self._Isend_halos(quantity, n_points, tag=tag)
        return HaloUpdateRequest(send_requests, recv_requests)
""", """        send_requests = self._Isend_halos(quantity, n_points, tag=tag)
        request = HaloUpdateRequest(send_requests, recv_requests)
        self.__dict__.setdefault("_updates", []).append(request)
        return request
""")],
  CUBE + '''
import gc
import weakref

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    refs = []
    for step in range(20):
        data = np.zeros((6, 6))
        refs.append(weakref.ref(data))
        q = u.Quantity(data, dims=["y", "x"], units="m", origin=(1, 1), extent=(4, 4))
        del data
        cs.start_halo_update(q, 1).wait()
        del q
    comm.barrier()
    gc.collect()
    alive = sum(r() is not None for r in refs)
    assert alive < 5, f"{alive} of 20 arrays are still held"


run(6, program)
''')

S("buffer-key-partial", "C32",
  "many updates of quantities whose halos are not contiguous",
  "every receive asks for its buffer with an allocator of its own, so that no buffer is ever used again and all are kept",
  [("communicator.py", """        def recv():
            with recv_buffer(np.empty, out_array, timer=self.timer) as recvbuf:
""", """        allocator = functools.partial(np.empty, order="C")

        def recv():
            with recv_buffer(allocator, out_array, timer=self.timer) as recvbuf:
"""), ("communicator.py", "import logging\n", "import functools\nimport logging\n")],
  CUBE + '''
import tracemalloc

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    q = u.Quantity(np.zeros((12, 12, 50)), dims=["y", "x", "z"], units="m", origin=(1, 1, 0),
                   extent=(10, 10, 50))
    held = []
    for step in range(31):
        cs.halo_update(q, 1)
        if step % 10 == 0:
            comm.barrier()
            held.append(tracemalloc.get_traced_memory()[0])
            comm.barrier()
    grown = [b - a for a, b in zip(held, held[1:])]
    assert min(grown) < 100000, held


tracemalloc.start()
run(6, program)
'''
)
