# ---- halo updates, communication
S("halo-tag-overlap", "C04",
  "a vector update and a scalar update in flight at once, the later one waited for first",
  "the second tag of a vector update is not taken from the counter, so the next update uses it too and gets the y component's messages",
  [("communicator.py", "tag1, tag2 = self._get_halo_tag(), self._get_halo_tag()",
    "tag1 = self._get_halo_tag()\n        tag2 = tag1 % MAX_HALO_TAG + 1")],
  '''
import numpy as np
import fv3gfs.util as u
from sim import run

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


def q(v):
    return u.Quantity(np.full((6, 6), float(v)), dims=["y", "x"], units="m", origin=(1, 1), extent=(4, 4))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    x, y, s = q(1), q(1), q(50)
    r1 = cs.start_vector_halo_update(x, y, 1)
    r2 = cs.start_halo_update(s, 1)
    r2.wait()
    r1.wait()
    halo = np.concatenate([s.data[0, 1:-1], s.data[-1, 1:-1], s.data[1:-1, 0], s.data[1:-1, -1]])
    assert (halo == 50).all(), halo
    assert (np.abs(x.data[1:-1, 1:-1]) == 1).all() and (np.abs(y.data[0, 1:-1]) == 1).all()


run(6, program)
''')

S("sync-buffer-reuse", "C04",
  "two interface synchronisations in flight at once, and an MPI which reads the sent data later than Isend, as real ones may",
  "negated edges lie in a recycled buffer which the next synchronisation overwrites while the message is still in flight",
  [("communicator.py", """            west_data = -west_data
""", """            # negate into recycled memory, the edge itself must keep its values
            with array_buffer(np.empty, west_data.shape, west_data.dtype) as negated:
                negated[:] = -west_data
            west_data = negated
""")],
  '''
import numpy as np
import fv3gfs.util as u
from sim import run

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


def pair(v):
    return (u.Quantity(np.full((4, 3), v), dims=["y_interface", "x"], units="m"),
            u.Quantity(np.full((3, 4), v), dims=["y", "x_interface"], units="m"))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    one, two = pair(1.0), pair(2.0)
    requests = [cs.start_synchronize_vector_interfaces(*one), cs.start_synchronize_vector_interfaces(*two)]
    comm.barrier()
    for r in requests:
        r.wait()
    for v, (x, y) in ((1.0, one), (2.0, two)):
        assert (abs(x.data[-1]) == v).all() and (abs(y.data[:, -1]) == v).all(), (v, x.data[-1], y.data[:, -1])


run(6, program, lazy=True)
''')

S("vector-int-negation", "C02",
  "vector components of an integer type, between tiles with turned axes",
  "negating a component multiplies by -1.0 and sends integer data as doubles",
  [("rotate.py", "data[0], data[1] = data[1], -data[0]", "data[0], data[1] = data[1], -1.0 * data[0]"),
   ("rotate.py", "data[0], data[1] = -data[1], data[0]", "data[0], data[1] = -1.0 * data[1], data[0]")],
  '''
import numpy as np
import fv3gfs.util as u
from sim import run

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    def q(v):
        return u.Quantity(np.full((6, 6), v, dtype="i8"), dims=["y", "x"], units="m", origin=(1, 1), extent=(4, 4))
    x, y = q(2), q(3)
    cs.vector_halo_update(x, y, 1)
    for a in (x, y):
        for side in (a.data[0, 1:-1], a.data[-1, 1:-1], a.data[1:-1, 0], a.data[1:-1, -1]):
            assert np.isin(np.abs(side), (2, 3)).all() and len(np.unique(side)) == 1, side


run(6, program)
''')

S("sync-sign-by-tile", "C03",
  "more than one rank per tile: ranks inside an odd tile, away from the turned edge",
  "the sign of the synchronised south edge follows the tile's parity instead of the turn of that boundary",
  [("communicator.py", "if south_boundary.n_clockwise_rotations in (3, 2):",
    "if self.partitioner.tile_index(self.rank) % 2 == 1:")],
  '''
import numpy as np
import fv3gfs.util as u
from sim import run

part = u.CubedSpherePartitioner(u.TilePartitioner((2, 2)))


def program(comm):
    cs = u.CubedSphereCommunicator(comm, part)
    n = 3
    x = u.Quantity(np.full((n + 1, n), 1.0 + comm.Get_rank()), dims=["y_interface", "x"], units="m")
    y = u.Quantity(np.full((n, n + 1), 1.0 + comm.Get_rank()), dims=["y", "x_interface"], units="m")
    cs.synchronize_vector_interfaces(x, y)
    return x.data[-1].copy(), y.data[:, -1].copy()


for rank, (north, east) in enumerate(run(24, program)):
    b = part.boundary(u.NORTH, rank)
    if b.n_clockwise_rotations == 0:
        assert (north == 1.0 + b.to_rank).all(), (rank, north, b)
''')

S("scatter-skip-metadata", "C09",
  "some ranks give a quantity to receive into and others do not",
  "ranks which have a quantity to receive into skip the broadcast of the metadata",
  [("communicator.py", '''        else:
            metadata = self.comm.bcast(None, root=constants.ROOT_RANK)
        shape = self.partitioner.subtile_extent(metadata)
''', '''        elif recv_quantity is None:
            metadata = self.comm.bcast(None, root=constants.ROOT_RANK)
        else:
            metadata = recv_quantity.metadata  # already known, the shape is not needed
        if recv_quantity is None or self.rank == constants.ROOT_RANK:
            shape = self.partitioner.subtile_extent(metadata)
'''),
   ("communicator.py", '''            metadata = self.comm.bcast(send_quantity.metadata, root=constants.ROOT_RANK)
        elif''', '''            metadata = send_quantity.metadata
            if recv_quantity is None:
                self.comm.bcast(metadata, root=constants.ROOT_RANK)
        elif''')],
  '''
import numpy as np
import fv3gfs.util as u
from sim import run

part = u.TilePartitioner((2, 2))


def program(comm):
    tc = u.TileCommunicator(comm, part)
    root = comm.Get_rank() == 0
    send = u.Quantity(np.arange(16.0).reshape(4, 4), dims=["y", "x"], units="m") if root else None
    recv = u.Quantity(np.zeros((2, 2)), dims=["y", "x"], units="m") if comm.Get_rank() % 2 else None
    out = tc.scatter(send, recv)
    assert recv is None or out is recv
    return out.data


full = np.arange(16.0).reshape(4, 4)
for rank, d in enumerate(run(4, program)):
    j, i = divmod(rank, 2)
    assert (d == full[2 * j:2 * j + 2, 2 * i:2 * i + 2]).all(), (rank, d)
''')

S("scatter-names-set", "C10",
  "ranks in processes of their own, whose string hashes differ (Python's default)",
  "the names of the scattered variables are broadcast as a set, which every process iterates in its own order",
  [("communicator.py", '''            name_list = list(send_state.keys())
            while "time" in name_list:
                name_list.remove("time")
''', '''            name_list = set(send_state.keys()).difference(["time"])
''')],
  '''
import multiprocessing
import subprocess
import sys
import numpy as np

# two processes with different string hashes, joined by pipes: each acts as one rank
CODE = r"""
import os, sys, pickle, struct
sys.path.insert(0, os.getcwd())
import numpy as np
import fv3gfs.util as u
rank = int(sys.argv[1])
rfd, wfd = int(sys.argv[2]), int(sys.argv[3])
def put(x):
    b = pickle.dumps(x); os.write(wfd, struct.pack("q", len(b))); os.write(wfd, b)
def get():
    n = struct.unpack("q", os.read(rfd, 8))[0]; b = b""
    while len(b) < n: b += os.read(rfd, n - len(b))
    return pickle.loads(b)
class Comm:
    def Get_rank(self): return rank
    def Get_size(self): return 2
    def bcast(self, v, root=0):
        if rank == 0: put(v); return v
        return get()
    def Scatter(self, send, recv, root=0):
        if rank == 0: put(np.array(send[1])); recv[:] = send[0]
        else: recv[:] = get()
tc = u.TileCommunicator(Comm(), u.TilePartitioner((1, 2)))
names = [f"variable_{i}" for i in range(12)]
state = None
if rank == 0:
    state = {n: u.Quantity(np.full((2, 4), float(i)), dims=["y", "x"], units=n) for i, n in enumerate(names)}
out = tc.scatter_state(state)
for i, n in enumerate(names):
    assert out[n].units == n and (out[n].data == i).all(), (rank, n, out[n].units)
"""
import os
a, b = os.pipe(), os.pipe()
ps = []
for rank, (r, w) in enumerate(((b[0], a[1]), (a[0], b[1]))):
    env = dict(os.environ, PYTHONHASHSEED=str(rank + 1))
    ps.append(subprocess.Popen([sys.executable, "-c", CODE, str(rank), str(r), str(w)], pass_fds=[r, w], env=env))
for fd in a + b:
    os.close(fd)
codes = [p.wait(60) for p in ps]
assert codes == [0, 0], codes
''')

S("scatter-state-only-known", "C10",
  "a state to receive into which lacks one of the sent variables",
  "variables which the given state does not hold yet are not transferred",
  [("communicator.py", '''            name_list = list(send_state.keys())
            while "time" in name_list:
                name_list.remove("time")
''', '''            # "time" and variables without a place to go are not scattered
            name_list = [
                name
                for name in send_state.keys()
                if name != "time" and (len(recv_state) == 0 or name in recv_state)
            ]
''')],
  '''
import numpy as np
import fv3gfs.util as u
from sim import run

part = u.TilePartitioner((1, 2))


def q(shape, v):
    return u.Quantity(np.full(shape, float(v)), dims=["y", "x"], units="m")


def program(comm):
    tc = u.TileCommunicator(comm, part)
    send = {n: q((2, 4), i) for i, n in enumerate("abcd")} if comm.Get_rank() == 0 else None
    recv = {"a": q((2, 2), 9), "b": q((2, 2), 9), "own": q((2, 2), 7)}
    out = tc.scatter_state(send, recv)
    assert sorted(out) == ["a", "b", "c", "d", "own"], sorted(out)
    for i, n in enumerate("abcd"):
        assert (out[n].data == i).all()


run(2, program)
''')

S("buffer-key-itemsize", "C22",
  "two dtypes of equal size with the same shape, one after the other",
  "recycled buffers are looked up by the size of the items only, so a buffer of another dtype is handed out",
  [("buffer.py", "key = (allocator, shape, dtype)",
    "key = (allocator, tuple(shape), np.dtype(dtype).itemsize)"),
   ("buffer.py", "from numpy import ndarray\n", "from numpy import ndarray\nimport numpy as np\n")],
  '''
import numpy as np
from fv3gfs.util.buffer import send_buffer, recv_buffer

a = np.arange(16).reshape(4, 4).T
with send_buffer(np.empty, a) as buf:
    assert (buf == a).all()
b = (np.arange(16.0).reshape(4, 4) + 0.5).T
with send_buffer(np.empty, b) as buf:
    assert buf.dtype == b.dtype and (buf == b).all(), buf
''')

S("isend-clock-left-running", "C27",
  "a send which fails",
  "the clock of Isend keeps running when the send raises, the next send cannot start it",
  [("communicator.py", '''        with self.timer.clock("Isend"):
            return self.comm.Isend(array, **kwargs)
''', '''        self.timer.start("Isend")
        request = self.comm.Isend(array, **kwargs)
        self.timer.stop("Isend")
        return request
''')],
  '''
import numpy as np
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))


class Comm:
    fail = True

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 6

    def Isend(self, *a, **k):
        if self.fail:
            raise OSError("network down")


comm = Comm()
cs = u.CubedSphereCommunicator(comm, part)
q = u.Quantity(np.zeros((6, 6)), dims=["y", "x"], units="m", origin=(1, 1), extent=(4, 4))
try:
    cs.start_halo_update(q, 1)
    raise SystemExit("no error")
except OSError:
    pass
comm.fail = False
cs.start_halo_update(q, 1)
import warnings
with warnings.catch_warnings():
    warnings.simplefilter("error")
    cs.timer.times
''')

