# ---- decomposition, boundaries, allocation
S("boundary-slice-cache", "C08",
  "two quantities of equal dims, origin and extent, the second in a smaller array, in one process",
  "boundary slices are cached without the array's shape, so a region which does not fit is silently cut instead of refused",
  [("_boundary_utils.py", '''@functools.lru_cache(maxsize=None)
def get_boundary_slice(dims, origin, extent, shape, boundary_type, n_halo, interior):
''', '''_SLICE_CACHE = {}


def get_boundary_slice(dims, origin, extent, shape, boundary_type, n_halo, interior):
    key = (dims, origin, extent, boundary_type, n_halo, interior)
    if key not in _SLICE_CACHE:
        _SLICE_CACHE[key] = _find_boundary_slice(
            dims, origin, extent, shape, boundary_type, n_halo, interior
        )
    return _SLICE_CACHE[key]


def _find_boundary_slice(dims, origin, extent, shape, boundary_type, n_halo, interior):
'''), ("_boundary_utils.py", "import functools\n", "")],
  '''
import numpy as np
import fv3gfs.util as u
from fv3gfs.util.boundary import SimpleBoundary

b = SimpleBoundary(0, 1, 0, u.NORTH)
big = u.Quantity(np.zeros((10, 10)), dims=["y", "x"], units="m", origin=(3, 3), extent=(4, 4))
small = u.Quantity(np.zeros((8, 8)), dims=["y", "x"], units="m", origin=(3, 3), extent=(4, 4))
assert b.recv_view(big, 3).shape == (3, 4)
try:
    got = b.recv_view(small, 3)
except u.OutOfBoundsError:
    pass
else:
    raise SystemExit(f"3 halo points taken from 1: {got.shape}")
''')

S("corner-rank-array-int8", "C07",
  "more than 127 ranks per tile (12x12 and larger)",
  "ranks on a tile are numbered in a one-byte array",
  [("partitioner.py", '''        total_ranks = layout[0] * layout[1]
        rank_array = np.arange(total_ranks).reshape(layout)
        rotated_rank_array''', '''        total_ranks = layout[0] * layout[1]
        rank_array = np.arange(total_ranks).astype(np.int8).reshape(layout)
        rotated_rank_array''')],
  '''
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((12, 12)))
for rank in range(part.total_ranks):
    for there, back in ((u.WEST, None), (u.EAST, None), (u.NORTH, None), (u.SOUTH, None)):
        b = part.boundary(there, rank)
        assert 0 <= b.to_rank < part.total_ranks
        backs = [part.boundary(t, b.to_rank) for t in (u.WEST, u.EAST, u.NORTH, u.SOUTH)]
        assert any(x.to_rank == rank and (x.n_clockwise_rotations + b.n_clockwise_rotations) % 4 == 0 for x in backs)
''')

S("boundary-cache-shared", "C07",
  "a caller who changes the boundary object it was given",
  "the cached boundary object itself is handed out",
  [("partitioner.py", '''        On tile corners, the boundary across that corner does not exist.

        Args:
            boundary_type: the type of boundary
            rank: the processor rank

        Returns:
            boundary
        """
        boundary = copy.copy(self._cached_boundary(boundary_type, rank))
''', '''        On tile corners, the boundary across that corner does not exist.

        Args:
            boundary_type: the type of boundary
            rank: the processor rank

        Returns:
            boundary
        """
        boundary = self._cached_boundary(boundary_type, rank)
''')],
  '''
import fv3gfs.util as u

part = u.CubedSpherePartitioner(u.TilePartitioner((1, 1)))
b = part.boundary(u.WEST, 0)
expected = b.to_rank
b.to_rank += 1
assert part.boundary(u.WEST, 0).to_rank == expected
''')

S("subtile-slice-memo", "C06",
  "two partitioners with different layouts used in one process for the same tile",
  "slices are remembered by dims, extents and rank but not by layout",
  [("partitioner.py", '''        return subtile_slice(
            global_dims,
            global_extent,
            self.layout,
            self.subtile_index(rank),
            overlap=overlap,
        )

    def on_tile_top''', '''        key = (
            tuple(global_dims),
            tuple(global_extent),
            self.subtile_index(rank),
            self.total_ranks,
            overlap,
        )
        if key not in _SUBTILE_SLICES:
            _SUBTILE_SLICES[key] = subtile_slice(
                global_dims,
                global_extent,
                self.layout,
                self.subtile_index(rank),
                overlap=overlap,
            )
        return _SUBTILE_SLICES[key]

    def on_tile_top'''),
   ("partitioner.py", "BOUNDARY_CACHE_SIZE = None\n", "BOUNDARY_CACHE_SIZE = None\n_SUBTILE_SLICES: dict = {}\n")],
  '''
import fv3gfs.util as u

for layout in ((4, 1), (1, 4), (2, 2)):
    part = u.TilePartitioner(layout)
    seen = set()
    for rank in range(4):
        y, x = part.subtile_slice(rank, ["y", "x"], (8, 8))
        seen |= {(j, i) for j in range(8)[y] for i in range(8)[x]}
    assert len(seen) == 64, (layout, len(seen))
''')

S("factory-fallback-dtype", "C23",
  "an allocator which accepts no default_origin (numpy) and a dtype other than the default",
  "the fallback without default_origin also forgets the dtype",
  [("initialization/allocator.py", "data = allocator(shape, dtype=dtype)\n", "data = allocator(shape)\n")],
  '''
import numpy as np
import fv3gfs.util as u

sizer = u.SubtileGridSizer.from_tile_params(8, 8, 3, 3, {}, (1, 1))
q = u.QuantityFactory(sizer, np).zeros(["y", "x"], "m", dtype=np.float32)
assert q.data.dtype == np.float32, q.data.dtype
''')

S("sizer-layout-swapped", "C23",
  "a layout with different numbers of ranks in x and y",
  "the layout given to from_tile_params is taken as (x, y)",
  [("initialization/sizer.py", "tile_partitioner = TilePartitioner(layout)\n", "tile_partitioner = TilePartitioner((layout[1], layout[0]))\n")],
  '''
import fv3gfs.util as u

s = u.SubtileGridSizer.from_tile_params(12, 12, 3, 3, {}, (2, 3))
assert (s.ny, s.nx) == (6, 4), (s.ny, s.nx)
''')

S("corner-fill-east", "C14",
  "a tile whose layout has different numbers of ranks in x and y",
  "whether a rank lies at the east edge is decided with the number of ranks in y",
  [("_corners.py", "on_east = tile_partitioner.on_tile_right(rank)", "on_east = (rank + 1) % tile_partitioner.layout[0] == 0")],
  '''
import numpy as np
import fv3gfs.util as u

part = u.TilePartitioner((2, 3))
corners = 0
for rank in range(6):
    q = u.Quantity(np.arange(64.0).reshape(8, 8), dims=["x", "y"], units="m", origin=(2, 2), extent=(4, 4))
    before = q.data.copy()
    u.fill_scalar_corners(q, "x", part, rank, 2)
    changed = [bool((q.data != before)[i, j].any()) for i in (slice(0, 2), slice(6, 8)) for j in (slice(0, 2), slice(6, 8))]
    j, i = divmod(rank, 3)
    want = [i == 0 and j == 0, i == 0 and j == 1, i == 2 and j == 0, i == 2 and j == 1]
    assert changed == want, (rank, changed, want)
''')

S("rotate-half-interface", "C25",
  "a half turn of data on interfaces",
  "interface dimensions are not reversed by a half turn",
  [("rotate.py", "            if dim in constants.HORIZONTAL_DIMS:\n", "            if dim in (constants.X_DIM, constants.Y_DIM):\n")],
  '''
import numpy as np
from fv3gfs.util.rotate import rotate_scalar_data

for dims in (["y", "x"], ["y_interface", "x"], ["y", "x_interface"], ["y_interface", "x_interface"]):
    a = np.arange(12.0).reshape(3, 4)
    assert (rotate_scalar_data(a, dims, np, 2) == a[::-1, ::-1]).all(), dims
''')
