From f4a4ac80712a8b8e41f107e77514e7d8110d832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 01/25] fix: synchronize vector interfaces with vertical
 dimension before or between horizontal ones

The edge data was rotated as if its first axis were the horizontal one, so data with
another dimension in front was flipped along that dimension, or sent in the wrong
order, across rotated tile edges.
---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..eacc37d 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -571,7 +571,7 @@ class CubedSphereCommunicator(Communicator):
         west_boundary = self.boundaries[constants.WEST]
         south_data = x_quantity.view.southwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: 0,
+                constants.Y_INTERFACE_DIM: slice(0, 1),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            x_quantity.dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -587,7 +587,7 @@ class CubedSphereCommunicator(Communicator):
             south_data = -south_data
         west_data = y_quantity.view.southwest.sel(
             **{
-                constants.X_INTERFACE_DIM: 0,
+                constants.X_INTERFACE_DIM: slice(0, 1),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            y_quantity.dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
@@ -614,7 +614,7 @@ class CubedSphereCommunicator(Communicator):
         east_rank = self.boundaries[constants.EAST].to_rank
         north_data = x_quantity.view.northwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: -1,
+                constants.Y_INTERFACE_DIM: slice(-1, 0),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -622,7 +622,7 @@ class CubedSphereCommunicator(Communicator):
         )
         east_data = y_quantity.view.southeast.sel(
             **{
-                constants.X_INTERFACE_DIM: -1,
+                constants.X_INTERFACE_DIM: slice(-1, 0),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
-- 
2.43.0


From 15eff0d340eeec1e6ec0a63e7392e7391fad4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 02/25] fix: compute subtile extents exactly

1 / layout is not exact for many layouts (e.g. 49 ranks), and truncating the product to
int then lost a grid point.
---
 fv3gfs/util/partitioner.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..657e9a6 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -1,4 +1,5 @@
 from typing import Tuple, Callable, Iterable, Optional, Union, cast, Sequence
+from fractions import Fraction
 import copy
 import abc
 import functools
@@ -734,14 +735,16 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
+    # must be exact, a float factor can truncate to one point less than the true extent
+    layout_factors = [
+        Fraction(1, int(n_ranks))
+        for n_ranks in utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    ]
     return extent_from_metadata(dims, tile_extent, layout_factors)
 
 
 def extent_from_metadata(
-    dims: Iterable[str], extent: Iterable[int], layout_factors: np.ndarray
+    dims: Iterable[str], extent: Iterable[int], layout_factors: Iterable
 ) -> Tuple[int, ...]:
     return_extents = []
     for dim, rank_extent, layout_factor in zip(dims, extent, layout_factors):
@@ -750,7 +753,7 @@ def extent_from_metadata(
         else:
             add_extent = 0
         tile_extent = (rank_extent + add_extent) * layout_factor - add_extent
-        return_extents.append(int(tile_extent))  # layout_factor is float, need to cast
+        return_extents.append(int(tile_extent))  # may be a numpy int or Fraction
     return tuple(return_extents)
 
 
-- 
2.43.0


From 686cfc21430038898cb616001a7416482c8ac7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 03/25] fix: keep halo message tags within the range guaranteed
 by MPI

The tag grew by one per halo update without bound, exceeding MPI_TAG_UB in long runs.
---
 fv3gfs/util/communicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index eacc37d..2606f3b 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -18,6 +18,8 @@ __all__ = [
 
 logger = logging.getLogger("fv3gfs.util")
 
+MAX_HALO_TAG = 32767  # smallest value of MPI_TAG_UB allowed by the MPI standard
+
 
 def bcast_metadata_list(comm, quantity_list):
     is_root = comm.Get_rank() == constants.ROOT_RANK
@@ -318,7 +320,8 @@ class CubedSphereCommunicator(Communicator):
         self.partitioner: CubedSpherePartitioner = partitioner
 
     def _get_halo_tag(self) -> int:
-        self._last_halo_tag += 1
+        # wrap around, as MPI only guarantees support for tags up to MAX_HALO_TAG
+        self._last_halo_tag = self._last_halo_tag % MAX_HALO_TAG + 1
         return self._last_halo_tag
 
     @property
-- 
2.43.0


From 3967cbf47884a6ba23a353d7bee80a6d3a1247ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 04/25] fix: stop the clock when an exception leaves
 Timer.clock

A clock left running made every later use of the same name raise, for example every halo
update after one which was rejected for requesting too many halo points.
---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From a42e05e0315a36eaa9a6a0f82730b0b73b956ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 05/25] fix: reject invalid halo updates before sending any
 message

Previously a rejected update had already sent its data, which no rank ever received.
---
 fv3gfs/util/communicator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 2606f3b..1554b58 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -401,8 +401,9 @@ class CubedSphereCommunicator(Communicator):
         if n_points == 0:
             raise ValueError("cannot perform a halo update on zero halo points")
         tag = self._get_halo_tag()
-        send_requests = self._Isend_halos(quantity, n_points, tag=tag)
+        # prepare receives first so an invalid n_points is rejected before sending
         recv_requests = self._Irecv_halos(quantity, n_points, tag=tag)
+        send_requests = self._Isend_halos(quantity, n_points, tag=tag)
         return HaloUpdateRequest(send_requests, recv_requests)
 
     def _Isend_halos(self, quantity: Quantity, n_points: int, tag: int = 0):
@@ -530,11 +531,12 @@ class CubedSphereCommunicator(Communicator):
         if n_points == 0:
             raise ValueError("cannot perform a halo update on zero halo points")
         tag1, tag2 = self._get_halo_tag(), self._get_halo_tag()
+        # prepare receives first so an invalid n_points is rejected before sending
+        recv_requests = self._Irecv_halos(x_quantity, n_points, tag=tag1)
+        recv_requests.extend(self._Irecv_halos(y_quantity, n_points, tag=tag2))
         send_requests = self._Isend_vector_halos(
             x_quantity, y_quantity, n_points, tags=(tag1, tag2)
         )
-        recv_requests = self._Irecv_halos(x_quantity, n_points, tag=tag1)
-        recv_requests.extend(self._Irecv_halos(y_quantity, n_points, tag=tag2))
         return HaloUpdateRequest(send_requests, recv_requests)
 
     def _Isend_vector_halos(
-- 
2.43.0


From 31232eb99d754c3ef82000e0d0a51693b72d60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 06/25] fix: restore the stream when capture_stream is left by
 an exception

Also close the duplicated file handle, and flush buffered text so that it goes to the
stream which was active when it was written.
---
 fv3gfs/util/_capture_stream.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..416fb20 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -13,13 +13,22 @@ def capture_stream(stream):
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
 
-    with tempfile.NamedTemporaryFile() as out:
-        # overwrite the streams fileno with a the pipe to be read by the forked
-        # process below
-        os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+    try:
+        with tempfile.NamedTemporaryFile() as out:
+            # text written before now belongs to the original stream
+            stream.flush()
+            # overwrite the streams fileno with a the pipe to be read by the forked
+            # process below
+            os.dup2(out.fileno(), stream.fileno())
+            try:
+                yield out_stream
+            finally:
+                # text buffered by now belongs to the captured output
+                stream.flush()
+                # restore the original file handle
+                os.dup2(orig_file_handle, stream.fileno())
+                # print logging info
+                out.seek(0)
+                out_stream.write(out.read())
+    finally:
+        os.close(orig_file_handle)
-- 
2.43.0


From b2ae8f426502f822e04775b2e976d59a63d4d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 07/25] fix: keep units of quantities measured in units of time
 in read_state

xarray decoded such quantities to timedelta or datetime values and removed their units
attribute, so states with e.g. a quantity in seconds could be written but not read.
---
 fv3gfs/util/_xarray.py | 4 ++++
 fv3gfs/util/io.py      | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..199226d 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,10 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_cf(*args, **kwargs):
+    return xr.decode_cf(*args, **kwargs)
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..0783e9e 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -46,7 +46,11 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        # only time may be decoded, decoding removes the units of quantities which are
+        # measured in units of time
+        ds = xr.open_dataset(f, decode_times=False)
+        if "time" in ds.data_vars:
+            ds["time"] = xr.decode_cf(ds[["time"]], use_cftime=True)["time"]
         for name, value in ds.data_vars.items():
             if name == "time":
                 out_dict[name] = _extract_time(value)
-- 
2.43.0


From 90398f6abddddd8826827c7cc21cc1fedf9701b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 08/25] fix: raise IndexError for too many indices on a
 quantity view

The error message used an attribute that does not exist.
---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..2897598 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -181,7 +181,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From e2c4a9edea1587cf48d1285042f7ef35948b9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 09/25] fix: allow assignment to the view of a zero-dimensional
 quantity

view[:] could be read but not assigned, so zero-dimensional quantities could not be
nudged.
---
 fv3gfs/util/quantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 2897598..c37ac66 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -74,7 +74,10 @@ class BoundaryArrayView:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_array_index(index)] = value
+        if len(self._origin) == 0:
+            self[index][...] = value
+        else:
+            self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
         if isinstance(index, list):
@@ -173,7 +176,10 @@ class BoundedArrayView:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_compute_index(index)] = value
+        if len(self.origin) == 0:
+            self[index][...] = value
+        else:
+            self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
         if not isinstance(index, (tuple, list)):
-- 
2.43.0


From 977e4cf1ec2ea5275c4d2607d4312da3cbe00c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 10/25] fix: keep zero-dimensional quantities writable after
 accessing values

---
 fv3gfs/util/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index c37ac66..8f9acb3 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -448,7 +448,8 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        # need a new view, for zero dimensions view[:] is the underlying array itself
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0


From 55ded370cf8803ef504179c7c03f01c35b45cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 11/25] fix: keep the time of recv_state if scatter_state
 scatters no time

recv_state is documented to only have the scattered variables written to, but its time
was removed.
---
 fv3gfs/util/communicator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 1554b58..6f53f4b 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -261,9 +261,11 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            time = self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
+            if time is not None:
+                recv_state["time"] = time
 
         def scatter_client():
             name_list = self.comm.bcast(None, root=constants.ROOT_RANK)
@@ -272,7 +274,9 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            time = self.comm.bcast(None, root=constants.ROOT_RANK)
+            if time is not None:
+                recv_state["time"] = time
 
         if recv_state is None:
             recv_state = {}
@@ -280,8 +284,6 @@ class Communicator:
             scatter_root()
         else:
             scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
         return recv_state
 
 
-- 
2.43.0


From 596f02f12db6419e8438c2440a9c34bfc586a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 12/25] fix: let new axes in a quantity view not consume a
 dimension

---
 fv3gfs/util/quantity.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 8f9acb3..5b6d4ae 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -184,21 +184,25 @@ class BoundedArrayView:
     def _get_compute_index(self, index):
         if not isinstance(index, (tuple, list)):
             index = (index,)
-        if len(index) > len(self._dims):
+        n_new_axes = sum(entry is None for entry in index)
+        if len(index) - n_new_axes > len(self._dims):
             raise IndexError(
-                f"{len(index)} is too many indices for a "
+                f"{len(index) - n_new_axes} is too many indices for a "
                 f"{len(self._dims)}-dimensional quantity"
             )
-        index = fill_index(index, len(self._data.shape))
+        index = fill_index(index, len(self._data.shape) + n_new_axes)
         shifted_index = []
-        for entry, origin, extent in zip(index, self.origin, self.extent):
+        dim_bounds = iter(zip(self.origin, self.extent))
+        for entry in index:
+            if entry is None:  # new axis, does not index any dimension
+                shifted_index.append(entry)
+                continue
+            origin, extent = next(dim_bounds)
             if isinstance(entry, slice):
                 shifted_slice = shift_slice(entry, origin, extent)
                 shifted_index.append(
                     bound_default_slice(shifted_slice, origin, origin + extent)
                 )
-            elif entry is None:
-                shifted_index.append(entry)
             else:
                 shifted_index.append(entry + origin)
         return tuple(shifted_index)
-- 
2.43.0


From dd207ed075e508abebe83683034639c5377c6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 13/25] fix: default ends of slices with negative step in
 quantity views

---
 fv3gfs/util/_boundary_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/_boundary_utils.py b/fv3gfs/util/_boundary_utils.py
index 1eab376..c1a2b3c 100644
--- a/fv3gfs/util/_boundary_utils.py
+++ b/fv3gfs/util/_boundary_utils.py
@@ -14,6 +14,8 @@ def shift_boundary_slice_tuple(dims, origin, extent, boundary_type, slice_tuple)
 
 
 def bound_default_slice(slice_in, start=None, stop=None):
+    if slice_in.step is not None and slice_in.step < 0:  # goes from last to first
+        start, stop = stop - 1, start - 1 if start > 0 else None
     if slice_in.start is not None:
         start = slice_in.start
     if slice_in.stop is not None:
-- 
2.43.0


From d2a7ee9acb41b6b873f9b9e056493507887f2c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 14/25] fix: reject inconsistent states in ZarrMonitor before
 writing anything

---
 fv3gfs/util/zarr_monitor.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..579f31f 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -93,6 +93,9 @@ class ZarrMonitor:
                 f"provided state is missing keys {missing_names} "
                 "that were present in earlier states"
             )
+        # reject before anything is written, so that stored variables stay aligned
+        for name, value in state.items():
+            self._writers[name].ensure_compatible(value)
 
     def _ensure_writers_are_consistent(self, state):
         if self._writers is None:
@@ -120,6 +123,7 @@ class _ZarrVariableWriter:
         self.group = group
         self.name = name
         self.array = None
+        self._attrs = None
 
         self._prepend_shape = (1, 6)
         self._prepend_chunks = (1, 1)
@@ -163,6 +167,7 @@ class _ZarrVariableWriter:
         # extend the dimension once, from the root rank
         if self.array is None:
             self._init_zarr(quantity)
+            self._attrs = self._get_attrs(quantity)
 
         if self.i_time >= self.array.shape[0] and self.rank == 0:
             new_shape = list(
@@ -171,7 +176,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -212,12 +216,20 @@ class _ZarrVariableWriter:
             **quantity.attrs,
         }
 
-    def _ensure_compatible_attrs(self, new_quantity):
+    def ensure_compatible(self, new_quantity):
+        if self._attrs is None:
+            return
         new_attrs = self._get_attrs(new_quantity)
-        if dict(self.array.attrs) != new_attrs:
+        if self._attrs != new_attrs:
             raise ValueError(
                 f"value for {self.name} with attrs {new_attrs} "
-                f"does not match previously stored attrs {dict(self.array.attrs)}"
+                f"does not match previously stored attrs {self._attrs}"
+            )
+        new_shape = self._partitioner.tile.global_extent(new_quantity.metadata)
+        if self.array.shape[2:] != new_shape:
+            raise ValueError(
+                f"value for {self.name} with tile shape {new_shape} "
+                f"does not match previously stored tile shape {self.array.shape[2:]}"
             )
 
 
@@ -268,12 +280,14 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             self.array.attrs["units"] = self._encoding_units
             self.array.attrs["calendar"] = self._encoding_calendar
 
-    def _encode_time(self, time):
-        if time.calendar != self._encoding_calendar:
+    def ensure_compatible(self, time):
+        if self.array is not None and time.calendar != self._encoding_calendar:
             raise ValueError(
                 f"Calendar type of time, {time.calendar}, does not match the original "
                 f"calendar encoding, {self._encoding_calendar}."
             )
+
+    def _encode_time(self, time):
         return cftime.date2num(
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
-- 
2.43.0


From 5ae92c8bd933bdd248269ab7f69ccccce4bccdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 15/25] fix: keep restart variables measured in units of time
 in open_restart

---
 fv3gfs/util/_legacy_restart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 3d74740..3278fb6 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -140,7 +140,8 @@ def prepend_label(filename, label=None):
 def load_partial_state_from_restart_file(
     file, restart_properties: RestartProperties, only_names=None
 ):
-    ds = xr.open_dataset(file).isel(Time=0).drop_vars("Time")
+    # decoding would remove the units of variables measured in units of time
+    ds = xr.open_dataset(file, decode_times=False).isel(Time=0).drop_vars("Time")
     state = map_keys(ds.data_vars, _get_restart_standard_names(restart_properties))
     state = _apply_restart_metadata(state, restart_properties)
     if only_names is None:
-- 
2.43.0


From 789a9e64393dbb8e05114f637a7e30f342aea983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 16/25] fix: accept any iterable of names in open_restart

---
 fv3gfs/util/_legacy_restart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 3278fb6..a53bbe8 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -41,6 +41,8 @@ def open_restart(
         restart_properties = RESTART_PROPERTIES
     else:
         restart_properties = {**tracer_properties, **RESTART_PROPERTIES}
+    if only_names is not None:
+        only_names = set(only_names)  # is searched many times, may be an iterator
     rank = communicator.rank
     tile_index = communicator.partitioner.tile_index(rank)
     state = {}
-- 
2.43.0


From ee3872a2ee1536d1a08926d31f54ec38e7f7b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 17/25] fix: accept numbers and lists as data of a quantity

---
 fv3gfs/util/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 5b6d4ae..e42223c 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -282,6 +282,9 @@ class Quantity:
                 storage attribute is disabled and will raise an exception. Will raise
                 a TypeError if this is given with a gt4py storage type as data
         """
+        if isinstance(data, (int, float, list)):
+            data = np.asarray(data)
+
         if origin is None:
             origin = (0,) * len(dims)  # default origin at origin of array
         else:
@@ -292,9 +295,7 @@ class Quantity:
         else:
             extent = tuple(extent)
 
-        if isinstance(data, (int, float, list)):
-            data = np.asarray(data)
-        elif gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
+        if gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
             if gt4py_backend is not None:
                 raise TypeError(
                     "cannot select gt4py backend with keyword argument "
-- 
2.43.0


From 62c227280f61694cfbc4e1006b2c7ddd7c2ddb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 18/25] fix: rotate both vector components in place in
 Boundary.rotate

---
 fv3gfs/util/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/boundary.py b/fv3gfs/util/boundary.py
index faf1785..b56a0e0 100644
--- a/fv3gfs/util/boundary.py
+++ b/fv3gfs/util/boundary.py
@@ -20,12 +20,12 @@ class Boundary:
         if self.n_clockwise_rotations % 4 == 0:
             pass
         elif self.n_clockwise_rotations % 4 == 1:
-            y_data[:], x_data[:] = -x_data[:], y_data[:]
+            y_data[:], x_data[:] = -x_data, y_data.copy()
         elif self.n_clockwise_rotations % 4 == 2:
             y_data[:] = -y_data[:]
             x_data[:] = -x_data[:]
         elif self.n_clockwise_rotations % 4 == 3:
-            y_data, x_data = x_data[:], -y_data[:]
+            y_data[:], x_data[:] = x_data.copy(), -y_data
 
     def send_view(self, quantity: Quantity, n_points: int):
         """Return a sliced view of points which should be sent at this boundary.
-- 
2.43.0


From ba80b1e55cac68468b40322ff43fbdc800e4f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 19/25] fix: gather the variables of a state in the same order
 on all ranks

---
 fv3gfs/util/communicator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 6f53f4b..5bb9aa5 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -221,7 +221,9 @@ class Communicator:
         """
         if self.rank == constants.ROOT_RANK and recv_state is None:
             recv_state = {}
-        for name, quantity in send_state.items():
+        # all ranks must gather in the same order, whatever the order of their states
+        for name in sorted(send_state):
+            quantity = send_state[name]
             if name == "time":
                 if self.rank == constants.ROOT_RANK:
                     recv_state["time"] = send_state["time"]
-- 
2.43.0


From 80ee0e6699ee4efa068b58c58e994521ee48dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 20/25] fix: give storages of a QuantityFactory the origin of
 the compute domain

---
 fv3gfs/util/initialization/allocator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/initialization/allocator.py b/fv3gfs/util/initialization/allocator.py
index 9040c5f..0de262b 100644
--- a/fv3gfs/util/initialization/allocator.py
+++ b/fv3gfs/util/initialization/allocator.py
@@ -9,9 +9,11 @@ except ImportError:
 
 
 def _wrap_storage_call(function, backend):
-    def wrapped(shape, dtype=float, **kwargs):
+    def wrapped(shape, dtype=float, default_origin=None, **kwargs):
+        if default_origin is None:
+            default_origin = [0] * len(shape)
         kwargs["managed_memory"] = True
-        return function(backend, [0] * len(shape), shape, dtype, **kwargs)
+        return function(backend, default_origin, shape, dtype, **kwargs)
 
     wrapped.__name__ = function.__name__
     return wrapped
-- 
2.43.0


From b8d9f30b283a78c8e73502dc5f06c6aaccc704a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 21/25] fix: scatter and gather quantities without dimensions

Indexing the buffer with [rank, :] needs at least one dimension per rank, so
that the root rank raised IndexError while the others waited forever.
---
 fv3gfs/util/communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 5bb9aa5..43459fd 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -118,7 +118,7 @@ class Communicator:
                         global_extent=metadata.extent,
                         overlap=True,
                     )
-                    sendbuf[rank, :] = send_quantity.view[subtile_slice]
+                    sendbuf[rank, ...] = send_quantity.view[subtile_slice]
                 self._Scatter(
                     metadata.np,
                     sendbuf,
@@ -197,7 +197,7 @@ class Communicator:
                         global_extent=recv_quantity.extent,
                         overlap=True,
                     )
-                    recv_quantity.view[to_slice] = recvbuf[rank, :]
+                    recv_quantity.view[to_slice] = recvbuf[rank, ...]
                 result = recv_quantity
         else:
             self._Gather(
-- 
2.43.0


From 073a9ad80140dbb5b4f88e5a101e77a2012176ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 22/25] fix: empty view for reversed slices of an empty compute
 domain

---
 fv3gfs/util/_boundary_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/_boundary_utils.py b/fv3gfs/util/_boundary_utils.py
index c1a2b3c..920e87b 100644
--- a/fv3gfs/util/_boundary_utils.py
+++ b/fv3gfs/util/_boundary_utils.py
@@ -15,6 +15,8 @@ def shift_boundary_slice_tuple(dims, origin, extent, boundary_type, slice_tuple)
 
 def bound_default_slice(slice_in, start=None, stop=None):
     if slice_in.step is not None and slice_in.step < 0:  # goes from last to first
+        if slice_in.start is None and stop == 0:  # there is no last point
+            return slice(0, 0, slice_in.step)
         start, stop = stop - 1, start - 1 if start > 0 else None
     if slice_in.start is not None:
         start = slice_in.start
-- 
2.43.0


From caf1b3ef2ae0051f66d6f0e1fba0c35865a8c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 23/25] fix: store series of states without time in ZarrMonitor

---
 fv3gfs/util/zarr_monitor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 579f31f..1c58962 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -76,9 +76,10 @@ class ZarrMonitor:
             )
             for key in set(state.keys()).difference(["time"])
         }
-        self._writers["time"] = _ZarrTimeWriter(
-            self._comm, self._group, name="time", partitioner=self.partitioner,
-        )
+        if "time" in state:
+            self._writers["time"] = _ZarrTimeWriter(
+                self._comm, self._group, name="time", partitioner=self.partitioner,
+            )
 
     def _check_writers(self, state):
         extra_names = set(state.keys()).difference(self._writers.keys())
-- 
2.43.0


From 9f0c8d64659baf6dbb158edea13a82c12a79679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 24/25] fix: keep the microseconds of all dates in
 datetime64_to_datetime

---
 fv3gfs/util/time.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/time.py b/fv3gfs/util/time.py
index 54ce174..cb8a1b2 100644
--- a/fv3gfs/util/time.py
+++ b/fv3gfs/util/time.py
@@ -19,5 +19,12 @@ FMS_TO_CFTIME_TYPE = {
 
 def datetime64_to_datetime(dt64: np.datetime64) -> datetime.datetime:
     utc_start = np.datetime64(0, "s")
-    timestamp = (dt64 - utc_start) / np.timedelta64(1, "s")
-    return datetime.datetime.utcfromtimestamp(timestamp)
+    since_start = np.asarray(dt64) - utc_start
+    # whole seconds apart, a float can not hold the microseconds of all dates
+    seconds = since_start.astype("timedelta64[s]")
+    fraction = (since_start - seconds) / np.timedelta64(1, "s")
+    return (
+        datetime.datetime(1970, 1, 1)
+        + seconds.item()
+        + datetime.timedelta(seconds=float(fraction))
+    )
-- 
2.43.0


From 79a39c1b4fd02d79ec0cfe2bd6cca75ef96eb0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 25/25] fix: write states as a whole, remote files cannot seek
 while written

write_state let scipy write into the opened file, which needs to seek. Files of
remote filesystems (fsspec's buffered files) refuse that, so that no state could
be written to them, and files of fsspec's memory filesystem were corrupted. A
state which cannot be serialized had emptied an older file before it was refused.
---
 fv3gfs/util/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 0783e9e..ff034dc 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -15,9 +15,10 @@ def write_state(state: dict, filename: str) -> None:
     """
     if "time" not in state:
         raise ValueError('state must include a value for "time"')
-    ds = xr.to_dataset(state)
+    # must be written as a whole, files of remote filesystems may be unable to seek
+    data = xr.to_dataset(state).to_netcdf()
     with filesystem.open(filename, "wb") as f:
-        ds.to_netcdf(f)
+        f.write(data)
 
 
 def _extract_time(value: xr.DataArray) -> cftime.datetime:
-- 
2.43.0

