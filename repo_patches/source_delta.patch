From 6d44c3bf30244c36c5875752dd1b5fb0b5caa8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 01/16] fix: synchronize_vector_interfaces mixed up data of
 quantities with a dimension before x or y

The edge data was rotated as if x (or y) was the only dimension, so with any
dimension ahead of it (e.g. z, y, x) that dimension was flipped or transposed
instead.
---
 fv3gfs/util/communicator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..10045c0 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -569,9 +569,11 @@ class CubedSphereCommunicator(Communicator):
     def _Isend_vector_shared_boundary(self, x_quantity, y_quantity, tag=0):
         south_boundary = self.boundaries[constants.SOUTH]
         west_boundary = self.boundaries[constants.WEST]
+        # keep the edge as a length-1 dimension, so that rotation acts on the horizontal
+        # dimensions regardless of where they are among the dimensions of the quantity
         south_data = x_quantity.view.southwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: 0,
+                constants.Y_INTERFACE_DIM: slice(0, 1),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -579,7 +581,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            x_quantity.dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -587,7 +589,7 @@ class CubedSphereCommunicator(Communicator):
             south_data = -south_data
         west_data = y_quantity.view.southwest.sel(
             **{
-                constants.X_INTERFACE_DIM: 0,
+                constants.X_INTERFACE_DIM: slice(0, 1),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
@@ -595,7 +597,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            y_quantity.dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
@@ -614,7 +616,7 @@ class CubedSphereCommunicator(Communicator):
         east_rank = self.boundaries[constants.EAST].to_rank
         north_data = x_quantity.view.northwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: -1,
+                constants.Y_INTERFACE_DIM: slice(-1, None),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -622,7 +624,7 @@ class CubedSphereCommunicator(Communicator):
         )
         east_data = y_quantity.view.southeast.sel(
             **{
-                constants.X_INTERFACE_DIM: -1,
+                constants.X_INTERFACE_DIM: slice(-1, None),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
-- 
2.43.0


From e69468711fda69a15d6089f858f804cef631e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 02/16] fix: subtile extents were one point short for some
 layouts

Dividing by multiplying with the float 1 / n_ranks and truncating loses a point
when the product falls just below an integer, e.g. for 49 ranks along an edge.
---
 fv3gfs/util/partitioner.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..2b3bacf 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -734,10 +734,13 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
-    return extent_from_metadata(dims, tile_extent, layout_factors)
+    n_ranks_by_dim = utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    return_extents = []
+    for dim, extent, n_ranks in zip(dims, tile_extent, n_ranks_by_dim):
+        n_overlap = 1 if dim in constants.INTERFACE_DIMS else 0
+        # must be integer division, e.g. int(49 * (1 / 49)) is 0
+        return_extents.append(int((extent - n_overlap) // n_ranks + n_overlap))
+    return tuple(return_extents)
 
 
 def extent_from_metadata(
-- 
2.43.0


From ca56a16a5ca12ef799e6e482ba6ee7fe68afc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 03/16] fix: scatter_state removed an existing time from the
 receiving state

Only what is scattered is to be written, so a state sent without a time must
leave the time of a pre-allocated receive state alone.
---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 10045c0..d3ef97e 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -259,7 +259,7 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            return self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
 
@@ -270,16 +270,16 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            return self.comm.bcast(None, root=constants.ROOT_RANK)
 
         if recv_state is None:
             recv_state = {}
         if self.rank == constants.ROOT_RANK:
-            scatter_root()
+            time = scatter_root()
         else:
-            scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
+            time = scatter_client()
+        if time is not None:
+            recv_state["time"] = time
         return recv_state
 
 
-- 
2.43.0


From b83a8e5bfe821b9eb818e60c4a41f9d8754a23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 04/16] fix: gather_state mixed up variables when ranks list
 them in different orders

---
 fv3gfs/util/communicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index d3ef97e..7ac6139 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -219,7 +219,8 @@ class Communicator:
         """
         if self.rank == constants.ROOT_RANK and recv_state is None:
             recv_state = {}
-        for name, quantity in send_state.items():
+        # ranks must gather in the same order, whatever order their states were built in
+        for name, quantity in sorted(send_state.items(), key=lambda item: item[0]):
             if name == "time":
                 if self.rank == constants.ROOT_RANK:
                     recv_state["time"] = send_state["time"]
-- 
2.43.0


From b40a5465f1f4a3f2b504689ed2ba3a6ce0c0eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 05/16] fix: halo updates failed after as many as there are MPI
 tags

---
 fv3gfs/util/communicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 7ac6139..3f9256e 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -18,6 +18,8 @@ __all__ = [
 
 logger = logging.getLogger("fv3gfs.util")
 
+MAX_TAG = 32767  # smallest upper bound for tags allowed by the MPI standard
+
 
 def bcast_metadata_list(comm, quantity_list):
     is_root = comm.Get_rank() == constants.ROOT_RANK
@@ -319,7 +321,8 @@ class CubedSphereCommunicator(Communicator):
         self.partitioner: CubedSpherePartitioner = partitioner
 
     def _get_halo_tag(self) -> int:
-        self._last_halo_tag += 1
+        # tags larger than MAX_TAG are not guaranteed to be available
+        self._last_halo_tag = self._last_halo_tag % MAX_TAG + 1
         return self._last_halo_tag
 
     @property
-- 
2.43.0


From 5e905b70c19e30251bf08452ae45734bada357cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/16] fix: Timer.clock left its clock running when its block
 raised an exception

---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From d58e65e2d833368a6989c9e9c38ad458a3d5a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 07/16] fix: send_buffer and recv_buffer left a clock running
 when getting a buffer failed

---
 fv3gfs/util/buffer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fv3gfs/util/buffer.py b/fv3gfs/util/buffer.py
index ac75a66..fcecb76 100644
--- a/fv3gfs/util/buffer.py
+++ b/fv3gfs/util/buffer.py
@@ -56,14 +56,12 @@ def send_buffer(allocator: Callable, array: ndarray, timer: Optional[Timer] = No
     if array is None or is_c_contiguous(array):
         yield array
     else:
-        timer.start("pack")
-        with array_buffer(allocator, array.shape, array.dtype) as sendbuf:
-            assign_array(sendbuf, array)
-            # this is a little dangerous, because if there is an exception in the two
-            # lines above the timer may be started but never stopped. However, it
-            # cannot be avoided because we cannot put those two lines in a with or
-            # try block without also including the yield line.
-            timer.stop("pack")
+        with contextlib.ExitStack() as stack:
+            with timer.clock("pack"):
+                sendbuf = stack.enter_context(
+                    array_buffer(allocator, array.shape, array.dtype)
+                )
+                assign_array(sendbuf, array)
             yield sendbuf
 
 
@@ -87,9 +85,11 @@ def recv_buffer(allocator: Callable, array: ndarray, timer: Optional[Timer] = No
     if array is None or is_c_contiguous(array):
         yield array
     else:
-        timer.start("unpack")
-        with array_buffer(allocator, array.shape, array.dtype) as recvbuf:
-            timer.stop("unpack")
+        with contextlib.ExitStack() as stack:
+            with timer.clock("unpack"):
+                recvbuf = stack.enter_context(
+                    array_buffer(allocator, array.shape, array.dtype)
+                )
             yield recvbuf
             with timer.clock("unpack"):
                 assign_array(array, recvbuf)
-- 
2.43.0


From a0c0efc2179a0589b449803c42d311b24f4585b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 08/16] fix: an interrupted write_state left files that
 read_state read as different data

---
 fv3gfs/util/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..cfe627c 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -16,8 +16,11 @@ def write_state(state: dict, filename: str) -> None:
     if "time" not in state:
         raise ValueError('state must include a value for "time"')
     ds = xr.to_dataset(state)
+    # written in one piece, as NetCDF headers are completed only at the very end, so that
+    # a file whose writing was interrupted could otherwise be read as different data
+    contents = ds.to_netcdf()
     with filesystem.open(filename, "wb") as f:
-        ds.to_netcdf(f)
+        f.write(contents)
 
 
 def _extract_time(value: xr.DataArray) -> cftime.datetime:
-- 
2.43.0


From 6944f85bb123bb929adcc257d302c53ef6621256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 09/16] fix: read_state dropped quantities named like their
 dimension

---
 fv3gfs/util/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index cfe627c..32f6a55 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -50,7 +50,11 @@ def read_state(filename: str) -> dict:
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
         ds = xr.open_dataset(f, use_cftime=True)
-        for name, value in ds.data_vars.items():
+        # a quantity with the name of its only dimension is stored as a coordinate
+        coords = {
+            name: value for name, value in ds.coords.items() if "units" in value.attrs
+        }
+        for name, value in {**ds.data_vars, **coords}.items():
             if name == "time":
                 out_dict[name] = _extract_time(value)
             else:
-- 
2.43.0


From 9d451cd8a43104985f7a082d8ea3e24c59daffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 10/16] fix: capture_stream left the stream redirected after an
 error, and a descriptor open

---
 fv3gfs/util/_capture_stream.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..14b0ee3 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -13,13 +13,18 @@ def capture_stream(stream):
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
 
-    with tempfile.NamedTemporaryFile() as out:
-        # overwrite the streams fileno with a the pipe to be read by the forked
-        # process below
-        os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+    try:
+        with tempfile.NamedTemporaryFile() as out:
+            # overwrite the streams fileno with a the pipe to be read by the forked
+            # process below
+            os.dup2(out.fileno(), stream.fileno())
+            try:
+                yield out_stream
+            finally:
+                # restore the original file handle
+                os.dup2(orig_file_handle, stream.fileno())
+                # print logging info
+                out.seek(0)
+                out_stream.write(out.read())
+    finally:
+        os.close(orig_file_handle)
-- 
2.43.0


From 01c20cd09e349d71fa6fd66492cc0774103d242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 11/16] fix: capture_stream captured buffered output from
 before it and missed its own

---
 fv3gfs/util/_capture_stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 14b0ee3..ad021e0 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -15,14 +15,19 @@ def capture_stream(stream):
 
     try:
         with tempfile.NamedTemporaryFile() as out:
+            # what was written before belongs to the original destination
+            stream.flush()
             # overwrite the streams fileno with a the pipe to be read by the forked
             # process below
             os.dup2(out.fileno(), stream.fileno())
             try:
                 yield out_stream
             finally:
-                # restore the original file handle
-                os.dup2(orig_file_handle, stream.fileno())
+                try:
+                    stream.flush()
+                finally:
+                    # restore the original file handle
+                    os.dup2(orig_file_handle, stream.fileno())
                 # print logging info
                 out.seek(0)
                 out_stream.write(out.read())
-- 
2.43.0


From fb769327eac12922782e175c392f4beb0603ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/16] fix: open_restart honours only_names given as an
 iterator

---
 fv3gfs/util/_legacy_restart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 3d74740..935e5b9 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -41,6 +41,8 @@ def open_restart(
         restart_properties = RESTART_PROPERTIES
     else:
         restart_properties = {**tracer_properties, **RESTART_PROPERTIES}
+    if only_names is not None:
+        only_names = set(only_names)  # used repeatedly, so must not be an iterator
     rank = communicator.rank
     tile_index = communicator.partitioner.tile_index(rank)
     state = {}
-- 
2.43.0


From e38ec4d3f2ad3ad56242d17febe5fa395246ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 13/16] fix: a failed store must not shift the variables of
 later snapshots in the Zarr monitor

The writers of the variables before the one that failed had advanced, so later
snapshots were stored at different steps for different variables.
---
 fv3gfs/util/zarr_monitor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..38d4ac7 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -67,6 +67,7 @@ class ZarrMonitor:
         self._group = mpi_comm.bcast(group)
         self._comm = mpi_comm
         self._writers = None
+        self._i_time = 0
         self.partitioner = partitioner
 
     def _init_writers(self, state):
@@ -109,8 +110,12 @@ class ZarrMonitor:
         is "time" which is stored with dimensions [time].
         """
         self._ensure_writers_are_consistent(state)
+        for writer in self._writers.values():
+            # a store which failed has advanced only some of the writers
+            writer.i_time = self._i_time
         for name, quantity in sorted(state.items(), key=lambda x: x[0]):
             self._writers[name].append(quantity)  # type: ignore[index]
+        self._i_time += 1
 
 
 class _ZarrVariableWriter:
-- 
2.43.0


From fb12f7732c8295707ad5be4ddbcf0dcfd736f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 14/16] fix: the Zarr monitor must reject a state before
 writing any of it

Different units, dimensions, sizes or calendars were noticed, if at all, on the root
rank only and after it had extended the arrays; smaller sizes cut off stored data.
---
 fv3gfs/util/zarr_monitor.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 38d4ac7..b84422f 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -94,6 +94,9 @@ class ZarrMonitor:
                 f"provided state is missing keys {missing_names} "
                 "that were present in earlier states"
             )
+        # checked on every rank before anything is written for this state
+        for name, value in state.items():
+            self._writers[name].ensure_compatible(value)
 
     def _ensure_writers_are_consistent(self, state):
         if self._writers is None:
@@ -176,7 +179,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -217,6 +219,20 @@ class _ZarrVariableWriter:
             **quantity.attrs,
         }
 
+    def ensure_compatible(self, new_quantity):
+        if self.array is not None:
+            self._ensure_compatible_attrs(new_quantity)
+            self._ensure_compatible_extent(new_quantity)
+
+    def _ensure_compatible_extent(self, new_quantity):
+        tile_extent = self._partitioner.tile.global_extent(new_quantity.metadata)
+        stored_extent = self.array.shape[len(self._prepend_shape) :]
+        if tile_extent != stored_extent:
+            raise ValueError(
+                f"value for {self.name} with tile extent {tile_extent} "
+                f"does not match previously stored extent {stored_extent}"
+            )
+
     def _ensure_compatible_attrs(self, new_quantity):
         new_attrs = self._get_attrs(new_quantity)
         if dict(self.array.attrs) != new_attrs:
@@ -273,12 +289,14 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             self.array.attrs["units"] = self._encoding_units
             self.array.attrs["calendar"] = self._encoding_calendar
 
-    def _encode_time(self, time):
-        if time.calendar != self._encoding_calendar:
+    def ensure_compatible(self, new_time):
+        if self.array is not None and new_time.calendar != self._encoding_calendar:
             raise ValueError(
-                f"Calendar type of time, {time.calendar}, does not match the original "
-                f"calendar encoding, {self._encoding_calendar}."
+                f"Calendar type of time, {new_time.calendar}, does not match the "
+                f"original calendar encoding, {self._encoding_calendar}."
             )
+
+    def _encode_time(self, time):
         return cftime.date2num(
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
-- 
2.43.0


From 244337ec9fc1842ff8d9e4171a8af00b05573842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 15/16] fix: read_state decodes only the time, not quantities
 with units such as seconds

---
 fv3gfs/util/_xarray.py | 4 ++++
 fv3gfs/util/io.py      | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..199226d 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,10 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_cf(*args, **kwargs):
+    return xr.decode_cf(*args, **kwargs)
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 32f6a55..519e49f 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -49,14 +49,16 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        # only the time is to be decoded, not durations such as those in "seconds"
+        ds = xr.open_dataset(f, decode_times=False)
         # a quantity with the name of its only dimension is stored as a coordinate
         coords = {
             name: value for name, value in ds.coords.items() if "units" in value.attrs
         }
         for name, value in {**ds.data_vars, **coords}.items():
             if name == "time":
-                out_dict[name] = _extract_time(value)
+                time = xr.decode_cf(ds[["time"]], use_cftime=True)["time"]
+                out_dict[name] = _extract_time(time)
             else:
                 out_dict[name] = Quantity.from_data_array(value)
     return out_dict
-- 
2.43.0


From 02c63fce8a10897cf773ea1abc56dd512a599bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 16/16] fix: open_restart does not decode variables with units
 such as seconds as durations

---
 fv3gfs/util/_legacy_restart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 935e5b9..ea9be49 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -142,7 +142,8 @@ def prepend_label(filename, label=None):
 def load_partial_state_from_restart_file(
     file, restart_properties: RestartProperties, only_names=None
 ):
-    ds = xr.open_dataset(file).isel(Time=0).drop_vars("Time")
+    # the metadata gives the units, a variable in "seconds" is not to be decoded
+    ds = xr.open_dataset(file, decode_times=False).isel(Time=0).drop_vars("Time")
     state = map_keys(ds.data_vars, _get_restart_standard_names(restart_properties))
     state = _apply_restart_metadata(state, restart_properties)
     if only_names is None:
-- 
2.43.0

