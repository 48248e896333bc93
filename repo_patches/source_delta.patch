From 5084ad791a39cba06ea57f711187dff78e4128dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:59 +0000
Subject: [PATCH 01/51] fix: clamp cell indices of keys to the last cell of the
 grid

---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 5ed51f3..024a6fa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -43,7 +43,7 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.cast(cell_ind, tf.int32)
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
-      num_cells)
+      num_cells - 1)
   cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
   keys = point_cloud._batch_ids * cell_multiplier[0] + \
-- 
2.43.0


From 51e0f667baa8bae192d5fc98a9ec33c0274516f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 02/51] fix: compute grid keys with 64 bit integers

---
 pylib/pc/custom_ops/custom_ops_tf.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 024a6fa..ed9be0d 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -44,12 +44,15 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
       num_cells - 1)
-  cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
-  cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
-  keys = point_cloud._batch_ids * cell_multiplier[0] + \
+  # keys can exceed the int32 range
+  cell_ind = tf.cast(cell_ind, tf.int64)
+  cell_multiplier = tf.math.cumprod(tf.cast(num_cells, tf.int64), reverse=True)
+  cell_multiplier = tf.concat(
+      (cell_multiplier, tf.ones([1], dtype=tf.int64)), axis=0)
+  keys = tf.cast(point_cloud._batch_ids, tf.int64) * cell_multiplier[0] + \
       tf.math.reduce_sum(cell_ind * tf.reshape(cell_multiplier[1:], [1, -1]),
                          axis=1)
-  return tf.cast(keys, tf.int64)
+  return keys
 tf.no_gradient('ComputeKeysTF')
 
 
@@ -69,7 +72,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
     An `int` `Tensor` of shape `[batch_size, num_cells[0], num_cells[1], 2]`.
 
   """
-  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int32)
+  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int64)
   num_cells = tf.cast(tf.convert_to_tensor(value=num_cells), tf.int32)
 
   num_keys = tf.shape(sorted_keys)[0]
@@ -79,8 +82,8 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
       'Points must have dimensionality >1.')
   cells_per_2D_cell = tf.cond(
     tf.shape(num_cells)[0] > 2,
-    lambda: tf.reduce_prod(num_cells[2:]),
-    lambda: 1
+    lambda: tf.reduce_prod(tf.cast(num_cells[2:], tf.int64)),
+    lambda: tf.constant(1, dtype=tf.int64)
   )
   # condition without graph mode
   # if tf.shape(num_cells)[0] > 2:
@@ -88,8 +91,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
   # elif tf.shape(num_cells)[0] == 2:
   #     cells_per_2D_cell = 1
 
-  ds_indices = tf.cast(tf.floor(sorted_keys / cells_per_2D_cell),
-                       dtype=tf.int32)
+  ds_indices = tf.cast(sorted_keys // cells_per_2D_cell, dtype=tf.int32)
   indices = tf.range(0, num_keys, dtype=tf.int32)
   first_per_cell = tf.math.unsorted_segment_min(
       indices, ds_indices, num_cells_2D)
-- 
2.43.0


From e5ac07ad71b1015ca332f4ac4c3e88b410c7bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 03/51] fix: look up the neighbor search cells of a center in
 the cells of the grid

---
 pylib/pc/custom_ops/custom_ops_tf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index ed9be0d..7b751ca 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -156,11 +156,12 @@ def find_neighbors_tf(grid,
   aabb_min_per_center_point_2D = tf.gather(
       abb_min_per_batch_2D, center_batch_ids)
   center_cell_ind_2D = tf.math.floor(
-      (center_points[:, :2] - aabb_min_per_center_point_2D) / radii[:2])
+      (center_points[:, :2] - aabb_min_per_center_point_2D) /
+      grid._cell_sizes[:2])
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
   # find neighbors using fast 2D grid datastructure
   neighbor_points = grid._sorted_points
   neighbor_batch_ids = grid._sorted_batch_ids
@@ -187,7 +188,7 @@ def find_neighbors_tf(grid,
     # clip to range between 0 and max num cells
     adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
     # get min and max point ids of the adjacent cells
     adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
     adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-- 
2.43.0


From 6794d4e0dca6d9dc7c70f1b3c680230f642276fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 04/51] fix: find neighbors without a Python loop over the
 centers, which fails in graph mode

---
 pylib/pc/custom_ops/custom_ops_tf.py | 90 +++++++++++++---------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 7b751ca..3a2f723 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -140,14 +140,8 @@ def find_neighbors_tf(grid,
       `grid._sorted_points`.
 
   """
-  radii = tf.convert_to_tensor(value=radii)
-  radii = tf.cond(
-      tf.logical_or(tf.shape(radii)[0] == [], tf.shape(radii)[0] == 1),
-      lambda: tf.repeat(radii, grid._point_cloud._dimension),
-      lambda: radii)
-  # condition without graph mode
-  # if tf.shape(radii)[0] == [] or tf.shape(radii)[0] == 1:
-  #   radii = tf.repeat(radii, grid._point_cloud._dimension)
+  radii = tf.reshape(tf.convert_to_tensor(value=radii, dtype=tf.float32), [-1])
+  radii = tf.broadcast_to(radii, [grid._point_cloud._dimension])
   # compute keys of center points in neighbors 2D grid
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
@@ -167,50 +161,46 @@ def find_neighbors_tf(grid,
   neighbor_batch_ids = grid._sorted_batch_ids
   data_structure = grid.get_DS()
 
-  neighbors = []
-  center_neigh_ranges = []
-  cur_neigh_range = 0
-  for i in range(tf.shape(center_points)[0]):
-    cur_point = center_points[i]
-    cur_batch_id = center_batch_ids[i]
-    # get cell_ids of adjacent 2D cells (9 in total)
-    cur_cell_id_2D = center_cell_ind_2D[i]
-    adj_cell_ids_2D = tf.stack(
-        (cur_cell_id_2D + [-1, -1],
-         cur_cell_id_2D + [-1, 0],
-         cur_cell_id_2D + [-1, 1],
-         cur_cell_id_2D + [0, 1],
-         cur_cell_id_2D,
-         cur_cell_id_2D + [0, -1],
-         cur_cell_id_2D + [1, -1],
-         cur_cell_id_2D + [1, 0],
-         cur_cell_id_2D + [1, 1]), axis=0)
-    # clip to range between 0 and max num cells
-    adj_cell_ids_2D = tf.minimum(
+  num_centers = tf.shape(center_points)[0]
+
+  # get cell_ids of adjacent 2D cells (9 in total), in the order of the keys
+  adj_cell_ids_2D = tf.expand_dims(center_cell_ind_2D, axis=1) + \
+      tf.constant([[[1, 1], [1, 0], [1, -1],
+                    [0, 1], [0, 0], [0, -1],
+                    [-1, 1], [-1, 0], [-1, -1]]])
+  in_grid = tf.reduce_all(
+      tf.logical_and(adj_cell_ids_2D >= 0,
+                     adj_cell_ids_2D < grid._num_cells[:2]), axis=-1)
+  # clip to range between 0 and max num cells
+  adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
       grid._num_cells[:2] - 1)
-    # get min and max point ids of the adjacent cells
-    adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
-    adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-    adj_ids_end = tf.reduce_max(adj_ids[0, :, 1])
-    # choose points below certain distance and in same batch
-    adj_points = neighbor_points[adj_ids_start:adj_ids_end]
-    adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
-    distances = tf.linalg.norm(
-        adj_points - tf.reshape(cur_point, [1, -1]), axis=1)
-    close = (distances < radii[0])
-    same_batch = (adj_batch_ids == cur_batch_id)
-    close = tf.math.logical_and(close, same_batch)
-    close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-
-    cur_neighbors = tf.stack(
-        (close_ids, tf.ones_like(close_ids) * i), axis=1)
-    neighbors.append(cur_neighbors)
-    cur_neigh_range = cur_neigh_range + tf.shape(cur_neighbors)[0]
-    center_neigh_ranges.append(cur_neigh_range)
-
-  neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.concat(center_neigh_ranges, axis=0)
+  # get first point id and number of points of the adjacent cells
+  adj_batch_ids = tf.repeat(
+      tf.reshape(center_batch_ids, [-1, 1, 1]), 9, axis=1)
+  adj_ids = tf.gather_nd(
+      data_structure, tf.concat((adj_batch_ids, adj_cell_ids_2D), axis=-1))
+  adj_ids_start = tf.reshape(adj_ids[:, :, 0], [-1])
+  adj_num_points = tf.reshape(
+      tf.where(in_grid, adj_ids[:, :, 1] - adj_ids[:, :, 0], 0), [-1])
+  # get all pairs of a center and a point in the adjacent cells
+  pair_cell_ids = tf.repeat(tf.range(num_centers * 9), adj_num_points)
+  pair_offsets = adj_ids_start - tf.cumsum(adj_num_points, exclusive=True)
+  pair_ids = tf.range(tf.shape(pair_cell_ids)[0]) + \
+      tf.gather(pair_offsets, pair_cell_ids)
+  pair_center_ids = pair_cell_ids // 9
+  # choose points below certain distance and in same batch
+  distances = tf.linalg.norm(
+      tf.gather(neighbor_points, pair_ids) -
+      tf.gather(center_points, pair_center_ids), axis=1)
+  close = (distances < radii[0])
+  same_batch = (tf.gather(neighbor_batch_ids, pair_ids) ==
+                tf.gather(center_batch_ids, pair_center_ids))
+  close = tf.math.logical_and(close, same_batch)
+  neighbors = tf.boolean_mask(
+      tf.stack((pair_ids, pair_center_ids), axis=1), close)
+  center_neigh_ranges = tf.cumsum(tf.math.unsorted_segment_sum(
+      tf.ones_like(neighbors[:, 1]), neighbors[:, 1], num_centers))
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From a70292fc7c9f6c2daff5252277d92db417c3777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 05/51] fix: select the neighbors with the radius of each
 dimension

---
 pylib/pc/custom_ops/custom_ops_tf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 3a2f723..d8ff245 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -128,7 +128,8 @@ def find_neighbors_tf(grid,
   Args:
     grid: A `Grid` instance, from which the neighbors are chosen.
     point_cloud_centers: A `PointCloud` instance, containing the center points.
-    radii: A `float`, the radii to select neighbors from.
+    radii: A `float` or a `float` `Tensor` of shape `[D]`, the radii to select
+      neighbors from.
     max_neighbors: An `int`, if `0` all neighbors are selected.
 
   Returns:
@@ -191,9 +192,9 @@ def find_neighbors_tf(grid,
   pair_center_ids = pair_cell_ids // 9
   # choose points below certain distance and in same batch
   distances = tf.linalg.norm(
-      tf.gather(neighbor_points, pair_ids) -
-      tf.gather(center_points, pair_center_ids), axis=1)
-  close = (distances < radii[0])
+      (tf.gather(neighbor_points, pair_ids) -
+       tf.gather(center_points, pair_center_ids)) / radii, axis=1)
+  close = (distances < 1.0)
   same_batch = (tf.gather(neighbor_batch_ids, pair_ids) ==
                 tf.gather(center_batch_ids, pair_center_ids))
   close = tf.math.logical_and(close, same_batch)
-- 
2.43.0


From 4767706274fb4e2f765ef52ad877f4e332306711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 06/51] fix: limit the number of neighbors to max_neighbors

---
 pylib/pc/custom_ops/custom_ops_tf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index d8ff245..9512d42 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -200,8 +200,15 @@ def find_neighbors_tf(grid,
   close = tf.math.logical_and(close, same_batch)
   neighbors = tf.boolean_mask(
       tf.stack((pair_ids, pair_center_ids), axis=1), close)
-  center_neigh_ranges = tf.cumsum(tf.math.unsorted_segment_sum(
-      tf.ones_like(neighbors[:, 1]), neighbors[:, 1], num_centers))
+  num_neighbors = tf.math.unsorted_segment_sum(
+      tf.ones_like(neighbors[:, 1]), neighbors[:, 1], num_centers)
+  if max_neighbors > 0:
+    # keep the first `max_neighbors` neighbors of each center
+    neigh_rank = tf.range(tf.shape(neighbors)[0]) - tf.gather(
+        tf.cumsum(num_neighbors, exclusive=True), neighbors[:, 1])
+    neighbors = tf.boolean_mask(neighbors, neigh_rank < max_neighbors)
+    num_neighbors = tf.minimum(num_neighbors, max_neighbors)
+  center_neigh_ranges = tf.cumsum(num_neighbors)
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From 6d49972961f2e6747119e1c84a6f3c2e0d311337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 07/51] fix: neighborhood ranges of centers without neighbors

---
 pylib/pc/custom_ops/custom_ops_tf.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 9512d42..fd904d4 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -239,7 +239,6 @@ def find_neighbors_no_grid(point_cloud,
   batch_ids = point_cloud._batch_ids
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
-  num_center_points = tf.shape(center_points)[0]
 
   distances = tf.linalg.norm(tf.expand_dims(points, axis=0) - \
                              tf.expand_dims(center_points, axis=1),
@@ -251,11 +250,7 @@ def find_neighbors_no_grid(point_cloud,
 
   neighbors = tf.where(close)
   neighbors = tf.reverse(neighbors, axis=[1])
-  num_neighbors = tf.shape(neighbors)[0]
-  neigh_ranges = tf.math.unsorted_segment_max(
-      tf.range(1, num_neighbors + 1),
-      neighbors[:, 1],
-      num_center_points)
+  neigh_ranges = tf.cumsum(tf.reduce_sum(tf.cast(close, tf.int32), axis=1))
   return neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsNoGrid')
 
-- 
2.43.0


From 4d273c10f5d6e8b75c8fe7ff7b8542f7a0cb0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 08/51] fix: poisson_disk_sampling and cell_average_sampling
 used each other's mode

---
 pylib/pc/custom_ops/custom_ops_tf.py      |   2 +-
 pylib/pc/custom_ops/custom_ops_wrapper.py |   2 +-
 pylib/pc/sampling.py                      | 300 +++++++++++-----------
 3 files changed, 152 insertions(+), 152 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index fd904d4..60db69a 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -262,7 +262,7 @@ def sampling_tf(neighborhood, sample_mode, name=None):
     neighborhood: A `Neighborhood` instance, which contains a point cloud with
       its neighbors.
     sample_mode: An `int`specifiying the sample mode,
-      `0` for average, `1` for poisson.
+      `0` for poisson, `1` for average.
 
   Returns:
     sampled_points: A `float` `Tensor` of shape [S, D], the sampled points.
diff --git a/pylib/pc/custom_ops/custom_ops_wrapper.py b/pylib/pc/custom_ops/custom_ops_wrapper.py
index 694ee4d..b6f6b2f 100644
--- a/pylib/pc/custom_ops/custom_ops_wrapper.py
+++ b/pylib/pc/custom_ops/custom_ops_wrapper.py
@@ -112,7 +112,7 @@ def sampling(neighborhood, sample_mode, name=None):
     neighborhood: A `Neighborhood` instance, which contains a point cloud with
       its neighbors.
     sample_mode: An `int`specifiying the sample mode,
-      `0` for average, `1` for poisson.
+      `0` for poisson, `1` for average.
 
   Returns:
     sampled_points: A `float` `Tensor` of shape `[S, D]`, the sampled points.
diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index b10cff4..e3cad25 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -1,150 +1,150 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Methods to sample point clouds. """
-
-import tensorflow as tf
-
-from pylib.pc.custom_ops import sampling
-
-from pylib.pc import PointCloud, Neighborhood, Grid
-from pylib.pc.utils import cast_to_num_dims
-
-sample_modes = {'average': 1,
-                'cell average': 1,
-                'cell_average': 1,
-                'poisson': 0,
-                'poisson disk': 0,
-                'poisson_disk': 0}
-
-
-def poisson_disk_sampling(point_cloud,
-                          radius=None,
-                          neighborhood=None,
-                          return_ids=False,
-                          name=None):
-  """ Poisson disk sampling of a point cloud.
-
-  Note: Either `radius` or `neighborhood` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
-      Poisson disk sampling.
-    neighborhood: A `Neighborhood` instance.
-    return_ids: A `bool`, if `True` returns the indices of the sampled points.
-      (optional)
-
-    Returns:
-      A `PointCloud` instance.
-      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
-
-    Raises:
-      ValueError: If no radius or neighborhood is given.
-
-  """
-  if radius is None and neighborhood is None:
-    raise ValueError(
-        "Missing Argument! Either radius or neighborhood must be given!")
-  if neighborhood is None:
-    # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
-    grid = Grid(point_cloud, radii)
-    neighborhood = Neighborhood(grid, radii)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  if return_ids:
-    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
-                                sampled_indices)
-    return sampled_point_cloud, sampled_indices
-  else:
-    return sampled_point_cloud
-
-
-def cell_average_sampling(point_cloud,
-                          cell_sizes=None,
-                          grid=None,
-                          name=None):
-  """ Cell average sampling of a point cloud.
-
-  Note: Either `cell_sizes` or `grid` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
-      for the sampling.
-    grid: A `Grid` instance.
-
-    Returns:
-      A `PointCloud` instance.
-
-    Raises:
-      ValueError: If no radius or grid is given.
-
-  """
-  if cell_sizes is None and grid is None:
-    raise ValueError(
-        "Missing Argument! Either cell_sizes or grid must be given!")
-  if grid is None:
-    # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
-    grid = Grid(point_cloud, cell_sizes)
-
-  neighborhood = Neighborhood(grid, cell_sizes)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  return sampled_point_cloud
-
-
-def sample(neighborhood, sample_mode='poisson', name=None):
-  """ Sampling for a neighborhood.
-
-  Args:
-    neighborhood: A `Neighborhood` instance.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  Returns:
-    A `PointCloud` instance, the sampled points.
-    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
-      `None` for cell average sampling.
-
-  """
-  sample_mode_value = sample_modes[sample_mode.lower()]
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_mode_value)
-
-  #Save the sampled point cloud.
-  if sample_mode_value == 0:
-    sampled_indices = tf.gather(
-        neighborhood._grid._sorted_indices, sampled_indices)
-  else:
-    sampled_indices = None
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
-  return sampled_point_cloud, sampled_indices
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Methods to sample point clouds. """
+
+import tensorflow as tf
+
+from pylib.pc.custom_ops import sampling
+
+from pylib.pc import PointCloud, Neighborhood, Grid
+from pylib.pc.utils import cast_to_num_dims
+
+sample_modes = {'average': 1,
+                'cell average': 1,
+                'cell_average': 1,
+                'poisson': 0,
+                'poisson disk': 0,
+                'poisson_disk': 0}
+
+
+def poisson_disk_sampling(point_cloud,
+                          radius=None,
+                          neighborhood=None,
+                          return_ids=False,
+                          name=None):
+  """ Poisson disk sampling of a point cloud.
+
+  Note: Either `radius` or `neighborhood` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
+      Poisson disk sampling.
+    neighborhood: A `Neighborhood` instance.
+    return_ids: A `bool`, if `True` returns the indices of the sampled points.
+      (optional)
+
+    Returns:
+      A `PointCloud` instance.
+      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
+
+    Raises:
+      ValueError: If no radius or neighborhood is given.
+
+  """
+  if radius is None and neighborhood is None:
+    raise ValueError(
+        "Missing Argument! Either radius or neighborhood must be given!")
+  if neighborhood is None:
+    # compute neighborhood
+    radii = cast_to_num_dims(radius, point_cloud)
+    grid = Grid(point_cloud, radii)
+    neighborhood = Neighborhood(grid, radii)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, 0)
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  if return_ids:
+    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
+                                sampled_indices)
+    return sampled_point_cloud, sampled_indices
+  else:
+    return sampled_point_cloud
+
+
+def cell_average_sampling(point_cloud,
+                          cell_sizes=None,
+                          grid=None,
+                          name=None):
+  """ Cell average sampling of a point cloud.
+
+  Note: Either `cell_sizes` or `grid` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
+      for the sampling.
+    grid: A `Grid` instance.
+
+    Returns:
+      A `PointCloud` instance.
+
+    Raises:
+      ValueError: If no radius or grid is given.
+
+  """
+  if cell_sizes is None and grid is None:
+    raise ValueError(
+        "Missing Argument! Either cell_sizes or grid must be given!")
+  if grid is None:
+    # compute grid
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
+    grid = Grid(point_cloud, cell_sizes)
+
+  neighborhood = Neighborhood(grid, cell_sizes)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, 1)
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  return sampled_point_cloud
+
+
+def sample(neighborhood, sample_mode='poisson', name=None):
+  """ Sampling for a neighborhood.
+
+  Args:
+    neighborhood: A `Neighborhood` instance.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  Returns:
+    A `PointCloud` instance, the sampled points.
+    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
+      `None` for cell average sampling.
+
+  """
+  sample_mode_value = sample_modes[sample_mode.lower()]
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_mode_value)
+
+  #Save the sampled point cloud.
+  if sample_mode_value == 0:
+    sampled_indices = tf.gather(
+        neighborhood._grid._sorted_indices, sampled_indices)
+  else:
+    sampled_indices = None
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
+  return sampled_point_cloud, sampled_indices
-- 
2.43.0


From 8ac13f6aaf0bd04bbe8db01abf4d4af51164ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 09/51] fix: repeat scalar sampling radii for the point
 dimension

---
 pylib/pc/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index e3cad25..e7e039a 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -58,7 +58,7 @@ def poisson_disk_sampling(point_cloud,
         "Missing Argument! Either radius or neighborhood must be given!")
   if neighborhood is None:
     # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
     grid = Grid(point_cloud, radii)
     neighborhood = Neighborhood(grid, radii)
 
@@ -104,7 +104,7 @@ def cell_average_sampling(point_cloud,
         "Missing Argument! Either cell_sizes or grid must be given!")
   if grid is None:
     # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
   neighborhood = Neighborhood(grid, cell_sizes)
-- 
2.43.0


From 6f2fe843b953b613a2d58aa2fd7f6d5fe8cb6dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 10/51] fix: cell_average_sampling with a given grid

---
 pylib/pc/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index e7e039a..abf55e9 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -107,7 +107,7 @@ def cell_average_sampling(point_cloud,
     cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
     grid = Grid(point_cloud, cell_sizes)
 
-  neighborhood = Neighborhood(grid, cell_sizes)
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-- 
2.43.0


From 431aed59dcdd0dbe73357ed7ada54539f814300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 11/51] fix: keep scalar neighborhood radii as float32

---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 8819547..d2f2284 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -224,7 +224,7 @@ class Neighborhood:
     radii = tf.reshape(tf.cast(tf.convert_to_tensor(value=radius),
                                tf.float32), [-1])
     if radii.shape[0] == 1:
-      radii = tf.repeat(radius, grid._point_cloud._dimension)
+      radii = tf.repeat(radii, grid._point_cloud._dimension)
     #Save the attributes.
     if point_cloud_sample is None:
       self._equal_samples = True
-- 
2.43.0


From 68fe022033b139f272b980f41b765f2e9514eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 12/51] fix: call compute_pdf with a neighborhood in
 density_estimation

---
 pylib/pc/Neighborhood.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index d2f2284..f637694 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -134,17 +134,8 @@ def density_estimation(point_cloud,
     pdf = tf.ones_like(point_cloud._points[:, 0], dtype=tf.float32)
   else:
     grid = Grid(point_cloud, scaling)
-    pdf_neighbors, nb_ranges = \
-        compute_neighborhoods(grid,
-                              scaling,
-                              return_ranges=True,
-                              return_sorted_ids=True)
-    pdf_sorted = compute_pdf(grid,
-                             pdf_neighbors,
-                             nb_ranges,
-                             bandwidth,
-                             scaling,
-                             mode.value)
+    neighborhood = Neighborhood(grid, scaling)
+    pdf_sorted = compute_pdf(neighborhood, bandwidth, mode.value)
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-- 
2.43.0


From d64d9de1340c62403220c0effb874f6216fa4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 13/51] fix: use the bandwidth of KDEMode.num_points in the
 tensorflow op

---
 pylib/pc/custom_ops/custom_ops_tf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 60db69a..ee4554d 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -396,6 +396,10 @@ def compute_pdf_tf(neighborhood, bandwidth, mode, name=None):
 
   """
   bandwidth = tf.convert_to_tensor(value=bandwidth)
+  if mode == 1:
+    # bandwidth based on the number of points
+    bandwidth = tf.ones_like(bandwidth) / tf.sqrt(
+        tf.cast(tf.shape(neighborhood._grid._sorted_points)[0], tf.float32))
 
   rel_bandwidth = tf.reshape(bandwidth * neighborhood._radii, [1, -1])
   points = neighborhood._grid._sorted_points / rel_bandwidth
-- 
2.43.0


From 23e3c5c7d7f88e9d66253edc68c936479eb41aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 14/51] fix: get_points accepted the batch size as an index

---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index e08cf27..713b0e0 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -176,7 +176,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id > self._batch_size:
+      if id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From fb146105f3e1ebbe99182b38869a79307f765241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 15/51] fix: get_sizes dropped empty batch elements

---
 pylib/pc/PointCloud.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 713b0e0..7e0b69d 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -196,10 +196,8 @@ class PointCloud:
 
     """
     if self._sizes is None:
-      _ids, _, self._sizes = tf.unique_with_counts(
-          self._batch_ids)
-      _ids_sorted = tf.argsort(_ids)
-      self._sizes = tf.gather(self._sizes, _ids_sorted)
+      self._sizes = tf.math.unsorted_segment_sum(
+          tf.ones_like(self._batch_ids), self._batch_ids, self._batch_size)
       if self._batch_shape is not None:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     return self._sizes
-- 
2.43.0


From 10328682d2ef62141de6d30cf403a0d1dea424a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 16/51] fix: get_unflatten kept the first max_num_points and an
 outdated batch shape

---
 pylib/pc/PointCloud.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 7e0b69d..3eaeab0 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -107,7 +107,7 @@ class PointCloud:
     self._batch_ids = batch_ids
     self._dimension = tf.gather(tf.shape(points), tf.rank(points) - 1)
     self._batch_shape = None
-    self._unflatten = None
+    self._padded_size = None
     self._aabb = None
 
     if points.shape.ndims > 2:
@@ -133,7 +133,8 @@ class PointCloud:
           value=tf.shape(points)[-2], shape=self._batch_shape)
     self._get_segment_id = tf.reshape(
         tf.range(0, self._batch_size), self._batch_shape)
-    self._points, self._unflatten = flatten_batch_to_2d(points, self._sizes)
+    self._points, _ = flatten_batch_to_2d(points, self._sizes)
+    self._padded_size = tf.shape(points)[-2]
     self._batch_ids = tf.repeat(
         tf.range(0, self._batch_size),
         repeats=tf.reshape(self._sizes, [-1]))
@@ -205,16 +206,14 @@ class PointCloud:
   def get_unflatten(self, max_num_points=None, name=None):
     """ Returns the method to unflatten the segmented points.
 
-    Use this instead of accessing 'self._unflatten',
-    if the class was constructed using segmented input the '_unflatten' method
-    is created in this method.
-
     Note:
       In the following, A1 to An are optional batch dimensions.
 
     Args:
       max_num_points: An `int`, specifies the 'V' dimension the method returns,
-        by default uses maximum of 'sizes'. `max_rows >= max(sizes)`
+        by default uses the size of the padded input or, if the class was
+        constructed using segmented input, the maximum of 'sizes'.
+        `max_rows >= max(sizes)`
     Returns:
       A method to unflatten the segmented points, which returns a `Tensor` of
       shape `[A1,...,An,V,D]`, zero padded.
@@ -223,12 +222,12 @@ class PointCloud:
       ValueError: When trying to unflatten unsorted points.
 
     """
-    if self._unflatten is None:
-      self._unflatten = lambda data: unflatten_2d_to_batch(
-          data=tf.gather(data, self._sorted_indices_batch),
-          sizes=self.get_sizes(),
-          max_rows=max_num_points)
-    return self._unflatten
+    if max_num_points is None:
+      max_num_points = self._padded_size
+    return lambda data: unflatten_2d_to_batch(
+        data=tf.gather(data, self._sorted_indices_batch),
+        sizes=self.get_sizes(),
+        max_rows=max_num_points)
 
   def get_AABB(self) -> _AABB:
     """ Returns the axis aligned bounding box of the point cloud.
-- 
2.43.0


From f1fe4c2c8449bf6894e39671e0e9a7087805b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 17/51] fix: segmented points with multidimensional sizes

---
 pylib/pc/PointCloud.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 3eaeab0..632e5c2 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -144,8 +144,13 @@ class PointCloud:
     """
     if self._batch_ids is None:
       if self._batch_size is None:
-        self._batch_size = tf.reduce_prod(self._sizes.shape)
-      self._batch_ids = tf.repeat(tf.range(0, self._batch_size), self._sizes)
+        self._batch_size = tf.reduce_prod(tf.shape(self._sizes))
+      self._batch_shape = tf.shape(self._sizes)
+      self._get_segment_id = tf.reshape(
+          tf.range(0, self._batch_size), self._batch_shape)
+      self._batch_ids = tf.repeat(
+          tf.range(0, self._batch_size),
+          repeats=tf.reshape(self._sizes, [-1]))
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
     self._points = points
-- 
2.43.0


From f00b4a4469eb0f0fd61f3afa03a27ca372b886e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 18/51] fix: padded points without sizes in graph mode

---
 pylib/pc/PointCloud.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 632e5c2..81c1577 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -129,8 +129,7 @@ class PointCloud:
     if self._batch_size is None:
       self._batch_size = tf.reduce_prod(self._batch_shape)
     if self._sizes is None:
-      self._sizes = tf.constant(
-          value=tf.shape(points)[-2], shape=self._batch_shape)
+      self._sizes = tf.fill(self._batch_shape, tf.shape(points)[-2])
     self._get_segment_id = tf.reshape(
         tf.range(0, self._batch_size), self._batch_shape)
     self._points, _ = flatten_batch_to_2d(points, self._sizes)
-- 
2.43.0


From 8d7a86a3a4ead2d5df2b049985a1f2a13cd17b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 19/51] fix: diameter of the bounding box with an outdated
 batch shape

---
 pylib/pc/PointCloud.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 81c1577..0ef250e 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -32,7 +32,6 @@ class _AABB:
   def __init__(self, point_cloud, name=None):
 
     self._batch_size = point_cloud._batch_size
-    self._batch_shape = point_cloud._batch_shape
     self.point_cloud_ = point_cloud
 
     self._aabb_min = tf.math.unsorted_segment_min(
@@ -59,10 +58,12 @@ class _AABB:
     """
 
     diam = tf.linalg.norm(self._aabb_max - self._aabb_min, ord=ord, axis=-1)
-    if self._batch_shape is None:
+    # use the current batch shape, it can change after the initialization
+    batch_shape = self.point_cloud_._batch_shape
+    if batch_shape is None:
       return diam
     else:
-      return tf.reshape(diam, self._batch_shape)
+      return tf.reshape(diam, batch_shape)
 
 
 class PointCloud:
-- 
2.43.0


From 54683976ae44423e71d36f6bb44baa536a51a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 20/51] fix: float cell sizes in PointHierarchy

---
 pylib/pc/PointHierarchy.py | 376 ++++++++++++++++++-------------------
 1 file changed, 188 insertions(+), 188 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 81e574e..c6d62b9 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -1,188 +1,188 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Class to represent a point cloud hierarchy."""
-
-import numpy as np
-import tensorflow as tf
-
-from pylib.pc.utils import check_valid_point_hierarchy_input
-
-from pylib.pc import PointCloud
-from pylib.pc import Grid
-from pylib.pc import Neighborhood
-from pylib.pc import sample
-from pylib.pc.utils import cast_to_num_dims
-
-
-class PointHierarchy:
-  """ A hierarchy of sampled point clouds.
-
-  Args:
-    point_cloud: A `PointCloud` instance..
-    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
-      the cell sizes for the sampling. The length of the list defines
-      the number of samplings.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  """
-
-  def __init__(self,
-               point_cloud: PointCloud,
-               cell_sizes,
-               sample_mode='poisson',
-               name=None):
-    #Initialize the attributes.
-    self._aabb = point_cloud.get_AABB()
-    self._point_clouds = [point_cloud]
-    self._cell_sizes = []
-    self._neighborhoods = []
-
-    self._dimension = point_cloud._dimension
-    self._batch_shape = point_cloud._batch_shape
-
-    #Create the different sampling operations.
-    cur_point_cloud = point_cloud
-    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes  = tf.convert_to_tensor(
-        value=cur_cell_sizes, dtype=tf.float32)
-
-      # Check if the cell size is defined for all the dimensions.
-      # If not, the last cell size value is tiled until all the dimensions
-      # have a value.
-      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
-      cur_cell_sizes = tf.cond(
-          cur_num_dims < self._dimension,
-          lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
-                                     [self._dimension - cur_num_dims])),
-                            axis=0),
-          lambda: cur_cell_sizes)
-      tf.assert_greater(
-          self._dimension + 1,
-          cur_num_dims,
-          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-          f'instead of max. {self._dimension}')
-      # old version, does not run in graph mode
-      # if cur_num_dims < self._dimension:
-      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
-      #                  tf.tile(tf.gather(cur_cell_sizes,
-      #                                    [tf.rank(cur_cell_sizes) - 1]),
-      #                    [self._dimension - cur_num_dims])),
-      #                       axis=0)
-      # if cur_num_dims > self._dimension:
-      #   raise ValueError(
-      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-      #       f'instead of max. {self._dimension}')
-
-      self._cell_sizes.append(cur_cell_sizes)
-
-      #Create the sampling operation.
-      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
-      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
-      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
-
-      self._neighborhoods.append(cur_neighborhood)
-      cur_point_cloud.set_batch_shape(self._batch_shape)
-      self._point_clouds.append(cur_point_cloud)
-
-  def get_points(self, batch_id=None, max_num_points=None, name=None):
-    """ Returns the points.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-      If called withoud specifying 'id' returns the points in padded format
-      `[A1, ..., An, V, D]`.
-
-    Args:
-      batch_id: An `int`, identifier of point cloud in the batch, if `None`
-        returns all points.
-
-    Return:
-      A list of `float` `Tensors` of shape
-          `[N_i, D]`, if 'batch_id' was given
-      or
-        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
-    """
-    points = []
-    for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
-    return points
-
-  def get_sizes(self, name=None):
-    """ Returns the sizes of the point clouds in the point hierarchy.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Returns:
-      A `list` of `Tensors` of shape '`[A1, .., An]`'
-
-    """
-
-    sizes = []
-    for point_cloud in self._point_clouds:
-      sizes.append(point_cloud.get_sizes())
-    return sizes
-
-  def set_batch_shape(self, batch_shape, name=None):
-    """ Function to change the batch shape.
-
-      Use this to set a batch shape instead of using 'self._batch_shape'
-      to also change dependent variables.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Args:
-      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
-
-    Raises:
-      ValueError: if shape does not sum up to batch size.
-
-    """
-    for point_cloud in self._point_clouds:
-      point_cloud.set_batch_shape(batch_shape)
-
-  def get_neighborhood(self, i=None, transposed=False):
-    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
-    If called without argument returns a list of all neighborhoods.
-
-    Args:
-      i: An `int`, can be negative but must be in range
-        `[-num_levels, num_levels-1]`.
-      transposed: A `bool`, if `True` returns the neighborhood between
-        level `i+1` and `i`.
-
-    Returs:
-      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
-
-    """
-    if i is None:
-      if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
-      else:
-        return self._neighborhoods
-    else:
-      if transposed:
-        return self._neighborhoods[i].transpose()
-      else:
-        return self._neighborhoods[i]
-
-  def __getitem__(self, index):
-    return self._point_clouds[index]
-
-  def __len__(self):
-    return len(self._point_clouds)
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Class to represent a point cloud hierarchy."""
+
+import numpy as np
+import tensorflow as tf
+
+from pylib.pc.utils import check_valid_point_hierarchy_input
+
+from pylib.pc import PointCloud
+from pylib.pc import Grid
+from pylib.pc import Neighborhood
+from pylib.pc import sample
+from pylib.pc.utils import cast_to_num_dims
+
+
+class PointHierarchy:
+  """ A hierarchy of sampled point clouds.
+
+  Args:
+    point_cloud: A `PointCloud` instance..
+    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
+      the cell sizes for the sampling. The length of the list defines
+      the number of samplings.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  """
+
+  def __init__(self,
+               point_cloud: PointCloud,
+               cell_sizes,
+               sample_mode='poisson',
+               name=None):
+    #Initialize the attributes.
+    self._aabb = point_cloud.get_AABB()
+    self._point_clouds = [point_cloud]
+    self._cell_sizes = []
+    self._neighborhoods = []
+
+    self._dimension = point_cloud._dimension
+    self._batch_shape = point_cloud._batch_shape
+
+    #Create the different sampling operations.
+    cur_point_cloud = point_cloud
+    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
+      cur_cell_sizes = tf.reshape(tf.convert_to_tensor(
+          value=cur_cell_sizes, dtype=tf.float32), [-1])
+
+      # Check if the cell size is defined for all the dimensions.
+      # If not, the last cell size value is tiled until all the dimensions
+      # have a value.
+      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
+      cur_cell_sizes = tf.cond(
+          cur_num_dims < self._dimension,
+          lambda: tf.concat((cur_cell_sizes,
+                             tf.tile(tf.gather(cur_cell_sizes,
+                                               [tf.rank(cur_cell_sizes) - 1]),
+                                     [self._dimension - cur_num_dims])),
+                            axis=0),
+          lambda: cur_cell_sizes)
+      tf.assert_greater(
+          self._dimension + 1,
+          cur_num_dims,
+          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+          f'instead of max. {self._dimension}')
+      # old version, does not run in graph mode
+      # if cur_num_dims < self._dimension:
+      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
+      #                  tf.tile(tf.gather(cur_cell_sizes,
+      #                                    [tf.rank(cur_cell_sizes) - 1]),
+      #                    [self._dimension - cur_num_dims])),
+      #                       axis=0)
+      # if cur_num_dims > self._dimension:
+      #   raise ValueError(
+      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+      #       f'instead of max. {self._dimension}')
+
+      self._cell_sizes.append(cur_cell_sizes)
+
+      #Create the sampling operation.
+      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
+      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
+      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
+
+      self._neighborhoods.append(cur_neighborhood)
+      cur_point_cloud.set_batch_shape(self._batch_shape)
+      self._point_clouds.append(cur_point_cloud)
+
+  def get_points(self, batch_id=None, max_num_points=None, name=None):
+    """ Returns the points.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+      If called withoud specifying 'id' returns the points in padded format
+      `[A1, ..., An, V, D]`.
+
+    Args:
+      batch_id: An `int`, identifier of point cloud in the batch, if `None`
+        returns all points.
+
+    Return:
+      A list of `float` `Tensors` of shape
+          `[N_i, D]`, if 'batch_id' was given
+      or
+        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
+    """
+    points = []
+    for point_cloud in self._point_clouds:
+      points.append(point_cloud.get_points(batch_id))
+    return points
+
+  def get_sizes(self, name=None):
+    """ Returns the sizes of the point clouds in the point hierarchy.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Returns:
+      A `list` of `Tensors` of shape '`[A1, .., An]`'
+
+    """
+
+    sizes = []
+    for point_cloud in self._point_clouds:
+      sizes.append(point_cloud.get_sizes())
+    return sizes
+
+  def set_batch_shape(self, batch_shape, name=None):
+    """ Function to change the batch shape.
+
+      Use this to set a batch shape instead of using 'self._batch_shape'
+      to also change dependent variables.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Args:
+      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
+
+    Raises:
+      ValueError: if shape does not sum up to batch size.
+
+    """
+    for point_cloud in self._point_clouds:
+      point_cloud.set_batch_shape(batch_shape)
+
+  def get_neighborhood(self, i=None, transposed=False):
+    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
+    If called without argument returns a list of all neighborhoods.
+
+    Args:
+      i: An `int`, can be negative but must be in range
+        `[-num_levels, num_levels-1]`.
+      transposed: A `bool`, if `True` returns the neighborhood between
+        level `i+1` and `i`.
+
+    Returs:
+      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
+
+    """
+    if i is None:
+      if transposed:
+        return [nb.transposed() for nb in self._neighborhoods]
+      else:
+        return self._neighborhoods
+    else:
+      if transposed:
+        return self._neighborhoods[i].transpose()
+      else:
+        return self._neighborhoods[i]
+
+  def __getitem__(self, index):
+    return self._point_clouds[index]
+
+  def __len__(self):
+    return len(self._point_clouds)
-- 
2.43.0


From 0cbab799641e936a4c079899edb3bc3c4a72c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 21/51] fix: tile the last cell size in PointHierarchy

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index c6d62b9..43b038f 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -65,7 +65,7 @@ class PointHierarchy:
           cur_num_dims < self._dimension,
           lambda: tf.concat((cur_cell_sizes,
                              tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
+                                               [cur_num_dims - 1]),
                                      [self._dimension - cur_num_dims])),
                             axis=0),
           lambda: cur_cell_sizes)
-- 
2.43.0


From 08874c278fd32550744a72ababa34ccfa2fdc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 22/51] fix: pass max_num_points to the levels of
 PointHierarchy

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 43b038f..aabc13b 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -118,7 +118,7 @@ class PointHierarchy:
     """
     points = []
     for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
+      points.append(point_cloud.get_points(batch_id, max_num_points))
     return points
 
   def get_sizes(self, name=None):
-- 
2.43.0


From 4002e8f26835be8efb7f8080d7a645da7af9b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 23/51] fix: list of the transposed neighborhoods of
 PointHierarchy

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index aabc13b..b55c450 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -172,7 +172,7 @@ class PointHierarchy:
     """
     if i is None:
       if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
+        return [nb.transpose() for nb in self._neighborhoods]
       else:
         return self._neighborhoods
     else:
-- 
2.43.0


From 3f7fefa9336c3846c373b92981fffe571a4df043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 24/51] fix: float pooling radius

---
 pylib/pc/layers/Pooling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pylib/pc/layers/Pooling.py b/pylib/pc/layers/Pooling.py
index 77fcb8e..dec157b 100644
--- a/pylib/pc/layers/Pooling.py
+++ b/pylib/pc/layers/Pooling.py
@@ -14,7 +14,7 @@
 """Classes for point cloud spatial pooling operations"""
 
 import tensorflow as tf
-from pylib.pc.utils import _flatten_features
+from pylib.pc.utils import _flatten_features, cast_to_num_dims
 from pylib.pc.layers.utils import _format_output
 
 from pylib.pc import PointCloud
@@ -142,10 +142,8 @@ class _LocalPointPooling:
     """
     features = tf.convert_to_tensor(value=features)
     features = _flatten_features(features, point_cloud_in)
-    pooling_radius = tf.convert_to_tensor(
-        value=pooling_radius, dtype=tf.float32)
-    if pooling_radius.shape[0] == 1:
-      pooling_radius = tf.repeat(pooling_radius, point_cloud_in._dimension)
+    pooling_radius = cast_to_num_dims(
+        pooling_radius, point_cloud_in._dimension)
 
     # Compute the grid.
     grid_in = Grid(point_cloud_in, pooling_radius)
-- 
2.43.0


From b4e05f976a9334c5da9b97b0f19318da30473200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 25/51] fix: center the neighborhoods of the ResNet blocks on
 the points of the layers

---
 pylib/pc/layers/network_blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 87c731e..e933f4b 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -129,7 +129,7 @@ class PointResNet(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # first residual convolution
@@ -266,7 +266,7 @@ class PointResNetBottleNeck(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # downsampling
@@ -417,7 +417,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
       # intra-downsampled
       grid = Grid(point_cloud_downsampled, radii_tensor[1])
       neighborhoods.append(Neighborhood(grid,
-                                        radii_tensor[1]))
+                                        radii_tensor[1],
+                                        point_cloud_downsampled))
       # upsampling
       if conv_radii[0] == conv_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
-- 
2.43.0


From 8176c0968d63a26899007d24c67837510437c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 26/51] fix: Conv1x1 has no use_bias argument

---
 pylib/pc/layers/network_blocks.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index e933f4b..2ba7da5 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -222,12 +222,10 @@ class PointResNetBottleNeck(tf.Module):
         self._projection_layers.append(_identity)
       # up- and downwampling in feature domain
       self._downsampling_layers.append(Conv1x1(num_features,
-                                               bottle_neck_num_features,
-                                               use_bias=True))
+                                               bottle_neck_num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
       self._upsampling_layers.append(Conv1x1(bottle_neck_num_features,
-                                             num_features,
-                                             use_bias=True))
+                                             num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
 
   def __call__(self,
-- 
2.43.0


From ac77a1e8bfcb9a1103681b1af2d8ea18de3d108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 27/51] fix: KPConv layers in the ResNet blocks

---
 pylib/pc/layers/network_blocks.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 2ba7da5..d99f699 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -136,20 +136,20 @@ class PointResNet(tf.Module):
       features = self._batch_norm_layers[2 * i](features,
                                                 training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i](features=features,
-                                          point_cloud_in=point_cloud,
-                                          point_cloud_out=point_cloud,
-                                          radius=radius,
+      features = self._conv_layers[2 * i](features,
+                                          point_cloud,
+                                          point_cloud,
+                                          radius,
                                           neighborhood=neighborhood,
                                           **kwargs)
       # second residual convolution
       features = self._batch_norm_layers[2 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i + 1](features=features,
-                                              point_cloud_in=point_cloud,
-                                              point_cloud_out=point_cloud,
-                                              radius=radius,
+      features = self._conv_layers[2 * i + 1](features,
+                                              point_cloud,
+                                              point_cloud,
+                                              radius,
                                               neighborhood=neighborhood,
                                               **kwargs)
       # skip connection
@@ -276,10 +276,10 @@ class PointResNetBottleNeck(tf.Module):
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[i](features=features,
-                                      point_cloud_in=point_cloud,
-                                      point_cloud_out=point_cloud,
-                                      radius=radius,
+      features = self._conv_layers[i](features,
+                                      point_cloud,
+                                      point_cloud,
+                                      radius,
                                       neighborhood=neighborhood,
                                       **kwargs)
       # upsampling
@@ -431,30 +431,30 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                                 training=training)
       features = self._activation(features)
       features = self._downsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud,
-          point_cloud_out=point_cloud_downsampled,
-          radius=radii[0],
+          features,
+          point_cloud,
+          point_cloud_downsampled,
+          radii[0],
           neighborhood=neighborhoods[0],
           **kwargs)
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
       features = self._conv_layers[i](
-        features=features,
-        point_cloud_in=point_cloud_downsampled,
-        point_cloud_out=point_cloud_downsampled,
-        radius=radii[1],
+        features,
+        point_cloud_downsampled,
+        point_cloud_downsampled,
+        radii[1],
         neighborhood=neighborhoods[1],
         **kwargs)
       features = self._batch_norm_layers[3 * i + 2](features,
                                                     training=training)
       features = self._activation(features)
       features = self._upsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud_downsampled,
-          point_cloud_out=point_cloud,
-          radius=radii[2],
+          features,
+          point_cloud_downsampled,
+          point_cloud,
+          radii[2],
           neighborhood=neighborhoods[2],
           **kwargs)
       features = features + self._projection_layers[i](skip, point_cloud)
-- 
2.43.0


From 5a22b43867ab38ea96e99c4a3d921b4649f5e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 28/51] fix: Poisson disk sampling in graph mode

---
 pylib/pc/custom_ops/custom_ops_tf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index ee4554d..55b142c 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -285,8 +285,10 @@ def sampling_tf(neighborhood, sample_mode, name=None):
     # to set log prob to -inf <=> prob to zero
     tf_neg_inf = tf.constant(-np.inf)
 
-    #sample points until all log probabilites are set to -inf
-    while not tf.reduce_all(tf.math.is_inf(log_probabilities)):
+    def _has_points(log_probabilities, _):
+      return tf.logical_not(tf.reduce_all(tf.math.is_inf(log_probabilities)))
+
+    def _sample_point(log_probabilities, sampled_indices):
       choice = tf.random.categorical(
           tf.expand_dims(log_probabilities, axis=0), 1)[0]
       # add choice to sampled indices
@@ -299,6 +301,12 @@ def sampling_tf(neighborhood, sample_mode, name=None):
           log_probabilities,
           tf.expand_dims(sample_neighbors, axis=1),
           tf.repeat(tf_neg_inf, num_neighbors))
+      return log_probabilities, sampled_indices
+
+    #sample points until all log probabilites are set to -inf
+    _, sampled_indices = tf.while_loop(
+        _has_points, _sample_point, [log_probabilities, sampled_indices],
+        shape_invariants=[tf.TensorShape([None]), tf.TensorShape([None])])
     sampled_points = tf.gather(points, sampled_indices)
     sampled_batch_ids = tf.gather(batch_ids, sampled_indices)
 
-- 
2.43.0


From 2c873d87f951168c342540a8aeb062a1fd0d7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 29/51] fix: duplicated kernel point in the hexagons

---
 pylib/pc/layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 7c25139..4600a0d 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -94,7 +94,7 @@ def _hexagon(scale, z_shift):
             [0.5, phi, 0],
             [0.5, -phi, 0],
             [-0.5, phi, 0],
-            [0.5, -phi, 0]]
+            [-0.5, -phi, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
-- 
2.43.0


From e87d0dee2762a223dcf9ffa91e0e3a78cd8286e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 30/51] fix: kernel points of both halves of the sphere had the
 same z position

---
 pylib/pc/layers/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 4600a0d..9fca2c5 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -203,14 +203,14 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [-phi, 0, -1]], dtype=tf.float32)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
-    hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
+    hex2 = _hexagon(-0.5, -np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]], hex1, hex2),
                             axis=0)
     points = tf.Variable(points, dtype=tf.float32)
   elif num_points == 18:
     penta1 = _pentagon(1 / np.sqrt(2), 0.5)
     penta2 = -_pentagon(1.0, 0.0) # flipped in xy
-    penta3 = _pentagon(-1 / np.sqrt(2), 0.5)
+    penta3 = _pentagon(-1 / np.sqrt(2), -0.5)
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]],
                              penta1, penta2, penta3),
                             axis=0)
-- 
2.43.0


From ce2d22ab3b069c87ca0cab1e211a762cf0f10feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 31/51] fix: icosahedron kernel points

---
 pylib/pc/layers/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 9fca2c5..4934207 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -187,7 +187,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [0, 0, -1]], dtype=tf.float32)
   elif num_points == 13:
     # Icosahedron
-    phi = (1 + tf.sqrt(5)) / 2
+    phi = (1 + np.sqrt(5)) / 2
     points = tf.Variable([[0, 0, 0],
                           [0, 1, phi],
                           [0, 1, -phi],
@@ -200,7 +200,8 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [phi, 0, 1],
                           [-phi, 0, 1],
                           [phi, 0, -1],
-                          [-phi, 0, -1]], dtype=tf.float32)
+                          [-phi, 0, -1]] / np.sqrt(1 + phi**2),
+                         dtype=tf.float32)
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
     hex2 = _hexagon(-0.5, -np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
-- 
2.43.0


From 11ae2c5add262a1e12fce7779ff5f90f8f5133d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 32/51] fix: name of cube_kernel_points is optional

---
 pylib/pc/layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 4934207..23835f6 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -221,7 +221,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
   return points
 
 
-def cube_kernel_points(cbrt_num_points, name):
+def cube_kernel_points(cbrt_num_points, name=None):
   """ Regularily distributed points in a unit cube.
 
   Args:
-- 
2.43.0


From 4934b79924ff6d9c617392be33fcca94d29457ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 33/51] fix: last value of point files without a newline at the
 end

---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index cac6bde..7e89715 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -49,7 +49,7 @@ def load_points_from_file_to_tensor(filename,
     if tf.io.gfile.exists(filename):
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         for line in in_file:
-          line_elements = line[:-1].split(delimiter)
+          line_elements = line.rstrip('\n').split(delimiter)
           points.append(line_elements[0:dimension])
           if len(line_elements) > 3:
             features.append(line_elements[dimension:])
@@ -98,7 +98,7 @@ def load_points_from_file_to_numpy(filename,
         i = 0
         for line in in_file:
           if max_num_points is not None and i < max_num_points:
-            line_elements = line[:-1].split(delimiter)
+            line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
               features.append(line_elements[dimension:])
-- 
2.43.0


From cbbf2398f69628dfa4e4ef96358d969b3279cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 34/51] fix: features of point files with dimension other than
 three

---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 7e89715..1278ca2 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,7 +51,7 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > 3:
+          if len(line_elements) > dimension:
             features.append(line_elements[dimension:])
 
       points = tf.convert_to_tensor(value=points)
@@ -100,7 +100,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is not None and i < max_num_points:
             line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > 3:
+            if len(line_elements) > dimension:
               features.append(line_elements[dimension:])
           else:
             break
-- 
2.43.0


From 64220f3c046b5ec00ce7c633f5725e0fdd652db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 35/51] fix: load_points_from_file_to_numpy read nothing
 without max_num_points

---
 pylib/io/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 1278ca2..48aa208 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -97,7 +97,7 @@ def load_points_from_file_to_numpy(filename,
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         i = 0
         for line in in_file:
-          if max_num_points is not None and i < max_num_points:
+          if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > dimension:
-- 
2.43.0


From 0f8be1f1d524f0ca4442fcd50d0757d4e5fdbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 36/51] fix: load_batch_of_points ignored point_dimension

---
 pylib/io/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 48aa208..df7b13a 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -148,7 +148,8 @@ def load_batch_of_points(filenames,
   sizes = []
   for filename in filenames:
     curr_points, curr_features = load_points_from_file_to_tensor(
-        filename=filename, delimiter=delimiter, dtype=dtype)
+        filename=filename, delimiter=delimiter, dimension=point_dimension,
+        dtype=dtype)
     points.append(curr_points)
     features.append(curr_features)
     sizes.append(len(curr_points))
-- 
2.43.0


From fa49eb6a8957232ec58f51495d08cb1623a8f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 37/51] fix: point files without features

---
 pylib/io/points.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index df7b13a..947343a 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,11 +51,10 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > dimension:
-            features.append(line_elements[dimension:])
+          features.append(line_elements[dimension:])
 
-      points = tf.convert_to_tensor(value=points)
-      features = tf.convert_to_tensor(value=features)
+      points = tf.convert_to_tensor(value=points, dtype=tf.string)
+      features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
       features = tf.strings.to_number(input=features, out_type=dtype)
       return points, features
@@ -100,8 +99,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > dimension:
-              features.append(line_elements[dimension:])
+            features.append(line_elements[dimension:])
           else:
             break
           i += 1
-- 
2.43.0


From 47c7a1fdb53129f2530c4f06eaf252e181a27939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 38/51] fix: default influence distance of KPConv as documented

---
 pylib/pc/layers/KPConv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 9e71127..6f12261 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -282,7 +282,7 @@ class KPConv(tf.Module):
 
     if kernel_influence_dist is None:
       # normalized
-      self._sigma = tf.constant(1.0)
+      self._sigma = tf.constant(1.0 / 2.5)
     else:
       self._sigma = tf.convert_to_tensor(
         value=kernel_influence_dist / conv_radius, dtype=tf.float32)
-- 
2.43.0


From 03bedb5700eaddd6b6572d9bc38ced5caafeff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 39/51] fix: neighborhoods of PointHierarchy are between two
 levels

---
 pylib/pc/PointHierarchy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index b55c450..f7b04cb 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -93,7 +93,9 @@ class PointHierarchy:
       cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
       cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
 
-      self._neighborhoods.append(cur_neighborhood)
+      # neighborhood between this level and the sampled level
+      self._neighborhoods.append(
+          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
       cur_point_cloud.set_batch_shape(self._batch_shape)
       self._point_clouds.append(cur_point_cloud)
 
-- 
2.43.0


From 9ea7c08b055f93ad9a54e0858cf652ccff99bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 40/51] fix: sizes kept the former batch shape after removing
 it

---
 pylib/pc/PointCloud.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 0ef250e..6917bbd 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -281,3 +281,5 @@ class PointCloud:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     else:
       self._batch_shape = None
+      if self._sizes is not None:
+        self._sizes = tf.reshape(self._sizes, [-1])
-- 
2.43.0


From 8ec12d8a45b2b7d846973dbce0cb464cfadf436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 41/51] fix: hexagons of the kernel points were not regular

---
 pylib/pc/layers/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 23835f6..2648e61 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -91,10 +91,10 @@ def _hexagon(scale, z_shift):
   phi = np.sqrt(3) / 2
   points = [[0, 1, 0],
             [0, -1, 0],
-            [0.5, phi, 0],
-            [0.5, -phi, 0],
-            [-0.5, phi, 0],
-            [-0.5, -phi, 0]]
+            [phi, 0.5, 0],
+            [phi, -0.5, 0],
+            [-phi, 0.5, 0],
+            [-phi, -0.5, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
-- 
2.43.0


From d3acdd811d7e54f0779d67be2bb65b88b4e30d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 42/51] fix: gradients of KPConv with respect to points were
 not a number

---
 pylib/pc/layers/KPConv.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 6f12261..6f49a31 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -56,6 +56,23 @@ def _gaussian_weighting(values, sigma):
   sigma = sigma / 3
   return tf.exp(-(values / sigma)**2)
 
+
+def _distances(points_diff):
+  """ Euclidean norm with zero gradients for zero distances.
+
+  Args:
+    points_diff: A `float` `Tensor` of shape `[M, K, D]`.
+
+  Returns:
+    A `float` `Tensor` of shape `[M, K]`.
+
+  """
+  squared = tf.reduce_sum(points_diff * points_diff, axis=2)
+  nonzero = squared > 0
+  distances = tf.sqrt(tf.where(nonzero, squared, tf.ones_like(squared)))
+  return tf.where(nonzero, distances, tf.zeros_like(squared))
+
+
 kernel_interpolation = {'linear': _linear_weighting,
                         'gaussian': _gaussian_weighting}
 
@@ -193,7 +210,7 @@ class KPConv(tf.Module):
     kernel_offsets = self._get_offsets(kernel_input, neighborhood, features)
     points_diff = tf.expand_dims(kernel_input, 1) - \
         (tf.expand_dims(self._kernel_points, 0) + kernel_offsets)
-    points_dist = tf.linalg.norm(points_diff, axis=2)
+    points_dist = _distances(points_diff)
     kernel_weights = self._weighting(points_dist, self._sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
@@ -347,7 +364,7 @@ class KPConv(tf.Module):
     # kernel weights from distances, shape [M, K]
     points_diff = tf.expand_dims(kernel_input, 1) - \
         tf.expand_dims(self._kernel_points, 0)
-    points_dist = tf.linalg.norm(points_diff, axis=2)
+    points_dist = _distances(points_diff)
     kernel_weights = self._weighting(points_dist, self._sigma)
 
     # Pad zeros to fullfil requirements of the basis_proj custom op,
-- 
2.43.0


From d39d4d0c1f8b900341867951fee0c0371aa4af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 43/51] fix: KPConv with unknown number of points in graph mode

---
 pylib/pc/layers/KPConv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 6f49a31..10bd501 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -295,7 +295,7 @@ class KPConv(tf.Module):
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
     features = _flatten_features(features, point_cloud_in)
-    self._num_output_points = point_cloud_out._points.shape[0]
+    self._num_output_points = tf.shape(point_cloud_out._points)[0]
 
     if kernel_influence_dist is None:
       # normalized
@@ -404,7 +404,7 @@ class KPConv(tf.Module):
     offset_per_nb = tf.gather(offset_per_center, neighbors[:, 1])
     # reshape to shape [M, K, self._num_dims]
     return  tf.reshape(offset_per_nb,
-                       [neighbors.shape[0],
+                       [tf.shape(neighbors)[0],
                         self._num_kernel_points,
                         self._num_dims])
 
-- 
2.43.0


From e0c30e31cb5ac145d9bae13c9739693ec544e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 44/51] fix: normalized densities in graph mode

---
 pylib/pc/Neighborhood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index f637694..04a62ef 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -139,7 +139,7 @@ def density_estimation(point_cloud,
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-    pdf = pdf / point_cloud._points.shape[0]
+    pdf = pdf / tf.cast(tf.shape(point_cloud._points)[0], tf.float32)
   return pdf
 
 
@@ -280,7 +280,7 @@ class Neighborhood:
       norm_factors = tf.math.unsorted_segment_sum(
           tf.ones_like(self._pdf),
           self._neighbors[:, 1],
-          self._point_cloud_sampled._points.shape[0])
+          tf.shape(self._point_cloud_sampled._points)[0])
       self._pdf = self._pdf / tf.gather(norm_factors, self._neighbors[:, 1])
 
   def get_pdf(self, **kwargs):
-- 
2.43.0


From 535360fc12abea39e9b315afc34810bf7d89487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 45/51] fix: get_points(id) in graph mode

---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 6917bbd..7c71a89 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -182,7 +182,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id >= self._batch_size:
+      if tf.executing_eagerly() and id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From c00b15e00b93fa73f55e685b726fade3a6876b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 46/51] fix: keep the block offset of the CUDA scan until all
 threads have used it

In propagate_down_counters_gpu_kernel thread 0 loaded the offset of the next
block into shared memory while other threads could still be adding the offset
of the current one.
---
 .../find_neighbors/cc/kernels/scan_alg_kernels.cu.cc           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index a4ab33a..79d18a5 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -165,6 +165,9 @@
 
         //Update the counters.
         pElems[curElemIndex] += blockOffset;
+
+        //Wait until all threads have used the offset of the block.
+        __syncthreads();
     }
 }
 
-- 
2.43.0


From b3b0c69f72e797d81a8ae1cd8cfa9354e4b8a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 47/51] fix: CUDA neighbor search in 4 and more dimensions
 listed neighbors twice

The keys of the cells before and after the current one were only limited to
the batch element, not to the row of cells along the last dimension. In grids
with at most two cells in the last dimension, they select cells of the rows
which other offsets visit as well.
---
 .../cc/kernels/find_ranges_grid_ds_kernels.cu.cc          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
index aa4dfb3..5e45889 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
@@ -61,8 +61,8 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
     int initPtIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
 
-    //Calculate the total number of cells.
-    mccnn::int64_m totalCells = mccnn::compute_total_num_cells_gpu_funct(pNumCells[0]);
+    //Get the number of cells along the last dimension.
+    mccnn::int64_m rowCells = pNumCells[0][D-1];
 
     for(int curIter = initPtIndex; curIter < pNumSamples*pNumOffsets; curIter += totalThreads)
     {
@@ -103,8 +103,8 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
                 mccnn::int64_m auxKey = mccnn::compute_key_gpu_funct(auxCell, pNumCells[0], cellIndex[0]);
                 mccnn::int64_m maxKey = auxKey+pLastDOffsets;
                 mccnn::int64_m minKey = auxKey-pLastDOffsets;
-                maxKey = (auxKey/totalCells == maxKey/totalCells)?maxKey:((auxKey/totalCells)*totalCells) + totalCells - 1;
-                minKey = (auxKey/totalCells == minKey/totalCells)?minKey:((auxKey/totalCells)*totalCells);
+                maxKey = (auxKey/rowCells == maxKey/rowCells)?maxKey:((auxKey/rowCells)*rowCells) + rowCells - 1;
+                minKey = (auxKey/rowCells == minKey/rowCells)?minKey:((auxKey/rowCells)*rowCells);
 
                 //Declare iterators and auxiliar variables.
                 int2 curMinRange = make_int2(0, rangeSize);
-- 
2.43.0


From bc3eb8ce8000731bd6c6f40903ce06062c0a3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 48/51] fix: CUDA neighbor search with a limit stored neighbors
 in wrong places

The replacement of a stored neighbor was placed relative to the number of
neighbors stored so far, which is still growing: the write could land in the
range of the previous sample or before the array. In 4 and more dimensions,
the counter of visited neighbors was reset in each of the calls, so more than
the allowed number of neighbors was stored. Place the neighbors relative to
the start of the range of their sample, and keep the counter in all calls.
---
 .../cc/kernels/store_neighbors.h              | 11 ++++++-
 .../cc/kernels/store_neighbors_kernels.cu.cc  | 29 +++++++++++--------
 .../cc/ops/find_neighbors_ops.cpp             | 14 ++++++++-
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
index 68a941d..4a71697 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
@@ -43,6 +43,13 @@ namespace mccnn{
      *  @param  pOutGPUPtrNumNeighsU    Input/Output pointer to the vector  
      *      with the number of neighbors for each sample without the limit of
      *      pMaxNeighbors.
+     *  @param  pInGPUPtrStartNeighs    Input pointer to the vector with the
+     *      index of the first neighbor of each sample on the GPU. Only used
+     *      if the number of neighbors is limited.
+     *  @param  pGPUPtrAuxCounter       Input/Output pointer to the vector
+     *      with the number of neighbors visited so far for each sample,
+     *      initialized to zero before the first call. Only used if the
+     *      number of neighbors is limited.
      *  @param  pOutGPUPtrNumNeighs     Input/Output pointer to the vector  
      *      with the number of neighbors for each sample on the GPU.
      *  @param  pOutGPUPtrNeighs        Output pointer to the vector with the 
@@ -60,9 +67,11 @@ namespace mccnn{
         const int* pInGPUPtrRanges,
         const float* pInGPUPtrInvRadii,
         int* pOutGPUPtrNumNeighsU,
+        const int* pInGPUPtrStartNeighs,
+        int* pGPUPtrAuxCounter,
         int* pOutGPUPtrNumNeighs,
         int* pOutGPUPtrNeighs);
         
 }
 
-#endif
\ No newline at end of file
+#endif
\ No newline at end of file
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 011ea22..ee2d48d 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -42,7 +42,9 @@
  *      search of neighbors in each dimension.
  *  @param  pOutNumNeighsU  Number of neighbors for each sample
  *      without the limit imposed by pMaxNeighbors.
- *  @param  pAuxCounter     Auxiliar counter.
+ *  @param  pStartNeighs    Index of the first neighbor of each sample.
+ *  @param  pAuxCounter     Auxiliar counter with the number of neighbors
+ *      visited for each sample.
  *  @param  pOutNumNeighs   Number of neighbors for each sample.
  *  @param  pOutNeighs      Final beighbors.
  *  @tparam D               Number of dimensions.
@@ -58,6 +60,7 @@
     const int2* __restrict__ pRanges,
     const mccnn::fpoint<D>* __restrict__ pInvRadii,
     const int* __restrict__ pOutNumNeighsU,
+    const int* __restrict__ pStartNeighs,
     int* __restrict__ pAuxCounter,
     int* __restrict__ pOutNumNeighs,
     int2* __restrict__ pOutNeighs)
@@ -93,8 +96,10 @@
                 //Increment the shared counters.
                 int neighIndex = atomicAdd(&pAuxCounter[sampleIndex], 1);
                 if(neighIndex < pMaxNeighbors){
-                    neighIndex = atomicAdd(&pOutNumNeighs[sampleIndex], 1);
-                    pOutNeighs[neighIndex] = make_int2(curPtIter, sampleIndex);
+                    atomicAdd(&pOutNumNeighs[sampleIndex], 1);
+                    neighIndex += pStartNeighs[sampleIndex];
+                    pOutNeighs[neighIndex].y = sampleIndex;
+                    atomicExch(&pOutNeighs[neighIndex].x, curPtIter);
                 }else{
                     float ratio = (float)pMaxNeighbors/(float)pOutNumNeighsU[sampleIndex];
                     curSeed = mccnn::rand_xorshift(curSeed);
@@ -102,8 +107,8 @@
                     if(uniformVal < ratio){
                         curSeed = mccnn::rand_xorshift(curSeed);
                         uniformVal = mccnn::seed_to_float(curSeed);
-                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors))+1;
-                        pOutNeighs[pOutNumNeighs[sampleIndex] - neighIndex] = make_int2(curPtIter, sampleIndex);
+                        neighIndex = min((int)floor(uniformVal*((float)pMaxNeighbors)), pMaxNeighbors-1);
+                        atomicExch(&pOutNeighs[pStartNeighs[sampleIndex] + neighIndex].x, curPtIter);
                     }
                 }
             }
@@ -181,6 +186,8 @@ void mccnn::store_neighbors(
     const int* pInGPUPtrRanges,
     const float* pInGPUPtrInvRadii,
     int* pOutGPUPtrNumNeighsU,
+    const int* pInGPUPtrStartNeighs,
+    int* pGPUPtrAuxCounter,
     int* pOutGPUPtrNumNeighs,
     int* pOutGPUPtrNeighs)
 {
@@ -193,11 +200,6 @@ void mccnn::store_neighbors(
     unsigned int numBlocks;
     unsigned int blockSize;
     if(pMaxNeighbors > 0){
-        //Create a temporal tensor.
-        int* tmpVect = pDevice->getIntTmpGPUBuffer(pNumSamples);
-        pDevice->memset(tmpVect, 0, sizeof(int)*pNumSamples);
-        pDevice->check_error(__FILE__, __LINE__);
-
         //Calculate the ideal number of blocks for the selected block size.
         unsigned int numMP = gpuProps.numMPs_;
         blockSize = gpuProps.warpSize_*2;
@@ -222,7 +224,8 @@ void mccnn::store_neighbors(
             (const int2*)pInGPUPtrRanges,
             (const mccnn::fpoint<D>*)pInGPUPtrInvRadii,
             pOutGPUPtrNumNeighsU,
-            tmpVect,
+            pInGPUPtrStartNeighs,
+            pGPUPtrAuxCounter,
             pOutGPUPtrNumNeighs,
             (int2*)pOutGPUPtrNeighs);
         pDevice->check_error(__FILE__, __LINE__);
@@ -282,7 +285,9 @@ void mccnn::store_neighbors(
         const int* pInGPUPtrRanges,             \
         const float* pInGPUPtrInvRadii,         \
         int* pOutGPUPtrNumNeighsU,              \
+        const int* pInGPUPtrStartNeighs,        \
+        int* pGPUPtrAuxCounter,                 \
         int* pOutGPUPtrNumNeighs,               \
         int* pOutGPUPtrNeighs);
 
-DECLARE_TEMPLATE_DIMS(STORE_NEIGHS_TEMP_DECL)
\ No newline at end of file
+DECLARE_TEMPLATE_DIMS(STORE_NEIGHS_TEMP_DECL)
\ No newline at end of file
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 4371275..1308cd4 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -217,6 +217,18 @@ namespace mccnn{
                 unsigned int numNeighbors =  mccnn::scan_alg(
                     gpuDevice, numSamples, outputGPUPtr1);
 
+                //Store the index of the first neighbor of each sample and 
+                //initialize the number of neighbors visited.
+                int* tmpGPUPtr5 = nullptr;
+                int* tmpGPUPtr6 = nullptr;
+                if(maxNeighs_ > 0){
+                    tmpGPUPtr5 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memcpy_device_to_device(tmpGPUPtr5, outputGPUPtr1, sizeof(int)*numSamples);
+                    tmpGPUPtr6 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memset(tmpGPUPtr6, 0, sizeof(int)*numSamples);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                }
+
                 //Create the second output tensor.
                 int* outputGPUPtr2 = nullptr;
                 TensorShape outShape2 = TensorShape{numNeighbors, 2};
@@ -245,7 +257,7 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::store_neighbors,
                         gpuDevice, maxNeighs_, numSamples, NUM_OFFSETS_X_COMPUTE_BLOCK,  
                         samplesGPUPtr, ptsGPUPtr, tmpGPUPtr2, invRadiiGPUPtr, 
-                        tmpGPUPtr4, outputGPUPtr1, outputGPUPtr2);
+                        tmpGPUPtr4, tmpGPUPtr5, tmpGPUPtr6, outputGPUPtr1, outputGPUPtr2);
                 }
             }
 
-- 
2.43.0


From 7e87580a12c2c8bcd11b566fd5789dd8ed581d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 49/51] fix: seed_to_float of the CUDA operations returned an
 integer

The random value in [0, 1) was truncated to zero, so the neighbor search with
a limit always replaced the same stored neighbor.
---
 custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h b/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
index 97c8152..5a24296 100755
--- a/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
+++ b/custom_ops/tfg_custom_ops/shared/cc/kernels/rnd_utils.h
@@ -43,7 +43,7 @@ namespace mccnn{
         return pSeed;
     }
 
-    __device__ __forceinline__ unsigned int seed_to_float(unsigned int pSeed)
+    __device__ __forceinline__ float seed_to_float(unsigned int pSeed)
     {
         return float(pSeed) * (1.0 / 4294967296.0);
     }
-- 
2.43.0


From 6d76108c985aa4116011a03813a7c836afcdec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 50/51] fix: CUDA cell average sampling returned uninitialized
 indices

The operation allocates one index for this mode and never wrote it.
---
 custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
index 5a3e5b5..394c821 100755
--- a/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
+++ b/custom_ops/tfg_custom_ops/sampling/cc/ops/sampling_ops.cpp
@@ -185,7 +185,8 @@ namespace mccnn{
                         (1, pContext, outShape2, &outBatchIdsGPUPtr));
                     OP_REQUIRES_OK(pContext, mccnn::tensorflow_utils::allocate_output_tensor<int>
                         (2, pContext, outShape3, &outIndicesGPUPtr));
-                    
+                    gpuDevice->memset(outIndicesGPUPtr, 0, sizeof(int));
+                    gpuDevice->check_error(__FILE__, __LINE__);
 
                     //Select the new point.
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::sampling_avg_gpu,
-- 
2.43.0


From b1ffad519277f129e66e222a5849521bbb25b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 51/51] fix: restore the CRLF line ends of sampling.py and
 PointHierarchy.py

Two earlier fixes had converted all lines of these files.
---
 pylib/pc/PointHierarchy.py | 380 ++++++++++++++++++-------------------
 pylib/pc/sampling.py       | 300 ++++++++++++++---------------
 2 files changed, 340 insertions(+), 340 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index f7b04cb..3688a10 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -1,190 +1,190 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Class to represent a point cloud hierarchy."""
-
-import numpy as np
-import tensorflow as tf
-
-from pylib.pc.utils import check_valid_point_hierarchy_input
-
-from pylib.pc import PointCloud
-from pylib.pc import Grid
-from pylib.pc import Neighborhood
-from pylib.pc import sample
-from pylib.pc.utils import cast_to_num_dims
-
-
-class PointHierarchy:
-  """ A hierarchy of sampled point clouds.
-
-  Args:
-    point_cloud: A `PointCloud` instance..
-    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
-      the cell sizes for the sampling. The length of the list defines
-      the number of samplings.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  """
-
-  def __init__(self,
-               point_cloud: PointCloud,
-               cell_sizes,
-               sample_mode='poisson',
-               name=None):
-    #Initialize the attributes.
-    self._aabb = point_cloud.get_AABB()
-    self._point_clouds = [point_cloud]
-    self._cell_sizes = []
-    self._neighborhoods = []
-
-    self._dimension = point_cloud._dimension
-    self._batch_shape = point_cloud._batch_shape
-
-    #Create the different sampling operations.
-    cur_point_cloud = point_cloud
-    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes = tf.reshape(tf.convert_to_tensor(
-          value=cur_cell_sizes, dtype=tf.float32), [-1])
-
-      # Check if the cell size is defined for all the dimensions.
-      # If not, the last cell size value is tiled until all the dimensions
-      # have a value.
-      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
-      cur_cell_sizes = tf.cond(
-          cur_num_dims < self._dimension,
-          lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(tf.gather(cur_cell_sizes,
-                                               [cur_num_dims - 1]),
-                                     [self._dimension - cur_num_dims])),
-                            axis=0),
-          lambda: cur_cell_sizes)
-      tf.assert_greater(
-          self._dimension + 1,
-          cur_num_dims,
-          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-          f'instead of max. {self._dimension}')
-      # old version, does not run in graph mode
-      # if cur_num_dims < self._dimension:
-      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
-      #                  tf.tile(tf.gather(cur_cell_sizes,
-      #                                    [tf.rank(cur_cell_sizes) - 1]),
-      #                    [self._dimension - cur_num_dims])),
-      #                       axis=0)
-      # if cur_num_dims > self._dimension:
-      #   raise ValueError(
-      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-      #       f'instead of max. {self._dimension}')
-
-      self._cell_sizes.append(cur_cell_sizes)
-
-      #Create the sampling operation.
-      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
-      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
-      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
-
-      # neighborhood between this level and the sampled level
-      self._neighborhoods.append(
-          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
-      cur_point_cloud.set_batch_shape(self._batch_shape)
-      self._point_clouds.append(cur_point_cloud)
-
-  def get_points(self, batch_id=None, max_num_points=None, name=None):
-    """ Returns the points.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-      If called withoud specifying 'id' returns the points in padded format
-      `[A1, ..., An, V, D]`.
-
-    Args:
-      batch_id: An `int`, identifier of point cloud in the batch, if `None`
-        returns all points.
-
-    Return:
-      A list of `float` `Tensors` of shape
-          `[N_i, D]`, if 'batch_id' was given
-      or
-        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
-    """
-    points = []
-    for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id, max_num_points))
-    return points
-
-  def get_sizes(self, name=None):
-    """ Returns the sizes of the point clouds in the point hierarchy.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Returns:
-      A `list` of `Tensors` of shape '`[A1, .., An]`'
-
-    """
-
-    sizes = []
-    for point_cloud in self._point_clouds:
-      sizes.append(point_cloud.get_sizes())
-    return sizes
-
-  def set_batch_shape(self, batch_shape, name=None):
-    """ Function to change the batch shape.
-
-      Use this to set a batch shape instead of using 'self._batch_shape'
-      to also change dependent variables.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Args:
-      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
-
-    Raises:
-      ValueError: if shape does not sum up to batch size.
-
-    """
-    for point_cloud in self._point_clouds:
-      point_cloud.set_batch_shape(batch_shape)
-
-  def get_neighborhood(self, i=None, transposed=False):
-    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
-    If called without argument returns a list of all neighborhoods.
-
-    Args:
-      i: An `int`, can be negative but must be in range
-        `[-num_levels, num_levels-1]`.
-      transposed: A `bool`, if `True` returns the neighborhood between
-        level `i+1` and `i`.
-
-    Returs:
-      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
-
-    """
-    if i is None:
-      if transposed:
-        return [nb.transpose() for nb in self._neighborhoods]
-      else:
-        return self._neighborhoods
-    else:
-      if transposed:
-        return self._neighborhoods[i].transpose()
-      else:
-        return self._neighborhoods[i]
-
-  def __getitem__(self, index):
-    return self._point_clouds[index]
-
-  def __len__(self):
-    return len(self._point_clouds)
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Class to represent a point cloud hierarchy."""
+
+import numpy as np
+import tensorflow as tf
+
+from pylib.pc.utils import check_valid_point_hierarchy_input
+
+from pylib.pc import PointCloud
+from pylib.pc import Grid
+from pylib.pc import Neighborhood
+from pylib.pc import sample
+from pylib.pc.utils import cast_to_num_dims
+
+
+class PointHierarchy:
+  """ A hierarchy of sampled point clouds.
+
+  Args:
+    point_cloud: A `PointCloud` instance..
+    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
+      the cell sizes for the sampling. The length of the list defines
+      the number of samplings.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  """
+
+  def __init__(self,
+               point_cloud: PointCloud,
+               cell_sizes,
+               sample_mode='poisson',
+               name=None):
+    #Initialize the attributes.
+    self._aabb = point_cloud.get_AABB()
+    self._point_clouds = [point_cloud]
+    self._cell_sizes = []
+    self._neighborhoods = []
+
+    self._dimension = point_cloud._dimension
+    self._batch_shape = point_cloud._batch_shape
+
+    #Create the different sampling operations.
+    cur_point_cloud = point_cloud
+    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
+      cur_cell_sizes = tf.reshape(tf.convert_to_tensor(
+          value=cur_cell_sizes, dtype=tf.float32), [-1])
+
+      # Check if the cell size is defined for all the dimensions.
+      # If not, the last cell size value is tiled until all the dimensions
+      # have a value.
+      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
+      cur_cell_sizes = tf.cond(
+          cur_num_dims < self._dimension,
+          lambda: tf.concat((cur_cell_sizes,
+                             tf.tile(tf.gather(cur_cell_sizes,
+                                               [cur_num_dims - 1]),
+                                     [self._dimension - cur_num_dims])),
+                            axis=0),
+          lambda: cur_cell_sizes)
+      tf.assert_greater(
+          self._dimension + 1,
+          cur_num_dims,
+          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+          f'instead of max. {self._dimension}')
+      # old version, does not run in graph mode
+      # if cur_num_dims < self._dimension:
+      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
+      #                  tf.tile(tf.gather(cur_cell_sizes,
+      #                                    [tf.rank(cur_cell_sizes) - 1]),
+      #                    [self._dimension - cur_num_dims])),
+      #                       axis=0)
+      # if cur_num_dims > self._dimension:
+      #   raise ValueError(
+      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+      #       f'instead of max. {self._dimension}')
+
+      self._cell_sizes.append(cur_cell_sizes)
+
+      #Create the sampling operation.
+      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
+      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
+      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
+
+      # neighborhood between this level and the sampled level
+      self._neighborhoods.append(
+          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
+      cur_point_cloud.set_batch_shape(self._batch_shape)
+      self._point_clouds.append(cur_point_cloud)
+
+  def get_points(self, batch_id=None, max_num_points=None, name=None):
+    """ Returns the points.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+      If called withoud specifying 'id' returns the points in padded format
+      `[A1, ..., An, V, D]`.
+
+    Args:
+      batch_id: An `int`, identifier of point cloud in the batch, if `None`
+        returns all points.
+
+    Return:
+      A list of `float` `Tensors` of shape
+          `[N_i, D]`, if 'batch_id' was given
+      or
+        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
+    """
+    points = []
+    for point_cloud in self._point_clouds:
+      points.append(point_cloud.get_points(batch_id, max_num_points))
+    return points
+
+  def get_sizes(self, name=None):
+    """ Returns the sizes of the point clouds in the point hierarchy.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Returns:
+      A `list` of `Tensors` of shape '`[A1, .., An]`'
+
+    """
+
+    sizes = []
+    for point_cloud in self._point_clouds:
+      sizes.append(point_cloud.get_sizes())
+    return sizes
+
+  def set_batch_shape(self, batch_shape, name=None):
+    """ Function to change the batch shape.
+
+      Use this to set a batch shape instead of using 'self._batch_shape'
+      to also change dependent variables.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Args:
+      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
+
+    Raises:
+      ValueError: if shape does not sum up to batch size.
+
+    """
+    for point_cloud in self._point_clouds:
+      point_cloud.set_batch_shape(batch_shape)
+
+  def get_neighborhood(self, i=None, transposed=False):
+    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
+    If called without argument returns a list of all neighborhoods.
+
+    Args:
+      i: An `int`, can be negative but must be in range
+        `[-num_levels, num_levels-1]`.
+      transposed: A `bool`, if `True` returns the neighborhood between
+        level `i+1` and `i`.
+
+    Returs:
+      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
+
+    """
+    if i is None:
+      if transposed:
+        return [nb.transpose() for nb in self._neighborhoods]
+      else:
+        return self._neighborhoods
+    else:
+      if transposed:
+        return self._neighborhoods[i].transpose()
+      else:
+        return self._neighborhoods[i]
+
+  def __getitem__(self, index):
+    return self._point_clouds[index]
+
+  def __len__(self):
+    return len(self._point_clouds)
diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index abf55e9..f3cafe9 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -1,150 +1,150 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Methods to sample point clouds. """
-
-import tensorflow as tf
-
-from pylib.pc.custom_ops import sampling
-
-from pylib.pc import PointCloud, Neighborhood, Grid
-from pylib.pc.utils import cast_to_num_dims
-
-sample_modes = {'average': 1,
-                'cell average': 1,
-                'cell_average': 1,
-                'poisson': 0,
-                'poisson disk': 0,
-                'poisson_disk': 0}
-
-
-def poisson_disk_sampling(point_cloud,
-                          radius=None,
-                          neighborhood=None,
-                          return_ids=False,
-                          name=None):
-  """ Poisson disk sampling of a point cloud.
-
-  Note: Either `radius` or `neighborhood` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
-      Poisson disk sampling.
-    neighborhood: A `Neighborhood` instance.
-    return_ids: A `bool`, if `True` returns the indices of the sampled points.
-      (optional)
-
-    Returns:
-      A `PointCloud` instance.
-      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
-
-    Raises:
-      ValueError: If no radius or neighborhood is given.
-
-  """
-  if radius is None and neighborhood is None:
-    raise ValueError(
-        "Missing Argument! Either radius or neighborhood must be given!")
-  if neighborhood is None:
-    # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud._dimension)
-    grid = Grid(point_cloud, radii)
-    neighborhood = Neighborhood(grid, radii)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  if return_ids:
-    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
-                                sampled_indices)
-    return sampled_point_cloud, sampled_indices
-  else:
-    return sampled_point_cloud
-
-
-def cell_average_sampling(point_cloud,
-                          cell_sizes=None,
-                          grid=None,
-                          name=None):
-  """ Cell average sampling of a point cloud.
-
-  Note: Either `cell_sizes` or `grid` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
-      for the sampling.
-    grid: A `Grid` instance.
-
-    Returns:
-      A `PointCloud` instance.
-
-    Raises:
-      ValueError: If no radius or grid is given.
-
-  """
-  if cell_sizes is None and grid is None:
-    raise ValueError(
-        "Missing Argument! Either cell_sizes or grid must be given!")
-  if grid is None:
-    # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
-    grid = Grid(point_cloud, cell_sizes)
-
-  neighborhood = Neighborhood(grid, grid._cell_sizes)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  return sampled_point_cloud
-
-
-def sample(neighborhood, sample_mode='poisson', name=None):
-  """ Sampling for a neighborhood.
-
-  Args:
-    neighborhood: A `Neighborhood` instance.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  Returns:
-    A `PointCloud` instance, the sampled points.
-    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
-      `None` for cell average sampling.
-
-  """
-  sample_mode_value = sample_modes[sample_mode.lower()]
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_mode_value)
-
-  #Save the sampled point cloud.
-  if sample_mode_value == 0:
-    sampled_indices = tf.gather(
-        neighborhood._grid._sorted_indices, sampled_indices)
-  else:
-    sampled_indices = None
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
-  return sampled_point_cloud, sampled_indices
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Methods to sample point clouds. """
+
+import tensorflow as tf
+
+from pylib.pc.custom_ops import sampling
+
+from pylib.pc import PointCloud, Neighborhood, Grid
+from pylib.pc.utils import cast_to_num_dims
+
+sample_modes = {'average': 1,
+                'cell average': 1,
+                'cell_average': 1,
+                'poisson': 0,
+                'poisson disk': 0,
+                'poisson_disk': 0}
+
+
+def poisson_disk_sampling(point_cloud,
+                          radius=None,
+                          neighborhood=None,
+                          return_ids=False,
+                          name=None):
+  """ Poisson disk sampling of a point cloud.
+
+  Note: Either `radius` or `neighborhood` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
+      Poisson disk sampling.
+    neighborhood: A `Neighborhood` instance.
+    return_ids: A `bool`, if `True` returns the indices of the sampled points.
+      (optional)
+
+    Returns:
+      A `PointCloud` instance.
+      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
+
+    Raises:
+      ValueError: If no radius or neighborhood is given.
+
+  """
+  if radius is None and neighborhood is None:
+    raise ValueError(
+        "Missing Argument! Either radius or neighborhood must be given!")
+  if neighborhood is None:
+    # compute neighborhood
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
+    grid = Grid(point_cloud, radii)
+    neighborhood = Neighborhood(grid, radii)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, 0)
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  if return_ids:
+    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
+                                sampled_indices)
+    return sampled_point_cloud, sampled_indices
+  else:
+    return sampled_point_cloud
+
+
+def cell_average_sampling(point_cloud,
+                          cell_sizes=None,
+                          grid=None,
+                          name=None):
+  """ Cell average sampling of a point cloud.
+
+  Note: Either `cell_sizes` or `grid` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
+      for the sampling.
+    grid: A `Grid` instance.
+
+    Returns:
+      A `PointCloud` instance.
+
+    Raises:
+      ValueError: If no radius or grid is given.
+
+  """
+  if cell_sizes is None and grid is None:
+    raise ValueError(
+        "Missing Argument! Either cell_sizes or grid must be given!")
+  if grid is None:
+    # compute grid
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
+    grid = Grid(point_cloud, cell_sizes)
+
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, 1)
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  return sampled_point_cloud
+
+
+def sample(neighborhood, sample_mode='poisson', name=None):
+  """ Sampling for a neighborhood.
+
+  Args:
+    neighborhood: A `Neighborhood` instance.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  Returns:
+    A `PointCloud` instance, the sampled points.
+    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
+      `None` for cell average sampling.
+
+  """
+  sample_mode_value = sample_modes[sample_mode.lower()]
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_mode_value)
+
+  #Save the sampled point cloud.
+  if sample_mode_value == 0:
+    sampled_indices = tf.gather(
+        neighborhood._grid._sorted_indices, sampled_indices)
+  else:
+    sampled_indices = None
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
+  return sampled_point_cloud, sampled_indices
-- 
2.43.0

