From f8bac1cf9f303186c37f4b0343daf369dc61efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:47 +0000
Subject: [PATCH 01/37] fix: build product time as plain integers when
 inferring the ellipsoid

Passing xarray values to datetime() raises TypeError with current xarray,
so no file could be opened with the default ellipsoid revision. The same
unused expression in mimic_lma also referred to a name never imported.
---
 glmtools/io/glm.py       | 4 ++--
 glmtools/io/mimic_lma.py | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..ce1988b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -552,8 +552,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..6403521 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -391,10 +391,6 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # unioning by a little bit to avoid the above problem.
 
         if fixed_grid:
-            pt = flash_data.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
-
             x_lut, y_lut, corner_lut = load_pixel_corner_lookup(corner_pickle)
             # Convert from microradians to radians
             x_lut = x_lut * 1.0e-6
-- 
2.43.0


From ccd828b6fd0a37bb7de928f927114aebc25e0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:46 +0000
Subject: [PATCH 02/37] fix: traverse hierarchies whose levels have no rows

Counting children, reducing and checking consistency failed with
AttributeError when a dimension was empty, so a file without lightning
could not be opened with the default options.
---
 glmtools/io/traversal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..d014260 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -1,6 +1,10 @@
 import collections, itertools
 import numpy as np
 
+class EmptyGroups(object):
+    """ Stands in for a groupby along a dimension that has no data """
+    groups = {}
+
 class OneToManyTraversal(object):
     def __init__(self, dataset, entity_id_vars, parent_id_vars):
         """
@@ -74,7 +78,7 @@ class OneToManyTraversal(object):
         for (entity_var, parent_var) in self._descend():
             if dataset.dims[dataset[entity_var].dims[0]] == 0:
                 # No data, so groupby will fail in xarray > 0.13
-                entity_grouper = None
+                entity_grouper = EmptyGroups()
             else:
                 entity_grouper = dataset.groupby(entity_var)
             self.entity_groups[entity_var] = entity_grouper
@@ -83,7 +87,7 @@ class OneToManyTraversal(object):
             else:
                 if dataset.dims[dataset[parent_var].dims[0]] == 0:
                     # No data, so groupby will fail in xarray > 0.13
-                    parent_grouper = None
+                    parent_grouper = EmptyGroups()
                 else:
                     parent_grouper = dataset.groupby(parent_var)
             self.parent_groups[parent_var] = parent_grouper
-- 
2.43.0


From 271cba7a53efeda9e70f4cae6e84a7f363293657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:13 +0000
Subject: [PATCH 03/37] fix: drop groups of missing flashes when repairing a
 file

Repairing an inconsistent file kept groups and events whose parent flash
id is not in the file, so they still pointed to nothing afterwards.
---
 glmtools/io/glm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ce1988b..6c8d075 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -212,9 +212,8 @@ class GLMDataset(OneToManyTraversal):
                 # everything else self-consistent.
                 log.warning('Fixing inconsistent parent-child IDs '
                             'in file {0}'.format(filename))
-                flashes_with_no_groups = entity_var_stats['flash_id'][2]
                 unq_fl_id = set(list(dataset.group_parent_flash_id.data))
-                good_fl_id = list(unq_fl_id - flashes_with_no_groups)
+                good_fl_id = list(unq_fl_id & set(dataset.flash_id.data))
                 ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
                 dataset = ds_fixed
 
-- 
2.43.0


From c65313ddc99964a138ef5809557579b701537193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:13 +0000
Subject: [PATCH 04/37] fix: open files that have flashes and groups but no
 events

The child counts were set to empty arrays whenever any level was empty,
which conflicts with the size of the levels that do have rows.
---
 glmtools/io/glm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 6c8d075..74f4f81 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -277,14 +277,12 @@ class GLMDataset(OneToManyTraversal):
         event_parent_flash_id = xr.DataArray(flash_ids, dims=[self.ev_dim,])
         self.dataset['event_parent_flash_id'] = event_parent_flash_id
 
+        all_counts = self.count_children('flash_id', 'event_id')
+        flash_child_count = all_counts[0]
+        group_child_count = all_counts[1]
         if no_data:
-            flash_child_count = []
-            group_child_count = []
-            count = []
+            count = [0] * self.dataset.dims['number_of_flashes']
         else:
-            all_counts = self.count_children('flash_id', 'event_id')
-            flash_child_count = all_counts[0]
-            group_child_count = all_counts[1]
             # we can use event_parent_flash_id to get the flash_child_event_count
             # need a new groupby on event_parent_flash_id
             # then count number of flash_ids that match in the groupby
-- 
2.43.0


From 51c2076b8f6c8913a33baee5d0ed8c7ee30ff1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:13 +0000
Subject: [PATCH 05/37] fix: keep the energy of events at the smallest nonzero
 value

With a nonzero offset, single precision roundoff in the decoded value
could place events at the smallest encodable energy below that energy,
and they were halved as if they had none.
---
 glmtools/io/glm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 74f4f81..7fbb78c 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -340,7 +340,10 @@ class GLMDataset(OneToManyTraversal):
         min_discr_energy = (self.dataset.event_energy.encoding['add_offset'] +
                             self.dataset.event_energy.encoding['scale_factor'])
         min_energy = fraction_of_min*min_discr_energy
-        zero_energy = (self.dataset.event_energy < min_discr_energy)
+        # Compare half a step below the minimum, so that single precision
+        # roundoff in the decoded minimum doesn't make it count as zero.
+        half_step = 0.5*self.dataset.event_energy.encoding['scale_factor']
+        zero_energy = (self.dataset.event_energy < min_discr_energy - half_step)
         if zero_energy.any():
             log.debug("Setting zero-energy events to {0}".format(min_energy))
             self.dataset.event_energy[zero_energy] = min_energy
-- 
2.43.0


From b13b5802ddc1e8932bf12a9af9e6e0b44aa309c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:26 +0000
Subject: [PATCH 06/37] fix: correct D0.07 times before dropping inconsistent
 rows

The corrected times are read from the file again, so they were assigned
to the wrong rows, or failed to align, if the parent-child tree had been
repaired first.
---
 glmtools/io/glm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 7fbb78c..bdefc6b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -195,6 +195,12 @@ class GLMDataset(OneToManyTraversal):
         else:
             dataset = xr.open_dataset(filename)
 
+        if fix_bad_DO07_times:
+            # Do this before any rows are dropped, so that the corrected times
+            # line up with the rows of the original file.
+            self.dataset = dataset
+            did_fix = self._check_and_fix_missing_unsigned_time(filename)
+
         if check_tree:
             tree_problems = False
             test_trav = OneToManyTraversal(dataset,
@@ -237,8 +243,6 @@ class GLMDataset(OneToManyTraversal):
         else:
             self.dataset = dataset
 
-        if fix_bad_DO07_times:
-            did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_area_units:
             # Check for missing areas (from overflow of the max value
             # allowed by the scale_factor) before ensuring units are always km^2
-- 
2.43.0


From 9ed2217b71c33f40431b8fbef23ef4072b0f55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:27 +0000
Subject: [PATCH 07/37] fix: look up ellipsoid radii by the existing revision
 function

ltg_ellps_radii called a misspelled function and always raised NameError.
---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From bc80efc72f63ee722912f0d37af5d378ccd99467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:27 +0000
Subject: [PATCH 08/37] fix: allow subsetting flashes without checking event
 positions

subset_flashes(check_event_xy=False) used the result of the skipped check.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index bdefc6b..9f2c927 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -532,7 +532,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From 7190587be259d1a47445b15f9847223931547fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:27 +0000
Subject: [PATCH 09/37] fix: give the last cell of each row its own location id

Points in the last, partial cell of a row shared their id with the first
cell of the next row.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 9f2c927..dea171e 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -735,5 +735,6 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
-    xy_discr = x_discr + y_discr*discr_x_max
+    # The last cell may be partial, so there is one more than discr_x_max.
+    xy_discr = x_discr + y_discr*(discr_x_max + np.array(1, dtype=int_type))
     return xy_discr
-- 
2.43.0


From 3179acd0bd8d077922c3a7bb25fa636fcaef51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:08 +0000
Subject: [PATCH 10/37] fix: return a list of cells when only one mesh cell is
 nearest

quads_nearest squeezed away the cell dimension when the mesh has one cell or
one neighbor is requested, so the indices were scalars and slicing failed.
---
 glmtools/grid/clipping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..a1bdc55 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -265,9 +265,11 @@ class QuadMeshSubset(object):
         """
         dists, quad_x_idx, quad_y_idx = self.query_tree(x)
         # quads = [q for q in self.gen_polys(quad_x_idx, quad_y_idx)]
-        # Squeeze a leading dimension of 1 on x/y_idx and therefore on quads
-        quads = self.quads[quad_x_idx, quad_y_idx, :, :].squeeze()
-        return quads, quad_x_idx.squeeze(), quad_y_idx.squeeze()
+        # Remove a leading dimension of 1 on x/y_idx and therefore on quads,
+        # keeping the dimension along the quads even if there is only one.
+        quad_x_idx, quad_y_idx = quad_x_idx.flatten(), quad_y_idx.flatten()
+        quads = self.quads[quad_x_idx, quad_y_idx, :, :]
+        return quads, quad_x_idx, quad_y_idx
 
     def _quads_in_bbox_regular(self, bbox, pad=2):
         """ Assume a perfectly regular grid, with uniform spacing in x and y
-- 
2.43.0


From e918d56e75ca4bf2de8c640992b8c711f3ae5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:24 +0000
Subject: [PATCH 11/37] fix: find all cells in boxes that reach past the edge
 of the mesh

On a regular mesh, a bounding box with one limit outside of the mesh only
found the cells around its other limit, and a box covering the mesh found none.
---
 glmtools/grid/clipping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index a1bdc55..e3e5c7d 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -330,13 +330,14 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
+        validx = (idxx.max() >= 0) & (idxx.min() < self.N_X_ctr)
+        validy = (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr)
+        # A limit beyond the mesh selects quads up to that side of the mesh
+        idxx = idxx.clip(0, self.N_X_ctr-1)
+        idxy = idxy.clip(0, self.N_Y_ctr-1)
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        if validx & validy:
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From 1030df23b506788a94cd498ab44f080d7c0631b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:39 +0000
Subject: [PATCH 12/37] fix: find cells larger than the bounding box on
 irregular meshes

Cells without a corner between the limits of the box along a coordinate were
not returned, so polygons smaller than a cell were lost when sliced.
---
 glmtools/grid/clipping.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index e3e5c7d..e971447 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -379,15 +379,11 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Keep quads whose extent along each coordinate meets the bounds, which
+        # includes quads that are larger than the bbox.
+        quad_min, quad_max = self.quads.min(axis=2), self.quads.max(axis=2)
+        goodx = (quad_max[:,:,0] >= xlim[0]) & (quad_min[:,:,0] <= xlim[1])
+        goody = (quad_max[:,:,1] >= ylim[0]) & (quad_min[:,:,1] <= ylim[1])
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From b75eea7d5375c72bf5ccd413a72e8d55c70bcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:49 +0000
Subject: [PATCH 13/37] fix: slice polygons within an explicit bounding box

Passing (xmin, xmax, ymin, ymax) to slice raised UnboundLocalError.
---
 glmtools/grid/clipping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index e971447..3637c1a 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -561,9 +561,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
-            recalc_bbox = True
-            # else use the bbox that is specified exactly
+        # Unless bbox is True, use the bbox that is specified exactly
+        recalc_bbox = (bbox == True)
 
         poly_arr = [np.asarray(p) for p in polys]
         areas = [np.abs(poly_area(p[:,0], p[:,1])) for p in poly_arr]
-- 
2.43.0


From 97b040b5d37ba30f2f50289929c2cfdedb45d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:28 +0000
Subject: [PATCH 14/37] fix: return an empty table when no event falls on the
 target mesh

Clipping a chunk whose events all miss the mesh took the maximum of an
empty index array and raised ValueError.
---
 glmtools/io/mimic_lma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 6403521..2505898 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -816,6 +816,10 @@ def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
                  ('lutevent_min_flash_area', 'f4'),
                  ]
 
+    if split_events.split_event_mesh_x_idx.shape[0] == 0:
+        # no events fall on the mesh, nothing to do
+        return np.empty((0,), dtype=lut_split_event_dtype)
+
     split_events['split_event_mesh_area_fraction'] = np.fabs(
             split_events.split_event_mesh_area_fraction)
 
-- 
2.43.0


From 7175ec8ec080b7df52e94322ee71cda246efd708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:37 +0000
Subject: [PATCH 15/37] fix: split event footprints with every mesh cell they
 touch

Cells were looked up around the footprint's centre only. Parts of the
footprint were lost on meshes finer than a quarter of its width, and
footprints reaching onto the mesh from a centre beyond its edge were
dropped. Use the bounding box, as is already done for groups and flashes.
---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 2505898..b45c423 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,7 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
@@ -414,7 +414,7 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         slicer = QuadMeshPolySlicer(mesh)
         # --- Split up the events ---
         log.info("Starting to split events")
-        chopped_polys, poly_areas = slicer.slice(event_polys)
+        chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
         log.info("Sliced all events")
         split_event_polys, split_event_properties = split_event_data(chopped_polys, poly_areas, slicer, event_ids=event_ids)
         if fixed_grid:
-- 
2.43.0


From 95b5b26fb3aa54b53fc54576d8952753b1800abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:43 +0000
Subject: [PATCH 16/37] fix: covered fraction of a mesh cell is positive for
 either mesh orientation

Meshes with x along the first dimension have negative signed cell areas,
which made the weighted counts and areas read with them negative.
---
 glmtools/grid/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 3637c1a..38729e8 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -613,7 +613,8 @@ class QuadMeshPolySlicer(object):
         Calculate the fraction of each original quad covered by the sub-quad.
         """
         sub_quad_areas = np.asarray(frac_areas)*total_area
-        quad_areas = self.mesh.quad_areas[quad_x_idx, quad_y_idx]
+        # The sign of the mesh areas depends on the orientation of the mesh
+        quad_areas = np.abs(self.mesh.quad_areas[quad_x_idx, quad_y_idx])
         quad_frac = sub_quad_areas/quad_areas
         return quad_frac
 
-- 
2.43.0


From ac0ac537397ce99b3e5a2e679b5869db082ae770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:59 +0000
Subject: [PATCH 17/37] fix: divide group and flash energy among all parts of a
 footprint

A group or flash whose events form several separate polygons had its full
energy assigned to each of them.
---
 glmtools/io/mimic_lma.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index b45c423..4778c50 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -317,6 +317,23 @@ def replicate_and_weight_split_child_dataset_new(parent_data, split_child_datase
     return split_child_dataset
 
 
+def weight_fractions_by_parent_area(split_properties, chopped_polys, poly_areas,
+        parent_ids):
+    """ Slicing gives the area fractions of each polygon. Convert them to fractions of
+    the total area of all polygons with the same parent, in place.
+
+    Arguments:
+    split_properties -- array returned by split_event_data
+    chopped_polys, poly_areas -- as returned by QuadMeshPolySlicer.slice
+    parent_ids -- id of the parent of each polygon
+    """
+    ids, parent_idx = np.unique(parent_ids, return_inverse=True)
+    total_areas = np.bincount(parent_idx, weights=poly_areas)[parent_idx]
+    n_pieces = [len(frac_areas) for _, frac_areas, _ in chopped_polys]
+    split_properties['event_frac_area'] *= np.repeat(
+        np.asarray(poly_areas)/total_areas, n_pieces)
+
+
 def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lon=None,
          fixed_grid=False, clip_events=True, corner_pickle=None):
     """ For the chunk of GLM data in flash_data, prepare a dataset that can be sent
@@ -460,6 +477,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         log.info("Sliced all groups")
         split_group_polys, split_group_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_group_ids)
+        weight_fractions_by_parent_area(split_group_properties,
+            chopped_union_polys, poly_union_areas, union_group_ids)
         if fixed_grid:
             # Use variable names that indicate the fixed grid polygon centroid
             # coordinates are x,y. Then, convert those coordinates to lon, lat
@@ -509,6 +528,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         log.info("Sliced all flashes")
         split_flash_polys, split_flash_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_flash_ids)
+        weight_fractions_by_parent_area(split_flash_properties,
+            chopped_union_polys, poly_union_areas, union_flash_ids)
         if fixed_grid:
             # Use variable names that indicate the fixed grid polygon centroid
             # coordinates are x,y. Then, convert those coordinates to lon, lat
-- 
2.43.0


From 03b9c6f0e0639a1f62ed1ceb1f1954b88c8c6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:11 +0000
Subject: [PATCH 18/37] fix: write every tile with the requested scaling

The options are shared between tiles, so removing them while writing the
first tile made the others fall back to scaled integers.
---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..2cd0355 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
-- 
2.43.0


From 53ee097ceedd66cf4bd51456181e789af178ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:11 +0000
Subject: [PATCH 19/37] fix: infer the ellipsoid revision when gridding without
 one given

---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 2cd0355..d8510ad 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -862,7 +862,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
     """
 
     subgridij, kwargsij, process_flash_kwargs_ij, out_kwargs_ij, pads = subgrid
-    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev')
+    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev', -1)
 
     # Eventually, we want to trim off n_x/y_pad from each side of the grid
     # n_x_pad, n_y_pad, x_pad, y_pad = pads
-- 
2.43.0


From 4aadf77766b5b6ad755f7b9aae225c1eeefec048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:11 +0000
Subject: [PATCH 20/37] fix: return the names of the files written on the fixed
 grid

---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index d8510ad..c1c24e7 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -931,7 +931,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # to resolve this inconsistency with a rearchitecture of how the
         # subgrids are handled - avoiding the hacky output preprocessor in
         # all cases.
-        outfilenames = preprocess_out.write_all()
+        outfilenames = preprocess_out.write_all() or output
     else:
         outfilenames = gridder.write_grids(**out_kwargs_ij)
 
-- 
2.43.0


From e14b0f5dc9f3339b42e1fa2613876d3bc0b2e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:56 +0000
Subject: [PATCH 21/37] fix: leave the grids unchanged when writing images

Raising small extent densities to one storage step changed the grid itself,
which then gave wrong average areas in the same file, and dividing totals in
place made a second write divide again.
---
 glmtools/io/imagery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..87a0e7c 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -348,6 +348,7 @@ def glm_image_to_var(data, name, long_name, units, dims, fill=0.0,
             if add_offset is not None:
                 min_allowed += add_offset
             tiny = (data > 0.0) & (data <= min_allowed)
+            data = data.copy()
             data[tiny] = min_allowed
         if add_offset is not None:
             enc['add_offset'] = add_offset
@@ -531,7 +532,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From de68d5c11966d7e5e164deba5775604011e33445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:07 +0000
Subject: [PATCH 22/37] fix: write images to a path template without a folder

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 87a0e7c..5e071e6 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -523,7 +523,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and os.path.exists(enclosing_dir) == False:
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From 6d4813ed0d7bc97c1bb6613e0487670b37e765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:42 +0000
Subject: [PATCH 23/37] fix: aggregate a series without a given start and end

Timestamps cannot be made from zero-dimensional arrays.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 5e071e6..52d2924 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -602,8 +602,8 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.Timestamp(glm['time'].min().data[()]).to_pydatetime()
+        end = pd.Timestamp(glm['time'].max().data[()]).to_pydatetime() + dt
         # The lines below might be necessary replacements for a future version
         # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
         # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
-- 
2.43.0


From eaa89efc7243cf996ce4af416f484ab9dab72917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:42 +0000
Subject: [PATCH 24/37] fix: aggregate group areas from the group fields

The average group area was calculated from the flash area and flash
extent density.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 52d2924..1ce407a 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -627,7 +627,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-- 
2.43.0


From 27aa935d835cf037a7d7506be51df7c9b4e9e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:42 +0000
Subject: [PATCH 25/37] fix: include the image at the start of an aggregation
 interval

Intervals were closed at their end. The first image of a series was
dropped, and images at an edge were counted in the earlier interval.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 1ce407a..f043188 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -630,8 +630,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From 193a215f296a440179d2be933dc410906d40df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:55 +0000
Subject: [PATCH 26/37] fix: count all cells when dividing a grid into tiles

Division in floating point can give a value just below the number of
cells, which was then cut to one cell fewer.
---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index c1c24e7..f1da2cd 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -626,8 +626,8 @@ def subdivide_bnd(bnd, delta, s=8):
 
     """
     w = bnd[1] - bnd[0]
-    # Number of elements
-    n = int(w/delta)
+    # Number of elements, allowing for w/delta just below a whole number
+    n = int(round(w/delta, 3))
     # Numbr of elements in each segment
     log.debug((n, s))
     dn = int(n/s)
-- 
2.43.0


From 3af6a98d626c99e3250a2eb1e96d3195617e6f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:28 +0000
Subject: [PATCH 27/37] fix: round when restoring integer codes of unsigned
 variables

Unscaled values just below a whole number were cut to the next lower
code.
---
 glmtools/io/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index dea171e..544e9f9 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -61,7 +61,7 @@ def fix_unsigned(data, is_xarray=True):
     dtype = data.encoding['dtype'].str.replace('i', 'u')
     scale_factor = data.encoding['scale_factor']
     add_offset = data.encoding['add_offset']
-    unscale = ((data - add_offset)/scale_factor).data.astype(dtype).astype('float64')
+    unscale = ((data - add_offset)/scale_factor).data.round().astype('int64').astype(dtype).astype('float64')
     fixed = unscale * scale_factor + add_offset
     return fixed
 
@@ -98,8 +98,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
 
     if is_xarray==True:
         # unscale the data
-        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
-        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
+        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.round().astype('int32')
+        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.round().astype('int32')
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-- 
2.43.0


From 03122ad6f6d41720189554eba4931d86b23e6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:10 +0000
Subject: [PATCH 28/37] fix: convert text listings with current xarray

set_coords returns a new dataset and has no inplace option any more.
---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From 44c8ca8dca8c238390ff898f28d06c00f502e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:09 +0000
Subject: [PATCH 29/37] fix: write images when none of the files has lightning

The attributes needed for output were only saved from files with events.
---
 glmtools/grid/make_grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index f1da2cd..48c5a28 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -894,6 +894,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             process_flash_kwargs_ij))
         sys.stdout.flush()
         glm = GLMDataset(filename, ellipse_rev=ellipse_rev)
+        if not saved_first_file_metadata:
+            gridder.first_file_attrs = dict(glm.dataset.attrs)
+            saved_first_file_metadata = True
         # Pre-load the whole dataset, as recommended by the xarray docs.
         # This saves an absurd amount of time (factor of 80ish) in
         # grid.split_events.replicate_and_split_events
@@ -902,9 +905,6 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             # data from an empty dimension.
             glm.dataset.load()
 
-            if not saved_first_file_metadata:
-                gridder.first_file_attrs = dict(glm.dataset.attrs)
-                saved_first_file_metadata = True
             gridder.process_flashes(glm, **process_flash_kwargs_ij)
         else:
             log.info("Skipping {0} - number of events is 0".format(filename))
-- 
2.43.0


From 0dad2aefc827d9f3940b0027567cd8276374c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:56 +0000
Subject: [PATCH 30/37] fix: list the files of a collection by time

The product time was a zero-dimensional array, which cannot be a key.
---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 4778c50..5eb4bce 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1050,7 +1050,7 @@ class GLMncCollection(LMAh5Collection):
         glm = GLMDataset(fname, calculate_parent_child=False)
         # Get the time, using 'seconds' resolution because GLM files are
         # produced on 20 s boundaries (or any number of even seconds)
-        t_start = glm.dataset.product_time.data.astype('M8[s]').astype('O')
+        t_start = glm.dataset.product_time.data.astype('M8[s]').item()
         # In the LMA API, we track the table name in the H5 file that goes
         # with the time. No such thing exists for GLM data.
         self._time_lookup[t_start] = (fname, None)
-- 
2.43.0


From ba39a450b43e6d83cb21fac96ca42da20d4b6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:56 +0000
Subject: [PATCH 31/37] fix: read the data of a collection for a time

hstack does not accept generators, nor an empty list of chunks.
---
 glmtools/io/mimic_lma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 5eb4bce..f7644e5 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1070,8 +1070,11 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        # Start from empty tables in case no flash meets the criteria.
+        ev_chunks = [np.empty((0,), dtype=event_dtype)]
+        fl_chunks = [np.empty((0,), dtype=flash_dtype)]
+        ev_chunks += [d['flash'][0] for d in fake_lma]
+        fl_chunks += [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From a10571d36982f178ba9ce78af13431089bc29b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:50 +0000
Subject: [PATCH 32/37] fix: use the base date given for a time series of
 flashes

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f7644e5..64be35d 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1084,7 +1084,7 @@ class TimeSeriesGLMFlashSubset(TimeSeriesGenericFlashSubset):
                     min_events=None, min_groups=None,
                     lon_range=None, lat_range=None):
         super(TimeSeriesGLMFlashSubset, self).__init__(t_start, t_end, dt,
-                                                    base_date=None)
+                                                    base_date=base_date)
         self.lma = GLMncCollection(glm_filenames, base_date=self.base_date,
                                    min_points=min_events, min_groups=min_groups,
                                    lat_range=lat_range, lon_range=lon_range)
-- 
2.43.0


From 767b7f2ec6f8d65a3fa5ec661713347c57078d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:26 +0000
Subject: [PATCH 33/37] fix: round the pixel area in density units

At spacings such as 280 microradians the product falls just below a whole
number and the label was truncated to one square microradian too few.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 48c5a28..6ad3c13 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -292,7 +292,7 @@ class GLMGridder(FlashGridder):
         if self.proj_name=='latlong':
             density_units = "grid"
         elif self.proj_name == 'geos':
-            density_units = 'nominal {0:7d} microradian^2'.format(int(dx*dy*1e12))
+            density_units = 'nominal {0:7d} microradian^2'.format(int(round(dx*dy*1e12)))
         else:
             density_units = "{0:5.1f} km^2".format(dx*spatial_scale_factor * dy*spatial_scale_factor).lstrip()
         time_units = "{0:5.1f} min".format(self.frame_interval/60.0).lstrip()
-- 
2.43.0


From 027a5ae49bc364323455f8ef3ba1ab85315585d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:57 +0000
Subject: [PATCH 34/37] fix: draw map panels with current cartopy and
 matplotlib

GeoAxes no longer have background_patch and outline_patch, and groups of
shared axes can no longer be joined, so plotting any image raised.
---
 glmtools/plot/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index b2cf746..e6bab4d 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -24,9 +24,9 @@ panel_labels=['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']
 def set_shared_geoaxes(fig):
     mapax =[axi for axi in fig.axes if
             type(axi)==cartopy.mpl.geoaxes.GeoAxesSubplot]
-    # for axi in fig.mapax[1:]:
-    mapax[0].get_shared_x_axes().join(*mapax)
-    mapax[0].get_shared_y_axes().join(*mapax)
+    for axi in mapax[1:]:
+        axi.sharex(mapax[0])
+        axi.sharey(mapax[0])
     return mapax
 
 
@@ -60,7 +60,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         max_format = display_params[f]['format_string']
 
         ax = fig.add_subplot(subplots[0], subplots[1], fi+1, projection=proj)
-        ax.background_patch.set_facecolor(axes_facecolor)
+        ax.patch.set_facecolor(axes_facecolor)
 #         ax.set_aspect('auto', adjustable=None)
 
         ax.coastlines('10m', color=map_color)
@@ -126,7 +126,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         cbar = plt.colorbar(glm_img, orientation='horizontal', cax=cbar_ax, #aspect=50,
                     format=LogFormatter(base=2), ticks=LogLocator(base=2))
         cbar.outline.set_edgecolor(axes_facecolor)
-        ax.outline_patch.set_edgecolor(axes_facecolor)
+        ax.spines['geo'].set_edgecolor(axes_facecolor)
         cbar.ax.tick_params(direction='in', color=axes_facecolor, which='both',
                             pad=-14, labelsize=10, labelcolor=axes_facecolor)
         cbar_obj.append(cbar)
-- 
2.43.0


From 5638eec6731925347ba300679c719ae794bd3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:57 +0000
Subject: [PATCH 35/37] fix: use the sweep axis of the images in map panels

The default sweep axis of the map projection is not that of the GOES fixed
grid, so that boundaries were off by kilometers away from the equator.
---
 glmtools/plot/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index e6bab4d..f067b69 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -49,7 +49,8 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
                                                     scale='50m', facecolor='none')
     globe = ccrs.Globe(semimajor_axis=proj_var.semi_major_axis, semiminor_axis=proj_var.semi_minor_axis)
     proj = ccrs.Geostationary(central_longitude=proj_var.longitude_of_projection_origin,
-                              satellite_height=proj_var.perspective_point_height, globe=globe)
+                              satellite_height=proj_var.perspective_point_height, globe=globe,
+                              sweep_axis=proj_var.sweep_angle_axis)
     cbars=[]
 
     for fi, f in enumerate(fields):
-- 
2.43.0


From 02446da7262290b460c440d06e4f46c811eb82f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:51 +0000
Subject: [PATCH 36/37] fix: keep group and event ids above 2**31 in the point
 tables

The ids of groups and events in GLM files are unsigned 32 bit counts. The
tables held them as signed numbers, so the upper half came out negative.
---
 glmtools/io/mimic_lma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 64be35d..1c537b7 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -606,7 +606,7 @@ def sec_since_basedate(t64, basedate):
 
 
 # These are adapted from the dtypes in the LMA HDF5 data files
-event_dtype=[('flash_id', '<i4'),
+event_dtype=[('flash_id', '<u4'),
              ('alt', '<f4'),
              ('lat', '<f4'), ('lon', '<f4'), ('time', '<f8'),
              ('mesh_frac', '<f8'),
@@ -619,11 +619,11 @@ flash_dtype=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('init_lat', '<f4'), ('init_lon', '<f4'),
              ('init_alt', '<f4'),# ('init_pts', 'S256'),
-             ('flash_id', '<i4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
 flash_dtype_fixedgridlut=[('area', '<f4'),  ('total_energy', '<f4'),
              ('start', '<f8'), ('duration', '<f4'),
              ('ctr_x', '<f4'), ('ctr_y', '<f4'), ('ctr_z', '<f4'),
-             ('flash_id', '<i4'),  ('n_points', '<i2'),  ]
+             ('flash_id', '<u4'),  ('n_points', '<i2'),  ]
 
 def _fake_lma_from_glm_flashes(flash_data, basedate,
         split_events=None, split_groups=None, split_flashes=None):
-- 
2.43.0


From 2c94dcd0a6197c04515a8338fd0257876a1a9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:57:11 +0000
Subject: [PATCH 37/37] fix: store image values beyond the largest code as the
 largest one

Scaled fields wrapped around to small values or went missing where a value
exceeded the two byte range of the encoding.
---
 glmtools/io/imagery.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index f043188..1606b86 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -350,6 +350,12 @@ def glm_image_to_var(data, name, long_name, units, dims, fill=0.0,
             tiny = (data > 0.0) & (data <= min_allowed)
             data = data.copy()
             data[tiny] = min_allowed
+            if np.dtype(orig_dtype).kind in 'iu':
+                # Values beyond the largest code would wrap around to small ones
+                max_allowed = np.iinfo(orig_dtype).max*scale_factor
+                if add_offset is not None:
+                    max_allowed += add_offset
+                data[data > max_allowed] = max_allowed
         if add_offset is not None:
             enc['add_offset'] = add_offset
     meta['standard_name'] = name
-- 
2.43.0

