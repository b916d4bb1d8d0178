From 03ae3da5d01eadc767a0016f86e8503ebdec8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 01/18] fix: fit_ellipse returned a NaN angle for a perfect
 circle

---
 trackeddy/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 70eb80b..73dcbf0 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -226,7 +226,8 @@ def fit_ellipse(x, y):
 
     a, b, c, d, e = x2
 
-    if b == 0 and a < c:
+    if b == 0 and a <= c:
+        # A circle (a == c) has no preferred orientation.
         anglexaxis_rad = 0
     elif b == 0 and c < a:
         anglexaxis_rad = np.pi / 2
-- 
2.43.0


From 7090a226bc36222d92c2aeb2b9c59a3be552598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 02/18] fix: frdist raised RecursionError when one of the
 curves was long

---
 trackeddy/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 73dcbf0..7323c71 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -410,7 +410,11 @@ def frdist(P, Q):
 
     ca = np.ones((len_p, len_q), dtype=np.float64) * -1
 
-    dist = _c(ca, len_p - 1, len_q - 1, p, q)
+    # Fill the table row by row, so each call to _c finds its neighbours
+    # already computed and the recursion depth does not grow with the curves.
+    for i in range(len_p):
+        for j in range(len_q):
+            dist = _c(ca, i, j, p, q)
 
     return dist
 
-- 
2.43.0


From 31e7222a04bcff4c25949a78db1c823bdbbf5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 03/18] fix: contours that do not determine an ellipse aborted
 the detection

---
 trackeddy/trackeddy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7d1c455..62993ea 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -304,9 +304,14 @@ class TrackEddy:
                 continue
 
             # TODO clean the fit_ellipse function and input only eddy.contour
-            eddy.ellipse, eddy.ellipse_params = fit_ellipse(
-                eddy.contour[:, 0], eddy.contour[:, 1]
-            )
+            try:
+                eddy.ellipse, eddy.ellipse_params = fit_ellipse(
+                    eddy.contour[:, 0], eddy.contour[:, 1]
+                )
+            except np.linalg.LinAlgError:
+                # The points of the contour do not determine an ellipse.
+                discarded = eddy.discarded("ellipse_area")
+                continue
 
             # Check if area is similar between fitted ellipse and contour
             # Discarding by area first improves the time.
-- 
2.43.0


From b6fe878a93b68cde25ffffb190d8c18fb3606f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 04/18] fix: time_tracking without tf ignored t0 and aborted
 while printing the progress

---
 trackeddy/trackeddy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 62993ea..098448a 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,9 +183,8 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if not tf:
-            times = range(0, len(self.Dataset[self.coords["time"]]))
-        else:
-            times = range(t0, tf)
+            tf = len(self.Dataset[self.coords["time"]])
+        times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
 
-- 
2.43.0


From 0b3481eb52ee4a1320f9fd2859004fc6e87c1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 05/18] fix: the first snapshot was never stored when
 online_track=False

---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 098448a..7f45e5f 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -202,6 +202,10 @@ class TrackEddy:
                     .set_index(["identifier", "time", "index"])
                     .sort_index(level=["identifier", "time", "index"])
                 )
+                if not online_track:
+                    store_snapshot(
+                        track_in_time, self.out_path, time, format=self.out_format
+                    )
                 continue
 
             # Reindex to avoid loosing indexes, it's important for the
-- 
2.43.0


From b6a29609826176ea7ba49bf631d512f371a4d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 06/18] fix: linking failed after a snapshot without eddies,
 linked finished tracks and ignored ntimes

---
 trackeddy/utils.py | 92 ++++++++++++----------------------------------
 1 file changed, 23 insertions(+), 69 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f26a7f5..fb34fc1 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -112,6 +112,9 @@ def _detect_nearest(p_eddy, n_eddy):
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
     nearest, _ = np.where(distance_between_nearest < 0)
+    # Return the identifier of the nearest previous eddy, since its position in
+    # the table is a different number when some identifiers are missing.
+    index = eddy_info_p_level.index.get_level_values("identifier").values[index]
     return index, nearest
 
 
@@ -154,75 +157,22 @@ def _mask_data_in_contour(coord_ind_contour, data_near_contour, level, mask="con
     return data_inside_contour, eddy_sign, eddy_maxima_loc, inside_contour
 
 
-def _get_non_duplicated_identifiers(merged_identifiers):
-    values, counts = np.unique(merged_identifiers, return_counts=True)
-
-    duplicated = []
-    for count in range(0, len(counts)):
-        if counts[count] >= 2:
-            duplicated.append(count)
-
-    values = np.delete(values, duplicated)
-    return values
-
-
 def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
     # Move to decorator
-    if time < ntimes:
-        ntimes = time
-    # Extract identifier of eddies identified as the last imput in the table.
-    last_identified_eddies = previous_time.xs(time, level="time").index.levels[0]
-
-    # Loop and arrays to contain extracted identifier of eddies identified
-    # in the last ntimes in the table.
-    unlinked_tracks_in_time = last_identified_eddies
-    unlinked_times = np.ones_like(last_identified_eddies) * time
-    # Loop back in time to check if missing a eddy track
-    for prev_time in np.arange(time - ntimes, time):
-        # Extracted identifier of eddies identified in the last time-ntimes
-        # in the table.
-        previous_identified_eddies = previous_time.xs(
-            prev_time, level="time"
-        ).index.levels[0]
-
-        merged_identifiers = np.hstack(
-            (last_identified_eddies, previous_identified_eddies)
-        )
-
-        values = _get_non_duplicated_identifiers(merged_identifiers)
+    # Table with the time as a column, instead of a level of the index.
+    records = previous_time.reset_index("time")
 
-        unlinked_tracks_in_time = np.hstack((unlinked_tracks_in_time, values))
-        unlinked_times = np.hstack((unlinked_times, np.ones_like(values) * prev_time))
+    # Time when each of the eddies was identified for the last time.
+    last_time = records.groupby("identifier")["time"].transform("max")
 
-    # Perhaps not the cleanest code, but it ensures that only the last time
-    # for all the detected eddies is the output.
-    unlinked_tracks_in_time = np.unique(unlinked_tracks_in_time)
-
-    times = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .reset_index()
-        .groupby("identifier")
-        .max("time")["time"]
-        .values
-    )
-
-    eddies_to_track = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .groupby(["identifier", "index"])
-        .last("time")
-    )
-
-    eddies_to_track["time"] = [times[index] for index, n in eddies_to_track.index]
-
-    eddies_to_track = eddies_to_track.reset_index().set_index(
-        ["identifier", "time", "index"]
-    )
-
-    previous_time = eddies_to_track.reindex(
-        previous_time.index.levels[0], level=0, fill_value=0
-    )
+    # Only the last record of the eddies identified at the last time (time) or
+    # during the ntimes before are candidates to be linked. The other tracks
+    # are finished.
+    eddies_to_track = records[
+        (records["time"] == last_time) & (last_time >= time - ntimes)
+    ]
 
-    return eddies_to_track
+    return eddies_to_track.reset_index().set_index(["identifier", "time", "index"])
 
 
 def track_online(track_in_time, current_time, time, ntimes):
@@ -232,12 +182,16 @@ def track_online(track_in_time, current_time, time, ntimes):
         track_in_time, time - 1, ntimes=ntimes
     )
 
-    # Detect nearest eddies.
-    index, nearest = _detect_nearest(previous_time, current_time)
+    # Detect nearest eddies. If all the tracks are finished, then all the
+    # eddies are new.
+    if previous_time.empty:
+        index, nearest = [], []
+    else:
+        index, nearest = _detect_nearest(previous_time, current_time)
 
-    # Update counter of current time to avoid overlap with the
-    # previous time
-    current_time, prev_count = _update_counter(previous_time, current_time)
+    # Update counter of current time to avoid overlap with any of the
+    # identifiers in the table, including those of finished tracks.
+    current_time, prev_count = _update_counter(track_in_time, current_time)
 
     # Rename identifier of  nearest eddies to match the previous
     # table identifier
-- 
2.43.0


From 2ee46727cba6489719d0cb1cb6e866edfa36e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 07/18] fix: two eddies of a snapshot could be given the same
 identifier

---
 trackeddy/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index fb34fc1..da040db 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -111,7 +111,16 @@ def _detect_nearest(p_eddy, n_eddy):
     distance_between_nearest = (distance * 6371) - np.expand_dims(eddy_radius_n, 1)
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
-    nearest, _ = np.where(distance_between_nearest < 0)
+    within_radius = distance_between_nearest < 0
+    # A previous eddy can only be one of the new eddies, thus discard those that
+    # are further (or as far, but later in the table) from their nearest previous
+    # eddy than another new eddy within its radius from the same previous eddy.
+    position = np.expand_dims(np.arange(len(distance)), 1)
+    closer = (distance.T < distance) | (
+        (distance.T == distance) & (position.T < position)
+    )
+    claimed = ((index == index.T) & closer & within_radius.T).any(axis=1)
+    nearest = np.where(within_radius[:, 0] & ~claimed)[0]
     # Return the identifier of the nearest previous eddy, since its position in
     # the table is a different number when some identifiers are missing.
     index = eddy_info_p_level.index.get_level_values("identifier").values[index]
-- 
2.43.0


From ffa529d87649aa06fa7f7d3b15400869b7c7b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 08/18] fix: the nan treatment was ignored when the data is
 filtered

---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index b5953c9..6f7c67f 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -61,7 +61,7 @@ def filter_data(func):
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
         elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
-            self.data2track = func(self, *args, kwargs.get("filter"))
+            self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
 
-- 
2.43.0


From 420f30197f9d531c0bf29d1c42b2fea1591a8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 09/18] fix: discarded eddies leaked to the next level when no
 eddy was identified

---
 trackeddy/decorators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index 6f7c67f..9b8ca19 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -74,8 +74,11 @@ def check_return_eddies(func):
 
         eddy_info, discarded, eddy = func(self, *args, **kwargs)
 
-        if isinstance(eddy_info, pd.DataFrame):
+        # Reset the identifiers and tables, even if all the eddies were discarded.
+        if eddy is not None:
             eddy.exit()
+
+        if isinstance(eddy_info, pd.DataFrame):
             eddy_info = eddy_info.set_index(["identifier", "index"])
         else:
             eddy_info = pd.DataFrame({"": []})
-- 
2.43.0


From 9761091f95339389e0f804424934dca7af9925f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 10/18] fix: fields stored with the dimensions ordered as (x,
 y) were tracked transposed

---
 trackeddy/trackeddy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7f45e5f..7007345 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -88,8 +88,9 @@ class TrackEddy:
             len(self.Dataset[x_coord_name].shape) == 2
             and len(self.Dataset[y_coord_name].shape) == 2
         ):
-            self.X = self.Dataset[x_coord_name].values
-            self.Y = self.Dataset[y_coord_name].values
+            dims = (self.coords["y"], self.coords["x"])
+            self.X = self.Dataset[x_coord_name].transpose(*dims).values
+            self.Y = self.Dataset[y_coord_name].transpose(*dims).values
 
         else:
             raise ValueError(
@@ -236,6 +237,11 @@ class TrackEddy:
         else:
             data_snapshot = self.rawdata.squeeze()
 
+        # Same order of dimensions as the coordinates X and Y.
+        data_snapshot = data_snapshot.transpose(
+            ..., self.coords["y"], self.coords["x"], missing_dims="ignore"
+        )
+
         self._filter_data_(data_snapshot, filter=self.filter)
 
         joint_eddies = pd.DataFrame({"": []})
-- 
2.43.0


From ffb71596782284bc2322f676a852419ebe1e6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 11/18] fix: variables such as lon_bnds and lat_bnds were used
 as coordinates

---
 trackeddy/trackeddy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7007345..508cac1 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -106,8 +106,15 @@ class TrackEddy:
         self.coords = {"time": "", "x": "", "y": ""}
         for dim_name in self.rawdata.dims:
             self._get_dims(dim_name)
+        horizontal_dims = {self.coords["x"], self.coords["y"]}
         for var_name in self.Dataset.keys():
-            self._get_vars(var_name)
+            # Coordinates only depend on the horizontal dimensions, other
+            # variables (i.e. lon_bnds) could contain lon or lat in their name.
+            if (
+                var_name != self.rawdata.name
+                and set(self.Dataset[var_name].dims) <= horizontal_dims
+            ):
+                self._get_vars(var_name)
 
     def _get_dims(self, dim_name):
         if "time" in dim_name or dim_name == "t":
-- 
2.43.0


From 4349d6b931171186611ed88983af3f3f1c08a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 12/18] fix: assemble_field scrambled the fields when len(x) !=
 len(y)

---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 9e6acb2..f952229 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -176,7 +176,7 @@ class Generate_field:
         return indexs[0] + movcood[0], indexs[1] + movcood[1]
 
     def assemble_field(self, N, margin=50):
-        data = np.zeros((N, self.xlen + 2 * margin, self.ylen + 2 * margin))
+        data = np.zeros((N, self.ylen + 2 * margin, self.xlen + 2 * margin))
         for t in range(N):
             # pdb.set_trace()
             if self.opt == "no_interaction" or self.opt == "Nint":
-- 
2.43.0


From 30f7b411952d49b92450a172ad6aed04dd6ab3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 13/18] fix: reconstruct_field always failed

---
 trackeddy/generator/field_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index f952229..4405c80 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -194,10 +194,10 @@ class Generate_field:
         return data
 
     def reconstruct_field(self):
-        data = np.zeros((self.xlen, self.ylen))
+        data = np.zeros((self.ylen, self.xlen))
         for keys, item in self.eddies.items():
             gauss = self.twoD_Gaussian(
-                self.pass_args(keys),
+                self.pass_args(keys, margin=0),
                 item["radius"][0],
                 item["radius"][1],
                 item["angle"],
-- 
2.43.0


From 6a763a4e91400658e8b6f63bc349b9720900df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 14/18] fix: the region used to locate large eddies did not
 include all their contour

---
 trackeddy/trackeddy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 508cac1..7b91871 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -422,9 +422,13 @@ class TrackEddy:
         # To speed up the process of finding the nearest point,
         # we mask values near the point that are close by 5% of its value,
         # with a largest cap of 3 degrees if coordinates are geographical.
-        # The atol fixes the issue in x or y coordinates close to 0.
-        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=3)
-        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=3)
+        # The atol fixes the issue in x or y coordinates close to 0, and it's
+        # large enough to include all the grid points next to the contour.
+        x_width, y_width = np.ptp(eddy.contour, axis=0)
+        x_atol = max(3, x_width + np.max(np.abs(np.diff(self.X, axis=1))))
+        y_atol = max(3, y_width + np.max(np.abs(np.diff(self.Y, axis=0))))
+        Xmask = np.isclose(self.X, pt[0][0], rtol=0.05, atol=x_atol)
+        Ymask = np.isclose(self.Y, pt[0][1], rtol=0.05, atol=y_atol)
 
         # This step finds some rough coordinates to crop the domain so
         # the BallTree search is quicker.
-- 
2.43.0


From ca8ac389b49009cfcd40142ce0a213dd15b5c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 15/18] fix: the nodes of contours on curvilinear grids were
 not those nearest to them

---
 trackeddy/trackeddy.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7b91871..3710e28 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -432,14 +432,9 @@ class TrackEddy:
 
         # This step finds some rough coordinates to crop the domain so
         # the BallTree search is quicker.
-        sum_x = np.sum(Xmask * Ymask, 0)
-        sim_y = np.sum(Xmask * Ymask, 1)
-        # Corners of the box
-        shift_x = np.argmax(sum_x)
-        shift_y = np.argmax(sim_y)
-
-        # Extract last item, since it will always be different than 0.
-        mask_shape = np.unique(sum_x)[-1], np.unique(sim_y)[-1]
+        # On curvilinear grids these points are not a rectangle of the grid,
+        # so keep the indexes of each of them.
+        near_ind = np.argwhere(Xmask * Ymask)
 
         x = self.X[Xmask * Ymask]
         y = self.Y[Xmask * Ymask]
@@ -458,11 +453,8 @@ class TrackEddy:
         ball_tree = BallTree(coords)
         dist, ind = ball_tree.query(eddy.contour, k=1)
 
-        # Extract coordinates from the mask shape
-        coord_slice = np.hstack(np.unravel_index(ind, mask_shape)).squeeze()
-
-        # Shift back to the original coordinates
-        coord_ind = coord_slice + [shift_y, shift_x]
+        # Convert back to the indexes of the grid
+        coord_ind = near_ind[ind[:, 0]]
 
         (
             eddy.data_near_contour,
-- 
2.43.0


From 5045b92ecf76ded81c8a3b2686023ea8208c74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/18] fix: variables such as dlon(lon) and dlat(lat) replaced
 the coordinates of the dimensions

---
 trackeddy/trackeddy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 3710e28..ad0e839 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -107,6 +107,12 @@ class TrackEddy:
         for dim_name in self.rawdata.dims:
             self._get_dims(dim_name)
         horizontal_dims = {self.coords["x"], self.coords["y"]}
+        # Longitudes and latitudes along the dimensions are the coordinates,
+        # even if there are other variables with lon or lat in their name.
+        if not horizontal_dims & {"", "x", "y"} and all(
+            dim in self.Dataset.coords for dim in horizontal_dims
+        ):
+            return
         for var_name in self.Dataset.keys():
             # Coordinates only depend on the horizontal dimensions, other
             # variables (i.e. lon_bnds) could contain lon or lat in their name.
-- 
2.43.0


From 551f2bd7b9f33f19cb7cf2b074fe5b754c9acefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 17/18] fix: longitudes and latitudes stored as coordinates of
 the dataset were ignored

---
 trackeddy/trackeddy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index ad0e839..09da714 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -113,12 +113,13 @@ class TrackEddy:
             dim in self.Dataset.coords for dim in horizontal_dims
         ):
             return
-        for var_name in self.Dataset.keys():
+        for var_name in [*self.Dataset.keys(), *self.Dataset.coords]:
             # Coordinates only depend on the horizontal dimensions, other
             # variables (i.e. lon_bnds) could contain lon or lat in their name.
             if (
                 var_name != self.rawdata.name
-                and set(self.Dataset[var_name].dims) <= horizontal_dims
+                and var_name not in self.rawdata.dims
+                and set() < set(self.Dataset[var_name].dims) <= horizontal_dims
             ):
                 self._get_vars(var_name)
 
-- 
2.43.0


From f549b7b408ae00deec9b793326e771b7ffb72aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 18/18] fix: name the group of the table written by
 store_snapshot to HDF files

pandas.DataFrame.to_hdf requires the argument key, so that storing the
snapshots with the format "hd5" always raised a TypeError.
---
 trackeddy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index da040db..2742456 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -229,4 +229,6 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
         case "json":
             track_in_time.to_json(out_path, **kwargs)
         case "hd5":
+            # pandas requires the name of the group of the table.
+            kwargs.setdefault("key", "identified_eddies")
             track_in_time.to_hdf(out_path, **kwargs)
-- 
2.43.0

