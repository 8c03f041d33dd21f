From eac6b06dab6f2fc10dcf6cf39b2e1f92f998ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:56 +0000
Subject: [PATCH 01/25] fix: convert product time components to int when
 inferring the ellipsoid

Recent xarray returns zero-dimensional arrays from the .dt accessors, and
datetime() rejects them with a TypeError. Opening any file with the default
ellipsoid revision failed.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..ce1988b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -552,8 +552,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From 144543d4de2d10aa8033fd2ef88c7bb8739b1db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:49 +0000
Subject: [PATCH 02/25] fix: drop groups whose flash is missing when pruning
 the tree

The list of good flashes was taken from the parent IDs of the groups.
It therefore named flashes that are not in the file, and the orphaned
groups and events of those flashes stayed in the dataset. Use the flash
IDs that are present instead.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ce1988b..805ae09 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -213,7 +213,7 @@ class GLMDataset(OneToManyTraversal):
                 log.warning('Fixing inconsistent parent-child IDs '
                             'in file {0}'.format(filename))
                 flashes_with_no_groups = entity_var_stats['flash_id'][2]
-                unq_fl_id = set(list(dataset.group_parent_flash_id.data))
+                unq_fl_id = set(list(dataset.flash_id.data))
                 good_fl_id = list(unq_fl_id - flashes_with_no_groups)
                 ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
                 dataset = ds_fixed
-- 
2.43.0


From 4c8620efc39dfefa9dce3bcf3f545245de588fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:09 +0000
Subject: [PATCH 03/25] fix: open and query files that have no records at some
 level

Grouping by ID is not possible along an empty dimension, so the grouping
is None there. The tree check, the child counts and the reduction to
entities used it without looking and raised an AttributeError. Counts also
had the wrong length when only the events were missing.
---
 glmtools/io/glm.py       | 39 +++++++++++++++++----------------------
 glmtools/io/traversal.py | 23 ++++++++++++++---------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 805ae09..1048720 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -265,34 +265,29 @@ class GLMDataset(OneToManyTraversal):
         else:
             no_data = False
 
-        if no_data:
-            # At least one of the dimensiosn of the dataset is empty, so the
-            # the traversal of the flash/group/event hierarchy cannot take
-            #place. xarray's groupby raises a ValueError on empty DataArrays,
-            # and groupby is used in the traversal.
-            flash_ids = []
-        else:
-            flash_ids = self.replicate_parent_ids('flash_id',
-                                                  'event_parent_group_id'
-                                                  )
+        flash_ids = self.replicate_parent_ids('flash_id',
+                                              'event_parent_group_id'
+                                              )
         event_parent_flash_id = xr.DataArray(flash_ids, dims=[self.ev_dim,])
         self.dataset['event_parent_flash_id'] = event_parent_flash_id
 
+        all_counts = self.count_children('flash_id', 'event_id')
+        flash_child_count = all_counts[0]
+        group_child_count = all_counts[1]
+        # we can use event_parent_flash_id to get the flash_child_event_count
+        # need a new groupby on event_parent_flash_id
+        # then count number of flash_ids that match in the groupby
+        # probably would be a good idea to add this to the traversal class
         if no_data:
-            flash_child_count = []
-            group_child_count = []
-            count = []
+            # At least one of the dimensions of the dataset is empty, so there
+            # are no events to count. xarray's groupby raises a ValueError on
+            # empty DataArrays.
+            grouper = {}
         else:
-            all_counts = self.count_children('flash_id', 'event_id')
-            flash_child_count = all_counts[0]
-            group_child_count = all_counts[1]
-            # we can use event_parent_flash_id to get the flash_child_event_count
-            # need a new groupby on event_parent_flash_id
-            # then count number of flash_ids that match in the groupby
-            # probably would be a good idea to add this to the traversal class
             grouper = self.dataset.groupby('event_parent_flash_id').groups
-            count = [len(grouper[eid]) if (eid in grouper) else 0
-                     for eid in self.dataset['flash_id'].data]
+        count = np.asarray([len(grouper[eid]) if (eid in grouper) else 0
+                            for eid in self.dataset['flash_id'].data],
+                           dtype=int)
 
         flash_child_group_count = xr.DataArray(flash_child_count,
                                                dims=[self.fl_dim,])
diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..8bd9773 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -1,6 +1,11 @@
 import collections, itertools
 import numpy as np
 
+def _groups(grouper):
+    """ Indices by ID for a groupby, which is None along an empty dimension. """
+    return {} if grouper is None else grouper.groups
+
+
 class OneToManyTraversal(object):
     def __init__(self, dataset, entity_id_vars, parent_id_vars):
         """
@@ -124,11 +129,11 @@ class OneToManyTraversal(object):
         all_counts = []
         for e_var, p_var in self._descend():
             if count_next == True:
-                grouper = self.parent_groups[p_var].groups
+                grouper = _groups(self.parent_groups[p_var])
                 count = [len(grouper[eid]) if (eid in grouper) else 0
                          for eid in last_entity_ids]
                 last_entity_ids = self.dataset[e_var].data
-                all_counts.append(np.asarray(count))
+                all_counts.append(np.asarray(count, dtype=int))
             if (child_entity_id_var == None) | (e_var == child_entity_id_var):
                 count_next = False
             if e_var == entity_id_var:
@@ -176,8 +181,8 @@ class OneToManyTraversal(object):
                 collect = False
             if collect == True:
                 # get the parent_id_var one level down
-                grouper = self.entity_groups[e_var]
-                e_idx = [grouper.groups[eid] for eid in last_replicated_p_ids]
+                groups = _groups(self.entity_groups[e_var])
+                e_idx = [groups[eid] for eid in last_replicated_p_ids]
                 e_idx_flat = np.asarray(e_idx).flatten()
 
                 # Need to index the whole dataset because the group_by indexes
@@ -213,7 +218,7 @@ class OneToManyTraversal(object):
         prune = False
         for e_var, p_var in self._descend():
             if prune == True:
-                p_group = self.parent_groups[p_var].groups
+                p_group = _groups(self.parent_groups[p_var])
                 e_iter = (p_group[eid] for eid in last_entity_ids
                           if eid in p_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -233,7 +238,7 @@ class OneToManyTraversal(object):
                 # the need to index along two dimensions at once the first time
                 # through.
                 prune = True
-                e_group = self.entity_groups[e_var].groups
+                e_group = _groups(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -257,7 +262,7 @@ class OneToManyTraversal(object):
         # child at the level of entity_id_var
         for e_var, p_var in self._ascend():
             if (prune == True):
-                e_group = self.entity_groups[e_var].groups
+                e_group = _groups(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in last_entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -332,11 +337,11 @@ class OneToManyTraversal(object):
             # e.g., group_parent_flash_id
             # Check the entity ID variable and its corresponding parent data for the same set of IDs
             parent_grouper = trav.parent_groups[parent_var]
-            parent_ids = set(parent_grouper.groups.keys())
+            parent_ids = set(_groups(parent_grouper).keys())
 
             # e.g., flash_id
             parent_entity_grouper = trav.entity_groups[id_entity_for_parent_var]
-            parent_entity_ids = set(parent_entity_grouper.groups.keys())
+            parent_entity_ids = set(_groups(parent_entity_grouper).keys())
 
             # Ensure no replication of IDs at the parent level. There should
             # only be on entity ID for each entity.
-- 
2.43.0


From a3d6407083bdcb29574d2f29f30c363137d66554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:09 +0000
Subject: [PATCH 04/25] fix: allow subsetting flashes without the check of
 event positions

With check_event_xy=False the set of flashes with good events was never
made, and using it raised an UnboundLocalError.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 1048720..b83f3b0 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -523,7 +523,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From 40655d51cb385196a86c8a2790cc646b1b8a8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:32 +0000
Subject: [PATCH 05/25] fix: repair the unsigned times of autumn 2018 before
 pruning the tree

The corrected times are read again from the file and have one value per
record there. Once inconsistent records were pruned the sizes no longer
matched and opening the file failed. In-memory datasets have no file to read
again and failed as well; their times are now used as they are.
---
 glmtools/io/glm.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index b83f3b0..ac846ed 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -194,6 +194,11 @@ class GLMDataset(OneToManyTraversal):
                              self.entity_ids, self.parent_ids)
         else:
             dataset = xr.open_dataset(filename)
+            if fix_bad_DO07_times:
+                # Has to come before any pruning: the corrected times are read
+                # from the file, one for each record there.
+                dataset = self._check_and_fix_missing_unsigned_time(
+                                filename, dataset)
 
         if check_tree:
             tree_problems = False
@@ -238,8 +243,6 @@ class GLMDataset(OneToManyTraversal):
         else:
             self.dataset = dataset
 
-        if fix_bad_DO07_times:
-            did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_area_units:
             # Check for missing areas (from overflow of the max value
             # allowed by the scale_factor) before ensuring units are always km^2
@@ -417,13 +420,13 @@ class GLMDataset(OneToManyTraversal):
         #     log.debug("{0}".format(self.get_flashes([bad_id])))
         return np.unique(flash_ids)
 
-    def _check_and_fix_missing_unsigned_time(self, filename):
+    def _check_and_fix_missing_unsigned_time(self, filename, dataset):
         """ Check for the missing _Unsigned attribute on files created as part of the
         D0.07 build of the operational environment. Correct if present. The problem
         was only present for less than a month, and this function does nothing if
         the data file is outside that time range.
 
-        Modifies self.dataset to have the correct times.
+        Returns dataset with the correct times.
         """
         vars_to_correct = ['event_time_offset','group_time_offset',
                            'group_frame_time_offset',
@@ -434,7 +437,7 @@ class GLMDataset(OneToManyTraversal):
 
         start_g16_problem_date = np.datetime64('2018-10-15T00:00:00')
         end_g16_problem_date = np.datetime64('2018-11-06T00:00:00')
-        prod_tmin, prod_tmax = self.dataset.product_time_bounds.data
+        prod_tmin, prod_tmax = dataset.product_time_bounds.data
         in_time = (prod_tmin >= start_g16_problem_date) & (prod_tmax <= end_g16_problem_date)
         # The date range is approximate, and corresponds to when D0.07 first was
         # in production in the OE, and before the _Unsigned attribute was added to
@@ -442,7 +445,7 @@ class GLMDataset(OneToManyTraversal):
         # the group_frame_time_offset was also added to D0.07, so we look for that attribute
         # within the date range. Later, adding the attribute to a file that already has it
         # is no problem, so we don't worry about the last time on Nov 6 when the fix is needed.
-        if (in_time & hasattr(self.dataset,'group_frame_time_offset')):
+        if (in_time & hasattr(dataset,'group_frame_time_offset')):
             unmod = xr.open_dataset(filename, mask_and_scale=False, decode_cf=False)
             time_dataset = xr.Dataset()
             for var in vars_to_correct:
@@ -455,11 +458,9 @@ class GLMDataset(OneToManyTraversal):
 
             # Copy corrected time variables over to the new dataset
             for var in vars_to_correct:
-                self.dataset[var] = decoded[var]
+                dataset[var] = decoded[var]
             unmod.close()
-            return True
-        else:
-            return False
+        return dataset
 
     @property
     def fov_bounds(self):
-- 
2.43.0


From a72adf182e828665f1a5ba7f3ec217218e05f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:32 +0000
Subject: [PATCH 06/25] fix: do not change an in-memory dataset that is opened

Areas and energies were converted in the dataset passed in by the caller.
Opening it a second time then failed because the energy was no longer in J.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac846ed..a165b82 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -189,7 +189,8 @@ class GLMDataset(OneToManyTraversal):
         self.parent_ids = ['group_parent_flash_id', 'event_parent_group_id']
 
         if isinstance(filename, xr.Dataset):
-            dataset = filename
+            # Units and bad values are changed below; leave the original alone.
+            dataset = filename.copy(deep=True)
             super().__init__(dataset,
                              self.entity_ids, self.parent_ids)
         else:
-- 
2.43.0


From cc05347675154161daaf3a2c142e45fcb107a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:16 +0000
Subject: [PATCH 07/25] fix: leave the accumulated grids unchanged when writing
 imagery

Average areas were divided by the extent density in place, and tiny values
were rounded up in place. A second write of the same gridder divided again.
The rounded extent density was also used as the divisor, so average areas
came out too small wherever the extent density was below one storage step.
---
 glmtools/io/imagery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..59b0e95 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -531,7 +531,9 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            # Copy, because the grid is divided and rounded up below, and the
+            # accumulated totals are still needed (and might be written again).
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From 095938b321cc7987c8228648eea7d3af5bf06ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:16 +0000
Subject: [PATCH 08/25] fix: do not remove options from the caller's
 output_kwargs

The first write took pad and scale_and_offset out of the dictionary, so
later writes with the same dictionary fell back to the defaults.
---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..2cd0355 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
-- 
2.43.0


From deda9b666afec2119f3f270bd01c4fe1972f4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:16 +0000
Subject: [PATCH 09/25] fix: create the output directory without a race

Two jobs that write to the same new directory could both find it missing, and
the slower one then failed. A bare file name as output path failed too,
because its directory part is empty.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 59b0e95..bccfdc0 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -522,8 +522,8 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
-            os.makedirs(enclosing_dir)
+        if enclosing_dir != '':
+            os.makedirs(enclosing_dir, exist_ok=True)
 
         # Adding a new variable to the dataset below clears the coord attrs
         # so hold on to them for now.
-- 
2.43.0


From abea855c720c49f268b3a0acb26bef4a3bcae3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:16 +0000
Subject: [PATCH 10/25] fix: put finished imagery files in place in one step

Files were written directly under their final name. A full disk or a killed
process left a file that looks like a product but cannot be read, and replaced
a good earlier one. Write to a temporary name and rename.
---
 glmtools/io/imagery.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index bccfdc0..7be64d4 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -1,4 +1,4 @@
-import os, itertools
+import os, itertools, uuid
 from datetime import datetime, timedelta
 
 import numpy as np
@@ -565,7 +565,16 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         # log.debug(dataset.x.attrs)
 
         log.info("Preparing to write NetCDF {0}".format(outfile))
-        dataset.to_netcdf(outfile)
+        # Write under another name first, so that outfile is never a part of a
+        # file, even if the write fails or the process is killed.
+        tempfile = '{0}.{1}.part'.format(outfile, uuid.uuid4().hex)
+        try:
+            dataset.to_netcdf(tempfile)
+            os.replace(tempfile, outfile)
+        except BaseException:
+            if os.path.exists(tempfile):
+                os.remove(tempfile)
+            raise
         log.info("Wrote NetCDF {0}".format(outfile))
         all_outfiles.append(outfile)
     return all_outfiles
-- 
2.43.0


From d7a510794a5ca613f6133bc2ab41d32c00cae0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:16 +0000
Subject: [PATCH 11/25] fix: use UTC for the creation time of imagery

The creation time is marked with a Z in the metadata and goes into the file
name next to UTC times, but it was the local time of the machine.
---
 glmtools/io/imagery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 7be64d4..ce0e398 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -1,5 +1,5 @@
 import os, itertools, uuid
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import xarray as xr
@@ -253,7 +253,8 @@ def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
 
     Returns: meta, a dictionary of metadata attributes.
     """
-    created = datetime.now()
+    # UTC, since it is labeled so below
+    created = datetime.now(timezone.utc).replace(tzinfo=None)
     modes = {'ABI Mode 3':'M3'}
 
     # For use in the dataset name / filename
-- 
2.43.0


From 55186c03b5f900a07507d9bc53c61237887bc231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:16 +0000
Subject: [PATCH 12/25] fix: store values beyond the range of the packed type
 as the largest value

For example, a total energy above 0.1 nJ wrapped around to a small value.
---
 glmtools/io/imagery.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index ce0e398..bfb0a59 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -350,6 +350,12 @@ def glm_image_to_var(data, name, long_name, units, dims, fill=0.0,
                 min_allowed += add_offset
             tiny = (data > 0.0) & (data <= min_allowed)
             data[tiny] = min_allowed
+            if np.issubdtype(orig_dtype, np.integer):
+                # Likewise, values that are too large would wrap around
+                max_allowed = scale_factor * np.iinfo(orig_dtype).max
+                if add_offset is not None:
+                    max_allowed += add_offset
+                data[data > max_allowed] = max_allowed
         if add_offset is not None:
             enc['add_offset'] = add_offset
     meta['standard_name'] = name
-- 
2.43.0


From 0c7ae3cad1d396ac391d83b0585650a724bdcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:39 +0000
Subject: [PATCH 13/25] fix: write products of a batch of files without any
 events

---
 glmtools/grid/make_grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 2cd0355..3d83b82 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -894,6 +894,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             process_flash_kwargs_ij))
         sys.stdout.flush()
         glm = GLMDataset(filename, ellipse_rev=ellipse_rev)
+        if not saved_first_file_metadata:
+            gridder.first_file_attrs = dict(glm.dataset.attrs)
+            saved_first_file_metadata = True
         # Pre-load the whole dataset, as recommended by the xarray docs.
         # This saves an absurd amount of time (factor of 80ish) in
         # grid.split_events.replicate_and_split_events
@@ -902,9 +905,6 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             # data from an empty dimension.
             glm.dataset.load()
 
-            if not saved_first_file_metadata:
-                gridder.first_file_attrs = dict(glm.dataset.attrs)
-                saved_first_file_metadata = True
             gridder.process_flashes(glm, **process_flash_kwargs_ij)
         else:
             log.info("Skipping {0} - number of events is 0".format(filename))
-- 
2.43.0


From 0ae158c5d0453195cc18795965b58bf12c26341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:39 +0000
Subject: [PATCH 14/25] fix: do not add the padding to the caller's
 output_kwargs

---
 glmtools/grid/make_grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 3d83b82..c1c3247 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -914,10 +914,10 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
 
     preprocess_out = out_kwargs_ij.pop('preprocess_out', None)
     if preprocess_out: # in out_kwargs_ij:
-        if 'output_kwargs' not in out_kwargs_ij:
-            out_kwargs_ij['output_kwargs'] = {}
-        # Used by GLMlutGridder.write_grids, but not the others.
-        out_kwargs_ij['output_kwargs']['pad'] = preprocess_out.get_pad_slices()
+        # Used by GLMlutGridder.write_grids, but not the others. Goes in a copy,
+        # since the dictionary belongs to the caller and is shared by all tiles.
+        out_kwargs_ij['output_kwargs'] = dict(out_kwargs_ij.get('output_kwargs', {}),
+            pad=preprocess_out.get_pad_slices())
 
         output = gridder.write_grids(**out_kwargs_ij)
         
-- 
2.43.0


From 2e1c2a0fece4ac2eb8f23aea0da95b5a1475fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:47 +0000
Subject: [PATCH 15/25] fix: use the group fields for the mean group area of an
 aggregate

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index bfb0a59..ff4a8b5 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -644,7 +644,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-- 
2.43.0


From 77aa8126ac43ad76f30a83d64627f14c2fb003ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:47 +0000
Subject: [PATCH 16/25] fix: count the first frame of an interval in that
 interval when aggregating

---
 glmtools/io/imagery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index ff4a8b5..af640bc 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -647,8 +647,9 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    # A frame belongs to the interval that begins at or before its start time
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From f81892e38490ad9dad17f6afcd79f89659bff2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:07 +0000
Subject: [PATCH 17/25] fix: aggregate without a given span on current pandas

---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index af640bc..b543072 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -619,8 +619,8 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.Timestamp(glm['time'].min().data[()]).to_pydatetime()
+        end = pd.Timestamp(glm['time'].max().data[()]).to_pydatetime() + dt
         # The lines below might be necessary replacements for a future version
         # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
         # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
-- 
2.43.0


From 9f62e77d5973c2c1a4e0c666b73404205c2ccf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:40 +0000
Subject: [PATCH 18/25] fix: convert ASCII files with current xarray

---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From b57d44c77c9923f53f5766238676561abe71c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:55 +0000
Subject: [PATCH 19/25] fix: convert one snapshot of an ASCII file and refuse a
 cut record

---
 glmtools/io/convert_lcfa.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 663ec63..5249ca7 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -10,6 +10,8 @@ License: BSD
 
 """
 
+import io
+
 import pandas as pd
 import xarray as xr
 
@@ -64,12 +66,27 @@ nc_coords = [
 ]
                    
 
+def read_snapshot(filename):
+    """ Read the whole file at once, so that flashes, groups and events are those
+        of the same moment even if the file is still growing. """
+    with open(filename, 'r') as f:
+        text = f.read()
+    if text and not text.endswith('\n'):
+        raise ValueError("{0} ends within a record".format(filename))
+    return io.StringIO(text)
+
+def open_records(source):
+    """ source is a filename or the result of read_snapshot """
+    if isinstance(source, io.StringIO):
+        return io.StringIO(source.getvalue())
+    return open(source, 'r')
+
 def gen_flash_data(filename):
     """
         0   1    2    3       4              5      6                  7       8          9        10              11               12           13
         D Flash #0 Start Time:543398228.069 End Time:543398228.403 Centroid Lat:-4.684 Centroid Lon:-47.148 Energy:1.838e-13 Footprint:715.9 Child_Count:8    
     """
-    with open(filename, 'r') as f:
+    with open_records(filename) as f:
         for line in f:
             if line.startswith("D Flash"):
                 cols = line.split()
@@ -89,7 +106,7 @@ def gen_group_data(filename):
         0   1    2   3    4   5        6              7         8              9      10          11         12         13               14              15          16          
     	D Group #0 Child #0 Start Time:543398228.069 End Time:543398228.069 Centroid Lat:-4.661 Centroid Lon:-47.120 Energy:9.202e-15 Footprint:179.2 Parent_ID:0 Child_Count:2
     """
-    with open(filename, 'r') as f:
+    with open_records(filename) as f:
         for line in f:
             if line.startswith("	D Group"):
                 cols = line.split()
@@ -109,7 +126,7 @@ def gen_event_data(filename):
                0   1  2    3          4                 5          6          7          8           9              10    
     		Event #0 Child #0 Time:543398228.069 X_Pixel:1197 Y_Pixel:748 Lat:-4.698 Lon:-47.116 Energy:4.811e-15 Parent_ID:0
     """
-    with open(filename, 'r') as f:
+    with open_records(filename) as f:
         for line in f:
             if line.startswith("		Event"):
                 cols = line.split()
@@ -130,12 +147,13 @@ def parse_LCFA_ASCII(filename):
     Read ASCII Flash, Group, Event data in filename and return 
     pandas dataframes (flashes, groups, events)
     """
-    # Right now this reads through the data file three times. Could use a coroutine approach to read file once
+    snapshot = read_snapshot(filename)
+    # Right now this reads through the data three times. Could use a coroutine approach to read it once
     # if performance starts to take a hit.
     
-    flashes = pd.DataFrame.from_records(gen_flash_data(filename), columns=flash_col_names)#, index='flash_id')
-    groups = pd.DataFrame.from_records(gen_group_data(filename), columns=group_col_names)#, index='group_id')
-    events = pd.DataFrame.from_records(gen_event_data(filename), columns=event_col_names)#, index='event_id')
+    flashes = pd.DataFrame.from_records(gen_flash_data(snapshot), columns=flash_col_names)#, index='flash_id')
+    groups = pd.DataFrame.from_records(gen_group_data(snapshot), columns=group_col_names)#, index='group_id')
+    events = pd.DataFrame.from_records(gen_event_data(snapshot), columns=event_col_names)#, index='event_id')
 
     # Dimension names used in the NetCDF file
     flashes.index.name = 'number_of_flashes'
-- 
2.43.0


From 6a24e9395ae7baa421c51349586c6abefc2b188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:10 +0000
Subject: [PATCH 20/25] fix: put saved pixel tables in place in one step

A table was written over the old one, so a process loading it at that moment
could get the beginning of the old and the end of the new table.
---
 glmtools/io/ccd.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/glmtools/io/ccd.py b/glmtools/io/ccd.py
index c6a789e..7a286fb 100644
--- a/glmtools/io/ccd.py
+++ b/glmtools/io/ccd.py
@@ -44,7 +44,9 @@ import logging
 log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
 
+import os
 import pickle
+import uuid
 import numpy as np
 from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 
@@ -217,6 +219,21 @@ def create_pixel_lookup(lons, lats, leaf_size=40):
     lookup = KDTree(flat_geo, leaf_size=leaf_size)
     return lookup, Xgood, Ygood
 
+def save_pickle(obj, filename):
+    """
+    Pickle obj to filename. The file appears in one step, so that a reader never
+    sees parts of an old and a new table, or a table that was not finished.
+    """
+    tempfile = '{0}.{1}.part'.format(filename, uuid.uuid4().hex)
+    try:
+        with open(tempfile, 'wb') as f:
+            pickle.dump(obj, f)
+        os.replace(tempfile, filename)
+    except BaseException:
+        if os.path.exists(tempfile):
+            os.remove(tempfile)
+        raise
+
 def save_pixel_corner_lookup(lons, lats, corners, filename=None):
     """
     Save the pixel corner offset data as produced by read_official_corner_lut.
@@ -224,8 +241,7 @@ def save_pixel_corner_lookup(lons, lats, corners, filename=None):
     """
     obj = (lons, lats, corners)
     if filename:
-        with open(filename, 'wb') as f:
-            pickle.dump(obj, f)
+        save_pickle(obj, filename)
     else:
         return pickle.dumps(obj)
 
@@ -251,8 +267,7 @@ def save_pixel_lookup(lookup, X, Y, lons, lats, filename=None):
     """
     obj = (lookup, X, Y, lons, lats)
     if filename:
-        with open(filename, 'wb') as f:
-            pickle.dump(obj, f)
+        save_pickle(obj, filename)
     else:
         return pickle.dumps(obj)
 
-- 
2.43.0


From badff62acd3e73edfa38ee37cc0a7d7a8044125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:33 +0000
Subject: [PATCH 21/25] fix: slice polygons with the part of the mesh in a
 given box

Giving the box as numbers raised an UnboundLocalError.
---
 glmtools/grid/clipping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..5c90ab6 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -562,6 +562,7 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
+        recalc_bbox = False
         if bbox == True:
             recalc_bbox = True
             # else use the bbox that is specified exactly
-- 
2.43.0


From 24a5da3a709fcc5582dfeed4bdf25c6172a7b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:40 +0000
Subject: [PATCH 22/25] fix: make cell areas of a mesh positive for either
 corner order

A mesh whose cells run clockwise gave negative fractions of covered cells.
---
 glmtools/grid/clipping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 5c90ab6..58f356a 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -172,8 +172,8 @@ class QuadMeshSubset(object):
         log.info('    ... {0} quads in mesh ...'.format(nq))
         self.quads_flat = self.quads.view()
         self.quads_flat.shape = (nq, 4, 2) # flatten the first two dimensions
-        self.quad_areas = vectorized_poly_area(self.quads_flat[:, :, 0],
-                                               self.quads_flat[:, :, 1])
+        self.quad_areas = np.abs(vectorized_poly_area(
+            self.quads_flat[:, :, 0], self.quads_flat[:, :, 1]))
         # self.quad_areas = np.abs(np.fromiter(
             # (poly_area(q[:,0], q[:,1]) for q in self.quads_flat),
             # dtype='f8', count=nq))
-- 
2.43.0


From df7606174ac5a2dfbfcf8240777df96417e6a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:25 +0000
Subject: [PATCH 23/25] fix: keep the cells at the mesh edge when slicing on a
 regular mesh

A polygon that touched or crossed the edge of the mesh lost its cells further
than two cells away from its other side. A polygon larger than the mesh lost
all of them.
---
 glmtools/grid/clipping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 58f356a..7e608d7 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -328,13 +328,14 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
+        # A box that reaches beyond the mesh still holds the cells up to its edge.
+        overlapx = (idxx.max() >= 0) & (idxx.min() < self.N_X_ctr)
+        overlapy = (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr)
+        idxx = np.clip(idxx, 0, self.N_X_ctr - 1)
+        idxy = np.clip(idxy, 0, self.N_Y_ctr - 1)
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        if overlapx & overlapy:
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From a2e100cc0b671d9dd0195f116277d941aaa1c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:53 +0000
Subject: [PATCH 24/25] fix: find the cells around a small polygon on an
 irregular mesh

Only cells with a corner inside the box of the polygon were used, so a polygon
smaller than a cell, or thinner than one, lost pieces or gave none at all.
---
 glmtools/grid/clipping.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 7e608d7..37fadd7 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -377,15 +377,11 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Keep quads whose own extent overlaps the bbox, so that a bbox that fits
+        # between the corners of a quad still finds it
+        quad_x, quad_y = self.quads[:,:,:,0], self.quads[:,:,:,1]
+        goodx = (quad_x.max(axis=2) >= xlim[0]) & (quad_x.min(axis=2) <= xlim[1])
+        goody = (quad_y.max(axis=2) >= ylim[0]) & (quad_y.min(axis=2) <= ylim[1])
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From 1857a00a9e00a25751c11e4e5c5c53406e4a2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:13 +0000
Subject: [PATCH 25/25] fix: do not drop a batch when a receiver raises
 KeyError

---
 glmtools/io/mimic_lma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..40da74c 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -239,8 +239,9 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
         else:
             return fake_lma
     except KeyError as ke:
-        err_txt = 'Skipping {0}\n    ... assuming a flash, group, or event with id {1} does not exist'
+        err_txt = 'Failed on {0}\n    ... assuming a flash, group, or event with id {1} does not exist'
         log.error(err_txt.format(flash_data.dataset_name, ke))
+        raise
 
 
 def replicate_and_weight_split_child_dataset_new(parent_data, split_child_dataset,
@@ -575,8 +576,9 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         else:
             return fake_lma
     except KeyError as ke:
-        err_txt = 'Skipping {0}\n    ... assuming a flash, group, or event with id {1} does not exist'
+        err_txt = 'Failed on {0}\n    ... assuming a flash, group, or event with id {1} does not exist'
         log.error(err_txt.format(glm.dataset.dataset_name, ke))
+        raise
 
 
 def sec_since_basedate(t64, basedate):
-- 
2.43.0

