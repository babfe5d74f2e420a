From 2054a63cf029bbf7d5744b36eb19b6cf99adc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:32 +0000
Subject: [PATCH 01/54] fix: TimeBaseDays counted microseconds as millionths of
 a day

The microsecond part of a time was divided by 1e6 (seconds) and added to a
number of days; it must be divided by the microseconds in a day.
---
 src/eumopps/timeutils/timebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index 29ca676..e01f639 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -53,7 +53,7 @@ class TimeBaseDays(TimeBase):
     def datetime_to_number(self, d):
         """Convert datetime object to a floating point or integer number."""
         td = d - self.epoch
-        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 1000000.0)
+        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 86400000000.0)
 
     def number_to_datetime(self, n):
         """Convert number to datetime object."""
-- 
2.43.0


From 12d611cbe421beabd77af9be15748327a94f02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:24 +0000
Subject: [PATCH 02/54] fix: annual and monthly time bases rounded times to
 32-bit seconds

23:59:59 on 31 December became the start of the next year, so that annual and
monthly steps gave the last seconds of a period to the following step.
---
 src/eumopps/timeutils/timebase.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index e01f639..cf7fcae 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -8,6 +8,7 @@ __author__ = "Joel R. Mitchelson"
 
 from numpy import int64
 from numpy import float32
+from numpy import float64
 from datetime import timedelta, datetime
 import numpy
 
@@ -131,10 +132,10 @@ class TimeBaseAnnual(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float64( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float64( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -161,7 +162,7 @@ class TimeBaseAnnual(TimeBase):
         
         # Convert year_fraction to seconds
         year_end = datetime(self.epoch.year + int( numpy.floor(n) ) + 1, 1, 1)        
-        total_seconds_in_year = float32( (year_end - year_start).total_seconds() )
+        total_seconds_in_year = float64( (year_end - year_start).total_seconds() )
         
         elapsed_seconds_this_year = year_fraction * total_seconds_in_year
         
@@ -208,10 +209,10 @@ class TimeBaseMonthly(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float64( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float64( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -226,10 +227,10 @@ class TimeBaseMonthly(TimeBase):
         month_end = month_start+relativedelta(months=1)
 
         # Seconds since start of month
-        t_seconds = float32( (d - month_start).total_seconds() )
+        t_seconds = float64( (d - month_start).total_seconds() )
 
         # Total seconds in this month
-        total_seconds = float32( (month_end - month_start).total_seconds() )
+        total_seconds = float64( (month_end - month_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -245,7 +246,7 @@ class TimeBaseMonthly(TimeBase):
         # Get datetime for the month's start and the total number of seconds in the month
         month_start = self.epoch + relativedelta(months=int(numpy.floor(n)))
         month_end   = month_start + relativedelta(months=1)
-        total_seconds_in_month = float32( (month_end - month_start).total_seconds() )
+        total_seconds_in_month = float64( (month_end - month_start).total_seconds() )
         
         # Get the time elapsed since the start of the month
         elapsed_fraction_of_month = n - numpy.floor(n)
-- 
2.43.0


From 6f926bcef17dafc5f5e61ed067afd94edbee799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:24 +0000
Subject: [PATCH 03/54] fix: daily steps gave times up to a day before the
 first step its index

int() truncates towards zero, so a time less than a day before the start was
given index 0; use floor as the annual and monthly steps do.
---
 src/eumopps/catalogue/step.py                         | 3 ++-
 src/eustace/analysis/advanced_standard/fileio/step.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/step.py b/src/eumopps/catalogue/step.py
index 0b86390..7f24e4d 100644
--- a/src/eumopps/catalogue/step.py
+++ b/src/eumopps/catalogue/step.py
@@ -3,6 +3,7 @@
 from eumopps.timeutils import datetime_numeric
 from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
+import math
 import os.path
 from datetime import datetime
 
@@ -96,7 +97,7 @@ class StepDaily(Step):
 
     def index_at_time(self, t):
 
-        return int( self.timebase().datetime_to_number(t) )
+        return int( math.floor(self.timebase().datetime_to_number(t)) )
 
     def time_at_index(self, operationindex):
 
diff --git a/src/eustace/analysis/advanced_standard/fileio/step.py b/src/eustace/analysis/advanced_standard/fileio/step.py
index a0cad7e..a2bcc04 100644
--- a/src/eustace/analysis/advanced_standard/fileio/step.py
+++ b/src/eustace/analysis/advanced_standard/fileio/step.py
@@ -5,6 +5,7 @@ from eumopps.catalogue.step import StepDaily
 from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
 from eustace.timeutils.epoch import EPOCH
+import math
 import os.path
 from datetime import datetime
 
@@ -41,7 +42,7 @@ class StepDailyEpoch(StepDaily):
         return name
         
     def index_at_time(self, t):
-        return int( self.timebase().datetime_to_number(t) )
+        return int( math.floor(self.timebase().datetime_to_number(t)) )
 
     def time_at_index(self, operationindex):
         return self.timebase().number_to_datetime(operationindex)
\ No newline at end of file
-- 
2.43.0


From 8598a534fc72c8b541ec2ae3570d56d252224d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:24 +0000
Subject: [PATCH 04/54] fix: mid-month step times ignored the month of the
 epoch

operation_indices_for_input_entry counts months from the epoch's month, but
time_at_index counted from January of the epoch's year.
---
 .../analysis/advanced_standard/examples/stepmidmonth.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
index 7f3fdbc..9b9efb6 100644
--- a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
+++ b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
@@ -24,8 +24,8 @@ class StepMidMonth(Step):
         """Compute the mid-point of given month number since epoch and return as datetime object.
            This is needed because HadCRUT4 uses midmonth values on the time axis."""
 
-        year = datetime_numeric.parse(self.epoch).year
-        total = 12*year + operationindex
+        epochtime = datetime_numeric.parse(self.epoch)
+        total = 12*epochtime.year + (epochtime.month - 1) + operationindex
         t0 = datetime(total / 12, 1 + (total % 12), 1)
         t1 = datetime((total + 1)/12, 1 + ((total + 1) % 12), 1)
         halfmonth = (t1 - t0) / 2
-- 
2.43.0


From b403163eaae2381401de184b251dfc96b79791e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 05/54] fix: batch specifications called a catalogue method
 that does not exist

quickcount was renamed operationcount; also a misspelt cycle_points_required.
---
 src/eumopps/catalogue/jinja/batches.py      | 4 ++--
 src/eumopps/catalogue/jinja/eumopps_cylc.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eumopps/catalogue/jinja/batches.py b/src/eumopps/catalogue/jinja/batches.py
index b51d410..0c10988 100644
--- a/src/eumopps/catalogue/jinja/batches.py
+++ b/src/eumopps/catalogue/jinja/batches.py
@@ -17,12 +17,12 @@ class BatchSpecification(object):
     def operation_count(self):
         """Query catalogue to find operations."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations')
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename)
 
     def cycle_points_required(self):
         """Get cycle points required to cover required operations, assuming number of operations per cycle point is self.batchsize."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations', batchsize=self.batchsize)
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename, batchsize=self.batchsize)
 
     def scheduling(self):
         """String for scheduling item."""
diff --git a/src/eumopps/catalogue/jinja/eumopps_cylc.py b/src/eumopps/catalogue/jinja/eumopps_cylc.py
index b4f0a8d..28d8ce0 100644
--- a/src/eumopps/catalogue/jinja/eumopps_cylc.py
+++ b/src/eumopps/catalogue/jinja/eumopps_cylc.py
@@ -11,7 +11,7 @@ def eumopps_cylc(config, methodname, modulename=None):
 
 def eumopps_cycle_points_required(specs):
     
-    return BatchSpecificationCollection(specs).cyle_points_required()
+    return BatchSpecificationCollection(specs).cycle_points_required()
 
 def eumopps_initial_cycle_point(specs):
 
-- 
2.43.0


From 3707d908e481583e98032e96930e0697f642b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 06/54] fix: running an operation whose runmodule is a class
 raised NameError

---
 src/eumopps/catalogue/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 9a247dd..4446712 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -38,7 +38,7 @@ class Operation(object):
 
         if hasattr(self.runmodule, 'run'):
 
-            return runmodule.run()
+            return self.runmodule.run()
 
         else:
 
-- 
2.43.0


From 07acaefc4ba3e7707809bc1be7b9cca39e61f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 07/54] fix: a negative operation index silently ran an
 operation from the end of the list

Likewise an index past the end ran when no parameter is listed per operation.
---
 src/eumopps/catalogue/operation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 4446712..ea7ece9 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -74,6 +74,9 @@ class Operation(object):
     def resolve_single_operation(self, cataloguepathname, operationindex, timestamp):
         """After operation references are resolved, we can filter down to just one operation."""
 
+        if (operationindex < 0) or ((self.count is not None) and (operationindex >= self.count)):
+            raise IndexError('operation index out of range')
+
         self.update_runmodule_parameters(OperationResolveSingleOperation(self.count, cataloguepathname, operationindex, timestamp))
 
     def resolve_operation_references(self, catalogue, pathdefault=None):
-- 
2.43.0


From 4f8095eb0361bec8b03a71f4d314974d2322bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 08/54] fix: batch number 0 without a batch size was not
 refused

---
 src/eumopps/catalogue/commandrun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/commandrun.py b/src/eumopps/catalogue/commandrun.py
index 9ee93a4..d7b02a9 100644
--- a/src/eumopps/catalogue/commandrun.py
+++ b/src/eumopps/catalogue/commandrun.py
@@ -19,7 +19,7 @@ def commandrun(timestamp, cataloguepathname, operationname, index, use_batch_siz
             raise ValueError('eumopps.catalogue.commandrun: use_batch_size is specified but no batch number is given')
         operationindex = (batch * use_batch_size) + index
     else:
-        if batch:
+        if batch is not None:
             raise ValueError('eumopps.catalogue.commandrun: batch number is given but use_batch_size not specified')
         operationindex = index
 
-- 
2.43.0


From e39b8c9d35f4ddb144a5a17f015a0f49374e521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 09/54] fix: checksum used up to twice the maximum number of
 threads

With 127 files and 64 threads there were 127 threads of one file each.
---
 src/eumopps/catalogue/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/catalogue/dataset.py b/src/eumopps/catalogue/dataset.py
index 6c585cd..173a29f 100644
--- a/src/eumopps/catalogue/dataset.py
+++ b/src/eumopps/catalogue/dataset.py
@@ -83,12 +83,8 @@ class CatalogueDataSubset(object):
 
         if total_matches == 0:
             return [ ]
-        step = total_matches / numthreads
-        if step < 1:
-            step = 1
-        thread_indices = [(start, start + step) for start in range(0, (total_matches / step) * step, step)]
-        thread_indices[-1] = (thread_indices[-1][0], total_matches)
-        return thread_indices
+        count = min(total_matches, numthreads)
+        return [((index * total_matches) / count, ((index + 1) * total_matches) / count) for index in range(count)]
 
     def compute_checksum(self, datasetpath):
         """Compute checksums on all matching files.
-- 
2.43.0


From d415020a98249e34a914fb2108de8ff3b0d2fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:24 +0000
Subject: [PATCH 10/54] Revert "fix: mid-month step times ignored the month of
 the epoch"

This reverts commit 8598a534fc72c8b541ec2ae3570d56d252224d54.
---
 .../analysis/advanced_standard/examples/stepmidmonth.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
index 9b9efb6..7f3fdbc 100644
--- a/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
+++ b/src/eustace/analysis/advanced_standard/examples/stepmidmonth.py
@@ -24,8 +24,8 @@ class StepMidMonth(Step):
         """Compute the mid-point of given month number since epoch and return as datetime object.
            This is needed because HadCRUT4 uses midmonth values on the time axis."""
 
-        epochtime = datetime_numeric.parse(self.epoch)
-        total = 12*epochtime.year + (epochtime.month - 1) + operationindex
+        year = datetime_numeric.parse(self.epoch).year
+        total = 12*year + operationindex
         t0 = datetime(total / 12, 1 + (total % 12), 1)
         t1 = datetime((total + 1)/12, 1 + ((total + 1) % 12), 1)
         halfmonth = (t1 - t0) / 2
-- 
2.43.0


From f74baadad0ba9da25aee1e3e5a14e5ef4c91830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 11/54] fix: grid cell of values just below the first cell

Truncation towards zero put values up to one cell below the start of an axis
into the first cell, instead of refusing them or, on a circular axis, wrapping
them into the last cell.
---
 src/eustace/satgrid/grid.py                       | 4 +++-
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 399ea7a..8f1ab74 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -17,10 +17,12 @@ class GridAxis(object):
 
     def compute_indices(self, values):
         """Determine the integer indices along this axis at which the given axis values are located."""
-        bin_indices = ((values - self.start) / self.increment).astype(numpy.int32)
+        bin_indices = numpy.floor((values - self.start) / self.increment).astype(numpy.int32)
         if self.wrap:
             wrapped = (bin_indices == numpy.int32(self.length)).nonzero()
             bin_indices[wrapped] = 0
+            wrapped = (bin_indices == numpy.int32(-1)).nonzero()
+            bin_indices[wrapped] = self.length - 1
         if (bin_indices < 0).any():
             raise ValueError
         if (bin_indices >= self.length).any():
diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8874da5..d05d82e 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -29,10 +29,12 @@ class GridFieldAxis(object):
     def compute_indices(self, values):
         """Indices along this axis at which the given axis values are located."""
 
-        bin_indices = (((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
+        bin_indices = numpy.floor(((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
         if self.circular:
             wrapped = (bin_indices == INDEXTYPE(self.count)).nonzero()
             bin_indices[wrapped] = 0
+            wrapped = (bin_indices == INDEXTYPE(-1)).nonzero()
+            bin_indices[wrapped] = self.count - 1
         if (bin_indices < 0).any():
             unexpected_indices = numpy.nonzero(bin_indices < 0)
             unexpected_values = values[unexpected_indices]
-- 
2.43.0


From e1c3d850782907b867a69384ff8356863c4862af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:34 +0000
Subject: [PATCH 12/54] fix: diagnostic grid uncertainty minimum compares
 uncertainties, not observations

---
 src/eustace/analysis/diagnosticgrid_aggregate.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid_aggregate.pyx b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
index 4b1da35..c267337 100644
--- a/src/eustace/analysis/diagnosticgrid_aggregate.pyx
+++ b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
@@ -33,7 +33,7 @@ def diagnosticgrid_aggregate(
             observation_min[gridindex] = obs
         if obs > observation_max[gridindex]:
             observation_max[gridindex] = obs
-        if obs < uncertainty_min[gridindex]:
+        if unc < uncertainty_min[gridindex]:
             uncertainty_min[gridindex] = unc
         if unc > uncertainty_max[gridindex]:
             uncertainty_max[gridindex] = unc
-- 
2.43.0


From 16f520f517677c7253d5e379bef52fa5c44803cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 13/54] fix: merging measurement updates no longer modifies the
 first stored update

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 8344733..6bf2794 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -249,7 +249,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             update = self.solutionstorage.measurement_read(time_index)
 
             if merged_updates is None:
-                merged_updates = update
+                # Copy so that the stored update is not modified by those appended to it
+                merged_updates = MeasurementUpdate(update.information_precision.copy(), update.information_vector.copy())
             else:
                 merged_updates.append_measurement_update(update)
 
-- 
2.43.0


From 871985618bffde2e14678e37b4f91aa24ac9dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 14/54] fix: delayed nonlinear update reads the state of its
 own time step

---
 .../analysis/advanced_standard/components/spatialdelayed.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 18512ab..03a9e8c 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -138,7 +138,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read())
+                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read(time_index))
 
             else:
 
-- 
2.43.0


From a67575a77106a0afcf0aa2f04fd52ab0f1fc20b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 15/54] fix: a time step without observations no longer breaks
 the space-time solution

---
 .../analysis/advanced_standard/components/spacetime.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 6bf2794..d9d3dcd 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -145,7 +145,9 @@ class SpaceTimeComponentSolution(ComponentSolution):
 
     def update_time_step(self):
 
-        self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
+        # A time step without observations has nothing to store
+        if self.measurement is not None:
+            self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
         self.measurement = None
         self.measurement_time_index = None
 
-- 
2.43.0


From f54ecc9976838c26c2a8c3bd0209ef81100cfa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 16/54] fix: nonlinear space-time update adds the increment to
 the state element by element

---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index d9d3dcd..33531a1 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -208,7 +208,7 @@ class SpaceTimeComponentSolution(ComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + self.solutionstorage.state_read()
+                new_state_estimate = numpy.ravel(state_update) + numpy.ravel(self.solutionstorage.state_read())
 
             else:
 
-- 
2.43.0


From 6a454876342780897ab0fc0d7ce9240e6437c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 17/54] fix: the derivative of a lattice precision links
 wrapped neighbours as the precision does

---
 .../advanced_standard/stats/spde/lattice.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 9d1ff75..f74bf38 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -663,14 +663,22 @@ class LatticeSPDE():
         for d in range(self.lattice.n_dims):
             
             slices_i = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
-            
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
+            
+            # neighbours must be those of build_Q_native, including any wrapping of the last index to the first
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+                slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]) 
+            else:
+                slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
             
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
 
+            inds_i = inds_i % self.lattice.number_of_nodes_per_dimension
+            inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
+
             inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
             inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
             
-- 
2.43.0


From f13842996f9bfa1cd6f4abf86daf7d5e52608c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 18/54] fix: lattice precision is indexed in the order of the
 lattice's nodes

---
 .../analysis/advanced_standard/stats/spde/lattice.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index f74bf38..5324986 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -623,8 +623,8 @@ class LatticeSPDE():
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
             
             # covert the n-dimensional indices into one dimensional indices that correspond to the indexing of Q
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
             # use the indexing to fill in linked nodes in Q
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
@@ -679,8 +679,8 @@ class LatticeSPDE():
             inds_i = inds_i % self.lattice.number_of_nodes_per_dimension
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
 
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order='F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order='F')
             
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
             Q_neighbour[inds_j, inds_i] = - dim_scales[d]
-- 
2.43.0


From 6b21e76e38950e44c4027a1a80a99ea088e1ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 19/54] fix: spherical SPDE precision includes the last
 recursion step for alpha of three and above

---
 .../analysis/advanced_standard/stats/spde/spherical.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
index d0ba536..7c9f2c4 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
@@ -399,11 +399,11 @@ class SphereMeshSPDE(object):
         if alpha % 2 == 0:
             
             Q = K * inv_C_tilde * K
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha + 1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         else:
             Q = K
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha + 1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         
         Q = tau * Q * tau
@@ -433,7 +433,7 @@ class SphereMeshSPDE(object):
             Q = K * inv_C_tilde * K
             dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
             
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha + 1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
@@ -442,7 +442,7 @@ class SphereMeshSPDE(object):
         else:
             Q = K
             dQdp = dKdp
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha + 1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-- 
2.43.0


From a7edcdaf6923cbf24e9bdbb773682a2a6902c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 20/54] fix: space-time factor design accepts the rectified
 argument of the design interface

---
 src/eustace/analysis/advanced_standard/elements/factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/factor.py b/src/eustace/analysis/advanced_standard/elements/factor.py
index 38bd150..ffbfbdf 100644
--- a/src/eustace/analysis/advanced_standard/elements/factor.py
+++ b/src/eustace/analysis/advanced_standard/elements/factor.py
@@ -58,10 +58,12 @@ class SpaceTimeFactorDesign(ElementNonlinearDesign, SpaceTimeSPDEDesign):
         # Stack 'em up
         return scipy.sparse.hstack([ jacobian_space, jacobian_time ], format=SPARSEFORMAT)
 
-    def design_function(self, currentstate):
+    def design_function(self, currentstate, rectified=False):
 
-        v_space = self.space_A.dot(currentstate[:self.space_A.shape[1]])
-        v_time = self.time_A.dot(currentstate[self.space_A.shape[1]:])
+        space_A = numpy.abs(self.space_A) if rectified else self.space_A
+        time_A = numpy.abs(self.time_A) if rectified else self.time_A
+        v_space = space_A.dot(currentstate[:space_A.shape[1]])
+        v_time = time_A.dot(currentstate[space_A.shape[1]:])
         return v_space * v_time
 
 class SpaceTimeFactorPrior(SpaceTimeSPDEPrior):
-- 
2.43.0


From faefd6c93a59c36460396e6d1fe706677ad77509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 21/54] fix: apply quality control to the day read, with or
 without hold-out list

---
 src/eustace/preprocess/fileio/insitu_land.py | 34 ++++++++------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 7e03201..4098ad9 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -114,6 +114,7 @@ class ObservationSourceInsituLand(ObservationSource):
         # Restrict by time if requested
         if self.daynumber is None:
             measurement = variable[:]
+            qc_flags = qc_var[:]
         
         else:
             # argwhere - Finds the indices of array elements that are non-zero, grouped by element
@@ -124,34 +125,27 @@ class ObservationSourceInsituLand(ObservationSource):
                 # extract measurement by advanced index and slice  
                 measurement = variable[dayindex.ravel(), :]
                 time = time[dayindex]
-
-                # the mask is updated so True areas also represent areas where 
-                # qc flags have failed checks  
-                if qc_mask:
-                    # replicate method used for measurement to return data relating to specified day indices 
-                    qc_var_day = qc_var[dayindex.ravel(), :]
-                    # create a mask for areas where the qc flag values are not 0
-                    # this mask - True values - relates to all data that failed qc checks
-                    qc_data_mask = numpy.ma.masked_not_equal(qc_var_day, 0)
-                    # update the measurement mask to additionally mask out areas from the qc data mask, 
-                    # in addition to those areas already masked out
-                    measurement.mask = numpy.logical_or(
-                                       measurement.mask, qc_data_mask)
+                # replicate method used for measurement to return data relating to specified day indices 
+                qc_flags = qc_var[dayindex.ravel(), :]
 
             else:
                 return None                        
 
+        # the mask is updated so True areas also represent areas where 
+        # qc flags have failed checks  
+        if qc_mask:
+            # create a mask for areas where the qc flag values are not 0
+            # this mask - True values - relates to all data that failed qc checks
+            qc_data_mask = numpy.ma.masked_not_equal(qc_flags, 0)
+            # update the measurement mask to additionally mask out areas from the qc data mask, 
+            # in addition to those areas already masked out
+            measurement.mask = numpy.logical_or(
+                               measurement.mask, qc_data_mask)
+
         if self.hold_out_dataset:
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
-            # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks  
-            if qc_mask:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var, 0)
-                measurement.mask = numpy.logical_or(
-                                   measurement.mask, qc_data_mask)
-                                   
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
         all_stations = numpy.tile(numpy.array(range(measurement.shape[1]), numpy.uint64), (measurement.shape[0], 1))
-- 
2.43.0


From befda011b8cd3370f72b606875ec95077ba5d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 22/54] fix: missing observation source refers to its own
 observables

---
 src/eustace/analysis/fileio/observationsource_missing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/fileio/observationsource_missing.py b/src/eustace/analysis/fileio/observationsource_missing.py
index a4b31d8..c1042f2 100644
--- a/src/eustace/analysis/fileio/observationsource_missing.py
+++ b/src/eustace/analysis/fileio/observationsource_missing.py
@@ -23,7 +23,7 @@ class ObservationSourceMissing(ObservationSource):
     def observations(self, observable):
         """Retrieve observations for specified observable quantity."""
         
-        if self.missing_observable == observable:
+        if observable in self.missing_observables:
             # return as Observations object
             return ObservationsMissing(None)
         else:
-- 
2.43.0


From 1ab6d086689c2eac4f558dc9f15d406563b47f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 23/54] fix: pass altitude adjustment by name when preparing a
 day

---
 src/eustace/analysis/preparedailyfixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 3062faa..b5f1615 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -37,7 +37,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     if sourcename == SOURCE_INSITU_LAND:
         # special case for land to load only data relevant to given day number
         if hold_out_list == None:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment)
+            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment=altitude_adjustment)
         else:
             source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
         
-- 
2.43.0


From 555a0bff0d19d5c786ea356c68ebc1aa714c49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 24/54] fix: gridded sources accept fields without missing
 values

---
 src/eustace/surfaceairmodel/fileio/cubemap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/cubemap.py b/src/eustace/surfaceairmodel/fileio/cubemap.py
index 82dd010..0c888d4 100644
--- a/src/eustace/surfaceairmodel/fileio/cubemap.py
+++ b/src/eustace/surfaceairmodel/fileio/cubemap.py
@@ -72,15 +72,15 @@ class ObservationSourceCubeMapGrid(ObservationSource, CubeList):
         measurement = self.get_field_by_name(obsmap.measurement)
         location = numpy.array(range(self.number_of_observations()), numpy.uint64) # location ids are just grid indices
         time = measurement.coords('time')[0].points[0]
-        uncorrelatederror = self.get_field_by_name(obsmap.uncorrelatederror).data
-        locallycorrelatederror = [ self.get_field_by_name(mapname).data.data.ravel() for mapname in obsmap.locallycorrelatederror ]
+        uncorrelatederror = numpy.ma.getdata(self.get_field_by_name(obsmap.uncorrelatederror).data)
+        locallycorrelatederror = [ numpy.ma.getdata(self.get_field_by_name(mapname).data).ravel() for mapname in obsmap.locallycorrelatederror ]
         localcorrelationscale = obsmap.localcorrelationscale
         return Observations(
-            measurement.data.mask.ravel(), 
+            numpy.ma.getmaskarray(measurement.data).ravel(), 
             time, 
             location, 
-            measurement.data.data.ravel(), 
-            uncorrelatederror.data.ravel(), 
+            numpy.ma.getdata(measurement.data).ravel(), 
+            uncorrelatederror.ravel(), 
             locallycorrelatederror)
 
     def local_correlation_length_scale(self, observable):
-- 
2.43.0


From 43fc671ad4c9e222b44874def1e6238d02ccb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 25/54] fix: distinct lake locations never share an identifier

---
 src/eustace/surfaceairmodel/fileio/lake.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 39ea384..7a33680 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -43,10 +43,10 @@ class ObservationSourceLakeReading(ObservationSource):
         # parse tab-delimted format
         txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
 
-        # signatures for each location so we can spot duplicates
+        # signatures for each location so we can spot duplicates (a complex number has both coordinates, so distinct places stay distinct)
         location_signature = \
-            numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-            numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
+            numpy.float64(txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
+            1j * numpy.float64(txtdata[ObservationSourceLakeReading.COLUMN_LON])
 
         # find duplicate signatures
         unique_signature, unique_indices, self.location_ids = numpy.unique(location_signature, return_index=True, return_inverse=True)
-- 
2.43.0


From a046ec1465518df5910fd4d5aa869a6cf992e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:25 +0000
Subject: [PATCH 26/54] fix: break points of a file without missing likelihoods
 keep one entry each

---
 src/eustace/preprocess/fileio/insitu_land_breakpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
index cb6fb7e..1b85000 100644
--- a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
+++ b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
@@ -70,7 +70,7 @@ class ObservationBreakPointSourceInsituLand(ObservationSource):
         break_likelihood = self.dataset.variables[ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable]['break_likelihood'].name]
 
         if hasattr(break_likelihood[:],'mask'):
-            likelihood_mask = ~break_likelihood[:].mask
+            likelihood_mask = ~numpy.ma.getmaskarray(break_likelihood[:])
         else:
             likelihood_mask = numpy.broadcast_to(numpy.array([True]),break_likelihood[:].shape)
 
-- 
2.43.0


From 5f8f972f04923e58f19d110a1116f3db03a672a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:25 +0000
Subject: [PATCH 27/54] fix: one validity flag per station when no station is
 missing

---
 src/eustace/preprocess/fileio/insitu_land.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 4098ad9..db623ab 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -131,6 +131,9 @@ class ObservationSourceInsituLand(ObservationSource):
             else:
                 return None                        
 
+        # mask with an entry for each element (a single value is given when nothing is missing)
+        measurement.mask = numpy.ma.getmaskarray(measurement)
+
         # the mask is updated so True areas also represent areas where 
         # qc flags have failed checks  
         if qc_mask:
-- 
2.43.0


From 20ee216f9343970b0d35f4f47d8426fd7b03cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 28/54] fix: reading observations verifies the identity of
 their location table

---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index bee439f..2ba3ab8 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -130,6 +130,11 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         # get uuid
         location_uuid = self.read_header_from_stream(file_handle)
 
+        # check it matches the one given for verification
+        if location_uuid != verify_location_uuid:
+            file_handle.close()
+            raise Exception('Location UUID mismatch')
+
         # read data
         contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
-- 
2.43.0


From 71d26e6894b35eb4a37527ee680b4b5b985607f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 29/54] fix: location pointer reader imports uuid and reads its
 counts as integers

---
 src/eustace/analysis/fileio/locationpointers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index 309c695..b70bb8c 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -6,6 +6,7 @@ from observationsource_rawbinary import ObservationRawBinaryWriter
 from observationsource_rawbinary import LocalCorrelationRangeRawBinaryReader
 from observationsource_rawbinary import CATEGORY_OBSERVATION
 import numpy
+import uuid
 
 FORMATID_LOCATION_POINTERS = 'EUSTACELOCP00001'
 """Format identifier placed at start of correlated uncertainty binary files."""
@@ -119,7 +120,7 @@ class LocationPointersRawBinaryReader(object):
             raise Exception('Location UUID mismatch')
 
         # read count
-        location_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        location_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # check locaton_id in range
         if (location_id < 0) or (location_id >= location_count):
@@ -129,8 +130,8 @@ class LocationPointersRawBinaryReader(object):
         file_handle.seek(16 * location_id, 1)   # The 1 here indicates seek from current position
 
         # read offset table info
-        record_offset = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
-        record_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        record_offset = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
+        record_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # seek to offset
         file_handle.seek(record_offset)
-- 
2.43.0


From 85e02c87ecb00e6e671218f48407f4f0af49b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 30/54] fix: grid cell averages follow the order of the output
 latitudes

---
 .../fileio/output_structure_rectilinear.py                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
index 7d6c94d..d1c4734 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
@@ -80,10 +80,10 @@ class RegriddingRectilinearGridStructure(ObservationStructure):
         """Rearrange latitudes for boosting regridding computations"""
         
         latitudes = self.latitudes.reshape(-1, self.Nlat)
-        latitudes = numpy.tile(latitudes, (len(self.longitudes)/self.Nlon,self.Nlon))
-        reindexer = numpy.argsort(latitudes[:,0])
+        latitudes = numpy.tile(latitudes, (1, self.Nlon))
         
-        return latitudes[reindexer]#, longitudes
+        # One row per grid cell: all longitudes of a latitude before the next latitude, whichever way latitudes are ordered
+        return numpy.repeat(latitudes, len(self.longitudes)/self.Nlon, axis=0)
 
     def rearrange_longitudes(self):
         """Rearrange longitudes for boosting regridding computations"""
-- 
2.43.0


From 6084e369e73974dced2ab1301598c2960e5ed17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 31/54] fix: projected sample spread with more blocks than
 outputs or without samples

---
 .../analysis/advanced_standard/fileio/output_projector.py   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 7ef5714..dc0e0f1 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -175,7 +175,7 @@ class Projector(object):
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
@@ -198,15 +198,13 @@ class Projector(object):
         else:
             statesample = self.state_samples
             sampledepartures = statesample#(statesample - self.state_solution)**2
-            print statesample.shape
-            print self.state_solution.shape
             
         if statesample is None:
             return None
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(1, int(n_outputs / self.blocking))
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
-- 
2.43.0


From 5cc0492af376d1845e8e87f251aecbb79aba1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 32/54] fix: restrict to the requested dataset when building
 with a dataset filter

---
 src/eumopps/catalogue/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/build.py b/src/eumopps/catalogue/build.py
index 86255f3..80b5d1f 100644
--- a/src/eumopps/catalogue/build.py
+++ b/src/eumopps/catalogue/build.py
@@ -48,7 +48,7 @@ def build(inputcatalogue, cataloguefilename, update=False, dataset_filter=None,
             raise ValueError('requested dataset \"{0}\" not found'.format(dataset_filter))
 
         # Restrict to requested
-        inputcatalogue.datasets = [ inputcatalogue.dataset[datasetindex] ]
+        inputcatalogue.datasets = [ inputcatalogue.datasets[datasetindex] ]
 
     # search for data and compute checksums
     for dataset in inputcatalogue.datasets:
-- 
2.43.0


From 53adbff1605b1d431f1fc03de4c16ee867382ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 33/54] fix: store archive layouts under the names their
 constructors take

---
 src/eumopps/catalogue/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/storage.py b/src/eumopps/catalogue/storage.py
index ce50f37..99b23f0 100644
--- a/src/eumopps/catalogue/storage.py
+++ b/src/eumopps/catalogue/storage.py
@@ -46,14 +46,14 @@ class DataStorageArchive(DataStorage):
     def __init__(self, archivepathname, internalpathname):
 
         super(DataStorageArchive, self).__init__()
-        self.pathname = archivepathname
+        self.archivepathname = archivepathname
         self.internalpathname = internalpathname
 
     def match_files(self, catalogue_subset, datasetpath, candidates):
         """Search for matching files on the specified path and inside the archive files"""
 
         # match those corresponding to archive name pattern
-        archive_results = namepatterns.nested_search_patterns([self.pathname], candidates)
+        archive_results = namepatterns.nested_search_patterns([self.archivepathname], candidates)
 
         # search within archives
         for archive_entry in archive_results:
-- 
2.43.0


From f731e6008c2e80d458e09fd6f2879482beb4aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 34/54] fix: allow operations with no steps to be loaded from
 catalogue

---
 src/eumopps/catalogue/operationparameters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eumopps/catalogue/operationparameters.py b/src/eumopps/catalogue/operationparameters.py
index 92db459..dc04da0 100644
--- a/src/eumopps/catalogue/operationparameters.py
+++ b/src/eumopps/catalogue/operationparameters.py
@@ -13,10 +13,10 @@ class OperationParameter(object):
 class OperationParameterList(OperationParameter):
     """Base class stored on final catalogues which lists parameters for multiple operations."""
 
-    def __init__(self, operation_parameters):
-        """Initialise with given list."""
+    def __init__(self, operation_parameters=None):
+        """Initialise with given list (empty lists are not stored on file, so default is an empty list)."""
 
-        self.operation_parameters = operation_parameters
+        self.operation_parameters = operation_parameters if (operation_parameters is not None) else [ ]
 
     def restrict_to_subset(self, restrict_to_operations):
         """Restrict to specified list of operation indices. 
@@ -38,7 +38,7 @@ class OperationParameterList(OperationParameter):
 class OperationFileReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileReference, self).__init__(operation_parameters)
@@ -53,7 +53,7 @@ class OperationFileReference(OperationParameterList):
 class OperationFileListReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileListReference, self).__init__(operation_parameters)
-- 
2.43.0


From 48f8a7d301efa1c8d7501118224e6df690a00685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 35/54] fix: keep zero and empty values when saving objects as
 JSON

---
 src/eumopps/jsonobjects/jsonobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/jsonobjects/jsonobjects.py b/src/eumopps/jsonobjects/jsonobjects.py
index 8c64643..18d88ef 100644
--- a/src/eumopps/jsonobjects/jsonobjects.py
+++ b/src/eumopps/jsonobjects/jsonobjects.py
@@ -26,7 +26,7 @@ def save_object(obj):
     if hasattr(obj, '__dict__'):
 
         # Make dictionary of all class items and recurse if needed
-        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v)
+        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v is not None)
     
         # Append class name and module so we can recreate
         result[CLASSID] = get_class_id(obj)
-- 
2.43.0


From 090129840c8fa68be17e1ef62ae9efe0862c6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:21 +0000
Subject: [PATCH 36/54] fix: keep missing entries in their place when reading
 lists from NetCDF

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 190c86b..e2335ae 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -88,22 +88,19 @@ def read_variable(variable):
 
         elif variable.ndim == 1:
 
-            # Remove any masked ones
-            if hasattr(result, 'mask'):
-                result = result.data[~result.mask]
-
-            # Convert to list
+            # Convert to list (masked elements are those which were None when saved)
             result = result.tolist()
 
             # Convert to datetime if requested
             if ('units' in variable.ncattrs()) and (variable.units == TIMEBASE.units()):
-                result = [ TIMEBASE.number_to_datetime(element) for element in result ]
+                result = [ TIMEBASE.number_to_datetime(element) if (element is not None) else None for element in result ]
 
         elif variable.ndim == 2:
 
             # Remove any masked per-row and convert to lists
             if hasattr(result, 'mask'):
-                result = [ (result.data[rowindex,~result.mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
+                mask = numpy.ma.getmaskarray(result)
+                result = [ (result.data[rowindex,~mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
             else:
                 result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
 
-- 
2.43.0


From 404f2db9320d5171bcecd3b6ac1751930e07ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:21 +0000
Subject: [PATCH 37/54] fix: store lists of different kinds of object
 separately in NetCDF

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index e2335ae..efbe6fb 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -252,6 +252,11 @@ def is_list_of_simple_python_objects(x):
 
     return isinstance(x, list) and all([ (element is None) or is_simple_python_object(element) for element in x ])
 
+def is_list_of_matching_objects(x):
+    """All elements have same class and members as the first one (as needed to store them as records)."""
+
+    return all([ (type(element) is type(x[0])) and (set(object_dictionary(element)) == set(object_dictionary(x[0]))) for element in x ])
+
 def is_list_of_python_objects(x):
 
     return isinstance(x, list) and all([ object_dictionary(element) is not None for element in x ])
@@ -378,7 +383,7 @@ def save_object(group, key, value):
         # Store lists as member variable
         save_list_of_simple_values(group, key, value)
 
-    elif is_list_of_simple_python_objects(value):
+    elif is_list_of_simple_python_objects(value) and is_list_of_matching_objects(value):
 
         # Store as group with 2D member variables (leading dimension is index in list)
         save_list_of_simple_python_objects(group, key, value)
-- 
2.43.0


From 1d7a07d7064a94f5d3879c627a647ea86f5d286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:14 +0000
Subject: [PATCH 38/54] fix: keep pathname of archive layouts available to
 callers

---
 src/eumopps/catalogue/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eumopps/catalogue/storage.py b/src/eumopps/catalogue/storage.py
index 99b23f0..1f19f91 100644
--- a/src/eumopps/catalogue/storage.py
+++ b/src/eumopps/catalogue/storage.py
@@ -49,6 +49,12 @@ class DataStorageArchive(DataStorage):
         self.archivepathname = archivepathname
         self.internalpathname = internalpathname
 
+    @property
+    def pathname(self):
+        """Pattern for path name of archive."""
+
+        return self.archivepathname
+
     def match_files(self, catalogue_subset, datasetpath, candidates):
         """Search for matching files on the specified path and inside the archive files"""
 
-- 
2.43.0


From f9033e717d0582f3a80b8150e103656e9ad8c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 39/54] fix: check land mask shape against surface temperature
 in ice model input

---
 src/eustace/surfaceairmodel/model_ice_input_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/model_ice_input_processing.py b/src/eustace/surfaceairmodel/model_ice_input_processing.py
index c9124dc..518479e 100644
--- a/src/eustace/surfaceairmodel/model_ice_input_processing.py
+++ b/src/eustace/surfaceairmodel/model_ice_input_processing.py
@@ -67,7 +67,7 @@ class IceSurfaceTemperatureQualityControl(object):
             raise ValueError('surface_temperature_3d matrix shape not consistent with surface_temperature')
         if surface_temperature.shape != Nobs3d.shape[1:3]:
             raise ValueError('Nobs3d matrix shape not consistent with surface_temperature')
-        if land_mask.shape != land_mask.shape:
+        if surface_temperature.shape != land_mask.shape:
             raise ValueError('land_mask matrix shape not consistent with surface_temperature')
         if surface_temperature.shape != sea_ice_fraction.shape:
             raise ValueError('sea_ice_fraction matrix shape not consistent with surface_temperature')
-- 
2.43.0


From 5f530d8b1161a82ead8e367bf22620dc4b815206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 40/54] fix: accept ice model uncertainty fields without
 missing values

---
 src/eustace/surfaceairmodel/model_ice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/model_ice.py b/src/eustace/surfaceairmodel/model_ice.py
index d5c003a..1ae02a7 100644
--- a/src/eustace/surfaceairmodel/model_ice.py
+++ b/src/eustace/surfaceairmodel/model_ice.py
@@ -384,9 +384,9 @@ class ModelIceObservableProcessor(object):
         indices = numpy.nonzero(combined_mask.ravel() == False)
 
         # Check necessary uncertainty components present
-        missing = numpy.nonzero(input_uncorrelated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_synoptically_correlated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_large_scale_correlated_uncertainty.mask.ravel()[indices])[0].tolist()
+        missing = numpy.nonzero(numpy.ma.getmaskarray(input_uncorrelated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_synoptically_correlated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_large_scale_correlated_uncertainty).ravel()[indices])[0].tolist()
 
         if len(missing):
             sys.stderr.write('WARNING: not all observations have uncertainty information (ignoring those without it).\n')
-- 
2.43.0


From c75f62759d914658666090862a44ca7346d6493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:36 +0000
Subject: [PATCH 41/54] fix: do not mix up parent patterns whose values
 concatenate to the same text

---
 src/eumopps/catalogue/namepatterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 660a51f..cd852e6 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -65,7 +65,7 @@ def hash_string_list(values):
     """Create one hashkey corresponding to an entire list of strings."""
     concat = ''
     for value in values:
-        concat += value
+        concat += str(len(value)) + ':' + value
     return concat
 
 
-- 
2.43.0


From 1f365c5ebb705192694a260d1bcd7248264cdeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:36 +0000
Subject: [PATCH 42/54] fix: take tag values known from the parent pattern
 literally in the child pattern

---
 src/eumopps/catalogue/namepatterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index cd852e6..32621c2 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -51,12 +51,12 @@ def make_search_expression(pattern, knownvalues):
     result = result.replace('?', '.')  # question marks match any character
     for key, subs in EXPRESSION_SUBSTITUTES.iteritems():
         lookupkey = '%' + key
-        result = result.replace(lookupkey, knownvalues[subs[0]]
+        result = result.replace(lookupkey, re.escape(knownvalues[subs[0]])
                                 if subs[0] in knownvalues else '(?P<' + subs[0] + '>' + subs[1] + ')')
     for subs in TAG_FIELDS:
         lookup_lowercase_subs = '%' + subs.lower()
         if subs in knownvalues:
-            result = result.replace(lookup_lowercase_subs, knownvalues[subs].lower())
+            result = result.replace(lookup_lowercase_subs, re.escape(knownvalues[subs].lower()))
     # print '\n\npattern: ', result, '\n\n'
     return result
 
-- 
2.43.0


From d4658cc62ab3d29a9a0fcc2ca6c7ba85a1b5d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 43/54] fix: locate directions at mesh vertices despite
 rounding errors

---
 src/eustace/analysis/mesh/locator.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eustace/analysis/mesh/locator.py b/src/eustace/analysis/mesh/locator.py
index aab805f..d4e44e4 100644
--- a/src/eustace/analysis/mesh/locator.py
+++ b/src/eustace/analysis/mesh/locator.py
@@ -12,6 +12,9 @@ from mesh import MeshIcosahedron
 class TriangleLocator(object):
     """Find triangles on a mesh."""
 
+    ROUNDING_TOLERANCE = 1.0E-14
+    """Distance from unit sphere triangle which is attributed to rounding errors."""
+
     def __init__(self, mesh):
         """Construct with reference to given mesh."""
 
@@ -45,6 +48,14 @@ class TriangleLocator(object):
         # call Cython method to compute values of indices
         locator_search_planes_exhaustive(indices, self.normal0, self.normal1, self.normal2, v)
 
+        # at a vertex rounding errors can place a point just outside of all triangles around it:
+        # use the one it is nearest to (not found remains at -1 if outside by more than rounding error)
+        for row in numpy.nonzero(indices < 0)[0]:
+            distance = numpy.max([ numpy.dot(normal, v[row,:]) for normal in (self.normal0, self.normal1, self.normal2) ], axis=0)
+            nearest = numpy.argmin(distance)
+            if distance[nearest] <= TriangleLocator.ROUNDING_TOLERANCE * numpy.linalg.norm(v[row,:]):
+                indices[row] = nearest
+
         # result
         return indices
 
-- 
2.43.0


From 58d51e86b49fa2d8d6f8cd63e0c96a8ad903c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 44/54] fix: choose sub-triangles by planar barycentres for any
 evaluation method

---
 src/eustace/analysis/mesh/locator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/mesh/locator.py b/src/eustace/analysis/mesh/locator.py
index d4e44e4..0114e43 100644
--- a/src/eustace/analysis/mesh/locator.py
+++ b/src/eustace/analysis/mesh/locator.py
@@ -108,8 +108,9 @@ class TriangleLocatorHierarchical(TriangleLocator):
         # initialise triangle numbers
         trianglenumbers = numpy.uint64(top_level_indices) << MeshIcosahedron.BASE_HASH_SHIFT
 
-        # evaluate barycentres (planar geometry)
-        barycentres = evaluation_method(point0, point1, point2, v)
+        # evaluate barycentres in planar geometry irrespective of the evaluation method for output
+        # (only planar barycentres tell which sub-triangle contains the point)
+        barycentres = barycentric_coordinates_planar(point0, point1, point2, v)
 
         # and now perform repeated subdivision to get finest possible triangle number
         for i in range(1, int(levels) + 1):
@@ -121,12 +122,12 @@ class TriangleLocatorHierarchical(TriangleLocator):
             TriangleLocatorHierarchical.triangle_points_to_subtriangle(point0, point1, point2, subnumbers)
 
             # re-evaluate barycentres with new points
-            barycentres = evaluation_method(point0, point1, point2, v)
+            barycentres = barycentric_coordinates_planar(point0, point1, point2, v)
 
             # update triangle numbers
             trianglenumbers = trianglenumbers | (subnumbers << (MeshIcosahedron.BASE_HASH_SHIFT -  numpy.uint64(2*i)))
     
-        return trianglenumbers, barycentres
+        return trianglenumbers, evaluation_method(point0, point1, point2, v)
 
     @staticmethod
     def triangle_barycentre_subdivision_number(barycentres):
-- 
2.43.0


From 273d68ac7092cbec816beda41de9802c6e62dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:54 +0000
Subject: [PATCH 45/54] fix: build lattices whose dimensions have different
 numbers of nodes

---
 .../analysis/advanced_standard/stats/spde/lattice.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 5324986..73641e5 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -143,7 +143,12 @@ class LatticeMesh(object):
         
         
         axis_coordinates = [np.linspace(this_dim[0], this_dim[1], n_nodes) for this_dim, n_nodes in zip(self.node_bounds.T, self.number_of_nodes_per_dimension )  ]
-        self.axis_coordinates = np.array(axis_coordinates).T
+        if len(set(self.number_of_nodes_per_dimension)) == 1:
+            self.axis_coordinates = np.array(axis_coordinates).T
+        else:
+            # one array per dimension (they cannot be stacked when numbers of nodes differ)
+            self.axis_coordinates = np.empty((self.n_dims,), dtype=object)
+            self.axis_coordinates[:] = axis_coordinates
         
         if len(axis_coordinates) > 1:
             meshgrid_nodes = np.meshgrid(*axis_coordinates, indexing='ij')
-- 
2.43.0


From c2939d802843c73f7f18e78c9f33565833e3eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 46/54] fix: count each node once where the basis functions
 span a circular dimension

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 73641e5..98d9a7c 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -213,6 +213,11 @@ class LatticeMesh(object):
         #node_indices_1d =  np.ravel_multi_index(node_indices[:,[2,0,1]].T, self.number_of_nodes_per_dimension)
         node_indices_1d =  np.ravel_multi_index(node_indices.T, self.number_of_nodes_per_dimension, order = 'F')
 
+        if self.wrap_dimensions is not None:
+            # when the search range spans a whole circular dimension the same node is found from both sides: keep it once
+            first_found = np.sort(np.unique(obs_indices * self.n_nodes + node_indices_1d, return_index=True)[1])
+            obs_indices, node_indices_1d = obs_indices[first_found], node_indices_1d[first_found]
+
         return obs_indices, node_indices_1d
         
     def build_A(self, locations, sparse_format = 'csc'):    
-- 
2.43.0


From fed47429215d3ca77cce624613c5c2bec6e30eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:38 +0000
Subject: [PATCH 47/54] fix: keep numerically zero elements of the factor in
 the pattern of the partial inverse

---
 src/eustace/analysis/advanced_standard/linalg/qinv.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/qinv.pyx b/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
index 47bf74d..db72d52 100644
--- a/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
+++ b/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
@@ -53,7 +53,9 @@ def Q_inv(Q, fQ = None):
     cdef cITYPE [:] L_indptr  = Lp.indptr
 
     # initialise output non-zero pattern based on that of the cholesky factor
-    Sigma_tilde = Lp + Lp.T
+    # (including elements of the factor whose numerical value happens to be zero)
+    L_pattern = scipy.sparse.csc_matrix((np.ones(len(Lp.data)), Lp.indices, Lp.indptr), shape=Lp.shape)
+    Sigma_tilde = L_pattern + L_pattern.T
     if not Sigma_tilde.has_sorted_indices:
         Sigma_tilde.sort_indices()
     
-- 
2.43.0


From dc94ac42b4d8435e7d56a6fb58c6b5734357c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 48/54] fix: import what the sparse matrix operations use for
 their optional arguments

---
 src/eustace/analysis/advanced_standard/linalg/sparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/sparse.py b/src/eustace/analysis/advanced_standard/linalg/sparse.py
index 05f2251..6d2cbee 100644
--- a/src/eustace/analysis/advanced_standard/linalg/sparse.py
+++ b/src/eustace/analysis/advanced_standard/linalg/sparse.py
@@ -1,6 +1,8 @@
 """Sparse matrix operations"""
 
 import numpy
+import scipy.sparse
+import sksparse.cholmod as cholmod
 import qinv
 
 def trace_iQ_dQdp(Q, dQdp, fQ = None, iQp = None):
@@ -44,12 +46,10 @@ def marginal_variance_Q_inv(Q, A = None):
         # The following operation is only correct if the non zero indices of A.T * A are a subset of
         # the non-zero elements of Q_inv so check that this condition is true before proceeding. 
         
-        from sets import Set
-        
         (P_i, P_j, P_v) = scipy.sparse.find(Q_inv)
         (AtA_i, AtA_j, AtA_v) = scipy.sparse.find(A.T * A)
-        Q_inv_non_zero = Set( zip(P_i, P_j) )
-        AtA_non_zero = Set( zip(AtA_i, AtA_j) )
+        Q_inv_non_zero = set( zip(P_i, P_j) )
+        AtA_non_zero = set( zip(AtA_i, AtA_j) )
         
         AtA_non_zero.issubset(Q_inv_non_zero)
         
-- 
2.43.0


From 0c42efc86170a90599b1b2e916057ecce660ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:34 +0000
Subject: [PATCH 49/54] fix: store and read samples of delayed spatial
 components in files

---
 .../components/storage_files.py               | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 265a0ec..2779ee6 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -311,13 +311,13 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_write(self, sample, state_key):
 
-        if self.samplefiledictionary_write is None:
+        if self.sample_filedictionary_write is None:
             raise ValueError('no state write file specified')
 
-        if state_key not in self.samplefiledictionary_write:
+        if state_key not in self.sample_filedictionary_write:
             raise ValueError('time key mismatch')
 
-        writepickle(state, self.samplefiledictionary_write[state_key])
+        writepickle(sample, self.sample_filedictionary_write[state_key])
 
     def state_read(self, state_key):
         
@@ -341,12 +341,14 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_read(self, state_key):
         
-        if self.samplefiledictionary_read is None:
+        if self.sample_filedictionary_read is None:
             return None
 
-        if state_key not in self.samplefiledictionary_read:
+        if state_key not in self.sample_filedictionary_read:
             return None #raise ValueError('time key mismatch')
 
+        return readpickle(self.sample_filedictionary_read[state_key])
+
     def measurement_write(self, measurement, measurement_key):
 
         if self.measurementfiledictionary_write is None:
@@ -471,8 +473,8 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def state_sample_read(self, sample_key):
         return self.file_read( self.sample_read_pattern, sample_key )
 
-    def prior_state_sample_read(self, sample, sample_key):
-        self.file_write(sample, self.prior_sample_read_pattern, sample_key)
+    def prior_state_sample_read(self, sample_key):
+        return self.file_read( self.prior_sample_read_pattern, sample_key )
 
     def measurement_read(self, measurement_key):
         return self.file_read(self.measurement_read_pattern, measurement_key)
@@ -492,14 +494,14 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def partial_state_marginal_std_read(self, std_key):
         return self.state_marginal_std_read(std_key)
         
-    def partial_state_sample_write(self, sample_key):
-        return self.state_sample_write(sample_key)
+    def partial_state_sample_write(self, sample, sample_key):
+        return self.state_sample_write(sample, sample_key)
     
     def partial_state_sample_read(self, sample_key):
         return self.state_sample_read(sample_key)
         
-    def partial_state_prior_sample_write(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+    def partial_state_prior_sample_write(self, sample, sample_key):
+        return self.prior_state_sample_write(sample, sample_key)
     
     def partial_state_prior_sample_read(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+        return self.prior_state_sample_read(sample_key)
-- 
2.43.0


From 6e22da1fb7ec0abcf443c4326fa30bbfa03e6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:34 +0000
Subject: [PATCH 50/54] fix: remove impossible land cells also from fields
 without gaps

---
 src/eustace/surfaceairmodel/fileio/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/post_processing.py b/src/eustace/surfaceairmodel/fileio/post_processing.py
index 8f7b2f1..54c908c 100644
--- a/src/eustace/surfaceairmodel/fileio/post_processing.py
+++ b/src/eustace/surfaceairmodel/fileio/post_processing.py
@@ -13,6 +13,6 @@ def apply_land_post_processing(results, surface_dependent_variables):
 
     results['problematic_pixels_count'] = update_mask.sum()
     for variable in [TASMIN, TASMINUNCERTAINTY, TASMAX, TASMAXUNCERTAINTY]+surface_dependent_variables:
-      results[variable.name][:].mask = numpy.logical_or(results[variable.name][:].mask, update_mask)
-      results[variable.name][:].data[:] = results[variable.name][:].filled()
+      results[variable.name].mask = numpy.logical_or(results[variable.name].mask, update_mask)
+      results[variable.name].data[:] = results[variable.name].filled()
 
-- 
2.43.0


From b9ff821f746c21fcd438f5aed0abe1cca1f9011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:34 +0000
Subject: [PATCH 51/54] fix: drop missing sources in pairs before merging

---
 src/eustace/outputformats/filesmerger.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 7fee3bc..416142b 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -20,15 +20,17 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
     original_number_of_outputs = len(outputs_main)
 
     indexes_to_remove = []
-    for index, elements in enumerate(zip(outputs_main,outputs_ancillary)):
+    for index, elements in enumerate(list(zip(outputs_main,outputs_ancillary))):
         print(elements)
-        if elements[0] is not None and os.path.isfile(elements[0]):
+        main_available, ancillary_available = [name is not None and os.path.isfile(name) for name in elements]
+        if main_available != ancillary_available:
+	    raise ValueError('Primary and ancillary files must be available for the same sources')
+
+        if main_available:
 	    number_of_sources += 1
 	else:
 	    outputs_main.remove(elements[0])
 	    indexes_to_remove.append(index)
-
-	if elements[1] is None or not(os.path.isfile(elements[1])):
 	    outputs_ancillary.remove(elements[1])
 
     print(outputs_main, outputs_ancillary)
-- 
2.43.0


From 5a262bba4ce70efdaa19ac4ac1435640162016a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:34 +0000
Subject: [PATCH 52/54] fix: merge sources without gaps

---
 src/eustace/outputformats/filesmerger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 416142b..6134d17 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -313,7 +313,7 @@ class FilesMerger(object):
     masked_array_field = handle.variables[name][...]
     masked_array_field.data[masked_array_field.data==masked_array_field.fill_value]=new_fill_value
 
-    return masked_array_field.data,masked_array_field.mask
+    return masked_array_field.data,numpy.ma.getmaskarray(masked_array_field)
 
   @staticmethod
   def build_triangular_correlation_matrix(number_of_files,sub_list_of_correlation_indexes):
-- 
2.43.0


From e1681417ae7ebbcaa0cd633b67c04069175a4124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:51 +0000
Subject: [PATCH 53/54] fix: report, not crash on, list-valued metadata of
 another length when verifying a file

---
 src/eustace/outputformats/verify/verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/verify/verify.py b/src/eustace/outputformats/verify/verify.py
index 93c525a..d10a4d8 100644
--- a/src/eustace/outputformats/verify/verify.py
+++ b/src/eustace/outputformats/verify/verify.py
@@ -1,5 +1,6 @@
 """Verify output format against a defined specification."""
 
+import numpy
 from netCDF4 import Dataset
 
 
@@ -97,7 +98,7 @@ class Verifier(object):
                         if meta_key in ncvar.__dict__:
                             test_value = ncvar.__getattribute__(meta_key)
                             if isinstance(meta_value, list):
-                                outcome = all(meta_value == test_value)
+                                outcome = numpy.array_equal(meta_value, test_value)
                             else:
                                 outcome = (meta_value == test_value)
                         self.log_outcome(v.name + '.' + meta_key + '=' + str(meta_value), outcome)
-- 
2.43.0


From 254cff63f1cab9436c1101caf77e994ecfafd330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:51 +0000
Subject: [PATCH 54/54] fix: long name of the minimum temperature uncertainty
 says minimum

---
 src/eustace/outputformats/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/outputformats/definitions.py b/src/eustace/outputformats/definitions.py
index 1c905f8..b399be9 100644
--- a/src/eustace/outputformats/definitions.py
+++ b/src/eustace/outputformats/definitions.py
@@ -184,7 +184,7 @@ TASMIN = OutputVariable.from_template(TEMPLATE_TEMPERATURE, 'tasmin', quantity='
 TASMAX = OutputVariable.from_template(TEMPLATE_TEMPERATURE, 'tasmax', quantity='maximum', cell_methods='time: maximum')
 
 TASUNCERTAINTY = OutputVariable.from_template(TEMPLATE_TEMPERATURE_UNCERTAINTY_TOTAL, 'tasuncertainty', quantity='average')
-TASMINUNCERTAINTY = OutputVariable.from_template(TEMPLATE_TEMPERATURE_UNCERTAINTY_TOTAL, 'tasminuncertainty', quantity='mimimum')
+TASMINUNCERTAINTY = OutputVariable.from_template(TEMPLATE_TEMPERATURE_UNCERTAINTY_TOTAL, 'tasminuncertainty', quantity='minimum')
 TASMAXUNCERTAINTY = OutputVariable.from_template(TEMPLATE_TEMPERATURE_UNCERTAINTY_TOTAL, 'tasmaxuncertainty', quantity='maximum')
 
 TAS_CLIMATOLOGY_FRACTION = OutputVariable.from_template(TEMPLATE_CLIMATOLOGY_FRACTION, 'tasclimatologyfraction', quantity='average')
-- 
2.43.0

