From 66fe94a932b20416263500b7d30186a9fe300ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 01/98] fix: keep zero values of stop times when writing a feed

---
 transitfeed/stoptime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 21bdea4..8af5203 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -176,8 +176,11 @@ class StopTime(object):
         result.append(trip_id)
       else:
         # Since we'll be writting to an output file, we want empty values to be
-        # outputted as an empty string
-        result.append(getattr(self, fn) or '' )
+        # outputted as an empty string. Zero is a value, not an empty one.
+        value = getattr(self, fn)
+        if value is None:
+          value = ''
+        result.append(value)
     return tuple(result)
 
   def GetSqlValuesTuple(self, trip_id):
-- 
2.43.0


From 606dcb0dd7685d94cf34233352cd8f92be37e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 02/98] fix: store a saved feed only once it is complete

---
 transitfeed/schedule.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 69e8c30..0850e1b 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -629,8 +629,12 @@ class Schedule(object):
     Returns:
       None
     """
+    # The archive is built in memory and stored in one go, so that a failure on
+    # the way neither destroys an existing file nor leaves an archive which is
+    # valid but lacks some of the tables.
+    archive_string = StringIO()
     # Compression type given when adding each file
-    archive = zipfile.ZipFile(file, 'w')
+    archive = zipfile.ZipFile(archive_string, 'w')
 
     if 'agency' in self._table_columns:
       agency_string = StringIO()
@@ -767,6 +771,15 @@ class Schedule(object):
 
     archive.close()
 
+    if isinstance(file, basestring):
+      output = open(file, 'wb')
+      try:
+        output.write(archive_string.getvalue())
+      finally:
+        output.close()
+    else:
+      file.write(archive_string.getvalue())
+
   def GenerateDateTripsDeparturesList(self, date_start, date_end):
     """Return a list of (date object, number of trips, number of departures).
 
-- 
2.43.0


From 90ac4848838fcd2e9b42f43dac5119e310d74463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 03/98] fix: report unreadable archive members and unparsable
 csv instead of raising

---
 transitfeed/loader.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 7679ceb..a26a897 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -19,7 +19,9 @@ import codecs
 import csv
 import os
 import re
+import struct
 import zipfile
+import zlib
 
 from . import gtfsfactoryuser
 from . import problems
@@ -126,7 +128,8 @@ class Loader:
         codecs.BOM_UTF16_LE):
       self._problems.FileFormat("appears to be encoded in utf-16", (file_name, ))
       # Convert and continue, so we can find more errors
-      contents = codecs.getdecoder('utf-16')(contents)[0].encode('utf-8')
+      contents = codecs.getdecoder('utf-16')(
+          contents, 'replace')[0].encode('utf-8')
 
     null_index = contents.find('\0')
     if null_index != -1:
@@ -144,6 +147,15 @@ class Loader:
     contents = contents.lstrip(codecs.BOM_UTF8)
     return contents
 
+  def _ReadCsvRows(self, reader, file_name):
+    """Yields the rows of reader, stopping at one the csv module rejects."""
+    try:
+      for row in reader:
+        yield row
+    except csv.Error as e:
+      self._problems.FileFormat('could not be parsed as csv after line %d (%s)'
+                                % (reader.line_num, e), (file_name, ))
+
   def _ReadCsvDict(self, file_name, cols, required, deprecated):
     """Reads lines from file_name, yielding a dict of unicode values."""
     assert file_name.endswith(".txt")
@@ -159,7 +171,8 @@ class Loader:
     # after fields. Space after header fields can cause a serious parsing
     # problem, so warn. Space after body fields can cause a problem time,
     # integer and id fields; they will be validated at higher levels.
-    reader = csv.reader(eol_checker, skipinitialspace=True)
+    reader = self._ReadCsvRows(csv.reader(eol_checker, skipinitialspace=True),
+                               file_name)
 
     raw_header = next(reader)
     header_occurrences = util.defaultdict(lambda: 0)
@@ -289,7 +302,8 @@ class Loader:
 
     eol_checker = util.EndOfLineChecker(StringIO(contents),
                                    file_name, self._problems)
-    reader = csv.reader(eol_checker)  # Use excel dialect
+    # Use excel dialect
+    reader = self._ReadCsvRows(csv.reader(eol_checker), file_name)
 
     header = next(reader)
     header = map(lambda x: x.strip(), header)  # trim any whitespace
@@ -389,6 +403,12 @@ class Loader:
       except KeyError:  # file not found in archve
         self._problems.MissingFile(file_name)
         return None
+      except (zipfile.BadZipfile, zlib.error, struct.error, IOError, EOFError,
+              RuntimeError) as e:
+        # Damaged, truncated, encrypted or compressed in an unknown way.
+        self._problems.FileFormat('could not be read from the archive (%s)' %
+                                  e, (file_name, ))
+        return None
     else:
       try:
         data_file = open(os.path.join(self._path, file_name), 'rb')
-- 
2.43.0


From fa7a61c9a65cea377602efaaab24c1306f075f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 04/98] fix: agency time zone check copes with agencies without
 one

---
 transitfeed/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 0850e1b..2e42f16 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -820,7 +820,8 @@ class Schedule(object):
     timezones_set = set(map(lambda agency:agency.agency_timezone,
                             self.GetAgencyList()))
     if len(timezones_set) > 1:
-      timezones_str = '"%s"' % ('", "'.join(timezones_set))
+      timezones_str = '"%s"' % ('", "'.join(
+          sorted(timezone or '' for timezone in timezones_set)))
       problems.InvalidValue('agency_timezone', timezones_str,
                             'All agencies should have the same time zone. ' \
                             'Please review agency.txt.')
-- 
2.43.0


From ee41e2d391be779fa95bcaa31097cf53ddd58ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 05/98] fix: DuplicateID can be reported for missing values

---
 transitfeed/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index 98e507b..983c8f0 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -170,7 +170,7 @@ class ProblemReporter(object):
     if isinstance(column_names, (tuple, list)):
       column_names = '(' + ', '.join(column_names) + ')'
     if isinstance(values, tuple):
-      values = '(' + ', '.join(values) + ')'
+      values = '(' + ', '.join(value or '' for value in values) + ')'
     e = DuplicateID(column_name=column_names, value=values,
                     context=context, context2=self._context, type=type)
     self.AddToAccumulator(e)
-- 
2.43.0


From 4d155a3e835948a756e0033c654588d7088f0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 06/98] fix: transfer walking time check copes with stops
 without coordinates

---
 transitfeed/transfer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/transfer.py b/transitfeed/transfer.py
index ddcd8b2..da5fddd 100755
--- a/transitfeed/transfer.py
+++ b/transitfeed/transfer.py
@@ -154,6 +154,10 @@ class Transfer(GtfsObjectBase):
       return
 
     distance = self.GetTransferDistance()
+    if distance is None:
+      # A stop without coordinates has already been reported.
+      return
+
     # If min_transfer_time + 120s isn't enough for someone walking very fast
     # (2m/s) then issue a warning.
     #
-- 
2.43.0


From 0715b9d2fbd1f992a2a08d483a6302f5ec3b291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:22 +0000
Subject: [PATCH 07/98] fix: nan and inf are not valid float values

---
 transitfeed/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 1fea2dc..60df24f 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -493,6 +493,10 @@ def FloatStringToFloat(float_string, problems=None):
     # But it does complain about float("0b10"), so this should be enough.
     raise ValueError()
 
+  if parsed_value != parsed_value or abs(parsed_value) == float('inf'):
+    # Not a number one can calculate with.
+    raise ValueError()
+
   if not match and problems is not None:
     # Does not match the regex, but it's a float according to Python
     problems.InvalidFloatValue(float_string)
-- 
2.43.0


From 6da727f753745c146711bbe5cde9dd2f97cdb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 08/98] fix: clear the file context of rows which are skipped

---
 transitfeed/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index a26a897..55ea449 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -438,6 +438,7 @@ class Loader:
           instance = object_class(field_dict=d)
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
+            self._problems.ClearContext()
             continue
           instance.AddToSchedule(self._schedule, self._problems)
           instance.ValidateAfterAdd(self._problems)
@@ -528,6 +529,7 @@ class Loader:
 
       shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
       if not shapepoint.ParseAttributes(self._problems):
+        self._problems.ClearContext()
         continue
 
       if shapepoint.shape_id in shapes:
@@ -563,6 +565,7 @@ class Loader:
       except (TypeError, ValueError):
         self._problems.InvalidValue('stop_sequence', stop_sequence,
                                     'This should be a number.')
+        self._problems.ClearContext()
         continue
       if sequence < 0:
         self._problems.InvalidValue('stop_sequence', sequence,
@@ -571,11 +574,13 @@ class Loader:
       if stop_id not in self._schedule.stops:
         self._problems.InvalidValue('stop_id', stop_id,
                                     'This value wasn\'t defined in stops.txt')
+        self._problems.ClearContext()
         continue
       stop = self._schedule.stops[stop_id]
       if trip_id not in self._schedule.trips:
         self._problems.InvalidValue('trip_id', trip_id,
                                     'This value wasn\'t defined in trips.txt')
+        self._problems.ClearContext()
         continue
       trip = self._schedule.trips[trip_id]
 
-- 
2.43.0


From 714257447179feb3546756d70c10658ac856d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 09/98] fix: origin of the first and last service date looks at
 every service period

---
 transitfeed/schedule.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 2e42f16..6093570 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -287,14 +287,17 @@ class Schedule(object):
     if not starts or not ends:
       return (None, None, None, None)
 
-    minvalue, minindex = min(itertools.izip(starts, itertools.count()))
-    maxvalue, maxindex = max(itertools.izip(ends, itertools.count()))
+    minvalue = min(starts)
+    maxvalue = max(ends)
 
-    minreason = (period_list[minindex].HasDateExceptionOn(minvalue) and
+    # Any period may define the earliest (latest) date, look at all of them.
+    minreason = (any(period.HasDateExceptionOn(minvalue)
+                     for period in period_list) and
                  "earliest service exception date in calendar_dates.txt" or
                  "earliest service date in calendar.txt")
 
-    maxreason = (period_list[maxindex].HasDateExceptionOn(maxvalue) and
+    maxreason = (any(period.HasDateExceptionOn(maxvalue)
+                     for period in period_list) and
                  "last service exception date in calendar_dates.txt" or
                  "last service date in calendar.txt")
 
-- 
2.43.0


From 519c1815268d939330cd9c458dc854719ef5dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 10/98] fix: ActiveDates copes with dates which can not be
 parsed

---
 transitfeed/serviceperiod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index 7098f54..2f971d6 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -225,6 +225,9 @@ class ServicePeriod(object):
     dates = []
     date_it = util.DateStringToDateObject(earliest)
     date_end = util.DateStringToDateObject(latest)
+    if date_it is None or date_end is None:
+      # Not a date; that is reported by Validate.
+      return []
     delta = datetime.timedelta(days=1)
     while date_it <= date_end:
       date_it_string = date_it.strftime("%Y%m%d")
-- 
2.43.0


From 4f1ec2366c838e91a528744595282fd697133cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 11/98] fix: an unknown service id does not end the block
 overlap check

---
 transitfeed/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 6093570..a69a6d8 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1271,9 +1271,9 @@ class Schedule(object):
               # error will have already been registered for the missing
               # service id.
               if trip_a.service_id not in self.service_periods:
-                return
+                continue
               if trip_b.service_id not in self.service_periods:
-                return
+                continue
 
               service_period_a = self.GetServicePeriod(trip_a.service_id)
               service_period_b = self.GetServicePeriod(trip_b.service_id)
-- 
2.43.0


From bf0c9be994bde39b3a9a1861210bf40314ce42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 12/98] fix: reports about several objects do not depend on
 hash order or memory layout

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index a69a6d8..9dab999 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1090,7 +1090,7 @@ class Schedule(object):
   def ValidateRouteNames(self, problems, validate_children):
     # Check for multiple routes using same short + long name
     route_names = {}
-    for route in self.routes.values():
+    for _, route in sorted(self.routes.items()):
       if validate_children:
         route.Validate(problems)
       short_name = ''
@@ -1121,7 +1121,7 @@ class Schedule(object):
     # (trip_id, first_arrival_secs, last_arrival_secs)
     trip_intervals_by_block_id = defaultdict(lambda: [])
 
-    for trip in sorted(self.trips.values()):
+    for _, trip in sorted(self.trips.items()):
       if trip.route_id not in self.routes:
         continue
       route_type = self.GetRoute(trip.route_id).route_type
@@ -1347,7 +1347,7 @@ class Schedule(object):
     if unused_shape_ids:
       problems.OtherProblem('The shapes with the following shape_ids aren\'t '
                             'used by any trips: %s' %
-                            ', '.join(unused_shape_ids),
+                            ', '.join(sorted(unused_shape_ids)),
                             type=problems_module.TYPE_WARNING)
 
   def Validate(self,
-- 
2.43.0


From bd0863ee298ec8dbec3c7ccc1602a44ef8a9fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 13/98] fix: duplicate transfers are reported to the given
 problem reporter

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 9dab999..26db9f3 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -559,9 +559,9 @@ class Schedule(object):
     transfer_id = transfer._ID()
 
     if transfer_id in self._transfers:
-      self.problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
-                                        transfer_id,
-                                        type=problems_module.TYPE_WARNING)
+      problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
+                                   transfer_id,
+                                   type=problems_module.TYPE_WARNING)
       # Duplicates are still added, while not prohibited by GTFS.
 
     transfer._schedule = weakref.proxy(self)  # See weakref comment at top
-- 
2.43.0


From f665e2d9efbe476344f62c63b246f6b3c9c8d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 14/98] fix: an unparseable exception date is reported at its
 own row

---
 transitfeed/serviceperiod.py | 6 +++---
 transitfeed/util.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index 2f971d6..ddd538c 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -327,7 +327,7 @@ class ServicePeriod(object):
     if util.IsEmpty(date):
       problems.MissingValue(field_name, date, context)
       return False
-    elif not util.ValidateDate(date, field_name, problems):
+    elif not util.ValidateDate(date, field_name, problems, context):
       return False
     else:
       try:
@@ -341,8 +341,8 @@ class ServicePeriod(object):
           return False
         return True
       except ValueError:
-        problems.InvalidValue(field_name, 'Could not parse date value.',
-                              date, context, problems_module.TYPE_ERROR)
+        problems.InvalidValue(field_name, date, 'Could not parse date value.',
+                              context, problems_module.TYPE_ERROR)
         return False
 
   def Validate(self, problems=problems_module.default_problem_reporter):
diff --git a/transitfeed/util.py b/transitfeed/util.py
index 60df24f..567251f 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -352,7 +352,7 @@ def IsValidDate(date):
   """
   return DateStringToDateObject(date) is not None
 
-def ValidateDate(date, column_name=None, problems=None):
+def ValidateDate(date, column_name=None, problems=None, context=None):
   """
   Validates a non-required date string value using IsValidDate():
     - if invalid adds InvalidValue error (if problems accumulator is provided)
@@ -363,7 +363,7 @@ def ValidateDate(date, column_name=None, problems=None):
     return True
   else:
     if problems:
-      problems.InvalidValue(column_name, date)
+      problems.InvalidValue(column_name, date, context=context)
     return False
 
 def ValidateRequiredFieldsAreNotEmpty(gtfs_object, required_field_names,
-- 
2.43.0


From ad71bfd0041f861086ed82afebfbd25af979ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:07 +0000
Subject: [PATCH 15/98] fix: a fare price which is not a finite number is
 reported

---
 transitfeed/fareattribute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/fareattribute.py b/transitfeed/fareattribute.py
index 712031d..0eec6a4 100755
--- a/transitfeed/fareattribute.py
+++ b/transitfeed/fareattribute.py
@@ -109,7 +109,8 @@ class FareAttribute(GtfsObjectBase):
       problems.MissingValue("price")
     elif not isinstance(self.price, float) and not isinstance(self.price, int):
       problems.InvalidValue("price", self.price)
-    elif self.price < 0:
+    elif not 0 <= self.price < float('inf'):
+      # this also covers NaN, which does not compare to anything
       problems.InvalidValue("price", self.price)
 
   def ValidateCurrencyType(self, problems):
-- 
2.43.0


From f511a72f94a6c96d0c5446102aa434569a3431dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:26 +0000
Subject: [PATCH 16/98] fix: a stop time distance which is not a finite number
 is reported

---
 transitfeed/stoptime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 8af5203..2e092a0 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -155,7 +155,11 @@ class StopTime(object):
       self.shape_dist_traveled = None
     else:
       try:
-        self.shape_dist_traveled = float(shape_dist_traveled)
+        distance = float(shape_dist_traveled)
+        # float() accepts texts such as "nan" and "inf" which are no distance
+        if not abs(distance) < float('inf'):
+          raise ValueError
+        self.shape_dist_traveled = distance
       except ValueError:
         problems.InvalidValue('shape_dist_traveled', shape_dist_traveled)
 
-- 
2.43.0


From f1a3f59f3d7a488902e5a1351fcbfd4f480d35a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 17/98] fix: a shape point may precede a point without a
 distance

---
 transitfeed/shape.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 35cfb20..28a3c21 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -69,6 +69,7 @@ class Shape(GtfsFactoryUser):
 
     if shapepoint.shape_dist_traveled is not None and len(self.sequence) > 0:
       if (index != len(self.sequence) and
+          self.distance[index] is not None and
           shapepoint.shape_dist_traveled > self.distance[index]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
-- 
2.43.0


From 9287e0d657e552cfa28b926b46afe33cb8231dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 18/98] fix: shape points without a distance are skipped when
 looking up a distance

---
 transitfeed/shape.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 28a3c21..3fcb8fa 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -139,16 +139,21 @@ class Shape(GtfsFactoryUser):
       increasing metric representing the distance traveled along the shape.
       Returns None if there is data error in shape.
     """
-    if not self.distance:
+    distances, points = self.distance, self.points
+    if None in distances:
+      # Only points which have a distance can be used.
+      points = [p for p in points if p[2] is not None]
+      distances = [p[2] for p in points]
+    if not distances:
       return None
-    if shape_dist_traveled <= self.distance[0]:
-      return self.points[0]
-    if shape_dist_traveled >= self.distance[-1]:
-      return self.points[-1]
-
-    index = bisect.bisect(self.distance, shape_dist_traveled)
-    (lat0, lng0, dist0) = self.points[index - 1]
-    (lat1, lng1, dist1) = self.points[index]
+    if shape_dist_traveled <= distances[0]:
+      return points[0]
+    if shape_dist_traveled >= distances[-1]:
+      return points[-1]
+
+    index = bisect.bisect(distances, shape_dist_traveled)
+    (lat0, lng0, dist0) = points[index - 1]
+    (lat1, lng1, dist1) = points[index]
 
     # Interpolate if shape_dist_traveled does not equal to any of the point
     # in shape segment.
-- 
2.43.0


From 0e69ad1726f6a07a6f510be86d4185f706a255d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 19/98] fix: clearing a shape also clears its sequence numbers
 and distances

---
 transitfeed/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 3fcb8fa..353ad6b 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -98,6 +98,9 @@ class Shape(GtfsFactoryUser):
 
   def ClearPoints(self):
     self.points = []
+    self.max_distance = 0
+    self.sequence = []
+    self.distance = []
 
   def __eq__(self, other):
     if not other:
-- 
2.43.0


From 7bfa7352d3f2f1c5de1a127af851ee8b1438faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 20/98] fix: a trip without stop times does not count as minus
 one departure

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 26db9f3..0e70057 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -807,7 +807,7 @@ class Schedule(object):
 
       service_id_to_trips[trip.service_id] += trip_runs
       service_id_to_departures[trip.service_id] += (
-          (trip.GetCountStopTimes() - 1) * trip_runs)
+          max(trip.GetCountStopTimes() - 1, 0) * trip_runs)
 
     date_services = self.GetServicePeriodsActiveEachDate(date_start, date_end)
     date_trips = []
-- 
2.43.0


From d9e5dcc9b966a07a95ba6d49d14d24379ddb37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 21/98] fix: a feed is not called expired during its last day
 of service

---
 transitfeed/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index 983c8f0..abdd84a 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -689,7 +689,8 @@ class ExpirationDate(ExceptionWithContext):
     expiration = d['expiration']
     formatted_date = time.strftime("%B %d, %Y",
                                    time.localtime(expiration))
-    if (expiration < time.mktime(time.localtime())):
+    # The feed is still valid during the day it expires on.
+    if time.localtime(expiration)[:3] < time.localtime()[:3]:
       return "This feed expired on %s (%s)" % (formatted_date,
                                                expiration_origin_file)
     else:
-- 
2.43.0


From 6a629d258d8629eeb7a326d863d7e3396e7537db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:49 +0000
Subject: [PATCH 22/98] fix: a blank feed_end_date is not earlier than
 feed_start_date

---
 transitfeed/feedinfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/feedinfo.py b/transitfeed/feedinfo.py
index a936d9d..de8da0e 100644
--- a/transitfeed/feedinfo.py
+++ b/transitfeed/feedinfo.py
@@ -51,6 +51,7 @@ class FeedInfo(transitfeed.GtfsObjectBase):
                                                 'feed_end_date', problems)
 
     if (start_date_valid and end_date_valid and
+        self.feed_start_date and self.feed_end_date and
         self.feed_end_date < self.feed_start_date):
         problems.InvalidValue('feed_end_date', self.feed_end_date,
                               'feed_end_date %s is earlier than '
-- 
2.43.0


From 50c188dd5510e3526d93ab615f6cc339ed2ab45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 23/98] fix: SortListOfTripByTime uses the start time method of
 the trips

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ae9b374..da0e2fd 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -764,4 +764,4 @@ class Trip(GtfsObjectBase):
 
 
 def SortListOfTripByTime(trips):
-  trips.sort(key=GetStartTime)
+  trips.sort(key=lambda trip: trip.GetStartTime())
-- 
2.43.0


From ad00c3b71eb640f965d81bf401350768cb1f37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 24/98] fix: times of untimed stops at one place can be
 interpolated

---
 transitfeed/trip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index da0e2fd..49251a9 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -208,7 +208,11 @@ class Trip(GtfsObjectBase):
         rv.append( (st.GetTimeSecs(), st, True) )
       else:
         distance_traveled_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[i-1].stop, st.stop)
-        distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        if distance_between_timepoints:
+          distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        else:
+          # All these stops are at the same place.
+          distance_percent = 0
         total_time = next_timepoint.GetTimeSecs() - cur_timepoint.GetTimeSecs()
         time_estimate = distance_percent * total_time + cur_timepoint.GetTimeSecs()
         rv.append( (int(round(time_estimate)), st, False) )
-- 
2.43.0


From 2a93538f64985b6a92d8a5b3041cdc36204a0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 25/98] fix: interpolating stop times copes with stops without
 coordinates

---
 transitfeed/trip.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 49251a9..3c6f9e9 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -167,6 +167,11 @@ class Trip(GtfsObjectBase):
         'SELECT count(*) FROM stop_times WHERE trip_id=?', (self.trip_id,))
     return cursor.fetchone()[0]
 
+  @staticmethod
+  def _DistanceOrZero(stop1, stop2):
+    """Distance between two stops, 0 if one of them has no coordinates."""
+    return util.ApproximateDistanceBetweenStops(stop1, stop2) or 0
+
   def GetTimeInterpolatedStops(self):
     """Return a list of (secs, stoptime, is_timepoint) tuples.
 
@@ -200,14 +205,14 @@ class Trip(GtfsObjectBase):
         distance_traveled_between_timepoints = 0
         if i + 1 < len(stoptimes):
           k = i + 1
-          distance_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[k-1].stop, stoptimes[k].stop)
+          distance_between_timepoints += self._DistanceOrZero(stoptimes[k-1].stop, stoptimes[k].stop)
           while stoptimes[k].GetTimeSecs() == None:
             k += 1
-            distance_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[k-1].stop, stoptimes[k].stop)
+            distance_between_timepoints += self._DistanceOrZero(stoptimes[k-1].stop, stoptimes[k].stop)
           next_timepoint = stoptimes[k]
         rv.append( (st.GetTimeSecs(), st, True) )
       else:
-        distance_traveled_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[i-1].stop, st.stop)
+        distance_traveled_between_timepoints += self._DistanceOrZero(stoptimes[i-1].stop, st.stop)
         if distance_between_timepoints:
           distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
         else:
-- 
2.43.0


From 0e13820998963777e5d39ee50075785d6366a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 26/98] fix: runs of a trip without stop times or without a
 first arrival time

---
 transitfeed/trip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 3c6f9e9..304180e 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -281,7 +281,11 @@ class Trip(GtfsObjectBase):
     """
     stoptimes_list = [] # list of stoptime lists to be returned
     stoptime_pattern = self.GetStopTimes()
-    first_secs = stoptime_pattern[0].arrival_secs # first time of the trip
+    if not stoptime_pattern:
+      return stoptimes_list
+    if problems is None:
+      problems = problems_module.default_problem_reporter
+    first_secs = stoptime_pattern[0].GetTimeSecs() # first time of the trip
     stoptime_class = self.GetGtfsFactory().StopTime
     # for each start time of a headway run
     for run_secs in self.GetFrequencyStartTimes():
-- 
2.43.0


From a12cb211dcd7c4a49759935064d8e230e710b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 27/98] fix: start and end time of a trip without stop times

---
 transitfeed/trip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 304180e..53e2280 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -320,7 +320,7 @@ class Trip(GtfsObjectBase):
     cursor.execute(
         'SELECT arrival_secs,departure_secs FROM stop_times WHERE '
         'trip_id=? ORDER BY stop_sequence LIMIT 1', (self.trip_id,))
-    (arrival_secs, departure_secs) = cursor.fetchone()
+    (arrival_secs, departure_secs) = cursor.fetchone() or (None, None)
     if arrival_secs != None:
       return arrival_secs
     elif departure_secs != None:
@@ -362,7 +362,7 @@ class Trip(GtfsObjectBase):
     cursor.execute(
         'SELECT arrival_secs,departure_secs FROM stop_times WHERE '
         'trip_id=? ORDER BY stop_sequence DESC LIMIT 1', (self.trip_id,))
-    (arrival_secs, departure_secs) = cursor.fetchone()
+    (arrival_secs, departure_secs) = cursor.fetchone() or (None, None)
     if departure_secs != None:
       return departure_secs
     elif arrival_secs != None:
-- 
2.43.0


From d8b64e6de007fba5cf387fa4fe5d834ea9333d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 28/98] fix: the deprecated ways to add a headway period pass
 their arguments on

---
 transitfeed/trip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 53e2280..80b1546 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -394,7 +394,7 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequencyObject(frequency, problem_reporter)
+    self.AddFrequencyObject(headway_period, problem_reporter)
 
   def AddFrequencyObject(self, frequency, problem_reporter):
     """Add a Frequency object to this trip's list of Frequencies."""
@@ -411,7 +411,8 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequency(start_time, end_time, headway_secs, problem_reporter)
+    self.AddFrequency(start_time, end_time, headway_secs,
+                      problem_reporter=problem_reporter)
 
   def AddFrequency(self, start_time, end_time, headway_secs, exact_times=0,
       problem_reporter=problems_module.default_problem_reporter):
-- 
2.43.0


From 0115e8b5e5969b9b081618417766352d434d429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 29/98] fix: message about a missing stop_sequence

---
 transitfeed/stop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/stop.py b/transitfeed/stop.py
index 4e5e162..896ab0c 100755
--- a/transitfeed/stop.py
+++ b/transitfeed/stop.py
@@ -116,7 +116,7 @@ class Stop(GtfsObjectBase):
           break
       else:
         raise RuntimeError("stop_sequence %d not found in trip_id %s" %
-                           sequence, trip.trip_id)
+                           (sequence, trip.trip_id))
     return trip_index
 
   def GetStopTimeTrips(self, schedule=None):
-- 
2.43.0


From a5f1ef1dfd61b02e6ffcb1c7d4756309cfcfd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 30/98] fix: the pattern of a trip follows changes of its stop
 times

---
 transitfeed/trip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 80b1546..84cba60 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -80,6 +80,7 @@ class Trip(GtfsObjectBase):
     The trip isn't checked for duplicate sequence numbers so it must be
     validated later."""
     stop_time_class = self.GetGtfsFactory().StopTime
+    self.__dict__.pop('_pattern_id', None)
     cursor = schedule._connection.cursor()
     insert_query = "INSERT INTO stop_times (%s) VALUES (%s);" % (
        ','.join(stop_time_class._SQL_FIELD_NAMES),
@@ -230,6 +231,7 @@ class Trip(GtfsObjectBase):
     StopTime objects previously returned by GetStopTimes are unchanged but are
     no longer associated with this trip.
     """
+    self.__dict__.pop('_pattern_id', None)
     cursor = self._schedule._connection.cursor()
     cursor.execute('DELETE FROM stop_times WHERE trip_id=?', (self.trip_id,))
 
-- 
2.43.0


From cceee88dec636b20dfd86dd99394b9c108b490a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 31/98] fix: replacing a stop time notices a missing one and is
 atomic

---
 transitfeed/trip.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 84cba60..f44d51c 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -99,14 +99,19 @@ class Trip(GtfsObjectBase):
     if schedule is None:
       schedule = self._schedule
 
-    new_secs = stoptime.GetTimeSecs()
+    condition = "WHERE trip_id=? and stop_sequence=? and stop_id=?"
+    key = (self.trip_id, stoptime.stop_sequence, stoptime.stop_id)
     cursor = schedule._connection.cursor()
-    cursor.execute("DELETE FROM stop_times WHERE trip_id=? and "
-                   "stop_sequence=? and stop_id=?",
-                   (self.trip_id, stoptime.stop_sequence, stoptime.stop_id))
-    if cursor.rowcount == 0:
+    # Not every database driver sets cursor.rowcount.
+    cursor.execute("SELECT count(*) FROM stop_times %s" % condition, key)
+    if cursor.fetchone()[0] == 0:
       raise problems_module.Error('Attempted replacement of StopTime object which does not exist')
-    self._AddStopTimeObjectUnordered(stoptime, schedule)
+    # A single statement, so that the old StopTime is not lost if it fails.
+    cursor.execute("UPDATE stop_times SET %s %s" %
+                   (','.join('%s=?' % name for name in
+                             self.GetGtfsFactory().StopTime._SQL_FIELD_NAMES),
+                    condition),
+                   tuple(stoptime.GetSqlValuesTuple(self.trip_id)) + key)
 
   def AddStopTimeObject(self, stoptime, schedule=None, problems=None):
     """Add a StopTime object to the end of this trip.
-- 
2.43.0


From 8a4f183e17753e9b440bc02184a986ab1d20f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 32/98] fix: the start times of runs are sorted, as documented

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index f44d51c..153a4bb 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -360,6 +360,7 @@ class Trip(GtfsObjectBase):
         start_times.append(run_secs)
         # increment current run secs by headway secs
         run_secs += headway_secs
+    start_times.sort()
     return start_times
 
   def GetEndTime(self, problems=problems_module.default_problem_reporter):
-- 
2.43.0


From 422d654e8c6ab7f0dd8870ecc2ae98429ac17dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 33/98] fix: a frequency with a negative start time is not
 added

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 153a4bb..e54365f 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -453,6 +453,7 @@ class Trip(GtfsObjectBase):
         return
     elif start_time < 0:
       problem_reporter.InvalidValue('start_time', start_time)
+      return
 
     if end_time == None or end_time == '':
       problem_reporter.MissingValue('end_time')
-- 
2.43.0


From af4be555704b9c192826c6846a877d70c5eff094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:12 +0000
Subject: [PATCH 34/98] fix: a column named like an internal attribute does not
 replace it

---
 transitfeed/loader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 55ea449..d9b85c9 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -429,12 +429,18 @@ class Loader:
         pass # File is not required, and feed does not have it.
       else:
         object_class = self._gtfs_factory.GetGtfsClassByFileName(filename)
+        # Columns which would replace something objects keep for themselves.
+        # They are unrecognized columns and were reported as such.
+        private_names = set(n for n in vars(object_class()) if n[0] == '_')
         for (d, row_num, header, row) in self._ReadCsvDict(
                                        filename,
                                        object_class._FIELD_NAMES,
                                        object_class._REQUIRED_FIELD_NAMES,
                                        object_class._DEPRECATED_FIELD_NAMES):
           self._problems.SetFileContext(filename, row_num, row, header)
+          for name in d.keys():
+            if name in private_names or hasattr(object_class, name):
+              del d[name]
           instance = object_class(field_dict=d)
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
-- 
2.43.0


From ad8aaec5fdc005a4f8d65d72088cc1278f4b1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 35/98] fix: values in the HTML report are escaped and encoded

---
 feedvalidator.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/feedvalidator.py b/feedvalidator.py
index 06de811..0e11e7a 100755
--- a/feedvalidator.py
+++ b/feedvalidator.py
@@ -22,6 +22,7 @@ For usage information run feedvalidator.py --help
 from __future__ import print_function
 
 import bisect
+import cgi
 import codecs
 import datetime
 from transitfeed.util import defaultdict
@@ -47,6 +48,13 @@ def PrettyNumberWord(count, word):
   return '%d %s' % (count, MaybePluralizeWord(count, word))
 
 
+def EscapeHTML(text):
+  """Return text, a string or object, as UTF-8 which is safe within HTML."""
+  if not isinstance(text, basestring):
+    text = str(text)
+  return cgi.escape(transitfeed.EncodeUnicode(text), True)
+
+
 def UnCamelCase(camel):
   return re.sub(r'([a-z])([A-Z])', r'\1 \2', camel)
 
@@ -298,6 +306,9 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
   def FormatException(self, e, output):
     """Append HTML version of e to list output."""
     d = e.GetDictToFormat()
+    for k, v in d.items():
+      if isinstance(v, basestring):
+        d[k] = EscapeHTML(v)
     for k in ('file_name', 'feedname', 'column_name'):
       if k in d.keys():
         d[k] = '<code>%s</code>' % d[k]
@@ -317,7 +328,7 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
       else:
         line_str = ''
       output.append('in %s<code>%s</code><br>\n' %
-                    (line_str, transitfeed.EncodeUnicode(e.file_name)))
+                    (line_str, EscapeHTML(e.file_name)))
       row = e.row
       headers = e.headers
       column_name = e.column_name
@@ -327,13 +338,10 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
         attributes = ''
         if header == column_name:
           attributes = ' class="problem"'
-        table_header += '<th%s>%s</th>' % (attributes, header)
-        table_data += '<td%s>%s</td>' % (attributes, value)
-      # Make sure output is encoded into UTF-8
-      output.append('<table class="dump"><tr>%s</tr>\n' %
-                    transitfeed.EncodeUnicode(table_header))
-      output.append('<tr>%s</tr></table>\n' %
-                    transitfeed.EncodeUnicode(table_data))
+        table_header += '<th%s>%s</th>' % (attributes, EscapeHTML(header))
+        table_data += '<td%s>%s</td>' % (attributes, EscapeHTML(value))
+      output.append('<table class="dump"><tr>%s</tr>\n' % table_header)
+      output.append('<tr>%s</tr></table>\n' % table_data)
     except AttributeError as e:
       pass  # Hope this was getting an attribute from e ;-)
     output.append('<br></li>\n')
@@ -385,7 +393,8 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
     basename = os.path.basename(feed_location)
     feed_path = (feed_location[:feed_location.rfind(basename)], basename)
 
-    agencies = ', '.join(['<a href="%s">%s</a>' % (a.agency_url, a.agency_name)
+    agencies = ', '.join(['<a href="%s">%s</a>' %
+                          (EscapeHTML(a.agency_url), EscapeHTML(a.agency_name))
                           for a in schedule.GetAgencyList()])
     if not agencies:
       agencies = '?'
@@ -460,17 +469,17 @@ FeedValidator extension used: %(extension)s
 <br>
 %(problem_summary)s
 <br><br>
-""" % { "feed_file": feed_path[1],
-        "feed_dir": feed_path[0],
+""" % { "feed_file": EscapeHTML(feed_path[1]),
+        "feed_dir": EscapeHTML(feed_path[0]),
         "agencies": agencies,
         "routes": len(schedule.GetRouteList()),
         "stops": len(schedule.GetStopList()),
         "trips": len(schedule.GetTripList()),
         "shapes": len(schedule.GetShapeList()),
-        "dates": dates,
+        "dates": EscapeHTML(dates),
         "problem_summary": summary,
         "calendar_summary": calendar_summary_html,
-        "extension": extension}
+        "extension": EscapeHTML(extension)}
 
 # In output_suffix string
 # time.strftime() returns a regular local time string (not a Unicode one) with
-- 
2.43.0


From 317613f6cd29380f73bc2e13eb7f3c0d4c2b074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 36/98] fix: the context of a problem is encoded before it is
 printed

---
 transitfeed/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index abdd84a..666bd6c 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -372,7 +372,7 @@ class SimpleProblemAccumulator(ProblemAccumulatorInterface):
   def _Report(self, e):
     context = e.FormatContext()
     if context:
-      print(context)
+      print(util.EncodeUnicode(context))
     print(util.EncodeUnicode(self._LineWrap(e.FormatProblem(), 78)))
 
   @staticmethod
-- 
2.43.0


From 18d3b2430ef3229f1a0ef95cd02d044537a62755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:49 +0000
Subject: [PATCH 37/98] fix: the HTML report is valid UTF-8 whatever bytes a
 header has

---
 feedvalidator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feedvalidator.py b/feedvalidator.py
index 0e11e7a..be723fe 100755
--- a/feedvalidator.py
+++ b/feedvalidator.py
@@ -52,6 +52,8 @@ def EscapeHTML(text):
   """Return text, a string or object, as UTF-8 which is safe within HTML."""
   if not isinstance(text, basestring):
     text = str(text)
+  if isinstance(text, str):
+    text = text.decode('utf-8', 'replace')  # A header can have any bytes
   return cgi.escape(transitfeed.EncodeUnicode(text), True)
 
 
-- 
2.43.0


From a888ad7612b3433987e19fc755dfaa76af8546da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 38/98] fix: a column of shapes.txt named like an internal
 attribute does not replace it

---
 transitfeed/loader.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index d9b85c9..4ea8337 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -429,18 +429,13 @@ class Loader:
         pass # File is not required, and feed does not have it.
       else:
         object_class = self._gtfs_factory.GetGtfsClassByFileName(filename)
-        # Columns which would replace something objects keep for themselves.
-        # They are unrecognized columns and were reported as such.
-        private_names = set(n for n in vars(object_class()) if n[0] == '_')
         for (d, row_num, header, row) in self._ReadCsvDict(
                                        filename,
                                        object_class._FIELD_NAMES,
                                        object_class._REQUIRED_FIELD_NAMES,
                                        object_class._DEPRECATED_FIELD_NAMES):
           self._problems.SetFileContext(filename, row_num, row, header)
-          for name in d.keys():
-            if name in private_names or hasattr(object_class, name):
-              del d[name]
+          self._DropInternalNames(object_class, d)
           instance = object_class(field_dict=d)
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
@@ -450,6 +445,16 @@ class Loader:
           instance.ValidateAfterAdd(self._problems)
           self._problems.ClearContext()
 
+  def _DropInternalNames(self, object_class, d):
+    """Remove columns which would replace what objects keep for themselves.
+
+    These are unrecognized columns and were reported as such.
+    """
+    for name in d.keys():
+      if hasattr(object_class, name) or (name.startswith('_') and
+                                         hasattr(object_class(), name)):
+        del d[name]
+
   def _LoadCalendar(self):
     file_name = 'calendar.txt'
     file_name_dates = 'calendar_dates.txt'
@@ -533,6 +538,7 @@ class Loader:
       file_context = (file_name, row_num, row, header)
       self._problems.SetFileContext(*file_context)
 
+      self._DropInternalNames(self._gtfs_factory.ShapePoint, d)
       shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
       if not shapepoint.ParseAttributes(self._problems):
         self._problems.ClearContext()
-- 
2.43.0


From 97f5bf5a33617a346ad27a1b09ee8248752b4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 39/98] fix: a connection which breaks during the new version
 check is no crash

---
 transitfeed/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 567251f..7b65735 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -18,6 +18,7 @@ from __future__ import print_function
 from __future__ import absolute_import
 import codecs
 import csv
+import httplib
 import datetime
 import math
 import optparse
@@ -212,6 +213,13 @@ def CheckVersion(problems, latest_version=None):
       problems.OtherProblem(
         description=description, type=errors.TYPE_NOTICE)
       return
+    except (EnvironmentError, httplib.HTTPException) as e:
+      # The connection broke or timed out, or the answer is not HTTP.
+      description = ('During the new-version check, we failed to reach '
+                     'transitfeed server. Reason: %s.' % e)
+      problems.OtherProblem(
+        description=description, type=errors.TYPE_NOTICE)
+      return
 
   if not latest_version:
     description = ('During the new-version check, we had trouble parsing the '
-- 
2.43.0


From 29bc7f95985a4307037ee50d9d8fdd2cea9c2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 40/98] fix: a crash report which can not be written does not
 hide the crash

---
 transitfeed/util.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 7b65735..0e2bb7b 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -103,16 +103,20 @@ or an email to the public group transitfeed@googlegroups.com. Sorry!
 
     dump.append(''.join(formatted_exception))
 
-    open('transitfeedcrash.txt', 'w').write(''.join(dump))
-
-    print(''.join(dump))
-    print()
-    print(dashes)
-    print(apology)
+    # Neither a full disk nor a broken terminal may hide the crash.
+    try:
+      with open('transitfeedcrash.txt', 'w') as crash_file:
+        crash_file.write(''.join(dump))
+    except EnvironmentError as e:
+      dump.append('transitfeedcrash.txt could not be written: %s\n' % e)
 
     try:
+      print(''.join(dump))
+      print()
+      print(dashes)
+      print(apology)
       raw_input('Press enter to continue...')
-    except EOFError:
+    except (EOFError, EnvironmentError):
       # Ignore stdin being closed. This happens during some tests.
       pass
     sys.exit(127)
-- 
2.43.0


From fbf445440c27647ab64a7baa803c5b628a3ef939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:49 +0000
Subject: [PATCH 41/98] fix: the KML writer closes its file, so that it notices
 a full disk

---
 kmlwriter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kmlwriter.py b/kmlwriter.py
index 34163d9..c763c57 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -728,8 +728,12 @@ class KMLWriter(object):
       output = output_file
     else:
       output = open(output_file, 'w')
-    output.write("""<?xml version="1.0" encoding="UTF-8"?>\n""")
-    ET.ElementTree(root).write(output, 'utf-8')
+    try:
+      output.write("""<?xml version="1.0" encoding="UTF-8"?>\n""")
+      ET.ElementTree(root).write(output, 'utf-8')
+    finally:
+      if output is not output_file:
+        output.close()
 
 
 def main():
-- 
2.43.0


From c6dba4f0162bd0263215c1ef9edd58645acc8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 42/98] fix: truncating service periods which are outside of
 the range or have no range

---
 merge.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/merge.py b/merge.py
index 0991096..2d1d468 100755
--- a/merge.py
+++ b/merge.py
@@ -1183,8 +1183,6 @@ class ServicePeriodMerger(DataSetMerger):
         start: The start date as a string in YYYYMMDD format.
         end: The end date as a string in YYYYMMDD format.
       """
-      service_period.start_date = max(service_period.start_date, start)
-      service_period.end_date = min(service_period.end_date, end)
       dates_to_delete = []
       for k in service_period.date_exceptions:
         if (k < start) or (k > end):
@@ -1192,6 +1190,22 @@ class ServicePeriodMerger(DataSetMerger):
       for k in dates_to_delete:
         del service_period.date_exceptions[k]
 
+      if service_period.start_date or service_period.end_date:
+        first = service_period.start_date or service_period.end_date
+        last = service_period.end_date or service_period.start_date
+        service_period.start_date = max(first, start)
+        service_period.end_date = min(last, end)
+        if service_period.start_date <= service_period.end_date:
+          return
+      elif service_period.date_exceptions or not dates_to_delete:
+        return  # Defined by the dates in calendar_dates.txt alone
+
+      # Nothing is left of the regular service. Keep a valid service period
+      # for the trips which refer to it.
+      service_period.day_of_week = [False] * len(service_period.day_of_week)
+      edge = end if start == '0' * 8 else start
+      service_period.start_date = service_period.end_date = edge
+
     # find the date one day before cutoff
     year = int(cutoff[:4])
     month = int(cutoff[4:6])
@@ -1201,7 +1215,7 @@ class ServicePeriodMerger(DataSetMerger):
     before = (cutoff_date - one_day_delta).strftime('%Y%m%d')
 
     for a in self.feed_merger.a_schedule.GetServicePeriodList():
-      TruncatePeriod(a, 0, before)
+      TruncatePeriod(a, '0' * 8, before)
     for b in self.feed_merger.b_schedule.GetServicePeriodList():
       TruncatePeriod(b, cutoff, '9'*8)
 
-- 
2.43.0


From 41de43eeb587130a1e0bd2d67e6f46b42a9c0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:38 +0000
Subject: [PATCH 43/98] fix: --latest_version copes with None and with what is
 no version

---
 transitfeed/util.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 0e2bb7b..67ae517 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -192,6 +192,9 @@ def CheckVersion(problems, latest_version=None):
     latest_version: if specified, override the latest version read from the
       project page
   """
+  if latest_version == 'None':  # The option given as documented
+    latest_version = None
+
   if not latest_version:
     timeout = 20
     socket.setdefaulttimeout(timeout)
@@ -232,7 +235,14 @@ def CheckVersion(problems, latest_version=None):
       description=description, type=errors.TYPE_NOTICE)
     return
 
-  newest_version = _MaxVersion([latest_version, __version__])
+  if not re.match(r'\d+(\.\d+)*$', latest_version):
+    description = ('During the new-version check, we had trouble parsing the '
+                   'version number "%s".' % latest_version)
+    problems.OtherProblem(
+      description=description, type=errors.TYPE_NOTICE)
+    return
+
+  newest_version = _MaxVersion([__version__, latest_version])
   if __version__ != newest_version:
     problems.NewVersionAvailable(newest_version)
 
-- 
2.43.0


From d03a13e50a5602b7139d9b7961883d45b3514987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 44/98] fix: merge keeps the transfers of both feeds

---
 merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge.py b/merge.py
index 2d1d468..516a666 100755
--- a/merge.py
+++ b/merge.py
@@ -1736,6 +1736,7 @@ class FeedMerger(object):
     self.AddMerger(RouteMerger(self))
     self.AddMerger(ServicePeriodMerger(self))
     self.AddMerger(FareMerger(self))
+    self.AddMerger(TransferMerger(self))
     self.AddMerger(ShapeMerger(self))
     self.AddMerger(TripMerger(self))
     self.AddMerger(FareRuleMerger(self))
-- 
2.43.0


From 98bcdafe1a704cd146dd0e8114a306a65d5990d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 45/98] fix: merge keeps the timepoint of stop times

---
 merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index 516a666..ac46ee5 100755
--- a/merge.py
+++ b/merge.py
@@ -1489,7 +1489,8 @@ class TripMerger(DataSetMerger):
           original_stop_time.drop_off_type,
           original_stop_time.shape_dist_traveled,
           original_stop_time.arrival_secs,
-          original_stop_time.departure_secs)
+          original_stop_time.departure_secs,
+          timepoint=original_stop_time.timepoint)
       migrated_trip.AddStopTimeObject(migrated_stop_time)
 
     for headway_period in original_trip.GetFrequencyTuples():
-- 
2.43.0


From d856bf03491fcfdaf4d090f8bd76f733f9839218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 46/98] fix: merge does not invent fare zones for stops without
 one

---
 merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index ac46ee5..3a40f75 100755
--- a/merge.py
+++ b/merge.py
@@ -1032,7 +1032,7 @@ class StopMerger(DataSetMerger):
     for stop, migrated_stop in not_merged_stops:
       if stop.zone_id in zone_map:
         migrated_stop.zone_id = zone_map[stop.zone_id]
-      else:
+      elif stop.zone_id:
         migrated_stop.zone_id = self.feed_merger.GenerateId(stop.zone_id)
         zone_map[stop.zone_id] = migrated_stop.zone_id
       if stop.parent_station:
-- 
2.43.0


From 2178a4e87e1dd604cc7d91566a9cfacfe456a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 47/98] fix: merge copes with agencies without an id

---
 merge.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/merge.py b/merge.py
index 3a40f75..fd896da 100755
--- a/merge.py
+++ b/merge.py
@@ -472,17 +472,19 @@ class DataSetMerger(object):
                   merged agency.
       KeyError: Either aaid or baid is not a valid agency id.
     """
-    a_agency_id = (a_agency_id or
-                   self.feed_merger.a_schedule.GetDefaultAgency().agency_id)
-    b_agency_id = (b_agency_id or
-                   self.feed_merger.b_schedule.GetDefaultAgency().agency_id)
-    a_agency = self.feed_merger.a_schedule.GetAgency(
-        a_agency_id)._migrated_entity
-    b_agency = self.feed_merger.b_schedule.GetAgency(
-        b_agency_id)._migrated_entity
-    if a_agency != b_agency:
+    def MigratedAgency(schedule, agency_id):
+      if agency_id:
+        agency = schedule.GetAgency(agency_id)
+      else:
+        # None if the schedule has several agencies
+        agency = schedule.GetDefaultAgency()
+      return agency and agency._migrated_entity
+
+    a_agency = MigratedAgency(self.feed_merger.a_schedule, a_agency_id)
+    b_agency = MigratedAgency(self.feed_merger.b_schedule, b_agency_id)
+    if a_agency is not b_agency:
       raise MergeError('agency must be the same')
-    return a_agency.agency_id
+    return a_agency and a_agency.agency_id
 
   def _SchemedMerge(self, scheme, a, b):
     """Tries to merge two entities according to a merge scheme.
@@ -836,7 +838,17 @@ class AgencyMerger(DataSetMerger):
     return schedule.GetAgencyList()
 
   def _GetById(self, schedule, agency_id):
-    return schedule.GetAgency(agency_id)
+    # None and '' are regarded as being the same.
+    for agency in schedule.GetAgencyList():
+      if (agency.agency_id or None) == (agency_id or None):
+        return agency
+    raise KeyError(agency_id)
+
+  def _HasId(self, schedule, agency_id):
+    # An agency may only be without an id while it is the only one.
+    if not agency_id and schedule.GetAgencyList():
+      return True
+    return DataSetMerger._HasId(self, schedule, agency_id)
 
   def _MergeEntities(self, a, b):
     """Merges two agencies.
@@ -1074,7 +1086,8 @@ class RouteMerger(DataSetMerger):
     else:
       original_agency = schedule.GetDefaultAgency()
 
-    migrated_route.agency_id = original_agency._migrated_entity.agency_id
+    if original_agency:
+      migrated_route.agency_id = original_agency._migrated_entity.agency_id
     return migrated_route
 
   def _Add(self, a, b, migrated_route):
-- 
2.43.0


From b36a851d6cd37fd2e659572f02f9b14c7bc6e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:34 +0000
Subject: [PATCH 48/98] fix: merge never gives a fare zone the id of another
 zone

---
 merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge.py b/merge.py
index fd896da..834898c 100755
--- a/merge.py
+++ b/merge.py
@@ -1655,6 +1655,7 @@ class FeedMerger(object):
 
     id_data_sets = {'agency_id': schedule.GetAgencyList(),
                     'stop_id': schedule.GetStopList(),
+                    'zone_id': schedule.GetStopList(),
                     'route_id': schedule.GetRouteList(),
                     'trip_id': schedule.GetTripList(),
                     'service_id': schedule.GetServicePeriodList(),
-- 
2.43.0


From 4993bb25acfe21b1018a8602f565f0ea1038309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:55 +0000
Subject: [PATCH 49/98] fix: merge takes a missing column for an empty one

---
 merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index 834898c..a59331d 100755
--- a/merge.py
+++ b/merge.py
@@ -404,7 +404,8 @@ class DataSetMerger(object):
     Raises:
       MergeError: The values were not identical.
     """
-    if a != b:
+    # A column which is missing means the same as an empty one.
+    if a != b and (a not in (None, '') or b not in (None, '')):
       raise MergeError("values must be identical ('%s' vs '%s')" %
                        (transitfeed.EncodeUnicode(a),
                         transitfeed.EncodeUnicode(b)))
@@ -1002,7 +1003,7 @@ class StopMerger(DataSetMerger):
 
     # the zone_ids for merged stops can be preserved
     for (a, b, merged_stop) in self._merged:
-      assert a.zone_id == b.zone_id
+      assert (a.zone_id or None) == (b.zone_id or None)
       fm.a_zone_map[a.zone_id] = a.zone_id
       fm.b_zone_map[b.zone_id] = b.zone_id
       merged_stop.zone_id = a.zone_id
-- 
2.43.0


From 09e259a2722fe5f3ad00ade86d215276d15e2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 50/98] fix: service periods without any service do not overlap

---
 merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/merge.py b/merge.py
index a59331d..4027b8a 100755
--- a/merge.py
+++ b/merge.py
@@ -1251,6 +1251,8 @@ class ServicePeriodMerger(DataSetMerger):
       a_start, a_end = a_service_period.GetDateRange()
       for b_service_period in b_service_periods:
         b_start, b_end = b_service_period.GetDateRange()
+        if a_start is None or b_start is None:
+          continue  # A service period without any day of service.
         overlap_start = max(a_start, b_start)
         overlap_end = min(a_end, b_end)
         if overlap_end >= overlap_start:
-- 
2.43.0


From 5fd34cebb4455470ebbae5410302fe6faebee71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 51/98] fix: the merge results page escapes ids, values and
 paths

---
 merge.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index 4027b8a..bf97743 100755
--- a/merge.py
+++ b/merge.py
@@ -42,6 +42,7 @@ from __future__ import print_function
 __author__ = 'timothy.stranex@gmail.com (Timothy Stranex)'
 
 
+import cgi
 import datetime
 import optparse
 import os
@@ -80,6 +81,11 @@ def ApproximateDistanceBetweenPoints(pa, pb):
   return transitfeed.ApproximateDistanceBetweenStops(sa, sb)
 
 
+def EscapeHTML(text):
+  """Return text, a string, as UTF-8 which is safe within HTML."""
+  return cgi.escape(transitfeed.EncodeUnicode(text), True)
+
+
 class Error(Exception):
   """The base exception class for this module."""
 
@@ -186,7 +192,7 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
       self._error_count += 1
 
     problem_html = '<li>%s</li>' % (
-        merge_problem.FormatProblem().replace('\n', '<br>'))
+        EscapeHTML(merge_problem.FormatProblem()).replace('\n', '<br>'))
     dataset_problems.setdefault(merge_problem.dataset_merger, []).append(
         problem_html)
 
@@ -296,7 +302,9 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
       html_merged_feed_path = ''
     else:
       html_merged_feed_path = '<p>Merged feed created: <code>%s</code></p>' % (
-          merged_feed_path)
+          EscapeHTML(merged_feed_path))
+    old_feed_path = EscapeHTML(old_feed_path)
+    new_feed_path = EscapeHTML(new_feed_path)
 
     html_header = """<html>
 <head>
-- 
2.43.0


From 7547296a26de726e1bc2531124c328b8dc17490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 52/98] fix: the schedule viewer answers routerow again

---
 schedule_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 0ac217c..e2a8210 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -279,7 +279,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def handle_json_GET_routerow(self, params):
     schedule = self.server.schedule
     route = schedule.GetRoute(params.get('route', None))
-    return [transitfeed.Route._FIELD_NAMES, route.GetFieldValuesTuple()]
+    field_names = transitfeed.Route._FIELD_NAMES
+    return [field_names, [route[name] for name in field_names]]
 
   def handle_json_GET_triprows(self, params):
     """Return a list of rows from the feed file that are related to this
-- 
2.43.0


From d2803e976261b6df73454ddff49ed956b95faf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 53/98] fix: the next trips at a stop are looked for among
 those of the date

---
 schedule_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index e2a8210..5cedc2f 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -379,10 +379,11 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     # Keep the first 5 after param 'time'.
     # Need make a tuple to find correct bisect point
     time_trips = time_trips[bisect.bisect_left(time_trips, (time, 0)):]
-    time_trips = time_trips[:5]
     # TODO: combine times for a route to show next 2 departure times
     result = []
     for time, (trip, index), tp in time_trips:
+      if len(result) == 5:
+        break
       service_id = trip.service_id
       service_period = schedule.GetServicePeriod(service_id)
       if date and not service_period.IsActiveOn(date):
-- 
2.43.0


From bef6e794fbb2d4bcf43ef2488753888ccc5e5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 54/98] fix: the viewer's home page escapes agency names

---
 schedule_viewer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 5cedc2f..09978a3 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -24,6 +24,7 @@ from __future__ import print_function
 
 import BaseHTTPServer, sys, urlparse
 import bisect
+import cgi
 from gtfsscheduleviewer.marey_graph import MareyGraph
 import gtfsscheduleviewer
 import mimetypes
@@ -165,7 +166,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     (min_lat, min_lon, max_lat, max_lon) = schedule.GetStopBoundingBox()
     forbid_editing = ('true', 'false')[self.AllowEditMode()]
 
-    agency = ', '.join(a.agency_name for a in schedule.GetAgencyList()).encode('utf-8')
+    agency = ', '.join(a.agency_name for a in schedule.GetAgencyList())
+    agency = cgi.escape(agency).encode('utf-8')
 
     key = self.server.key
     host = self.server.host
-- 
2.43.0


From a9b6127e368f400c82e93b5954bc9a2fd4be6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 55/98] fix: the nearest stops are those at the smallest
 distance on Earth

---
 transitfeed/schedule.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 0e70057..6485e4f 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -588,8 +588,7 @@ class Schedule(object):
     """Return the n nearest stops to lat,lon"""
     dist_stop_list = []
     for s in self.stops.values():
-      # TODO: Use util.ApproximateDistanceBetweenStops?
-      dist = (s.stop_lat - lat)**2 + (s.stop_lon - lon)**2
+      dist = util.ApproximateDistance(s.stop_lat, s.stop_lon, lat, lon)
       if len(dist_stop_list) < n:
         bisect.insort(dist_stop_list, (dist, s))
       elif dist < dist_stop_list[-1][0]:
-- 
2.43.0


From 51a070d8b52b4e6fcda5e83a552b0832b2460f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 56/98] fix: trip ids are escaped in timetable graphs

---
 gtfsscheduleviewer/marey_graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 8113696..d6f43ba 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -35,7 +35,9 @@ http://transliteracies.english.ucsb.edu/post/research-project/research-clearingh
 from __future__ import print_function
 
 import itertools
+import json
 import transitfeed
+from xml.sax.saxutils import quoteattr
 
 
 class MareyGraph:
@@ -335,10 +337,12 @@ class MareyGraph:
       for j,freq_offset in enumerate(start_offsets):
         if j>0 and not colpar:
           color="purple"
-        scriptcall = 'onmouseover="LineClick(\'%s\',\'Trip %s starting %s\')"' % (t.trip_id,
-            t.trip_id, transitfeed.FormatSecondsSinceMidnight(t.GetStartTime()))
-        tmpstrhead = '<polyline class="T" id="%s" stroke="%s" %s points="' % \
-          (str(t.trip_id),color, scriptcall)
+        description = 'Trip %s starting %s' % (t.trip_id,
+            transitfeed.FormatSecondsSinceMidnight(t.GetStartTime()))
+        scriptcall = 'onmouseover=%s' % quoteattr('LineClick(%s,%s)' %
+            (json.dumps(t.trip_id), json.dumps(description)))
+        tmpstrhead = '<polyline class="T" id=%s stroke="%s" %s points="' % \
+          (quoteattr(t.trip_id), color, scriptcall)
         tmpstrs.append(tmpstrhead)
 
         for i, s in enumerate(t.GetTimeStops()):
-- 
2.43.0


From 394873803624debb145563f9a48c3111430fca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 57/98] fix: timetable graphs may hold any trip id

---
 schedule_viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 09978a3..992e3e8 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -442,6 +442,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     marey.Draw(triplist[0].GetPattern(), triplist, height)
 
     content = marey.Draw()
+    if isinstance(content, unicode):
+      content = content.encode('utf-8')
 
     self.send_response(200)
     self.send_header('Content-Type', 'image/svg+xml')
-- 
2.43.0


From f32c21cd5fc4f2ca4196b7d3b3ef508eefddc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 58/98] fix: timetable graphs of trips whose stops are all at
 one place

---
 gtfsscheduleviewer/marey_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index d6f43ba..58489c9 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -277,6 +277,8 @@ class MareyGraph:
     """
 
     def DistanceInTravelTime(dep_secs, arr_secs):
+      if dep_secs is None or arr_secs is None:
+        return self._DUMMY_SEPARATOR
       t_dist = arr_secs-dep_secs
       if t_dist<0:
         t_dist = self._DUMMY_SEPARATOR # min separation
@@ -290,7 +292,7 @@ class MareyGraph:
     else:
       trip = triplist[0]
 
-    t_dists2 = [DistanceInTravelTime(stop[3],tail[2]) for (stop,tail)
+    t_dists2 = [DistanceInTravelTime(stop[1],tail[0]) for (stop,tail)
                  in itertools.izip(trip.GetTimeStops(),trip.GetTimeStops()[1:])]
     return t_dists2
 
-- 
2.43.0


From 7b1d706ecd2380b8a2708ed3a7e330073a22f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 59/98] fix: the schedule viewer refuses bad requests instead
 of breaking off

---
 schedule_viewer.py | 106 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 31 deletions(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 992e3e8..89aa1fb 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -93,20 +93,72 @@ def StopToTuple(stop):
           float(stop.stop_lon), stop.location_type)
 
 
+class RequestError(Exception):
+  """Raised when a request can't be answered.
+
+  Attributes:
+    code: HTTP status to answer with
+  """
+  def __init__(self, code):
+    Exception.__init__(self, code)
+    self.code = code
+
+
+def GetById(getter, object_id):
+  """Return getter(object_id) or raise RequestError if there is no such
+  object."""
+  try:
+    return getter(object_id)
+  except KeyError:
+    raise RequestError(404)
+
+
+def GetNumber(params, name, number_type, default=None):
+  """Return parameter name as a finite number or raise RequestError."""
+  try:
+    value = number_type(params.get(name, default))
+    # Fails for infinity, nan and what doesn't fit in a float
+    int(float(value))
+  except (TypeError, ValueError, OverflowError):
+    raise RequestError(400)
+  return value
+
+
+def GetDate(params):
+  """Return parameter date or '' or raise RequestError if it is not a
+  date."""
+  date = params.get('date', '')
+  if date and util.DateStringToDateObject(date) is None:
+    raise RequestError(400)
+  return date
+
+
 class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def do_GET(self):
-    scheme, host, path, x, params, fragment = urlparse.urlparse(self.path)
+    try:
+      self.handle_GET()
+    except RequestError as e:
+      self.send_error(e.code)
+
+  def handle_GET(self):
+    try:
+      scheme, host, path, x, params, fragment = urlparse.urlparse(self.path)
+    except ValueError:
+      raise RequestError(400)
     parsed_params = {}
     for k in params.split('&'):
       k = urllib.unquote(k)
       if '=' in k:
         k, v = k.split('=', 1)
-        parsed_params[k] = unicode(v, 'utf8')
+        try:
+          parsed_params[k] = unicode(v, 'utf8')
+        except UnicodeDecodeError:
+          raise RequestError(400)
       else:
         parsed_params[k] = ''
 
     if path == '/':
-      return self.handle_GET_home()
+      return self.handle_GET_home(parsed_params)
 
     m = re.match(r'/json/([a-z]{1,64})', path)
     if m:
@@ -147,7 +199,7 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
       mode = 'rb'
     return open(os.path.join(self.server.file_dir, filename), mode), mime_type
 
-  def handle_GET_default(self, parsed_params, path):
+  def handle_GET_default(self, parsed_params, path=None):
     self.send_error(404)
 
   def handle_static_file_GET(self, fh, mime_type):
@@ -161,7 +213,7 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def AllowEditMode(self):
     return False
 
-  def handle_GET_home(self):
+  def handle_GET_home(self, params):
     schedule = self.server.schedule
     (min_lat, min_lon, max_lat, max_lon) = schedule.GetStopBoundingBox()
     forbid_editing = ('true', 'false')[self.AllowEditMode()]
@@ -190,12 +242,9 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     """Given a route_id generate a list of patterns of the route. For each
     pattern include some basic information and a few sample trips."""
     schedule = self.server.schedule
-    route = schedule.GetRoute(params.get('route', None))
-    if not route:
-      self.send_error(404)
-      return
-    time = int(params.get('time', 0))
-    date = params.get('date', "")
+    route = GetById(schedule.GetRoute, params.get('route', None))
+    time = GetNumber(params, 'time', int, 0)
+    date = GetDate(params)
     sample_size = 3  # For each pattern return the start time for this many trips
 
     pattern_id_trip_dict = route.GetPatternIdTripDict()
@@ -280,7 +329,7 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
 
   def handle_json_GET_routerow(self, params):
     schedule = self.server.schedule
-    route = schedule.GetRoute(params.get('route', None))
+    route = GetById(schedule.GetRoute, params.get('route', None))
     field_names = transitfeed.Route._FIELD_NAMES
     return [field_names, [route[name] for name in field_names]]
 
@@ -340,9 +389,9 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def handle_json_GET_neareststops(self, params):
     """Return a list of the nearest 'limit' stops to 'lat', 'lon'"""
     schedule = self.server.schedule
-    lat = float(params.get('lat'))
-    lon = float(params.get('lon'))
-    limit = int(params.get('limit'))
+    lat = GetNumber(params, 'lat', float)
+    lon = GetNumber(params, 'lon', float)
+    limit = GetNumber(params, 'limit', int)
     stops = schedule.GetNearestStops(lat=lat, lon=lon, n=limit)
     return [StopToTuple(s) for s in stops]
 
@@ -351,17 +400,17 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     and 's','w' in the NE and SW corners. Does not handle boxes crossing
     longitude line 180."""
     schedule = self.server.schedule
-    n = float(params.get('n'))
-    e = float(params.get('e'))
-    s = float(params.get('s'))
-    w = float(params.get('w'))
-    limit = int(params.get('limit'))
+    n = GetNumber(params, 'n', float)
+    e = GetNumber(params, 'e', float)
+    s = GetNumber(params, 's', float)
+    w = GetNumber(params, 'w', float)
+    limit = GetNumber(params, 'limit', int)
     stops = schedule.GetStopsInBoundingBox(north=n, east=e, south=s, west=w, n=limit)
     return [StopToTuple(s) for s in stops]
 
   def handle_json_GET_stopsearch(self, params):
     schedule = self.server.schedule
-    query = params.get('q', None).lower()
+    query = params.get('q', '').lower()
     matches = []
     for s in schedule.GetStopList():
       if s.stop_id.lower().find(query) != -1 or s.stop_name.lower().find(query) != -1:
@@ -372,9 +421,9 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     """Given a stop_id and time in seconds since midnight return the next
     trips to visit the stop."""
     schedule = self.server.schedule
-    stop = schedule.GetStop(params.get('stop', None))
-    time = int(params.get('time', 0))
-    date = params.get('date', "")
+    stop = GetById(schedule.GetStop, params.get('stop', None))
+    time = GetNumber(params, 'time', int, 0)
+    date = GetDate(params)
 
     time_trips = stop.GetStopTimeTrips(schedule)
     time_trips.sort()  # OPT: use bisect.insort to make this O(N*ln(N)) -> O(N)
@@ -418,14 +467,9 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     that visit the same sequence of stops)."""
     schedule = self.server.schedule
     marey = MareyGraph()
-    trip = schedule.GetTrip(params.get('trip', None))
+    trip = GetById(schedule.GetTrip, params.get('trip', None))
     route = schedule.GetRoute(trip.route_id)
-    height = int(params.get('height', 300))
-
-    if not route:
-      print('no such route')
-      self.send_error(404)
-      return
+    height = GetNumber(params, 'height', int, 300)
 
     pattern_id_trip_dict = route.GetPatternIdTripDict()
     pattern_id = trip.pattern_id
-- 
2.43.0


From 67c397ed64825a7ca707b0cd7297370fac0dab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 60/98] fix: the schedule viewer serves files of unknown type

---
 schedule_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 89aa1fb..a5ac1b6 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -190,7 +190,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     """Try to open filename in the static files directory of this server.
     Return a tuple (file object, string mime_type) or raise an exception."""
     (mime_type, encoding) = mimetypes.guess_type(filename)
-    assert mime_type
+    if not mime_type:
+      mime_type = 'application/octet-stream'
     # A crude guess of when we should use binary mode. Without it non-unix
     # platforms may corrupt binary files.
     if mime_type.startswith('text/'):
-- 
2.43.0


From ac044ffd001a187690782cfe14b80c13f3930cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 61/98] fix: no stops are found when none are asked for

---
 transitfeed/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 6485e4f..2202e06 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -587,6 +587,8 @@ class Schedule(object):
   def GetNearestStops(self, lat, lon, n=1):
     """Return the n nearest stops to lat,lon"""
     dist_stop_list = []
+    if n <= 0:
+      return dist_stop_list
     for s in self.stops.values():
       dist = util.ApproximateDistance(s.stop_lat, s.stop_lon, lat, lon)
       if len(dist_stop_list) < n:
@@ -599,6 +601,8 @@ class Schedule(object):
   def GetStopsInBoundingBox(self, north, east, south, west, n):
     """Return a sample of up to n stops in a bounding box"""
     stop_list = []
+    if n <= 0:
+      return stop_list
     for s in self.stops.values():
       if (s.stop_lat <= north and s.stop_lat >= south and
           s.stop_lon <= east and s.stop_lon >= west):
-- 
2.43.0


From acdec046cf5c9ac02877a5bd4be279849385eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:52 +0000
Subject: [PATCH 62/98] fix: the location editor leaves stops alone when asked
 for nonsense

---
 location_editor.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/location_editor.py b/location_editor.py
index e3833bc..b1fb8ed 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -30,17 +30,16 @@ class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
   def handle_json_GET_setstoplocation(self, params):
     schedule = self.server.schedule
     stop_id = params.get('id', None)
-    lat = params.get('lat', -1)
-    lon = params.get('lng', -1)
-    stop = schedule.GetStop(stop_id)
-    if (stop is None):
-      msg = 'Stop with id=' + stop_id + 'not found.'
-    else:
-      stop.stop_lat = float(lat)
-      stop.stop_lon = float(lon)
-      msg = 'Location of ' + stop['stop_name'] + '(' + stop_id + ') set to ' + \
-            lat + 'x' + lon
-    print(msg)
+    stop = schedule_viewer.GetById(schedule.GetStop, stop_id)
+    lat = schedule_viewer.GetNumber(params, 'lat', float)
+    lon = schedule_viewer.GetNumber(params, 'lng', float)
+    if abs(lat) > 90 or abs(lon) > 180:
+      raise schedule_viewer.RequestError(400)
+    stop.stop_lat = lat
+    stop.stop_lon = lon
+    msg = 'Location of ' + stop['stop_name'] + '(' + stop_id + ') set to ' + \
+          params['lat'] + 'x' + params['lng']
+    print(msg.encode('utf-8'))
     return msg
 
   def handle_json_GET_savedata(self, params):
-- 
2.43.0


From a0dfa49f137d33c6b65d7eba468efd79160c97d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 63/98] fix: kmlwriter writes the same file whatever the hash
 order

---
 kmlwriter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kmlwriter.py b/kmlwriter.py
index c763c57..1ddaf5c 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -274,7 +274,7 @@ class KMLWriter(object):
     stop_folder_selection = self._StopFolderSelectionMethod(stop_folder)
     stop_style_selection = self._StopStyleSelectionMethod(doc)
     stops = list(schedule.GetStopList())
-    stops.sort(key=lambda x: x.stop_name)
+    stops.sort(key=lambda x: (x.stop_name, x.stop_id))
     for stop in stops:
       (folder, pathway_folder) = stop_folder_selection(stop)
       (style_id, pathway_style_id) = stop_style_selection(stop)
@@ -459,7 +459,8 @@ class KMLWriter(object):
 
     # sort by number of trips using the pattern
     pattern_trips = pattern_id_to_trips.values()
-    pattern_trips.sort(lambda a, b: cmp(len(b), len(a)))
+    pattern_trips.sort(key=lambda trips: (-len(trips),
+                                          min(t.trip_id for t in trips)))
 
     folder = self._CreateFolder(parent, 'Patterns', visible)
     for n, trips in enumerate(pattern_trips):
@@ -501,7 +502,7 @@ class KMLWriter(object):
 
     # sort by the number of trips using the shape
     shape_id_to_trips_items = shape_id_to_trips.items()
-    shape_id_to_trips_items.sort(lambda a, b: cmp(len(b[1]), len(a[1])))
+    shape_id_to_trips_items.sort(key=lambda item: (-len(item[1]), item[0]))
 
     folder = self._CreateFolder(parent, 'Shapes', visible)
     for shape_id, trips in shape_id_to_trips_items:
@@ -618,7 +619,7 @@ class KMLWriter(object):
               if route_type is None or route.route_type == route_type]
     if not routes:
       return None
-    routes.sort(key=lambda x: GetRouteName(x))
+    routes.sort(key=lambda x: (GetRouteName(x), x.route_id))
 
     if route_type is not None:
       route_type_names = {0: 'Tram, Streetcar or Light rail',
-- 
2.43.0


From ed913566d1d76518fb2aaa5881fd443bb9ba43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 64/98] fix: kmlwriter does not refer to a style it never
 defines

---
 kmlwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmlwriter.py b/kmlwriter.py
index 1ddaf5c..0148a13 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -373,7 +373,7 @@ class KMLWriter(object):
 
     def StyleSelectionMethod(stop):
       if stop.location_type == transitfeed.Stop.LOCATION_TYPE_STATION:
-        return ('stop_station', None)
+        return (None, None)
       elif stop.location_type == googletransit.Stop.LOCATION_TYPE_ENTRANCE:
         return ('stop_entrance', 'entrance_connection')
       elif stop.parent_station:
-- 
2.43.0


From 3f749058d008109c6036c6e85752f527dac0f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 65/98] fix: kmlwriter leaves out characters which XML does not
 allow

---
 kmlwriter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kmlwriter.py b/kmlwriter.py
index 0148a13..547d465 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -77,11 +77,15 @@ except ImportError as e:
 import extensions.googletransit as googletransit
 import optparse
 import os.path
+import re
 import sys
 import transitfeed
 from transitfeed import util
 
 
+_NOT_XML = re.compile(u'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')
+
+
 class KMLWriter(object):
   """This class knows how to write out a transit feed as KML.
 
@@ -721,6 +725,13 @@ class KMLWriter(object):
       self._CreateRoutesFolder(schedule, doc)
     self._CreateShapesFolder(schedule, doc)
 
+    # Characters which XML cannot hold would make the file unreadable
+    for element in root.getiterator():
+      if element.text:
+        element.text = _NOT_XML.sub('', element.text)
+      for name, value in element.items():
+        element.set(name, _NOT_XML.sub('', value))
+
     # Make sure we pretty-print
     self._SetIndentation(root)
 
-- 
2.43.0


From c435b4795361a6f19f7f87e77f798575f6527877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 66/98] fix: kmlwriter refuses a date filter which is no date

---
 kmlwriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmlwriter.py b/kmlwriter.py
index 547d465..2e46900 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -789,6 +789,11 @@ https://github.com/google/transitfeed/wiki/KMLWriter
   if len(args) < 1:
     parser.error('You must provide the path of an input GTFS file.')
 
+  if (options.date_filter and
+      util.DateStringToDateObject(options.date_filter) is None):
+    parser.error('Could not parse %r as a date: expected YYYYMMDD.' %
+                 options.date_filter)
+
   if args[0] == 'IWantMyCrash':
     raise Exception('For testCrashHandler')
 
-- 
2.43.0


From ef41e386f681e46b2651ab9a4038f68c9f2242c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:53 +0000
Subject: [PATCH 67/98] fix: kmlparser reads CDATA and text interrupted by
 comments

---
 kmlparser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kmlparser.py b/kmlparser.py
index 993a852..04f20a4 100755
--- a/kmlparser.py
+++ b/kmlparser.py
@@ -98,10 +98,10 @@ class KmlParser(object):
     return ret
 
   def ExtractText(self, node):
-    for child in node.childNodes:
-      if child.nodeType == child.TEXT_NODE:
-        return child.wholeText  # is a unicode string
-    return ""
+    # Text may be split by comments or quoted in CDATA sections
+    return "".join(child.data for child in node.childNodes
+                   if child.nodeType in (child.TEXT_NODE,
+                                         child.CDATA_SECTION_NODE))
 
   def ExtractCoordinates(self, node):
     coordinatesText = ""
-- 
2.43.0


From edf31ddd458752bd2890a01e27e9a5a37efaebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:53 +0000
Subject: [PATCH 68/98] fix: kmlparser keeps lines without a name or with a
 taken one

---
 kmlparser.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/kmlparser.py b/kmlparser.py
index 04f20a4..5fd1e86 100755
--- a/kmlparser.py
+++ b/kmlparser.py
@@ -116,25 +116,23 @@ class KmlParser(object):
     return ret
 
   def ConvertPlacemarkToShape(self, p, feed):
-    shape = transitfeed.Shape(p.name)
+    shape = transitfeed.Shape(p.name or 'shape')
     for (lon, lat) in p.coordinates:
       shape.AddPoint(lat, lon)
 
-    try:
-      existing_shape = feed.GetShape(p.name)
-
+    base_id = shape.shape_id
+    suffix = len(feed.GetShapeList())
+    existing_ids = set(s.shape_id for s in feed.GetShapeList())
+    while shape.shape_id in existing_ids:
       # If the existing shape has the same points, we don't need to add a new
       # shape.
-      if existing_shape == shape:
+      if feed.GetShape(shape.shape_id) == shape:
         return
 
       # If the shape has different points, we need to modify our shape id so as
       # to avoid duplication.
-      shape.shape_id += '_%d' % len(feed.GetShapeList())
-
-    except KeyError:
-      # No existing shape with that id, so no worries.
-      pass
+      shape.shape_id = '%s_%d' % (base_id, suffix)
+      suffix += 1
 
     feed.AddShapeObject(shape)
 
-- 
2.43.0


From 76a42a84935ddea086cda915c72ba160a14c8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 69/98] fix: kmlparser reads names written on a line of their
 own

---
 kmlparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmlparser.py b/kmlparser.py
index 5fd1e86..0b9fec9 100755
--- a/kmlparser.py
+++ b/kmlparser.py
@@ -92,7 +92,7 @@ class KmlParser(object):
     ret = Placemark()
     for child in node.childNodes:
       if child.nodeName == 'name':
-        ret.name = self.ExtractText(child)
+        ret.name = self.ExtractText(child).strip()
       if child.nodeName == 'Point' or child.nodeName == 'LineString':
         ret.coordinates = self.ExtractCoordinates(child)
     return ret
-- 
2.43.0


From f39c9fe52575a3a0e2bca129a1db852c427f157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:33 +0000
Subject: [PATCH 70/98] fix: unusual_trip_filter refuses an unknown route type

---
 unusual_trip_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unusual_trip_filter.py b/unusual_trip_filter.py
index c0c2210..2756ef0 100644
--- a/unusual_trip_filter.py
+++ b/unusual_trip_filter.py
@@ -136,6 +136,11 @@ https://github.com/google/transitfeed/wiki/UnusualTripFilter
   if len(args) != 1:
     parser.error('You must provide the path of a single feed.')
 
+  if (options.route_type is not None and
+      options.route_type not in transitfeed.Route._ROUTE_TYPE_NAMES and
+      not options.route_type.isdigit()):
+    parser.error('Unknown route type %r.' % options.route_type)
+
   filter = UnusualTripFilter(float(options.threshold),
                              force=options.override_trip_type,
                              quiet=options.quiet,
-- 
2.43.0


From 81e2ad6fb1a53be43dca8587424eecbe15694d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:33 +0000
Subject: [PATCH 71/98] fix: unusual_trip_filter takes feeds with non-ASCII
 file names

---
 unusual_trip_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unusual_trip_filter.py b/unusual_trip_filter.py
index 2756ef0..f6f58d6 100644
--- a/unusual_trip_filter.py
+++ b/unusual_trip_filter.py
@@ -97,7 +97,7 @@ class UnusualTripFilter(object):
 
   def info(self, text):
     if not self._quiet:
-      print(text.encode("utf-8"))
+      print(transitfeed.EncodeUnicode(text))
 
 
 def main():
-- 
2.43.0


From 43b4a19960f4f119c9a6bce6f2d60be5a13e32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 72/98] fix: upgrade_translations does not overwrite the feed
 it reads

---
 upgrade_translations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index 4cd7587..d083869 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -408,6 +408,11 @@ def main():
     else:
         dest_dir = '%s_upgraded' % src_dir
 
+    if os.path.realpath(src_dir) == os.path.realpath(dest_dir):
+        print('Source and destination directories must be different.',
+              file=sys.stderr)
+        sys.exit(1)
+
     print('Upgrading translations')
     print('\tsource directory: %s' % src_dir)
     print('\tdestination directory: %s' % dest_dir)
-- 
2.43.0


From a4c7d5f808fd119590edec2ddb4907a8fce0ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 73/98] fix: upgrade_translations reads tables with a byte
 order mark

---
 upgrade_translations.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index d083869..f314bd5 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -68,6 +68,7 @@ Translations in GTFS-Translations format.
 
 from __future__ import print_function
 
+import codecs
 import csv
 import os
 import os.path
@@ -159,13 +160,22 @@ class RecordIdHelper(object):
         return None
 
 
+def open_table(csvfile):
+    """Returns a reader of the given GTFS table, leaving out a leading UTF-8
+    byte order mark.
+    """
+    if csvfile.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
+        csvfile.seek(0)
+    return csv.DictReader(csvfile)
+
+
 def read_first_available_value(filename, field_name):
     """Reads the first assigned value of the given field in the CSV table.
     """
     if not os.path.exists(filename):
         return None
     with open(filename, 'rb') as csvfile:
-        reader = csv.DictReader(csvfile)
+        reader = open_table(csvfile)
         for row in reader:
             value = row.get(field_name)
             if value:
@@ -214,7 +224,7 @@ class OldTranslations(object):
         n_translations = 0
         with open(os.path.join(self.src_dir, 'translations.txt'),
                   'rb') as csvfile:
-            reader = csv.DictReader(csvfile)
+            reader = open_table(csvfile)
             for row in reader:
                 self.translations_map.setdefault(
                     row['trans_id'], {})[row['lang']] = row['translation']
@@ -295,7 +305,7 @@ class TranslationsConverter(object):
 
         out_filename = os.path.join(dest_dir, '%s.txt' % table_name)
         with open(in_filename, 'rb') as in_file:
-            reader = csv.DictReader(in_file)
+            reader = open_table(in_file)
             if not reader.fieldnames or not any_translatable_field(
                     reader.fieldnames):
                 print('Copying %s with no translatable columns' % table_name)
-- 
2.43.0


From 3a07d8a0f100a0cf3ec9b0f0cda70bc04c5cc145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 74/98] fix: upgrade_translations takes rows with too many
 cells

---
 upgrade_translations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index f314bd5..f353c91 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -318,6 +318,8 @@ class TranslationsConverter(object):
                 writer = csv.DictWriter(out_file, fieldnames=reader.fieldnames)
                 writer.writeheader()
                 for row in reader:
+                    # Cells beyond the last column belong to no field.
+                    row.pop(None, None)
                     writer.writerow(table_translator.translate_row(row))
 
             table_translator.write_for_field_values()
-- 
2.43.0


From c68eafc8e9b9768df4ebaab1c577ed18cfc11103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 75/98] fix: an empty agency_id of a fare is fine when there is
 one agency

The comment says so, but a blank cell is '' and not None.
---
 extensions/googletransit/fareattribute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/googletransit/fareattribute.py b/extensions/googletransit/fareattribute.py
index 397f3ba..22e0d48 100644
--- a/extensions/googletransit/fareattribute.py
+++ b/extensions/googletransit/fareattribute.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import transitfeed
+import transitfeed.util as util
 
 class FareAttribute(transitfeed.FareAttribute):
   """Extension of transitfeed.FareAttribute:
@@ -31,7 +32,7 @@ class FareAttribute(transitfeed.FareAttribute):
     for agency in agencies:
       if agency.agency_id == self.agency_id:
         return
-    if len(agencies) > 1 or self.agency_id is not None:
+    if len(agencies) > 1 or not util.IsEmpty(self.agency_id):
       # If there is only one agency and Fare.agencyid is empty or not present
       # then it isn't an error
       problems.InvalidAgencyID('agency_id', self.agency_id,
-- 
2.43.0


From 030f7988a2b523c7bcf1317b001cf3e6499393cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 76/98] fix: vehicle type 0 of an entrance or a child stop is
 reported as well

---
 extensions/googletransit/stop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index e921074..0a379da 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -37,7 +37,7 @@ class Stop(transitfeed.Stop):
         'vehicle_type', problems)
     # Entrances must not have a vehicle type, in general google transit does not
     # read vehicle types from stops with a parent station.
-    if self.vehicle_type:
+    if self.vehicle_type is not None:
       if self.location_type == 2:
         problems.InvalidValue('vehicle_type', self.location_type,
               reason='an entrance must not have a vehicle type')
-- 
2.43.0


From 42ba2adb80b24886270b9ed85add360f9407a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 77/98] fix: problems with a vehicle type quote the vehicle
 type

---
 extensions/googletransit/stop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index 0a379da..36d001e 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -39,10 +39,10 @@ class Stop(transitfeed.Stop):
     # read vehicle types from stops with a parent station.
     if self.vehicle_type is not None:
       if self.location_type == 2:
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='an entrance must not have a vehicle type')
       elif not util.IsEmpty(self.parent_station):
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='Google Transit does not read vehicle types for stops '
               'having a parent station', type=problems_module.TYPE_WARNING)
 
-- 
2.43.0


From 46873205729695a9734a9dee601c1e9aabeab196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 78/98] fix: the location type of a stop without a name is
 reported once

---
 extensions/googletransit/stop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index 36d001e..e25c71d 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -67,8 +67,10 @@ class Stop(transitfeed.Stop):
   def _ReportMissingRequiredField(self, problems, required):
     if required == 'stop_name':
       # stops of type 2 (entrance) may have an empty stop_name
-      self.ValidateStopLocationType(problems)
-      if self.location_type == 2:
+      # (the location_type itself is validated and reported later on)
+      location_type = util.ValidateAndReturnIntValue(
+          self.location_type, [0, 1, 2], 0, True)
+      if location_type == 2:
         return
     problems.MissingValue(required)
     setattr(self, required, None)
-- 
2.43.0


From fd648227533dfb21600a1eb6971b1fc4150ba5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 79/98] fix: a language code with non-ASCII characters is
 reported

str() of such a code raised UnicodeEncodeError and stopped the validation.
---
 extensions/googletransit/extension_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/extension_util.py b/extensions/googletransit/extension_util.py
index 7f93bbc..6bfaa25 100644
--- a/extensions/googletransit/extension_util.py
+++ b/extensions/googletransit/extension_util.py
@@ -27,7 +27,7 @@ def IsValidLanguageCode(lang):
     - checks whether the code, as lower case, is well formed and valid BCP47
       using the pybcp47 module
   """
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
+  bcp47_obj = parser.ParseLanguage(lang.lower())
   return bcp47_obj.IsWellformed() and bcp47_obj.IsValid()
 
 def ValidateLanguageCode(lang, column_name=None, problems=None):
@@ -43,7 +43,7 @@ def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
   if util.IsEmpty(lang):
     return True
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
+  bcp47_obj = parser.ParseLanguage(lang.lower())
   if not bcp47_obj.wellformed:
     if problems:
       problems.InvalidValue(column_name, lang,
-- 
2.43.0


From 76feb1fc840b4a1cf2c49bf040fe03c6f1ef9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 80/98] fix: a schedule made by the loader uses the factory of
 the loader

A feed loaded with an extension was written with the columns of the base
classes: fare_attributes.txt had more cells than header columns.
---
 transitfeed/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 4ea8337..26dbfec 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -58,7 +58,8 @@ class Loader:
 
     if not schedule:
       schedule = gtfs_factory.Schedule(problem_reporter=problems,
-          memory_db=memory_db, check_duplicate_trips=check_duplicate_trips)
+          memory_db=memory_db, check_duplicate_trips=check_duplicate_trips,
+          gtfs_factory=gtfs_factory)
 
     self._extra_validation = extra_validation
     self._schedule = schedule
-- 
2.43.0


From 97f6554341db6c4f39509422aefc88e8729db059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 81/98] fix: Schedule.Load uses the factory of the schedule

Loading into a schedule with an extended factory created base objects and
failed an assertion.
---
 transitfeed/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 2202e06..833ec0e 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -614,7 +614,8 @@ class Schedule(object):
   def Load(self, feed_path, extra_validation=False):
     loader = self._gtfs_factory.Loader(feed_path,
                                        self, problems=self.problem_reporter,
-                                       extra_validation=extra_validation)
+                                       extra_validation=extra_validation,
+                                       gtfs_factory=self._gtfs_factory)
     loader.Load()
 
   def _WriteArchiveString(self, archive, filename, stringio):
-- 
2.43.0


From 8272722edbcbe5d616316f4730c57f2be1092af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 82/98] fix: stops on the equator or the prime meridian are
 compared with others

A coordinate of 0.0 was taken for a missing one, so that such stops were
never reported as too close to each other.
---
 transitfeed/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 833ec0e..7320739 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1050,7 +1050,8 @@ class Schedule(object):
     # each pair of stations within 2 meters latitude of each other. This avoids
     # doing n^2 comparisons in the average case and doesn't need a spatial
     # index.
-    sorted_stops = filter(lambda s: s.stop_lat and s.stop_lon,
+    sorted_stops = filter(lambda s: (s.stop_lat is not None and
+                                     s.stop_lon is not None),
                           self.GetStopList())
     sorted_stops.sort(
         key=(lambda x: [x.stop_lat, x.stop_lon, getattr(x, 'stop_id', None)]))
-- 
2.43.0


From e1a11c265ee02a42b85910ce7a2ae4e7dc6cc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:08 +0000
Subject: [PATCH 83/98] fix: stops on the equator or the prime meridian are
 compared with the shape

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index e54365f..ec4366d 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -697,7 +697,7 @@ class Trip(GtfsObjectBase):
             pt = shape.GetPointWithDistanceTraveled(st.shape_dist_traveled)
             if pt:
               stop = self._schedule.GetStop(st.stop_id)
-              if stop.stop_lat and stop.stop_lon:
+              if stop.stop_lat is not None and stop.stop_lon is not None:
                 distance = util.ApproximateDistance(stop.stop_lat,
                                                     stop.stop_lon,
                                                     pt[0], pt[1])
-- 
2.43.0


From cba67a4f1a88db7a5b0c126489d9973aabcd3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 84/98] fix: shape_importer works without --keycols

''.split(',') is [''], a column no shape file has.
---
 shape_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 8c12f19..9e3f661 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -286,6 +286,6 @@ if __name__ == '__main__':
       PrintColumns(arg)
     sys.exit(0)
 
-  key_cols = options.keycols.split(',')
+  key_cols = options.keycols and options.keycols.split(',')
 
   main(key_cols)
-- 
2.43.0


From ccb05e0106581fb94f19922f525b8913204d5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 85/98] fix: shape_importer does not take shapes of the feed
 for new ones

A shape called shape_1 in the source feed was used for the first matched
pattern in place of the matching line.
---
 shape_importer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shape_importer.py b/shape_importer.py
index 9e3f661..fcc6295 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -206,7 +206,9 @@ def main(key_cols):
 
   print('Loading GTFS from %s...' % options.source_gtfs)
   schedule = transitfeed.Loader(options.source_gtfs).Load()
+  source_shape_ids = set(shape.shape_id for shape in schedule.GetShapeList())
   shape_count = 0
+  shape_number = 0
   pattern_count = 0
 
   verbosity = options.verbosity
@@ -250,9 +252,12 @@ def main(key_cols):
                                      verbosity=verbosity)
       if shape_match:
         shape_count += 1
-        # Rename shape for readability.
+        # Rename shape for readability, not to a name of the source feed.
+        shape_number += 1
+        while "shape_%d" % shape_number in source_shape_ids:
+          shape_number += 1
         shape_match = shapelib.Poly(points=shape_match.GetPoints(),
-                                           name="shape_%d" % shape_count)
+                                           name="shape_%d" % shape_number)
         for trip in trips:
           try:
             shape = schedule.GetShape(shape_match.GetName())
-- 
2.43.0


From 77cdb0cfec1d97cccc92ac4668b22704f66d9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 86/98] fix: adding a polyline does not drop another one

A skipped duplicate, which may be a part only, replaced the polyline it
duplicates, and a uniquified name could be taken.
---
 transitfeed/shapelib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 5d6003b..1f4d4ea 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -402,9 +402,13 @@ class PolyCollection(object):
              poly.GetName())
       if poly.GreedyPolyMatchDist(self._name_to_shape[poly.GetName()]) < 10:
         print("  (Skipping as it apears to be an exact duplicate)")
+        return
       else:
         print("  (Adding new shape variant with uniquified name)")
-        inserted_name = "%s-%d" % (inserted_name, len(self._name_to_shape))
+        suffix = len(self._name_to_shape)
+        while inserted_name in self._name_to_shape:
+          inserted_name = "%s-%d" % (poly.GetName(), suffix)
+          suffix += 1
     self._name_to_shape[inserted_name] = poly
 
   def NumPolys(self):
-- 
2.43.0


From 6d634554204268b9b0c55dad0643996e27975b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 87/98] fix: ShortestPath visits nodes in the order of their
 best distance

A node found again by a shorter way kept its old place in the queue, so
the goal could be reached before it.
---
 transitfeed/shapelib.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 1f4d4ea..a3c8491 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -479,6 +479,8 @@ class PolyGraph(PolyCollection):
     came_from = {} # Map to reconstruct optimal path once we're done.
     while open_set:
       (f_x, x) = heapq.heappop(open_heap)
+      if x in closed_set:
+        continue # Visited already, by a shorter way.
       open_set.remove(x)
       if x == goal:
         return self._ReconstructPath(came_from, goal)
@@ -492,16 +494,11 @@ class PolyGraph(PolyCollection):
         if y in closed_set:
           continue
         tentative_g_score = g_scores[x] + edge.LengthMeters()
-        tentative_is_better = False
-        if y not in open_set:
+        if y not in open_set or tentative_g_score < g_scores[y]:
           h_y = y.GetDistanceMeters(goal)
           f_y = tentative_g_score + h_y
           open_set.add(y)
           heapq.heappush(open_heap, (f_y, y))
-          tentative_is_better = True
-        elif tentative_g_score < g_scores[y]:
-          tentative_is_better = True
-        if tentative_is_better:
           came_from[y] = (x, edge)
           g_scores[y] = tentative_g_score
     return None
-- 
2.43.0


From 25e7b4713b694dee714e2cc2e8da1c7fddb4e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:08 +0000
Subject: [PATCH 88/98] fix: FindShortestMultiPointPath keeps the best paths

With keep_best_n paths found a new one replaced the longest of them even
when it is longer still.
---
 transitfeed/shapelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index a3c8491..a14e0f5 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -611,4 +611,4 @@ class PolyGraph(PolyCollection):
         if len(heap) < keep_best_n:
           heapq.heappush(heap, new_item)
         else:
-          heapq.heapreplace(heap, new_item)
+          heapq.heappushpop(heap, new_item)
-- 
2.43.0


From 08c6a5472b42ab36bf4d6016cfc91695b26b3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:35 +0000
Subject: [PATCH 89/98] fix: visualize_pathways writes backslashes and keywords
 as GraphViz reads them

A text ending in a backslash took the closing quote with it, and locations
called node, edge or graph made a file GraphViz rejects.
---
 visualize_pathways.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 8cb93d1..1278363 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -200,13 +200,17 @@ class GtfsReader(object):
         return entities
 
 
-_VALID_GRAPHVIZ_ID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]+$')
+_VALID_GRAPHVIZ_ID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]+\Z')
+
+_GRAPHVIZ_KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')
 
 
 def escape_graphviz_id(gtfs_id):
-    if _VALID_GRAPHVIZ_ID.match(gtfs_id):
+    if (_VALID_GRAPHVIZ_ID.match(gtfs_id) and
+            gtfs_id.lower() not in _GRAPHVIZ_KEYWORDS):
         return gtfs_id
-    return '"%s"' % gtfs_id.replace('"', r'\"')
+    return '"%s"' % (gtfs_id.replace('\\', r'\\').replace('"', r'\"')
+                     .replace('\n', r'\n'))
 
 
 def truncate_string(s, max_length=20):
@@ -361,20 +365,20 @@ def location_shape(location_type):
 def location_label(location, max_length=20):
     label = location.gtfs_id
     if location.platform_code:
-        label += '\\nPlatform %s' % location.platform_code
+        label += '\nPlatform %s' % location.platform_code
     elif location.signposted_as:
-        label += '\\n%s' % location.signposted_as
+        label += '\n%s' % location.signposted_as
     elif location.name:
-        label += '\\n%s' % truncate_string(location.name, max_length)
+        label += '\n%s' % truncate_string(location.name, max_length)
     return label
 
 
 def pathway_label(pathway):
     label = pathway.mode.name
     if pathway.signposted_as:
-        label += '\\n%s' % truncate_string(pathway.signposted_as)
+        label += '\n%s' % truncate_string(pathway.signposted_as)
     if pathway.reversed_signposted_as:
-        label += '\\n%s' % truncate_string(pathway.reversed_signposted_as)
+        label += '\n%s' % truncate_string(pathway.reversed_signposted_as)
     return label
 
 
-- 
2.43.0


From d2099c7ba1e638ca83b71bbd7d5b128d5acea06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:35 +0000
Subject: [PATCH 90/98] fix: visualize_pathways reads tables with a byte order
 mark

---
 visualize_pathways.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 1278363..40b4d7d 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -42,6 +42,7 @@ from __future__ import print_function
 
 from enum import Enum
 import argparse
+import codecs
 import csv
 import re
 import os
@@ -193,6 +194,8 @@ class GtfsReader(object):
     def _read_table(self, table, entity_type):
         entities = {}
         with open(os.path.join(self.gtfs_dir, '%s.txt' % table), 'rb') as f:
+            if f.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
+                f.seek(0)
             reader = csv.DictReader(f)
             for row in reader:
                 entity = entity_type(row, self)
-- 
2.43.0


From 0d59b7bf20181b6365f292376c91cc9c46185302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:35 +0000
Subject: [PATCH 91/98] fix: visualize_pathways reads rows without their last
 empty cells

---
 visualize_pathways.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 40b4d7d..54203bf 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -196,7 +196,7 @@ class GtfsReader(object):
         with open(os.path.join(self.gtfs_dir, '%s.txt' % table), 'rb') as f:
             if f.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
                 f.seek(0)
-            reader = csv.DictReader(f)
+            reader = csv.DictReader(f, restval='')
             for row in reader:
                 entity = entity_type(row, self)
                 entities[entity.gtfs_id] = entity
-- 
2.43.0


From e8cecb6d694648e988f464d3d9783d75b61726ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:39 +0000
Subject: [PATCH 92/98] fix: only whole byte order marks are removed, and a
 file with nothing else is empty

---
 transitfeed/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 26dbfec..55ba9a7 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -145,7 +145,10 @@ class Loader:
 
     # strip out any UTF-8 Byte Order Marker (otherwise it'll be
     # treated as part of the first column name, causing a mis-parse)
-    contents = contents.lstrip(codecs.BOM_UTF8)
+    while contents.startswith(codecs.BOM_UTF8):
+      contents = contents[len(codecs.BOM_UTF8):]
+    if not contents:
+      self._problems.EmptyFile(file_name)
     return contents
 
   def _ReadCsvRows(self, reader, file_name):
-- 
2.43.0


From 790954d75982db62af668ed3b7c0c2a542eb40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:39 +0000
Subject: [PATCH 93/98] fix: a column called service_period no longer breaks
 loading trips

---
 transitfeed/loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 55ba9a7..dc529c1 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -455,8 +455,9 @@ class Loader:
     These are unrecognized columns and were reported as such.
     """
     for name in d.keys():
-      if hasattr(object_class, name) or (name.startswith('_') and
-                                         hasattr(object_class(), name)):
+      # Trip.service_period used to hold a ServicePeriod object.
+      if (hasattr(object_class, name) or name == 'service_period' or
+          (name.startswith('_') and hasattr(object_class(), name))):
         del d[name]
 
   def _LoadCalendar(self):
-- 
2.43.0


From 87e024f9ba690e877419fc6b5eb3bb5cf0403e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:39 +0000
Subject: [PATCH 94/98] fix: a feed with an empty feed_info.txt can be written

---
 transitfeed/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 7320739..be2f565 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -658,7 +658,9 @@ class Schedule(object):
       writer = util.CsvUnicodeWriter(feed_info_string)
       columns = self.GetTableColumns('feed_info')
       writer.writerow(columns)
-      writer.writerow([util.EncodeUnicode(self.feed_info[c]) for c in columns])
+      if self.feed_info is not None:
+        writer.writerow([util.EncodeUnicode(self.feed_info[c])
+                         for c in columns])
       self._WriteArchiveString(archive, 'feed_info.txt', feed_info_string)
 
     calendar_dates_string = StringIO()
-- 
2.43.0


From 96f91f620785ecafffd3e2a94b3f52404b86d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:39 +0000
Subject: [PATCH 95/98] fix: differing languages are reported with the value
 found

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index be2f565..f215d1f 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -844,7 +844,7 @@ class Schedule(object):
     for agency in agencies:
       if not util.IsEmpty(agency.agency_lang) and (
           not self.feed_info.feed_lang == agency.agency_lang):
-        problems.InvalidValue("feed_lang",
+        problems.InvalidValue("feed_lang", self.feed_info.feed_lang,
                               "The languages specified in feedinfo.txt and in "
                               "agency.txt for agency with ID %s differ." %
                               agency.agency_id)
-- 
2.43.0


From e460f0e53808eb5d98e347b41bc6bcb8902ddc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:01 +0000
Subject: [PATCH 96/98] fix: reading back stop times which were loaded with a
 report raises no more

---
 transitfeed/trip.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ec4366d..e1d3b71 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -21,6 +21,16 @@ from .gtfsobjectbase import GtfsObjectBase
 from . import problems as problems_module
 from . import util
 
+class _SilentProblemAccumulator(problems_module.ProblemAccumulatorInterface):
+  """Ignores problems which were reported before."""
+  def _Report(self, e):
+    pass
+
+
+_silent_problem_reporter = problems_module.ProblemReporter(
+    _SilentProblemAccumulator())
+
+
 class Trip(GtfsObjectBase):
   _REQUIRED_FIELD_NAMES = ['route_id', 'service_id', 'trip_id']
   _FIELD_NAMES = _REQUIRED_FIELD_NAMES + [
@@ -242,8 +252,8 @@ class Trip(GtfsObjectBase):
 
   def GetStopTimes(self, problems=None):
     """Return a sorted list of StopTime objects for this trip."""
-    # In theory problems=None should be safe because data from database has been
-    # validated. See comment in _LoadStopTimes for why this isn't always true.
+    # With problems=None nothing is reported: what is wrong with the data was
+    # reported when it was put into the database.
     cursor = self._schedule._connection.cursor()
     cursor.execute(
         'SELECT arrival_secs,departure_secs,stop_headsign,pickup_type,'
@@ -256,7 +266,7 @@ class Trip(GtfsObjectBase):
     if problems is None:
       # TODO: delete this branch when StopTime.__init__ doesn't need a
       # ProblemReporter
-      problems = problems_module.default_problem_reporter
+      problems = _silent_problem_reporter
     for row in cursor.fetchall():
       stop = self._schedule.GetStop(row[6])
       stop_times.append(stoptime_class(problems=problems,
-- 
2.43.0


From fcfe209ee7f389baeabe9bee75dd48ff1acb017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 97/98] fix: a departure before the arrival is named when the
 times are seconds

---
 transitfeed/stoptime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 2e092a0..e4a5440 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -126,11 +126,14 @@ class StopTime(object):
 
     if ((self.arrival_secs != None) and (self.departure_secs != None) and
         (self.departure_secs < self.arrival_secs)):
-      problems.InvalidValue('departure_time', departure_time,
+      # The times may have been given as seconds
+      problems.InvalidValue('departure_time',
+                            departure_time or self.departure_time,
                             'The departure time at this stop (%s) is before '
                             'the arrival time (%s).  This is often caused by '
                             'problems in the feed exporter\'s time conversion'
-                            % (departure_time, arrival_time))
+                            % (departure_time or self.departure_time,
+                               arrival_time or self.arrival_time))
 
     # If the caller passed a valid arrival time but didn't attempt to pass a
     # departure time complain
-- 
2.43.0


From bc573c80b8cec4834df6a4cd67e813bf7f8f49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:41 +0000
Subject: [PATCH 98/98] fix: an agency name such as [key] is shown as it is by
 the viewer

---
 schedule_viewer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index a5ac1b6..a119a6e 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -229,9 +229,11 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     # with the value of local variable xxx
     f, _ = self.OpenFile('index.html')
     content = f.read()
-    for v in ('agency', 'min_lat', 'min_lon', 'max_lat', 'max_lon', 'key',
-              'host', 'forbid_editing'):
-      content = content.replace('[%s]' % v, str(locals()[v]))
+    values = locals()
+    # All at once, because a value such as the agency name may contain [xxx]
+    content = re.sub(r'\[(agency|min_lat|min_lon|max_lat|max_lon|key|host|'
+                     r'forbid_editing)\]',
+                     lambda m: str(values[m.group(1)]), content)
 
     self.send_response(200)
     self.send_header('Content-Type', 'text/html')
-- 
2.43.0

