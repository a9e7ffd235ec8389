From 0c2832ab326fb3db1abe85d91d70197f2e65e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/65] fix: keep interval triggers usable after they were
 restored from a store

The persisted state of an interval trigger does not carry interval_size, so
computing a first run time on a restored trigger (resume_task, combination
triggers, previews) raised AttributeError once its start had passed. Integer
division also keeps sub-second grids exact.
---
 asyncz/triggers/interval.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..cd3014c 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,5 +1,4 @@
 from datetime import datetime, timedelta, tzinfo
-from math import ceil
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
@@ -82,8 +81,8 @@ class IntervalTrigger(BaseTrigger):
         elif start_at > now:
             next_trigger_time = start_at
         else:
-            time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
+            # exact, and only from persisted state: a restored trigger has no interval_size
+            next_interval_number = -((start_at - now) // self.interval)
             next_trigger_time = start_at + self.interval * next_interval_number
 
         if self.jitter is not None:
-- 
2.43.0


From 8fa115f6c6623bf9135c7f1590cfbdaf856bf781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 02/65] fix: AndTrigger no longer loops forever

With a previous run time every child kept repeating its answer, so the search
for a common time never moved on (any AND of interval or cron triggers hung the
scheduler after its first run). Children that can never agree (a date in the
past, disjoint cron fields) looped as well; such a trigger is finished.
---
 asyncz/triggers/combination.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..b00e3b0 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -15,25 +15,35 @@ class AndTrigger(BaseCombinationTrigger):
     """
 
     alias: ClassVar[str] = "and"
+    max_iterations: ClassVar[int] = 10_000
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
-        while True:
+        reference = now
+        for _ in range(self.max_iterations):
             trigger_times = []
             for trigger in self.triggers:
-                next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
+                next_trigger_time = trigger.get_next_trigger_time(
+                    timezone, previous_time, reference
+                )
                 # bail out early
                 if next_trigger_time is None:
                     return None
                 trigger_times.append(next_trigger_time)
-            if min(trigger_times) == max(trigger_times):
+            latest = max(trigger_times)
+            if min(trigger_times) == latest:
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
-            else:
-                # recheck
-                now = max(trigger_times)
+            if previous_time is None and latest <= reference:
+                # nobody moves forward anymore: a trigger only offers times in the past
+                return None
+            # recheck from the latest time on. previous_time has done its work, passing it again
+            # would let every trigger repeat its answer forever.
+            previous_time, reference = None, latest
+        # the triggers never agree
+        return None
 
 
 class OrTrigger(BaseCombinationTrigger):
-- 
2.43.0


From 06c64768594edb591120202d38f8c38a2faf081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/65] fix: triggers never go back in time within the repeated
 hour at the end of DST

Wall clock arithmetic on zoneinfo datetimes drops the fold, so inside the second
pass of the hour cron and interval triggers (and the jitter) answered a time up
to an hour before the reference, which was due at once.
---
 asyncz/triggers/base.py         |  6 ++++--
 asyncz/triggers/cron/trigger.py |  8 +++++---
 asyncz/triggers/interval.py     | 13 ++++++++++---
 asyncz/utils.py                 | 10 ++++++++++
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/asyncz/triggers/base.py b/asyncz/triggers/base.py
index 278db54..965e635 100644
--- a/asyncz/triggers/base.py
+++ b/asyncz/triggers/base.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Union, overload
 from asyncz.datastructures import CombinationState
 from asyncz.state import BaseStateExtra
 from asyncz.triggers.types import TriggerType
-from asyncz.utils import obj_to_ref, ref_to_obj
+from asyncz.utils import not_before, obj_to_ref, ref_to_obj
 
 
 class BaseTrigger(BaseStateExtra, TriggerType):
@@ -36,7 +36,9 @@ class BaseTrigger(BaseStateExtra, TriggerType):
         """
         if next_trigger_time is None or not jitter:
             return next_trigger_time
-        return next_trigger_time + timedelta(seconds=random.uniform(0, jitter))
+        return not_before(
+            next_trigger_time + timedelta(seconds=random.uniform(0, jitter)), next_trigger_time
+        )
 
 
 class BaseCombinationTrigger(BaseTrigger):
diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..8b8200a 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -16,6 +16,7 @@ from asyncz.utils import (
     datetime_repr,
     localize,
     normalize,
+    not_before,
     to_datetime,
     to_timezone,
 )
@@ -203,7 +204,7 @@ class CronTrigger(BaseTrigger):
                     count += 1
 
         difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return normalize(dateval + difference), field_number
+        return not_before(normalize(dateval + difference), dateval), field_number
 
     def set_field_value(
         self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
@@ -218,7 +219,7 @@ class CronTrigger(BaseTrigger):
                 else:
                     values[field.name] = new_value
 
-        return localize(datetime(**values), timezone)
+        return not_before(localize(datetime(**values), timezone), dateval)
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
@@ -240,13 +241,14 @@ class CronTrigger(BaseTrigger):
             start_at = min(now, previous_time + timedelta(microseconds=1))
             if start_at == previous_time:
                 start_at += timedelta(microseconds=1)
+            start_at = not_before(start_at, previous_time)
         else:
             start_at = max(now, start_at_field) if start_at_field else now
         if start_at.tzinfo != timezone:
             start_at = start_at.astimezone(timezone)
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = not_before(datetime_ceil(start_at), start_at)
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index cd3014c..4a8a70f 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -3,7 +3,14 @@ from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
 from asyncz.triggers.base import BaseTrigger
-from asyncz.utils import datetime_repr, normalize, timedelta_seconds, to_datetime, to_timezone
+from asyncz.utils import (
+    datetime_repr,
+    normalize,
+    not_before,
+    timedelta_seconds,
+    to_datetime,
+    to_timezone,
+)
 
 
 class IntervalTrigger(BaseTrigger):
@@ -77,13 +84,13 @@ class IntervalTrigger(BaseTrigger):
             else self.start_at
         )
         if previous_time:
-            next_trigger_time = previous_time + self.interval
+            next_trigger_time = not_before(previous_time + self.interval, previous_time)
         elif start_at > now:
             next_trigger_time = start_at
         else:
             # exact, and only from persisted state: a restored trigger has no interval_size
             next_interval_number = -((start_at - now) // self.interval)
-            next_trigger_time = start_at + self.interval * next_interval_number
+            next_trigger_time = not_before(start_at + self.interval * next_interval_number, now)
 
         if self.jitter is not None:
             next_trigger_time = self.apply_jitter(
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6401b6a..e3a6af9 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -433,3 +433,13 @@ def localize(value: datetime, tzinfo: tzinfo) -> datetime:
         return cast(datetime, tzinfo.localize(value))
 
     return normalize(value.replace(tzinfo=tzinfo))
+
+
+def not_before(value: datetime, reference: datetime) -> datetime:
+    """
+    Wall clock arithmetic forgets which pass of a repeated hour (end of DST) it is in.
+    Selects the second pass when the first one would lie before the reference.
+    """
+    if value.timestamp() < reference.timestamp():
+        return value.replace(fold=1)
+    return value
-- 
2.43.0


From 40c48610eb4050e6a321e7d34788e7ee021f7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 04/65] fix: localize naive trigger bounds instead of replacing
 their timezone

With pytz timezones replace() attaches the local mean time (e.g. +00:53), so
naive start_at/end_at values were off by minutes.
---
 asyncz/triggers/cron/trigger.py | 4 ++--
 asyncz/triggers/interval.py     | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 8b8200a..ec8a1a4 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -228,12 +228,12 @@ class CronTrigger(BaseTrigger):
         if now is None:
             now = datetime.now(timezone)
         start_at_field = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
         end_at_field = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 4a8a70f..d5aecec 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -5,6 +5,7 @@ from asyncz.datastructures import IntervalState
 from asyncz.triggers.base import BaseTrigger
 from asyncz.utils import (
     datetime_repr,
+    localize,
     normalize,
     not_before,
     timedelta_seconds,
@@ -79,7 +80,7 @@ class IntervalTrigger(BaseTrigger):
             now = datetime.now(timezone)
         next_trigger_time: Optional[datetime]
         start_at = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
@@ -97,7 +98,7 @@ class IntervalTrigger(BaseTrigger):
                 next_trigger_time=next_trigger_time, jitter=self.jitter, now=now
             )
         end_at = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
-- 
2.43.0


From c8d10df8f6ed9e82e0e7fcdfdb17feed57faf9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 05/65] fix: cron triggers honour start_at after an earlier
 explicit run

start_at is the earliest time to trigger on, also when the task already ran
before it (next_run_time given explicitly, run_task).
---
 asyncz/triggers/cron/trigger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index ec8a1a4..52a5381 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -243,7 +243,9 @@ class CronTrigger(BaseTrigger):
                 start_at += timedelta(microseconds=1)
             start_at = not_before(start_at, previous_time)
         else:
-            start_at = max(now, start_at_field) if start_at_field else now
+            start_at = now
+        if start_at_field:
+            start_at = max(start_at, start_at_field)
         if start_at.tzinfo != timezone:
             start_at = start_at.astimezone(timezone)
 
-- 
2.43.0


From 7070662f702d03e8897d601dbe0fd959f38acf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 06/65] fix: interval triggers without start_at count from the
 real current time

---
 asyncz/triggers/interval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index d5aecec..d71aed0 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as tz
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
@@ -65,7 +66,7 @@ class IntervalTrigger(BaseTrigger):
         else:
             self.timezone = None
 
-        start_at = start_at or (datetime.now(self.timezone) + self.interval)
+        start_at = start_at or (datetime.now(self.timezone or tz.utc) + self.interval)
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
-- 
2.43.0


From c38866430b77a81e7ce7a64e56e3cfaa840b0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 07/65] fix: cron triggers with pytz zones keep the wall clock
 over offset changes

---
 asyncz/triggers/cron/trigger.py | 9 ++++++---
 asyncz/utils.py                 | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 52a5381..d13f0e6 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -1,5 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
-from typing import Any, ClassVar, Optional, Union
+from typing import Any, ClassVar, Optional, Union, cast
 
 from asyncz.datastructures import CronState
 from asyncz.triggers.base import BaseTrigger
@@ -203,8 +203,11 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return not_before(normalize(dateval + difference), dateval), field_number
+        wanted = datetime(**values)
+        value = normalize(dateval + (wanted - dateval.replace(tzinfo=None)))
+        # pytz adds elapsed time: when the clock went forward meanwhile this overshoots
+        value = min(value, localize(wanted, cast(tzinfo, dateval.tzinfo)))
+        return not_before(value, dateval), field_number
 
     def set_field_value(
         self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
diff --git a/asyncz/utils.py b/asyncz/utils.py
index e3a6af9..8e8a270 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -217,7 +217,10 @@ def datetime_ceil(dateval: datetime) -> datetime:
     Rounds the given datetime object upwards.
     """
     if dateval.microsecond > 0:
-        return dateval + timedelta(seconds=1, microseconds=-dateval.microsecond)
+        dateval += timedelta(seconds=1, microseconds=-dateval.microsecond)
+        if hasattr(dateval.tzinfo, "normalize"):
+            # pytz keeps the old offset after arithmetic
+            dateval = cast(datetime, dateval.tzinfo.normalize(dateval))
     return dateval
 
 
@@ -430,7 +433,7 @@ def normalize(value: datetime) -> datetime:
 def localize(value: datetime, tzinfo: tzinfo) -> datetime:
     if hasattr(tzinfo, "localize"):
         # pytz localize
-        return cast(datetime, tzinfo.localize(value))
+        return normalize(cast(datetime, tzinfo.localize(value)))
 
     return normalize(value.replace(tzinfo=tzinfo))
 
-- 
2.43.0


From 5c6a1746bbae0be3d8c47d66bc941f99778a084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 08/65] fix: reject cron expressions with trailing garbage

---
 asyncz/triggers/cron/expressions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index fdc6cf3..826874c 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -150,7 +150,7 @@ class RangeExpression(AllExpression):
 
 class MonthRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
     step: Optional[int] = None
 
@@ -195,7 +195,7 @@ class MonthRangeExpression(RangeExpression):
 
 class WeekdayRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
 
     def __init__(
@@ -238,7 +238,7 @@ class WeekdayRangeExpression(RangeExpression):
 
 class WeekdayPositionExpression(AllExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))".format("|".join(OPTIONS)),
+        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))$".format("|".join(OPTIONS)),
         re.IGNORECASE,
     )
 
@@ -288,7 +288,7 @@ class WeekdayPositionExpression(AllExpression):
 
 
 class LastDayOfMonthExpression(AllExpression):
-    regex: ClassVar[re.Pattern] = re.compile(r"last", re.IGNORECASE)
+    regex: ClassVar[re.Pattern] = re.compile(r"last$", re.IGNORECASE)
 
     def __init__(self, **kwargs: Any) -> None:
         super().__init__(step=None, **kwargs)
-- 
2.43.0


From ae7cf14ac2439e603229a3cc727444e7bf5af280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 09/65] fix: interval triggers do not return a first time in
 the past when the scheduler uses another zone

---
 asyncz/triggers/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index d71aed0..ffa5268 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -91,7 +91,9 @@ class IntervalTrigger(BaseTrigger):
             next_trigger_time = start_at
         else:
             # exact, and only from persisted state: a restored trigger has no interval_size
-            next_interval_number = -((start_at - now) // self.interval)
+            # now is taken on the same clock as start_at, which is what the intervals are added to
+            elapsed = now.astimezone(start_at.tzinfo) - start_at
+            next_interval_number = -(-elapsed // self.interval)
             next_trigger_time = not_before(start_at + self.interval * next_interval_number, now)
 
         if self.jitter is not None:
-- 
2.43.0


From 0f43ef971c985fe31a5078d8f59770b84a0384e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 10/65] fix: trigger bounds are compared as instants, not as
 wall clock times

---
 asyncz/triggers/cron/trigger.py | 9 ++++++---
 asyncz/triggers/interval.py     | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index d13f0e6..1472cb9 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -248,7 +248,8 @@ class CronTrigger(BaseTrigger):
         else:
             start_at = now
         if start_at_field:
-            start_at = max(start_at, start_at_field)
+            # comparing within the same zone would ignore the fold
+            start_at = max(start_at, start_at_field, key=datetime.timestamp)
         if start_at.tzinfo != timezone:
             start_at = start_at.astimezone(timezone)
 
@@ -271,12 +272,14 @@ class CronTrigger(BaseTrigger):
             else:
                 fieldnum += 1
 
-            if end_at_field and next_date > end_at_field:
+            if end_at_field and next_date.timestamp() > end_at_field.timestamp():
                 return None
 
         if fieldnum >= 0:
             next_date = self.apply_jitter(next_date, self.jitter, now)
-            return min(next_date, end_at_field) if end_at_field else next_date
+            if end_at_field:
+                return min(next_date, end_at_field, key=datetime.timestamp)
+            return next_date
         return None
 
     def __getstate__(self) -> Any:
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index ffa5268..2e7380a 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -87,7 +87,7 @@ class IntervalTrigger(BaseTrigger):
         )
         if previous_time:
             next_trigger_time = not_before(previous_time + self.interval, previous_time)
-        elif start_at > now:
+        elif start_at.timestamp() > now.timestamp():
             next_trigger_time = start_at
         else:
             # exact, and only from persisted state: a restored trigger has no interval_size
@@ -106,7 +106,7 @@ class IntervalTrigger(BaseTrigger):
             else self.end_at
         )
 
-        if not end_at or next_trigger_time <= end_at:
+        if not end_at or next_trigger_time.timestamp() <= end_at.timestamp():
             return normalize(value=next_trigger_time)
         return None
 
-- 
2.43.0


From c3c79ae682319081d3f1ebd262e6a45b8aba5af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 11/65] fix: fractional mistrigger grace times can be stored

---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From f37cba123802f120a200a158d4aa4d47b48a801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 12/65] fix: accept keywords for **kwargs which are named like
 optional positional-only parameters

---
 asyncz/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 8e8a270..164102e 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -370,7 +370,7 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
                 del unmatched_args[0]
             elif param.name in unmatched_kwargs:
                 unmatched_kwargs.remove(param.name)
-                positional_only_kwargs.append(param.name)
+                positional_only_kwargs.append(param)
             elif param.default is param.empty:
                 unsatisfied_args.append(param.name)
         elif param.kind == param.KEYWORD_ONLY:
@@ -390,10 +390,14 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
             )
         )
 
+    if has_var_kwargs:
+        # **kwargs takes keywords named like an optional positional-only parameter
+        positional_only_kwargs = [p for p in positional_only_kwargs if p.default is p.empty]
+
     if positional_only_kwargs:
         raise ValueError(
             "The following arguments cannot be given as keyword arguments: {}".format(
-                ", ".join(positional_only_kwargs)
+                ", ".join(p.name for p in positional_only_kwargs)
             )
         )
 
-- 
2.43.0


From 9d06f73cbe0a6e9ae7916538caafa12b4a406a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 13/65] fix: update, pause and reschedule accept task objects

---
 asyncz/schedulers/base.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..d47d6a9 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -658,17 +658,22 @@ class BaseScheduler(SchedulerType):
         """
         if isinstance(task_id, TaskType):
             assert task_id.id, "Cannot update a decorator type Task"
-            new_updates = self.shape.dump(
-                task_id,
-                context=ShapeContext(
-                    entity="task",
-                    operation="dump",
-                    scheduler_identity=self.identity,
-                ),
-            )
-            if not isinstance(new_updates, Mapping):
-                raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
+            # only what a task accepts as update, a dump also contains internal state
+            new_updates: dict[str, Any] = {
+                name: getattr(task_id, name)
+                for name in (
+                    "fn",
+                    "args",
+                    "kwargs",
+                    "name",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "trigger",
+                    "executor",
+                    "next_run_time",
+                )
+            }
             new_updates.update(**updates)
             task_id = task_id.id
         else:
@@ -707,6 +712,9 @@ class BaseScheduler(SchedulerType):
         trigger = self.create_trigger(trigger, trigger_args)
         now = datetime.now(self.timezone)
         next_run_time = trigger.get_next_trigger_time(self.timezone, None, now)
+        if isinstance(task_id, TaskType):
+            assert task_id.id, "Cannot reschedule decorator style Task"
+            task_id = task_id.id
         return self.update_task(task_id, store, trigger=trigger, next_run_time=next_run_time)
 
     def pause_task(self, task_id: Union[TaskType, str], store: Optional[str] = None) -> TaskType:
@@ -717,6 +725,9 @@ class BaseScheduler(SchedulerType):
             task_id: The identifier of the task.
             store: Alias of the task store that contains the task.
         """
+        if isinstance(task_id, TaskType):
+            assert task_id.id, "Cannot pause decorator style Task"
+            task_id = task_id.id
         return self.update_task(task_id, store, next_run_time=None)
 
     def resume_task(
-- 
2.43.0


From 8b588a643fb09e805b2c77abbf464d68e01dddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 14/65] fix: file store survives crashes and concurrent readers
 and writers

---
 asyncz/file_locking.py |   6 ++-
 asyncz/stores/file.py  | 105 ++++++++++++++++++++++++++---------------
 2 files changed, 72 insertions(+), 39 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..27e9a84 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -4,10 +4,12 @@ import glob
 import os
 import pickle
 import shutil
-from contextlib import suppress
+from collections.abc import Generator
+from contextlib import contextmanager, suppress
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Optional, Union, cast
+from uuid import uuid4
 
 from asyncz.exceptions import ConflictIdError, TaskLookupError
 from asyncz.file_locking import LOCK_EX, LOCK_SH, with_lock
@@ -75,12 +77,47 @@ class FileStore(BaseStore):
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
+            with self.locked(LOCK_SH):
+                return self.read_task(task_path)
+        except FileNotFoundError:
+            return None
+
+    @contextmanager
+    def locked(self, flags: int) -> Generator[None, None, None]:
+        """
+        Readers share the directory with each other, writers have it for themselves.
+        """
+        with open(self.directory / ".lock", "ab") as lock_ob, with_lock(lock_ob, flags):
+            yield
+
+    def read_task(self, task_path: Union[str, os.PathLike]) -> Optional[TaskType]:
+        """
+        Reads a task, a task which cannot be restored is removed. Requires the lock.
+        """
+        with open(task_path, "rb") as read_ob:
+            state = read_ob.read()
+        try:
+            return self.rebuild_task(state)
         except Exception:
-            task_path.unlink(missing_ok=True)
-            task = None
-        return task
+            with suppress(FileNotFoundError):
+                os.unlink(task_path)
+            return None
+
+    def write_task(self, task: TaskType, task_path: Path) -> None:
+        """
+        Replaces the file at once: a crash never leaves a partially written task behind.
+        Requires the exclusive lock.
+        """
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
+        temp_path = self.directory / f".{uuid4().hex}.tmp"
+        try:
+            temp_path.write_bytes(state)
+            os.replace(temp_path, task_path)
+        except BaseException:
+            temp_path.unlink(missing_ok=True)
+            raise
 
     def rebuild_task(self, state: Any) -> TaskType:
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -99,17 +136,19 @@ class FileStore(BaseStore):
 
     def get_tasks(self) -> list[TaskType]:
         tasks: list[tuple[TaskType, os.stat_result]] = []
-        with os.scandir(self.directory) as scanner:
+        with self.locked(LOCK_SH), os.scandir(self.directory) as scanner:
             for entry in scanner:
-                if not entry.name.endswith(self.suffix) or not entry.is_file():
+                if (
+                    entry.name.startswith(".")
+                    or not entry.name.endswith(self.suffix)
+                    or not entry.is_file()
+                ):
                     continue
-                try:
-                    with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        task = self.rebuild_task(read_ob.read())
-                    tasks.append((task, entry.stat()))
-                except Exception:
-                    with suppress(FileNotFoundError):
-                        os.unlink(entry.path)
+                with suppress(FileNotFoundError):
+                    stat = entry.stat()
+                    task = self.read_task(entry.path)
+                    if task is not None:
+                        tasks.append((task, stat))
             return [
                 task
                 for task, _ in sorted(
@@ -138,41 +177,33 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileExistsError:
-            raise ConflictIdError(task.id) from None
+        with self.locked(LOCK_EX):
+            if os.path.lexists(task_path):
+                raise ConflictIdError(task.id)
+            self.write_task(task, task_path)
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileNotFoundError:
-            raise TaskLookupError(task.id) from None
+        with self.locked(LOCK_EX):
+            if not os.path.lexists(task_path):
+                raise TaskLookupError(task.id)
+            self.write_task(task, task_path)
 
     def delete_task(self, task_id: str) -> None:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            task_path.unlink(missing_ok=False)
+            with self.locked(LOCK_EX):
+                task_path.unlink(missing_ok=False)
         except FileNotFoundError:
             raise TaskLookupError(task_id) from None
 
     def remove_all_tasks(self) -> None:
-        for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
-            task_path.unlink(missing_ok=True)
+        with self.locked(LOCK_EX):
+            for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
+                if not task_path.name.startswith("."):
+                    task_path.unlink(missing_ok=True)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} (directory={self.directory})>"
-- 
2.43.0


From 0c0efc4e134cb0f9a02b4974a9c0b04dc31ca05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 15/65] fix: release the processing lock when the protected
 block raises

---
 asyncz/locks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From 64f543b9de969a1cdc517abb759ea7dde4988eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 16/65] fix: shutting down a store does not remove a lock file
 which is held by another process

---
 asyncz/locks.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index ad0e088..a4263d4 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -63,17 +63,35 @@ class FileLockProtected(LockProtectedProtocol):
     def protected(
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
-        with open(self.file_path, "w+") as file:
-            flags = LOCK_EX
-            if not blocking:
-                flags |= LOCK_NB
-            locked = lock(file, flags)
-            try:
-                yield locked
-            finally:
-                if locked:
+        flags = LOCK_EX
+        if not blocking:
+            flags |= LOCK_NB
+        while True:
+            with open(self.file_path, "a+") as file:
+                locked = lock(file, flags)
+                if locked and not self._is_current(file):
+                    # removed by a shutdown in the meantime, the lock protects nothing anymore
                     unlock(file)
+                    continue
+                try:
+                    yield locked
+                finally:
+                    if locked:
+                        unlock(file)
+                return
+
+    def _is_current(self, file: Any) -> bool:
+        try:
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.file_path))
+        except FileNotFoundError:
+            return False
 
     def shutdown(self) -> None:
-        with suppress(FileNotFoundError):
-            os.remove(self.file_path)
+        # only remove the file when nobody else is holding the lock
+        with suppress(OSError), open(self.file_path, "r+") as file:
+            if lock(file, LOCK_EX | LOCK_NB):
+                try:
+                    if self._is_current(file):
+                        os.remove(self.file_path)
+                finally:
+                    unlock(file)
-- 
2.43.0


From 214998518e2b3dbc98f65c205133673e82c9e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 17/65] fix: the redis store also returns due tasks scheduled
 before 1970

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..0dba240 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,7 +67,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From 18793f8775a249b5677f71c660d49cb4ac3a743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 18/65] fix: pool executors replace broken pools, accept their
 documented options and can be started again

---
 asyncz/executors/pool.py         | 41 +++++++++++++++++++++++++-------
 asyncz/executors/process_pool.py |  3 +++
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..2464196 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -18,24 +18,45 @@ class BasePoolExecutor(BaseExecutor):
     overwrite_wait: Optional[bool] = None
 
     @abstractmethod
-    def __init__(self, pool: Any, **kwargs: Any) -> None:
+    def __init__(
+        self,
+        pool: Any,
+        cancel_futures: bool = False,
+        overwrite_wait: Optional[bool] = None,
+        **kwargs: Any,
+    ) -> None:
         super().__init__(**kwargs)
         self.pool = pool
+        self.pool_kwargs: dict[str, Any] = {}
+        self.pool_closed = False
+        self.cancel_futures = cancel_futures
+        self.overwrite_wait = overwrite_wait
+
+    def start(self, scheduler: Any, alias: str) -> None:
+        super().start(scheduler, alias)
+        if self.pool_closed:
+            # started again after a shutdown
+            self.pool = self.create_pool()
+            self.pool_closed = False
+
+    def create_pool(self) -> Any:
+        """
+        Creates a replacement of the current pool.
+        """
+        return self.pool.__class__(self.pool._max_workers, **self.pool_kwargs)
 
     def do_send_task(self, task: "TaskType", run_times: list[datetime]) -> Any:
         task_id = task.id
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
-            exc, _ = (
-                fn.exception_info()
-                if hasattr(fn, "exception_info")
-                else (fn.exception(), getattr(fn.exception(), "__traceback__", None))
-            )
-            if exc:
+            try:
+                events = fn.result()
+            except BaseException:
+                # also raised by cancelled futures
                 self.run_task_error(task_id)
             else:
-                self.run_task_success(task_id, fn.result())
+                self.run_task_success(task_id, events)
 
         try:
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
@@ -43,7 +64,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.create_pool()
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
@@ -51,6 +72,7 @@ class BasePoolExecutor(BaseExecutor):
     def shutdown(self, wait: bool = True) -> None:
         if self.overwrite_wait is not None:
             wait = self.overwrite_wait
+        self.pool_closed = True
         self.pool.shutdown(wait, cancel_futures=self.cancel_futures)
 
 
@@ -67,3 +89,4 @@ class ThreadPoolExecutor(BasePoolExecutor):
         pool_kwargs = pool_kwargs or {}
         pool = concurrent.futures.ThreadPoolExecutor(int(max_workers), **pool_kwargs)
         super().__init__(pool, **kwargs)
+        self.pool_kwargs = pool_kwargs
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index dadc051..c7cc106 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -66,9 +66,12 @@ class ProcessPoolExecutor(BasePoolExecutor):
         pool_kwargs = pool_kwargs or {}
         pool = concurrent.futures.ProcessPoolExecutor(int(max_workers), **pool_kwargs)
         super().__init__(pool, **kwargs)
+        self.pool_kwargs = pool_kwargs
 
     def start(self, scheduler: "SchedulerType", alias: str) -> None:
         super().start(scheduler, alias)
+        if self.send_pipe.closed:
+            self.receive_pipe, self.send_pipe = Pipe(False)
         assert self.logger is not None, "logger is None"
         # move the old logger to logger_receiver
         self.logger_receiver = ProcessPoolReceiver(self.receive_pipe, self.logger)
-- 
2.43.0


From 17e05e8875527e18b2a65b752bc74b2e63b714a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 19/65] fix: shutdown does not hold the locks while waiting for
 running tasks

---
 asyncz/schedulers/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d47d6a9..0b27de8 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -279,9 +279,14 @@ class BaseScheduler(SchedulerType):
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
 
+        # let running processing finish first, nothing is processed anymore afterwards
+        with self.executor_lock, self.store_lock:
+            executors = tuple(self.executors.values())
+        # running tasks and their listeners may need the locks, don't hold them while waiting
+        for executor in executors:
+            executor.shutdown(wait)
+
         with self.executor_lock, self.store_lock:
-            for executor in self.executors.values():
-                executor.shutdown(wait)
             coros = []
             for _store in self.stores.values():
                 for task in _store.get_all_tasks():
-- 
2.43.0


From f5ca6421c2c3b002868f07ddd13661447db3e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 20/65] fix: failed starts and shutdowns without start keep the
 reference count right, tasks added while starting are not lost

---
 asyncz/schedulers/base.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 0b27de8..6a2a828 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -183,7 +183,8 @@ class BaseScheduler(SchedulerType):
 
     def decr_refcount(self) -> bool:
         with self.ref_lock:
-            self.ref_counter -= 1
+            # a shutdown without start must not be counted
+            self.ref_counter = max(self.ref_counter - 1, 0)
             # first start with 0
             if self.ref_counter > 0:
                 return False
@@ -201,6 +202,23 @@ class BaseScheduler(SchedulerType):
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
+        try:
+            self._start_components(paused)
+        except BaseException:
+            # not started, can be tried again
+            self.decr_refcount()
+            raise
+
+        self.started_at = datetime.now(self.timezone)
+        self.last_seen_at = self.started_at
+        self.loggers[self.logger_name].info("Scheduler started.")
+        self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
+
+        if not paused:
+            self.wakeup()
+        return True
+
+    def _start_components(self, paused: bool) -> None:
         self.check_uwsgi()
         with self.executor_lock:
             if "default" not in self.executors:
@@ -224,16 +242,8 @@ class BaseScheduler(SchedulerType):
                 with contextlib.suppress(ConflictIdError):
                     self.real_add_task(task, replace_existing, start_task, min_dtime)
             del self.pending_tasks[:]
-
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
-        self.started_at = datetime.now(self.timezone)
-        self.last_seen_at = self.started_at
-        self.loggers[self.logger_name].info("Scheduler started.")
-        self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
-
-        if not paused:
-            self.wakeup()
-        return True
+            # still locked: otherwise tasks added in between would stay pending
+            self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
 
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
-- 
2.43.0


From d612bd8dd3529f2a3e110b5da6ba7e4e24935289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 21/65] fix: lifecycle of the asyncio schedulers: reuse in
 another loop, async shutdown tasks, isolated loops, sends from other threads

---
 asyncz/executors/asyncio.py  | 34 +++++++++++++++--------
 asyncz/schedulers/asyncio.py | 53 ++++++++++++++++++++++--------------
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/asyncz/executors/asyncio.py b/asyncz/executors/asyncio.py
index e88a40a..6c67746 100644
--- a/asyncz/executors/asyncio.py
+++ b/asyncz/executors/asyncio.py
@@ -1,3 +1,4 @@
+import asyncio
 import inspect
 from datetime import datetime
 from typing import TYPE_CHECKING, Any, cast
@@ -46,15 +47,26 @@ class AsyncIOExecutor(BaseExecutor):
             else:
                 self.run_task_success(task_id, events)
 
-        if inspect.iscoroutinefunction(task.fn):
-            coroutine = run_coroutine_task(
-                task, cast(str, task.store_alias), run_times, self.logger
-            )
-            fn = self.event_loop.create_task(coroutine)
-        else:
-            fn = self.event_loop.run_in_executor(
-                None, run_task, task, cast(str, task.store_alias), run_times, self.logger
-            )
+        def send() -> None:
+            if inspect.iscoroutinefunction(task.fn):
+                coroutine = run_coroutine_task(
+                    task, cast(str, task.store_alias), run_times, self.logger
+                )
+                fn = self.event_loop.create_task(coroutine)
+            else:
+                fn = self.event_loop.run_in_executor(
+                    None, run_task, task, cast(str, task.store_alias), run_times, self.logger
+                )
 
-        fn.add_done_callback(callback)
-        self.pending_futures.add(fn)
+            fn.add_done_callback(callback)
+            self.pending_futures.add(fn)
+
+        try:
+            running_loop = asyncio.get_running_loop()
+        except RuntimeError:
+            running_loop = None
+        if running_loop is not self.event_loop and self.event_loop.is_running():
+            # event loops are not threadsafe and don't notice work of other threads
+            self.event_loop.call_soon_threadsafe(send)
+        else:
+            send()
diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..1458f68 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -1,11 +1,11 @@
 from __future__ import annotations
 
 import asyncio
-import contextlib
 from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
+from asyncz.exceptions import SchedulerNotRunningError
 from asyncz.executors.asyncio import AsyncIOExecutor
 from asyncz.schedulers.base import BaseScheduler
 from asyncz.schedulers.utils import run_in_event_loop
@@ -30,6 +30,7 @@ class AsyncIOScheduler(BaseScheduler):
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
     timer: Optional[Any] = None
+    _shutdown_handle: Any = None
 
     def _init_new_loop(self, event: Event) -> None:
         # called in thread
@@ -38,11 +39,17 @@ class AsyncIOScheduler(BaseScheduler):
         try:
             loop.run_forever()
         finally:
+            pending = asyncio.all_tasks(loop)
+            if pending:
+                # let cancelled tasks finish
+                for task in pending:
+                    task.cancel()
+                loop.run_until_complete(asyncio.wait(pending))
             loop.run_until_complete(loop.shutdown_asyncgens())
             loop.close()
 
     def start(self, paused: bool = False) -> bool:
-        if not self.event_loop:
+        if not self.event_loop or self.event_loop.is_closed():
             try:
                 if self.isolated_event_loop:
                     raise RuntimeError()
@@ -56,22 +63,31 @@ class AsyncIOScheduler(BaseScheduler):
                 event.wait()
         return super().start(paused)
 
+    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
+        self._shutdown_handle = asyncio.gather(*coros) if coros else None
+
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
         if super().shutdown(wait):
             self.stop_timer()
+            handle, self._shutdown_handle = self._shutdown_handle, None
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                loop = self.event_loop
                 self.event_loop = self.event_loop_thread = None
-                with contextlib.suppress(RuntimeError):
-                    thread.join()
+                if handle is not None:
+                    # the async shutdown tasks still need the loop
+                    handle.add_done_callback(lambda _: loop.stop())
+                else:
+                    loop.stop()
 
     def shutdown(self, wait: bool = True) -> bool:
         # not decremented yet so +1
         result = self.ref_counter
+        if result <= 0:
+            raise SchedulerNotRunningError()
         self._shutdown(wait)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -109,25 +125,20 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
         isolated_event_loop: Use a fresh, isolated event_loop instead the existing.
     """
 
-    _shutdown_handle: Any = None
-
     async def start(self, paused: bool = False) -> bool:  # type: ignore
         if self.isolated_event_loop:
-            event = Event()
-            self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
-            self.event_loop_thread.start()
-            await asyncio.to_thread(event.wait)
-        else:
+            if self.event_loop_thread is None:
+                event = Event()
+                self.event_loop_thread = Thread(
+                    target=self._init_new_loop, args=[event], daemon=True
+                )
+                self.event_loop_thread.start()
+                await asyncio.to_thread(event.wait)
+        elif not self.running:
             self.event_loop = asyncio.get_running_loop()
 
         return super(AsyncIOScheduler, self).start(paused)
 
-    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
-        if coros:
-            self._shutdown_handle = asyncio.gather(*coros)
-        else:
-            self._shutdown_handle = None
-
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
         # not decremented yet so +1
         result = self.ref_counter
@@ -139,10 +150,10 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
-- 
2.43.0


From b952f24110a1a0f6eed3fa9e65493b4c3439787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 22/65] fix: errors of a store or a task do not stop the
 processing, deleted tasks stay deleted, nothing is processed when stopped

---
 asyncz/schedulers/base.py | 62 +++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 6a2a828..fd7eb39 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1610,6 +1610,7 @@ class BaseScheduler(SchedulerType):
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
+            failed = False
             for task in due_tasks:
                 try:
                     executor = self.lookup_executor(task.executor)  # type: ignore
@@ -1617,10 +1618,19 @@ class BaseScheduler(SchedulerType):
                     self.loggers[self.logger_name].error(
                         f"Executor lookup ('{task.executor}') failed for task '{task}'. Removing it from the store."
                     )
-                    self.delete_task(task.id, store_alias)
+                    with contextlib.suppress(TaskLookupError):
+                        self.delete_task(task.id, store_alias)
                     continue
 
-                run_times = task.get_run_times(self.timezone, now)
+                try:
+                    run_times = task.get_run_times(self.timezone, now)
+                except Exception:
+                    # must not affect other tasks
+                    self.loggers[self.logger_name].exception(
+                        f"Error calculating the run times of task '{task}'."
+                    )
+                    failed = True
+                    continue
                 run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
 
                 if run_times:
@@ -1658,12 +1668,17 @@ class BaseScheduler(SchedulerType):
                     next_run = task.trigger.get_next_trigger_time(  # type: ignore
                         self.timezone, run_times[-1], now
                     )
-                    if next_run:
-                        task.update_task(next_run_time=next_run)
-                        store.update_task(task)
-                    else:
-                        self.delete_task(task.id, store_alias)
+                    # the task may delete itself or be deleted by somebody else while it is sent
+                    with contextlib.suppress(TaskLookupError):
+                        if next_run:
+                            task.update_task(next_run_time=next_run)
+                            if store.lookup_task(task.id) is not None:
+                                store.update_task(task)
+                        else:
+                            self.delete_task(task.id, store_alias)
 
+            if failed:
+                return self._get_retry_wakeup_time(now, next_wakeup_time)
             store_next_run_time = store.get_next_run_time()
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
@@ -1671,6 +1686,14 @@ class BaseScheduler(SchedulerType):
                 next_wakeup_time = store_next_run_time.astimezone(self.timezone)
             return next_wakeup_time
 
+    def _get_retry_wakeup_time(
+        self, now: datetime, next_wakeup_time: Optional[datetime]
+    ) -> datetime:
+        retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+        if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+            next_wakeup_time = retry_wakeup_time
+        return next_wakeup_time
+
     def process_tasks(self) -> Optional[float]:
         """
         Iterates through tasks in every store, starts tasks that are due and figures out how long
@@ -1683,6 +1706,10 @@ class BaseScheduler(SchedulerType):
             self.loggers[self.logger_name].debug("Scheduler is paused. Not processing tasks.")
             return None
 
+        if self.state == SchedulerState.STATE_STOPPED:
+            self.loggers[self.logger_name].debug("Scheduler is stopped. Not processing tasks.")
+            return None
+
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
         now = datetime.now(self.timezone)
         next_wakeup_time: Optional[datetime] = None
@@ -1693,10 +1720,19 @@ class BaseScheduler(SchedulerType):
             if blocking_success:
                 # threading lock
                 with self.store_lock:
-                    for store_alias, store in self.stores.items():
-                        next_wakeup_time = self._process_tasks_of_store(
-                            now, next_wakeup_time, store_alias, store, events
-                        )
+                    for store_alias, store in tuple(self.stores.items()):
+                        # may be changed by an event listener or from another thread
+                        if self.state != SchedulerState.STATE_RUNNING:
+                            break
+                        try:
+                            next_wakeup_time = self._process_tasks_of_store(
+                                now, next_wakeup_time, store_alias, store, events
+                            )
+                        except Exception:
+                            self.loggers[self.logger_name].exception(
+                                f'Error processing the tasks of the store "{store_alias}".'
+                            )
+                            next_wakeup_time = self._get_retry_wakeup_time(now, next_wakeup_time)
             else:
                 retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
@@ -1706,7 +1742,9 @@ class BaseScheduler(SchedulerType):
             self.dispatch_event(event)
 
         wait_seconds: Optional[float] = None
-        if self.state == SchedulerState.STATE_PAUSED:
+        if self.state == SchedulerState.STATE_STOPPED:
+            self.loggers[self.logger_name].debug("Scheduler is stopped.")
+        elif self.state == SchedulerState.STATE_PAUSED:
             self.loggers[self.logger_name].debug(
                 "Scheduler is paused. Waiting until resume() is called."
             )
-- 
2.43.0


From 311b3232f00dbd2d2cc7b3de6653ec731709bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 23/65] fix: manual runs do not race with changes from other
 threads and do not revive deleted tasks

---
 asyncz/schedulers/base.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index fd7eb39..413bcb9 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -814,6 +814,13 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot run a decorator style Task."
             task_id = task_id.id
 
+        # like the processing: changes from other threads happen before or afterwards
+        with self.store_lock:
+            return self._run_task(task_id, store, force=force, remove_finished=remove_finished)
+
+    def _run_task(
+        self, task_id: str, store: Optional[str], *, force: bool, remove_finished: bool
+    ) -> Union[TaskType, None]:
         task, store_alias = self.lookup_task(task_id, store)
         now = datetime.now(self.timezone)
         run_times = task.get_run_times(self.timezone, now)
@@ -878,13 +885,16 @@ class BaseScheduler(SchedulerType):
             next_run_time = now + timedelta(milliseconds=1)
 
         if next_run_time is None and remove_finished:
-            self.delete_task(task_id, store_alias)
+            with contextlib.suppress(TaskLookupError):
+                self.delete_task(task_id, store_alias)
             return None
 
-        task.update_task(next_run_time=next_run_time)
         if store_alias is not None:
-            with self.store_lock:
-                self.lookup_store(store_alias).update_task(task)
+            # the task may have deleted itself
+            if self.lookup_store(store_alias).lookup_task(task_id) is None:
+                return None
+            task.update_task(next_run_time=next_run_time)
+            self.lookup_store(store_alias).update_task(task)
 
         return task
 
-- 
2.43.0


From de6650aba320707b42181eb5549724138b705dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 24/65] fix: pause, resume, manual runs and processing do not
 interleave with a shutdown

---
 asyncz/schedulers/base.py | 46 ++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 413bcb9..a03c278 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -282,21 +282,21 @@ class BaseScheduler(SchedulerType):
         if not self.decr_refcount():
             return False
 
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError()
-
-        self.state = SchedulerState.STATE_STOPPED
-        self.last_seen_at = datetime.now(self.timezone)
-        self.started_at = None
-
         # let running processing finish first, nothing is processed anymore afterwards
-        with self.executor_lock, self.store_lock:
+        with self.store_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
+            self.state = SchedulerState.STATE_STOPPED
+            self.last_seen_at = datetime.now(self.timezone)
+            self.started_at = None
+
+        with self.executor_lock:
             executors = tuple(self.executors.values())
         # running tasks and their listeners may need the locks, don't hold them while waiting
         for executor in executors:
             executor.shutdown(wait)
 
-        with self.executor_lock, self.store_lock:
+        with self.store_lock:
             coros = []
             for _store in self.stores.values():
                 for task in _store.get_all_tasks():
@@ -322,10 +322,14 @@ class BaseScheduler(SchedulerType):
         This will prevent the scheduler from waking up to do task processing until resume
         is called. It will not however stop any already running task processing.
         """
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError()
-        elif self.state == SchedulerState.STATE_RUNNING:
-            self.state = SchedulerState.STATE_PAUSED
+        # not while a shutdown is changing the state
+        with self.store_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
+            changed = self.state == SchedulerState.STATE_RUNNING
+            if changed:
+                self.state = SchedulerState.STATE_PAUSED
+        if changed:
             self.loggers[self.logger_name].info("Paused scheduler task processing.")
             self.dispatch_event(SchedulerEvent(code=SCHEDULER_PAUSED))
 
@@ -333,10 +337,13 @@ class BaseScheduler(SchedulerType):
         """
         Resume task processing in the scheduler.
         """
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError
-        elif self.state == SchedulerState.STATE_PAUSED:
-            self.state = SchedulerState.STATE_RUNNING
+        with self.store_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError
+            changed = self.state == SchedulerState.STATE_PAUSED
+            if changed:
+                self.state = SchedulerState.STATE_RUNNING
+        if changed:
             self.loggers[self.logger_name].info("Resumed scheduler task processing.")
             self.dispatch_event(SchedulerEvent(code=SCHEDULER_RESUMED))
             self.wakeup()
@@ -807,15 +814,14 @@ class BaseScheduler(SchedulerType):
             KeyError: If the configured executor cannot be found.
         """
 
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError()
-
         if isinstance(task_id, TaskType):
             assert task_id.id, "Cannot run a decorator style Task."
             task_id = task_id.id
 
         # like the processing: changes from other threads happen before or afterwards
         with self.store_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
             return self._run_task(task_id, store, force=force, remove_finished=remove_finished)
 
     def _run_task(
-- 
2.43.0


From 06364d566ef68049dcd7a9e3b81df4e06563cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 25/65] fix: shutdown and custom triggers can be restored from
 a store

---
 asyncz/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..baa47d1 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # created by the default implementation of pydantic
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
-- 
2.43.0


From 33ccb92b816614cde1ed5707cc58ce7f950d8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 26/65] fix: an error while updating one task does not stop the
 processing of the others

---
 asyncz/schedulers/base.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index a03c278..7fc5165 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1681,17 +1681,24 @@ class BaseScheduler(SchedulerType):
                         )
                         events.append(event)
 
-                    next_run = task.trigger.get_next_trigger_time(  # type: ignore
-                        self.timezone, run_times[-1], now
-                    )
-                    # the task may delete itself or be deleted by somebody else while it is sent
-                    with contextlib.suppress(TaskLookupError):
-                        if next_run:
-                            task.update_task(next_run_time=next_run)
-                            if store.lookup_task(task.id) is not None:
-                                store.update_task(task)
-                        else:
-                            self.delete_task(task.id, store_alias)
+                    try:
+                        next_run = task.trigger.get_next_trigger_time(  # type: ignore
+                            self.timezone, run_times[-1], now
+                        )
+                        # the task may delete itself or be deleted by somebody else while it is sent
+                        with contextlib.suppress(TaskLookupError):
+                            if next_run:
+                                task.update_task(next_run_time=next_run)
+                                if store.lookup_task(task.id) is not None:
+                                    store.update_task(task)
+                            else:
+                                self.delete_task(task.id, store_alias)
+                    except Exception:
+                        # must not affect other tasks
+                        self.loggers[self.logger_name].exception(
+                            f"Error updating the next run time of task '{task}'."
+                        )
+                        failed = True
 
             if failed:
                 return self._get_retry_wakeup_time(now, next_wakeup_time)
-- 
2.43.0


From f7a917dadc110cd172e0a4e55e813506d4cd9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 27/65] fix: stores and executors which fail to start are not
 kept by a running scheduler

---
 asyncz/schedulers/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 7fc5165..5d24cb9 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -418,7 +418,12 @@ class BaseScheduler(SchedulerType):
                     f"Expected an executor instance or a string, got {executor.__class__.__name__} instead."
                 )
             if self.state != SchedulerState.STATE_STOPPED:
-                cast("ExecutorType", executor).start(self, alias)
+                try:
+                    cast("ExecutorType", executor).start(self, alias)
+                except BaseException:
+                    # not usable, the alias stays free
+                    del self.executors[alias]
+                    raise
 
         self.dispatch_event(SchedulerEvent(code=EXECUTOR_ADDED, alias=alias))
 
@@ -462,7 +467,12 @@ class BaseScheduler(SchedulerType):
                 )
 
             if self.state != SchedulerState.STATE_STOPPED:
-                cast("StoreType", store).start(self, alias)
+                try:
+                    cast("StoreType", store).start(self, alias)
+                except BaseException:
+                    # not usable, the alias stays free
+                    del self.stores[alias]
+                    raise
 
         self.dispatch_event(SchedulerEvent(code=STORE_ADDED, alias=alias))
 
-- 
2.43.0


From f1a0ad2a9dcf4f319403852aea976e312f258c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 28/65] fix: the redis store adds, changes and deletes tasks
 atomically

---
 asyncz/stores/redis.py | 54 +++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 0dba240..4839504 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -108,39 +108,37 @@ class RedisStore(BaseStore):
 
     def add_task(self, task: "TaskType") -> None:
         assert task.id
-        if self.redis.hexists(self.tasks_key, task.id):
-            raise ConflictIdError(task.id)
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
 
-        with self.redis.pipeline() as pipe:
-            pipe.multi()
-            pipe.hset(
-                self.tasks_key,
-                task.id,
-                self.conditional_encrypt(
-                    pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                ),  # type: ignore
-            )
+        # watched: other processes may add, change or delete tasks at the same time
+        def add(pipe: Any) -> None:
+            if pipe.hexists(self.tasks_key, task.id):
+                raise ConflictIdError(task.id)
 
+            pipe.multi()
+            pipe.hset(self.tasks_key, task.id, state)
             if task.next_run_time:
                 pipe.zadd(
                     self.run_times_key,
                     {task.id: datetime_to_utc_timestamp(task.next_run_time)},
                 )
-            pipe.execute()
+
+        self.redis.transaction(add, self.tasks_key)
 
     def update_task(self, task: "TaskType") -> None:
         assert task.id
-        if not self.redis.hexists(self.tasks_key, task.id):
-            raise TaskLookupError(task.id)
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
 
-        with self.redis.pipeline() as pipe:
-            pipe.hset(
-                self.tasks_key,
-                task.id,
-                self.conditional_encrypt(
-                    pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                ),  # type: ignore
-            )
+        def update(pipe: Any) -> None:
+            if not pipe.hexists(self.tasks_key, task.id):
+                raise TaskLookupError(task.id)
+
+            pipe.multi()
+            pipe.hset(self.tasks_key, task.id, state)
             if task.next_run_time:
                 pipe.zadd(
                     self.run_times_key,
@@ -149,16 +147,18 @@ class RedisStore(BaseStore):
             else:
                 pipe.zrem(self.run_times_key, task.id)
 
-            pipe.execute()
+        self.redis.transaction(update, self.tasks_key)
 
     def delete_task(self, task_id: str) -> None:
-        if not self.redis.hexists(self.tasks_key, task_id):
-            raise TaskLookupError(task_id)
+        def delete(pipe: Any) -> None:
+            if not pipe.hexists(self.tasks_key, task_id):
+                raise TaskLookupError(task_id)
 
-        with self.redis.pipeline() as pipe:
+            pipe.multi()
             pipe.hdel(self.tasks_key, task_id)
             pipe.zrem(self.run_times_key, task_id)
-            pipe.execute()
+
+        self.redis.transaction(delete, self.tasks_key)
 
     def remove_all_tasks(self) -> None:
         with self.redis.pipeline() as pipe:
-- 
2.43.0


From ce6f857aea2c324eabdefc079e980761a17cdeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 29/65] fix: the redis store reads the due tasks and their
 states together

---
 asyncz/stores/redis.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 4839504..fdff65c 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,11 +67,19 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
+        ids: list[str] = []
+
+        # watched: the states must belong to the run times
+        def select(pipe: Any) -> None:
+            ids[:] = pipe.zrangebyscore(self.run_times_key, "-inf", timestamp)
+            pipe.multi()
+            if ids:
+                pipe.hmget(self.tasks_key, ids)
+
+        results: list[Any] = self.redis.transaction(select, self.tasks_key, self.run_times_key)
         if not ids:
             return []
-        states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-        return self.rebuild_tasks(zip(ids, states, strict=False))
+        return self.rebuild_tasks(zip(ids, results[0], strict=False))
 
     def rebuild_tasks(self, states: Iterable[tuple[str, Any]]) -> list["TaskType"]:
         tasks = []
-- 
2.43.0


From bda88b51f4d555f028d61dabeb5111aed798a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:41 +0000
Subject: [PATCH 30/65] fix: a cron trigger asked in another zone at its own
 run time within a clock change does not repeat it

---
 asyncz/triggers/cron/trigger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 1472cb9..822f3db 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -242,7 +242,8 @@ class CronTrigger(BaseTrigger):
         )
         if previous_time:
             start_at = min(now, previous_time + timedelta(microseconds=1))
-            if start_at == previous_time:
+            # never equal across zones within a repeated hour, whatever the instants
+            if start_at.timestamp() == previous_time.timestamp():
                 start_at += timedelta(microseconds=1)
             start_at = not_before(start_at, previous_time)
         else:
-- 
2.43.0


From cad74029e1887a5108e05c337923d59e979f08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:15 +0000
Subject: [PATCH 31/65] fix: the file store rejects empty task ids

---
 asyncz/stores/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 27e9a84..dd2fc09 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -53,6 +53,9 @@ class FileStore(BaseStore):
     def check_task_id(self, task_id: str | None) -> None:
         if task_id is None:
             raise RuntimeError("Task id is None")
+        if not task_id:
+            # the file would be hidden, like the ones which are no tasks
+            raise RuntimeError("Task id is empty")
         if task_id.startswith("."):
             raise RuntimeError(f'Invalid character in task id: "{task_id}".')
         for char in task_id:
-- 
2.43.0


From cc6a325a358a7521af1b0a3b5cb8d3c7510088fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 32/65] fix: the remote scheduler keeps None and dates of added
 tasks, previews from the asked time and survives arguments without a JSON
 form

---
 asyncz/contrib/dashboard/remote.py | 57 ++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..16bf275 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -15,14 +15,16 @@ import urllib.error
 import urllib.parse
 import urllib.request
 from collections.abc import Callable, Mapping
-from datetime import datetime
+from datetime import date, datetime
 from enum import Enum
 from typing import Any
 
 from lilya.requests import Request
 from lilya.responses import JSONResponse
 from lilya.routing import RoutePath, Router
+from pydantic_core import to_jsonable_python
 
+from asyncz.contrib.dashboard.history import _safe_repr
 from asyncz.exceptions import (
     AsynczException,
     MaximumInstancesError,
@@ -34,7 +36,7 @@ from asyncz.schedulers.types import SchedulerType
 from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
 from asyncz.triggers.types import TriggerType
 from asyncz.typing import Undefined, undefined
-from asyncz.utils import obj_to_ref
+from asyncz.utils import obj_to_ref, to_datetime
 
 Transport = Callable[
     [str, str, dict[str, Any] | None, dict[str, str], dict[str, Any] | None],
@@ -211,11 +213,23 @@ def _dump_json(value: Any) -> Any:
     dashboard operations.
     """
 
+    if isinstance(value, TaskInfo):
+        # the arguments are whatever the task was added with
+        return {
+            **value.model_dump(mode="json", exclude={"args", "kwargs"}),
+            "args": [_dump_argument(item) for item in value.args],
+            "kwargs": {key: _dump_argument(item) for key, item in value.kwargs.items()},
+        }
+    if isinstance(value, TaskRunPreview):
+        return {
+            **value.model_dump(mode="json", exclude={"task"}),
+            "task": _dump_json(value.task),
+        }
     if hasattr(value, "model_dump"):
         return value.model_dump(mode="json")
     if isinstance(value, Enum):
         return value.value
-    if isinstance(value, datetime):
+    if isinstance(value, date):
         return value.isoformat()
     if isinstance(value, tuple | list):
         return [_dump_json(item) for item in value]
@@ -224,6 +238,22 @@ def _dump_json(value: Any) -> Any:
     return value
 
 
+def _dump_argument(value: Any) -> Any:
+    """
+    Convert one argument of a task into JSON-compatible data.
+
+    Arguments which have no JSON form are shown by their representation, so they
+    don't make the task or the whole task list inaccessible.
+    """
+
+    try:
+        data = to_jsonable_python(value)
+        json.dumps(data, ensure_ascii=False, allow_nan=False).encode()
+    except (TypeError, ValueError, RecursionError):
+        return _safe_repr(value)
+    return data
+
+
 def _encode_trigger(trigger: TriggerType) -> str:
     """
     Serialize a trigger object for a trusted remote control request.
@@ -402,12 +432,16 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        params = request.query_params
+        try:
+            result = scheduler.preview_task_runs(
+                task_id,
+                params.get("store") or None,
+                count=int(params.get("count") or 5),
+                now=to_datetime(params.get("now") or None, scheduler.timezone, "now"),
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
@@ -862,7 +896,10 @@ class RemoteSchedulerClient:
             "store": store,
             "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            if value is None and key in {"mistrigger_grace_time", "next_run_time"}:
+                # None is a value of its own here: no limit, respectively added in a paused state
+                payload[key] = None
+            elif value is not undefined and value is not None:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
-- 
2.43.0


From 9652f2777f75058b9c2a8c05b4640492e85df205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 33/65] fix: the run history changes its records under its lock

---
 asyncz/contrib/dashboard/history.py | 157 +++++++++++++++-------------
 1 file changed, 82 insertions(+), 75 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..b6d84d0 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -143,14 +143,14 @@ class MemoryRunHistoryStorage:
 
     def summary(self) -> dict[str, int]:
         with self._lock:
-            records = list(self._records.values())
+            statuses = [record.status for record in self._records.values()]
         return {
-            "total": len(records),
-            "running": sum(1 for record in records if record.status == "running"),
-            "succeeded": sum(1 for record in records if record.status == "succeeded"),
-            "failed": sum(1 for record in records if record.status == "failed"),
-            "missed": sum(1 for record in records if record.status == "missed"),
-            "max_instances": sum(1 for record in records if record.status == "max_instances"),
+            "total": len(statuses),
+            "running": statuses.count("running"),
+            "succeeded": statuses.count("succeeded"),
+            "failed": statuses.count("failed"),
+            "missed": statuses.count("missed"),
+            "max_instances": statuses.count("max_instances"),
         }
 
     def record_submission(
@@ -164,28 +164,32 @@ class MemoryRunHistoryStorage:
         source = str(getattr(event, "source", None) or "scheduled")
         status = "max_instances" if event.code == TASK_MAX_INSTANCES else "running"
         records: list[RunRecord] = []
+        metadata = _task_metadata(scheduler, event.task_id, event.store)
+        scheduler_identity = event.scheduler_identity or _scheduler_identity(scheduler)
 
         for scheduled_run_time in event.scheduled_run_times:
-            record = self._upsert(
-                task_id=event.task_id,
-                store=event.store,
-                scheduled_run_time=scheduled_run_time,
-                scheduler=scheduler,
-                scheduler_identity=event.scheduler_identity,
-                now=now,
-            )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            # the submission and the outcome of a run are recorded by different threads
+            with self._lock:
+                record = self._upsert(
+                    task_id=event.task_id,
+                    store=event.store,
+                    scheduled_run_time=scheduled_run_time,
+                    metadata=metadata,
+                    scheduler_identity=scheduler_identity,
+                    now=now,
+                )
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -214,25 +218,30 @@ class MemoryRunHistoryStorage:
         log_storage: LogStorage | None = None,
     ) -> RunRecord:
         now = _utc_now()
-        record = self._upsert(
-            task_id=event.task_id,
-            store=event.store,
-            scheduled_run_time=event.scheduled_run_time,
-            scheduler=scheduler,
-            scheduler_identity=event.scheduler_identity,
-            now=now,
-        )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        metadata = _task_metadata(scheduler, event.task_id, event.store)
+        scheduler_identity = event.scheduler_identity or _scheduler_identity(scheduler)
+        return_value = _safe_repr(event.return_value) if event.return_value is not None else None
+        exception = _safe_repr(event.exception) if event.exception is not None else None
+        exception_message = _safe_str(event.exception)
+
+        with self._lock:
+            record = self._upsert(
+                task_id=event.task_id,
+                store=event.store,
+                scheduled_run_time=event.scheduled_run_time,
+                metadata=metadata,
+                scheduler_identity=scheduler_identity,
+                now=now,
+            )
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = _status_from_execution_code(event.code)
+            record.return_value = return_value
+            record.exception_type = _exception_type(event.exception)
+            record.exception_message = exception_message
+            record.exception = exception
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
@@ -267,41 +276,39 @@ class MemoryRunHistoryStorage:
         task_id: str,
         store: str | None,
         scheduled_run_time: Any,
-        scheduler: Any,
+        metadata: dict[str, Any],
         scheduler_identity: str | None,
         now: datetime,
     ) -> RunRecord:
+        """Find or create the record of a run, the caller holds the lock."""
         normalized_run_time = _normalize_run_time(scheduled_run_time)
         key = _run_key(task_id, store, normalized_run_time)
-        metadata = _task_metadata(scheduler, task_id, store)
-        run_scheduler_identity = scheduler_identity or _scheduler_identity(scheduler)
 
-        with self._lock:
-            run_id = self._key_index.get(key)
-            if run_id is None:
-                run_id = _run_id(key)
-                self._key_index[key] = run_id
-                record = RunRecord(
-                    run_id=run_id,
-                    task_id=task_id,
-                    store=store,
-                    scheduled_run_time=normalized_run_time,
-                    scheduler_identity=run_scheduler_identity,
-                    created_at=now,
-                    updated_at=now,
-                    **metadata,
-                )
-                self._records[run_id] = record
-                self._order.append(run_id)
-                self._trim()
-            else:
-                record = self._records[run_id]
-                for field, value in metadata.items():
-                    if value and not getattr(record, field):
-                        setattr(record, field, value)
-                if run_scheduler_identity and not record.scheduler_identity:
-                    record.scheduler_identity = run_scheduler_identity
-            return record
+        run_id = self._key_index.get(key)
+        if run_id is None:
+            run_id = _run_id(key)
+            self._key_index[key] = run_id
+            record = RunRecord(
+                run_id=run_id,
+                task_id=task_id,
+                store=store,
+                scheduled_run_time=normalized_run_time,
+                scheduler_identity=scheduler_identity,
+                created_at=now,
+                updated_at=now,
+                **metadata,
+            )
+            self._records[run_id] = record
+            self._order.append(run_id)
+            self._trim()
+        else:
+            record = self._records[run_id]
+            for field, value in metadata.items():
+                if value and not getattr(record, field):
+                    setattr(record, field, value)
+            if scheduler_identity and not record.scheduler_identity:
+                record.scheduler_identity = scheduler_identity
+        return record
 
     def _trim(self) -> None:
         while len(self._order) > self.maxlen:
-- 
2.43.0


From 4e48556268cdb29b72c21056aa5f5154d7102f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 34/65] fix: the task logger leaves the extra of its caller
 alone

---
 asyncz/contrib/dashboard/logs/handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 8173ec6..4078909 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -92,7 +92,9 @@ class TaskLoggerAdapter(logging.LoggerAdapter):
         Returns:
             The original message and the modified kwargs dictionary.
         """
-        extra: dict[str, Any] = kwargs.setdefault("extra", {})
+        # a copy, the dictionary of the caller may be used with other loggers as well
+        extra: dict[str, Any] = dict(kwargs.get("extra") or {})
+        kwargs["extra"] = extra
 
         # Inject the task_id from the adapter's context, but do not clobber an
         # existing, explicit task_id provided in the log call itself.
-- 
2.43.0


From 80613990554dd5177a87d663afb39e1001c2643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 35/65] fix: the log storage takes naive timestamps of entries
 as UTC

---
 asyncz/contrib/dashboard/logs/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index e8a8a1c..1588392 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import threading
 from collections import deque
 from collections.abc import Iterable
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from datetime import datetime, timezone
 from typing import Any
 
@@ -112,6 +112,8 @@ class MemoryLogStorage(LogStorage):
             TypeError: If the input type is neither `LogEntry` nor a dictionary.
         """
         if isinstance(entry, LogEntry):
+            if entry.ts.tzinfo is None:
+                return replace(entry, ts=entry.ts.replace(tzinfo=timezone.utc))
             return entry
         if not isinstance(entry, dict):
             raise TypeError(f"Unsupported log entry type: {type(entry)!r}")
-- 
2.43.0


From 93678709d559cfdbea91284b9a7e2d4e0fcd0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 36/65] fix: login and logout are reachable when the dashboard
 lies at the root

---
 asyncz/contrib/dashboard/admin/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..a937d08 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level,
+            # before the dashboard which takes every path when it lies at the root as well
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
-- 
2.43.0


From 7f3a7e8b257fcb286e145a2b67633a883bf53d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 37/65] fix: the login redirect quotes the page which was asked
 for

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..e4a7fd6 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -89,8 +90,12 @@ class AuthGateMiddleware:
         # Build the final login URL under the mount prefix
         login_url: str = f"{mount_prefix}{self.login_path}"
 
-        # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        # Determine the target URL after login, as it was asked for
+        target: str = quote(path)
+        query: str = (scope.get("query_string") or b"").decode("latin-1")
+        if query:
+            target = f"{target}?{query}"
+        next_q: str = f"?next={quote(target)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From 05a8bd5e010766367f6c9261ef678f236503bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 38/65] fix: logging in redirects to pages of this host only

---
 asyncz/contrib/dashboard/admin/backends.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 00616d0..bfa5a98 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -15,6 +15,16 @@ from asyncz.contrib.dashboard.mixins import default_context
 VerifyCallable = Callable[[str, str], User | None]
 
 
+def _is_local_path(url: str) -> bool:
+    """Tell whether a redirect to the url stays on this host, as browsers understand it."""
+    return (
+        url.startswith("/")
+        and not url.startswith("//")
+        and "\\" not in url
+        and not any(ord(char) <= 32 or ord(char) == 127 for char in url)
+    )
+
+
 class SimpleUsernamePasswordBackend(AuthBackend):
     """
     A basic authentication backend that verifies credentials using a synchronous
@@ -104,7 +114,9 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         }
 
         # Redirect to the requested 'next' URL or default to root
-        next: str = form.get("next") or reverse("dashboard:index")
+        next: str = form.get("next") or ""
+        if not _is_local_path(next):
+            next = reverse("dashboard:index")
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
-- 
2.43.0


From 7f30e32bfce5b5fdc25432adbef3b30dbfdc92dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 39/65] fix: task actions of the dashboard report and record
 every failure

---
 asyncz/contrib/dashboard/controllers/tasks.py | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..a55f106 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -216,6 +216,13 @@ def _audit_task_action(
     )
 
 
+def _report_failed_action(request: Request, action: str, task_id: str, exc: Exception) -> None:
+    """Tell about and record an action which the scheduler refused or failed to do."""
+    message = str(exc) or type(exc).__name__
+    add_message(request, "error", message)
+    _audit_task_action(action, task_id, status="failed", message=message)
+
+
 class TasklistController(DashboardMixin, TemplateController):
     """
     Renders the main task management dashboard page, displaying a list of all scheduled tasks.
@@ -608,6 +615,8 @@ class TaskBulkPauseController(DashboardMixin, Controller):
                     "pause", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _report_failed_action(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -635,6 +644,8 @@ class TaskBulkRunController(DashboardMixin, Controller):
             except TaskLookupError:
                 _audit_task_action("run", task_id, status="failed", message="Task was not found.")
                 continue
+            except Exception as exc:
+                _report_failed_action(request, "run", task_id, exc)
 
         # Return refreshed table fragment for HTMX swap
         context = await self.get_context_data(request)
@@ -664,6 +675,8 @@ class TaskBulkResumeController(DashboardMixin, Controller):
                     "resume", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _report_failed_action(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -690,6 +703,8 @@ class TaskBulkRemoveController(DashboardMixin, Controller):
                     "remove", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _report_failed_action(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -712,6 +727,8 @@ class TaskHXRunController(DashboardMixin, Controller):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "run", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -731,6 +748,8 @@ class TaskHXPauseController(DashboardMixin, Controller):
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
         except TaskLookupError:
             _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -750,6 +769,8 @@ class TaskHXResumeController(DashboardMixin, Controller):
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -770,6 +791,8 @@ class TaskHXRemoveController(DashboardMixin, Controller):
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _report_failed_action(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
-- 
2.43.0


From 279e3f455de801edbeba4db5848ca20c3e7789dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 40/65] fix: the create form reports bad arguments and refused
 tasks

---
 asyncz/contrib/dashboard/controllers/tasks.py | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index a55f106..ace11d1 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -419,19 +419,28 @@ class TaskCreateController(DashboardMixin, Controller):
         # Parse args/kwargs JSON
         raw_args: str = (form.get("args") or "").strip()
         raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
 
-        # Import callable and parse trigger
+        # Import callable, parse trigger and add the task to the scheduler
         try:
+            args: list[Any] = _parse_json_list(raw_args)
+            kwargs: dict[str, Any] = _parse_json_object(raw_kwargs)
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
-            message = str(e)
+            message = str(e) or type(e).__name__
             add_message(request, "error", f"{message}")
             _audit_task_action(
                 "create",
@@ -443,16 +452,6 @@ class TaskCreateController(DashboardMixin, Controller):
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
-- 
2.43.0


From a43c2fb63db9da587aefb431e6c353e839f8ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 41/65] fix: the edit form updates only what was edited and
 reports refused updates

---
 asyncz/contrib/dashboard/controllers/tasks.py | 60 ++++++++++++++++---
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ace11d1..124e866 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import json
+import math
 from collections.abc import Callable
 from typing import Any
 
@@ -39,7 +40,11 @@ def _string_form_value(form: Any, key: str, default: str = "") -> str:
 
 
 def _json_text(value: Any) -> str:
-    return json.dumps(value, indent=2, sort_keys=True)
+    # arguments may be anything, show them nevertheless
+    try:
+        return json.dumps(value, indent=2, sort_keys=True, default=repr)
+    except (TypeError, ValueError):
+        return json.dumps(repr(value))
 
 
 def _task_update_snapshot(task: TaskType) -> dict[str, Any]:
@@ -138,41 +143,64 @@ def _parse_mistrigger_grace_time(value: str) -> float | int | None:
     if not value:
         return None
     parsed = float(value)
-    if parsed <= 0:
+    if parsed <= 0 or not math.isfinite(parsed):
         raise ValueError("misfire grace time must be a positive number.")
     return int(parsed) if parsed.is_integer() else parsed
 
 
+def _same_json(first: str, second: str) -> bool:
+    try:
+        return json.dumps(json.loads(first), sort_keys=True) == json.dumps(
+            json.loads(second), sort_keys=True
+        )
+    except ValueError:
+        return False
+
+
 def _parse_task_edit_updates(form: Any, task: TaskType) -> tuple[dict[str, Any], list[str]]:
     values = _task_edit_form_from_post(form)
+    # what was not edited is not updated: the form shows some values only approximately
+    current = _task_edit_form_from_task(task)
+    unchanged = {key for key in values if values[key] == str(current[key]).strip()}
+    unchanged.update(
+        key for key in ("args", "kwargs") if _same_json(str(values[key]), str(current[key]))
+    )
     updates: dict[str, Any] = {}
     errors: list[str] = []
 
     name = str(values["name"]).strip()
-    if name:
+    if "name" in unchanged:
+        pass
+    elif name:
         updates["name"] = name
     elif task.name and form.get("name") is not None:
         errors.append("name cannot be blank.")
 
     callable_path = str(values["callable_path"]).strip()
-    if callable_path:
+    if "callable_path" in unchanged:
+        pass
+    elif callable_path:
         updates["fn"] = callable_path
     elif task.fn_reference:
         errors.append("callable reference is required.")
 
     executor = str(values["executor"]).strip()
-    if executor:
+    if "executor" in unchanged:
+        pass
+    elif executor:
         updates["executor"] = executor
     else:
         errors.append("executor is required.")
 
     try:
-        updates["args"] = _parse_json_list(str(values["args"]))
+        if "args" not in unchanged:
+            updates["args"] = _parse_json_list(str(values["args"]))
     except (TypeError, ValueError, json.JSONDecodeError) as exc:
         errors.append(str(exc))
 
     try:
-        updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
+        if "kwargs" not in unchanged:
+            updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
     except (TypeError, ValueError, json.JSONDecodeError) as exc:
         errors.append(str(exc))
 
@@ -577,7 +605,23 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except TaskLookupError:
+            # removed in the meantime
+            _audit_task_action("update", task_id, status="failed", message="Task was not found.")
+            return await self._render(request, task=None, status_code=404)
+        except Exception as exc:
+            message = str(exc) or type(exc).__name__
+            _audit_task_action("update", task_id, status="failed", message=message)
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                errors=[message],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
-- 
2.43.0


From 7bebc7b04239eea108541157ed1c8f3e739de963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 42/65] fix: the messages of the dashboard are escaped

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 35e0a0c..7d717fb 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import json
 from collections.abc import Mapping
 from datetime import datetime
+from html import escape
 from typing import TYPE_CHECKING, Any
 from urllib.parse import urlencode
 
@@ -227,7 +228,7 @@ def _render_messages_oob(request: Request, context: dict[str, Any]) -> str:
             else:
                 color = "blue"
                 icon = "info"
-            text = str(m.get("text", ""))
+            text = escape(str(m.get("text", "")))
             parts.append(
                 f"""
                   <div id="flash-{i}" class="relative flex items-start gap-3 p-4 bg-{color}-50
-- 
2.43.0


From caaf0935ed474c8da2573508875b5d2788d6e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 43/65] fix: unknown filters of the task list are ignored

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 7d717fb..db6f726 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -12,7 +12,7 @@ from lilya.responses import HTMLResponse
 
 from asyncz.contrib.dashboard.engine import templates
 from asyncz.contrib.dashboard.history import RunRecord, get_run_history_storage
-from asyncz.tasks.inspection import TaskInfo
+from asyncz.tasks.inspection import TaskInfo, TaskScheduleState
 from asyncz.triggers.cron import CronTrigger
 from asyncz.triggers.date import DateTrigger
 from asyncz.triggers.interval import IntervalTrigger
@@ -23,6 +23,15 @@ if TYPE_CHECKING:
 TASK_PAGE_SIZE_OPTIONS = (25, 50, 100, 200)
 DEFAULT_TASK_PAGE_SIZE = 50
 MAX_TASK_PAGE_SIZE = 200
+TASK_SORT_FIELDS = (
+    "id",
+    "name",
+    "next_run_time",
+    "schedule_state",
+    "executor",
+    "store",
+    "trigger",
+)
 
 
 def serialize(task: Any, last_run: RunRecord | None = None) -> dict[str, Any]:
@@ -256,9 +265,13 @@ def parse_task_filters(request: Request) -> dict[str, Any]:
     params: Mapping[str, Any] = request.query_params
     q = (params.get("q") or "").strip() or None
     state = (params.get("state") or "").strip().lower() or None
+    if state not in {item.value for item in TaskScheduleState}:
+        state = None
     executor = (params.get("executor") or "").strip() or None
     trigger = (params.get("trigger") or "").strip() or None
     sort_by = (params.get("sort") or "next_run_time").strip() or "next_run_time"
+    if sort_by not in TASK_SORT_FIELDS:
+        sort_by = "next_run_time"
     direction = (params.get("direction") or "asc").strip().lower() or "asc"
     descending = direction == "desc"
     page = _bounded_int(params.get("page"), default=1, minimum=1, maximum=10_000)
-- 
2.43.0


From 94ee70dafc64c82876d11fcf25287c6dee541001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 44/65] fix: task ids are quoted in the links of the dashboard

---
 .../contrib/dashboard/templates/tasks/_table.html  | 14 +++++++-------
 .../contrib/dashboard/templates/tasks/detail.html  | 10 +++++-----
 asyncz/contrib/dashboard/templates/tasks/edit.html |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/asyncz/contrib/dashboard/templates/tasks/_table.html b/asyncz/contrib/dashboard/templates/tasks/_table.html
index b414186..04ab843 100644
--- a/asyncz/contrib/dashboard/templates/tasks/_table.html
+++ b/asyncz/contrib/dashboard/templates/tasks/_table.html
@@ -106,7 +106,7 @@
 
             <td style="text-align: right">
               <div class="az-actions">
-                <form hx-post="{{ t.id }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                <form hx-post="./{{ t.id|urlencode }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                   <button class="az-icon-button az-action-button az-icon-button--primary" aria-label="Run {{ t.name or t.id }} now" title="Run now">
                     <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                       <path d="M8 5v14l11-7z"/>
@@ -115,7 +115,7 @@
                   </button>
                 </form>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open details for {{ t.name or t.id }}"
                    title="Details">
@@ -128,7 +128,7 @@
                 </a>
 
                 {% if t.state == "scheduled" %}
-                  <form hx-post="{{ t.id }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="./{{ t.id|urlencode }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--warning" aria-label="Pause {{ t.name or t.id }}" title="Pause">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M9 6v12"/>
@@ -138,7 +138,7 @@
                     </button>
                   </form>
                 {% else %}
-                  <form hx-post="{{ t.id }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="./{{ t.id|urlencode }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--success" aria-label="Resume {{ t.name or t.id }}" title="Resume">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M8 5v14l11-7z"/>
@@ -148,7 +148,7 @@
                   </form>
                 {% endif %}
 
-                <a href="{{ url_prefix }}/logs?task_id={{ t.id }}"
+                <a href="{{ url_prefix }}/logs?task_id={{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open logs for {{ t.name or t.id }}"
                    title="Logs">
@@ -163,7 +163,7 @@
                   <span>Logs</span>
                 </a>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}/edit"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/edit"
                    class="az-icon-button az-action-button"
                    aria-label="Edit {{ t.name or t.id }}"
                    title="Edit">
@@ -187,7 +187,7 @@
                   <span>Copy</span>
                 </button>
 
-                <form hx-post="{{ t.id }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
+                <form hx-post="./{{ t.id|urlencode }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
                       data-confirm-label="{{ t.name or t.id }}"
                       x-on:submit="confirmRemove">
                   <button class="az-icon-button az-action-button az-icon-button--danger" aria-label="Remove {{ t.name or t.id }}" title="Remove">
diff --git a/asyncz/contrib/dashboard/templates/tasks/detail.html b/asyncz/contrib/dashboard/templates/tasks/detail.html
index 0944d22..ca62022 100644
--- a/asyncz/contrib/dashboard/templates/tasks/detail.html
+++ b/asyncz/contrib/dashboard/templates/tasks/detail.html
@@ -19,9 +19,9 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/tasks/{{ task.id }}/edit" class="az-button">Edit</a>
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
-          <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button az-button--primary">Logs</a>
+          <a href="{{ url_prefix }}/tasks/{{ task.id|urlencode }}/edit" class="az-button">Edit</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button az-button--primary">Logs</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -124,7 +124,7 @@
           <h2 class="az-panel-title">Recent Runs</h2>
           <div class="az-panel-meta">Latest run records for this task.</div>
         </div>
-        <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">Open History</a>
+        <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">Open History</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
@@ -176,7 +176,7 @@
           <h2 class="az-panel-title">Recent Logs</h2>
           <div class="az-panel-meta">Latest captured log records for this task id.</div>
         </div>
-        <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button">Open Logs</a>
+        <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button">Open Logs</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
diff --git a/asyncz/contrib/dashboard/templates/tasks/edit.html b/asyncz/contrib/dashboard/templates/tasks/edit.html
index a9335a8..5f49a2d 100644
--- a/asyncz/contrib/dashboard/templates/tasks/edit.html
+++ b/asyncz/contrib/dashboard/templates/tasks/edit.html
@@ -19,7 +19,7 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -58,7 +58,7 @@
       </div>
     {% endif %}
 
-    <form method="post" action="{{ url_for('dashboard:tasks:edit', task_id=task.id) }}" class="az-panel" data-no-loading>
+    <form method="post" action="{{ url_prefix }}/tasks/{{ task.id|urlencode }}/edit" class="az-panel" data-no-loading>
       <div class="az-panel-header">
         <div>
           <h2 class="az-panel-title">Task Metadata</h2>
-- 
2.43.0


From c05a5ca729f37c025c8f4146594a5ea3d9bc9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 45/65] fix: links of the dashboard are the same on all its
 pages

---
 asyncz/contrib/dashboard/application.py | 14 ++++++++++++++
 asyncz/contrib/dashboard/config.py      |  3 ++-
 asyncz/contrib/dashboard/mixins.py      |  3 ++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/application.py b/asyncz/contrib/dashboard/application.py
index 45e2bcb..b0b1715 100644
--- a/asyncz/contrib/dashboard/application.py
+++ b/asyncz/contrib/dashboard/application.py
@@ -1,8 +1,10 @@
 import logging
 from typing import Any
 
+from lilya.middleware.base import DefineMiddleware
 from lilya.routing import Include, RoutePath, Router
 from lilya.staticfiles import StaticFiles
+from lilya.types import ASGIApp, Receive, Scope, Send
 
 from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage, get_audit_storage
 from asyncz.contrib.dashboard.controllers import home
@@ -45,6 +47,17 @@ from asyncz.contrib.dashboard.logs.handler import install_task_log_handler
 from asyncz.contrib.dashboard.logs.storage import LogStorage
 
 
+class DashboardRootMiddleware:
+    """Remember where the dashboard itself is mounted, its pages are mounted below."""
+
+    def __init__(self, app: ASGIApp) -> None:
+        self.app = app
+
+    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
+        scope = {**scope, "asyncz_dashboard_root": scope.get("root_path", "")}
+        await self.app(scope, receive, send)
+
+
 def create_dashboard_app(
     scheduler: Any,
     log_storage: LogStorage | None = None,
@@ -220,5 +233,6 @@ def create_dashboard_app(
                 name="index",
             ),
         ],
+        middleware=[DefineMiddleware(DashboardRootMiddleware)],
     )
     return app
diff --git a/asyncz/contrib/dashboard/config.py b/asyncz/contrib/dashboard/config.py
index 998852e..96a75d7 100644
--- a/asyncz/contrib/dashboard/config.py
+++ b/asyncz/contrib/dashboard/config.py
@@ -139,6 +139,7 @@ def get_effective_prefix(request: Request | None = None) -> str:
             return _combine_prefixes(external_prefix, configured_prefix)
 
         if configured_prefix == "/":
-            return _normalize_prefix(scope.get("root_path") or "/")
+            root_path = scope.get("asyncz_dashboard_root", scope.get("root_path"))
+            return _normalize_prefix(root_path or "/")
 
     return configured_prefix
diff --git a/asyncz/contrib/dashboard/mixins.py b/asyncz/contrib/dashboard/mixins.py
index c2bbfda..31f4782 100644
--- a/asyncz/contrib/dashboard/mixins.py
+++ b/asyncz/contrib/dashboard/mixins.py
@@ -21,7 +21,8 @@ def default_context(request: Request) -> dict:
             "title": monkay.settings.dashboard_config.title,
             "header_text": monkay.settings.dashboard_config.header_title,
             "favicon": favicon,
-            "url_prefix": effective_prefix,
+            # the links continue with a slash
+            "url_prefix": effective_prefix.rstrip("/"),
             "sidebar_bg_colour": "#f06824",
             "messages": get_messages(request),
         }
-- 
2.43.0


From e04aae8b0c9c3c58154030d10647e384c1dd8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 46/65] fix: failed commands end with their exit code

---
 asyncz/cli/app.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asyncz/cli/app.py b/asyncz/cli/app.py
index 441f8ca..327b1f4 100644
--- a/asyncz/cli/app.py
+++ b/asyncz/cli/app.py
@@ -38,5 +38,7 @@ asyncz_cli.add_command(timeline)
 asyncz_cli.add_command(update)
 
 
-def main() -> None:
-    asyncz_cli()
+def main() -> int:
+    result = asyncz_cli()
+    # a failed command returns its exit code instead of raising
+    return result if isinstance(result, int) else 0
-- 
2.43.0


From f6bd4b0806b92ea1f9a537988a317ee1f3b5dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 47/65] fix: the command line accepts the documented store
 specs

---
 asyncz/cli/_parsers.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/asyncz/cli/_parsers.py b/asyncz/cli/_parsers.py
index e605ff2..3ba66b8 100644
--- a/asyncz/cli/_parsers.py
+++ b/asyncz/cli/_parsers.py
@@ -1,5 +1,8 @@
 from __future__ import annotations
 
+from typing import Any
+from urllib.parse import urlsplit
+
 import click
 
 _STORE_ALIASES = {
@@ -11,11 +14,35 @@ _STORE_ALIASES = {
 }
 
 
+_STORE_SCHEMES = ("file", "redis", "mongo", "mongodb")
+
+
+def _parse_store_url(url: str) -> tuple[str, dict[str, Any]]:
+    scheme, _, rest = url.partition("://")
+    if scheme == "file":
+        return "file", {"directory": rest}
+    if scheme == "redis":
+        from redis.connection import parse_url
+
+        options: dict[str, Any] = dict(parse_url(url))
+        return "redis", {"database": options.pop("db", 0), **options}
+
+    database: str = urlsplit(url).path.strip("/")
+    return "mongodb", {
+        "host": f"mongodb://{rest}",
+        **({"database": database} if database else {}),
+    }
+
+
 def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
     """
     Accepts things like:
       - "durable=sqlite:///file.db"
       - "sqlalchemy=sqlite:///file.db"
+      - "default=memory"
+      - "durable=file:///tmp/asyncz-store"
+      - "cache=redis://localhost:6379/0"
+      - "durable=mongodb://localhost:27017/asyncz"
       - "memory"
     Returns (plugin_id, kwargs, alias_hint) suitable for scheduler configuration.
     """
@@ -32,8 +59,18 @@ def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
     else:
         kind, value = spec.strip().lower(), None
 
+    if value == "memory":
+        return "memory", {}, alias_hint
+
     plugin = _STORE_ALIASES.get(kind, kind)
 
+    if value and plugin != "memory" and value.partition("://")[0] in _STORE_SCHEMES:
+        store, options = _parse_store_url(value)
+        return store, options, alias_hint
+
+    if value and "://" in value and kind not in _STORE_ALIASES:
+        plugin = "sqlalchemy"
+
     if plugin == "sqlalchemy":
         if not value:
             raise click.BadParameter(
-- 
2.43.0


From 66828be792aa42acc24a84f443ce340652be8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 48/65] fix: start loads the jobs of modules and config files,
 times without a timezone are those of the scheduler

---
 asyncz/cli/loader.py | 19 +++++++++++++------
 asyncz/cli/types.py  | 16 ++++++++++++----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..2856a1a 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,9 +20,9 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
+            name=item.get("name"),
             trigger=item["trigger"],
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
@@ -56,10 +55,18 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
 
     added = 0
     for job in data.get("jobs", []):
-        trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
+        trig = parse_trigger(
+            cron=job.get("cron"),
+            interval=job.get("interval"),
+            at=job.get("at"),
+            timezone=scheduler.timezone,
+        )
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            name=job.get("name"),
+            trigger=trig,
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
         )
         added += 1
     return added
diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index d69e152..21f677e 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -6,6 +6,7 @@ from typing import Literal
 
 from asyncz.triggers.base import BaseTrigger
 from asyncz.triggers.cron import CronTrigger
+from asyncz.utils import to_timezone_with_fallback
 
 
 def parse_interval(text: str) -> float:
@@ -40,7 +41,13 @@ def parse_interval(text: str) -> float:
     return float(value * mult[unit])
 
 
-def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) -> BaseTrigger:
+def parse_trigger(
+    *,
+    cron: str | None,
+    interval: str | None,
+    at: str | None,
+    timezone: dt.tzinfo | None = None,
+) -> BaseTrigger:
     """
     Parses mutually exclusive job scheduling arguments into the appropriate Asyncz trigger object.
 
@@ -50,6 +57,7 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
         cron: A cron expression string (e.g., '0 0 * * *').
         interval: A human-readable duration string (e.g., '10m', '2h').
         at: An ISO 8601 formatted datetime string indicating a single run time.
+        timezone: The timezone of times without one, defaults to the local timezone.
 
     Returns:
         An instantiated subclass of `BaseTrigger` (CronTrigger, IntervalTrigger, or DateTrigger).
@@ -62,17 +70,17 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
         raise ValueError("Specify exactly one of --cron, --interval, or --at")
 
     if cron:
-        return CronTrigger.from_crontab(cron)
+        return CronTrigger.from_crontab(cron, timezone=timezone)
 
     if interval:
         # IntervalTrigger
         seconds: float = parse_interval(interval)
         from asyncz.triggers.interval import IntervalTrigger
 
-        return IntervalTrigger(seconds=int(seconds))
+        return IntervalTrigger(seconds=int(seconds), timezone=timezone)
 
     # DateTrigger
     when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
     from asyncz.triggers.date import DateTrigger
 
-    return DateTrigger(run_at=when)
+    return DateTrigger(run_at=when, timezone=timezone or to_timezone_with_fallback(None))
-- 
2.43.0


From cd2eb43d0c9bc2c16ce9b98ab4d89dcc21567fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 49/65] fix: commands do not run the due tasks of the stores
 they look at

---
 asyncz/cli/commands/add.py       | 12 +++++++++---
 asyncz/cli/commands/doctor.py    |  4 ++--
 asyncz/cli/commands/inspect.py   |  6 +++---
 asyncz/cli/commands/instances.py |  4 ++--
 asyncz/cli/commands/list.py      |  6 +++---
 asyncz/cli/commands/pause.py     |  6 +++---
 asyncz/cli/commands/preview.py   |  6 +++---
 asyncz/cli/commands/remove.py    |  6 +++---
 asyncz/cli/commands/resume.py    |  6 +++---
 asyncz/cli/commands/run.py       |  6 +++---
 asyncz/cli/commands/status.py    |  4 ++--
 asyncz/cli/commands/timeline.py  |  6 +++---
 asyncz/cli/commands/update.py    |  6 +++---
 asyncz/cli/utils.py              | 18 ++++++++++++++++++
 14 files changed, 60 insertions(+), 36 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..64e6b3d 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -10,7 +10,13 @@ from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.types import parse_trigger
-from asyncz.cli.utils import build_stores_map, ensure_loop, import_callable, maybe_await
+from asyncz.cli.utils import (
+    CommandScheduler,
+    build_stores_map,
+    ensure_loop,
+    import_callable,
+    maybe_await,
+)
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.triggers.base import BaseTrigger
 
@@ -66,7 +72,7 @@ def add(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
             # Determine a target store alias from the framework scheduler (best effort)
             target_store_alias: str | None = None
@@ -87,7 +93,7 @@ def add(
             )
             cfg: dict[str, Any] = {"stores": stores_cfg}
             target_store_alias = next(iter(stores_cfg.keys()))
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = CommandScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 4) Resolve callable and add task
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index ce5f0a3..2d1195b 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -8,7 +8,7 @@ from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.commands.status import _serialize_scheduler_info
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
@@ -134,7 +134,7 @@ def doctor(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index d9e4955..a9a9051 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -64,12 +64,12 @@ def inspect_task(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 94b8906..a624e9b 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -6,7 +6,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInstanceInfo
 
@@ -66,7 +66,7 @@ def instances(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 1a7cf38..ea90fb2 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.enums import TaskScheduleState
 from asyncz.schedulers import AsyncIOScheduler
 
@@ -78,7 +78,7 @@ def list_jobs(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             # Default to an in-memory store if none provided to make the command useful out of the box
@@ -86,7 +86,7 @@ def list_jobs(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, dict[str, Any]]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = CommandScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..9b80048 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -44,14 +44,14 @@ def pause(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
 
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = CommandScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Delegate to the scheduler API.
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index c7336f1..b46079d 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
 
@@ -65,12 +65,12 @@ def preview(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..653c105 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -47,10 +47,10 @@ def remove(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = CommandScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..71e2ea5 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -44,13 +44,13 @@ def resume(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = CommandScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2) Delegate to the scheduler API and mirror the resulting state in the message.
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..b601164 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -7,7 +7,7 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -46,11 +46,11 @@ def run(
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             # Try starting the scheduler if not already running
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
-            scheduler = AsyncIOScheduler(**cfg)
+            scheduler = CommandScheduler(**cfg)
             await maybe_await(scheduler.start())
 
         # 2. Delegate the "run now" flow to the scheduler itself.
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 37a3ac2..50697bd 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -6,7 +6,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
@@ -65,7 +65,7 @@ def status(
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 435d3cc..c458f99 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -8,7 +8,7 @@ from typing import Annotated, Any
 from sayer import Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
@@ -104,12 +104,12 @@ def timeline(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index e52c8ea..c221668 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -8,7 +8,7 @@ import click
 from sayer import Argument, Option, command, info, success
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
 
@@ -133,12 +133,12 @@ def update(
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-                await maybe_await(scheduler.start())
+                await maybe_await(scheduler.start(paused=True))
         else:
             stores_cfg: dict[str, dict[str, Any]] = (
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
-            scheduler = AsyncIOScheduler(stores=stores_cfg)
+            scheduler = CommandScheduler(stores=stores_cfg)
             await maybe_await(scheduler.start())
 
         try:
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..72104dd 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -1,12 +1,30 @@
 import asyncio
 import importlib
 import inspect
+import uuid
 from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
 
 from asyncz.cli._parsers import parse_store_option
+from asyncz.schedulers import AsyncIOScheduler
+
+
+class CommandScheduler(AsyncIOScheduler):
+    """
+    The temporary scheduler of a single command.
+
+    It gives access to the tasks of the stores. Running the due ones is left to the
+    scheduler of the application, a command ends too early for them.
+    """
+
+    def _setup(self, config: Any) -> None:
+        config.setdefault("identity", f"{AsyncIOScheduler.__name__}-{uuid.uuid4().hex[:12]}")
+        super()._setup(config)
+
+    def wakeup(self) -> None:
+        pass
 
 
 async def maybe_await(value: Any) -> Any:
-- 
2.43.0


From 7afd36bb9c8f9c68250e2050050216d671f5d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 50/65] fix: run waits for the run it asked for

---
 asyncz/cli/commands/run.py | 11 ++++++++--
 asyncz/cli/utils.py        | 43 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index b601164..428768e 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -7,7 +7,13 @@ from typing import Annotated, Any
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import (
+    CommandScheduler,
+    build_stores_map,
+    ensure_loop,
+    finish_runs,
+    maybe_await,
+)
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -54,7 +60,8 @@ def run(
             await maybe_await(scheduler.start())
 
         # 2. Delegate the "run now" flow to the scheduler itself.
-        await maybe_await(scheduler.run_task(job_id))
+        async with finish_runs(scheduler, job_id):
+            await maybe_await(scheduler.run_task(job_id))
         info(f"Triggered job {job_id}")
 
         # 3. Shutdown the temporary scheduler
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 72104dd..4a843d9 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -1,13 +1,16 @@
 import asyncio
+import contextlib
 import importlib
 import inspect
 import uuid
-from collections.abc import Callable
+from collections.abc import AsyncIterator, Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
 
 from asyncz.cli._parsers import parse_store_option
+from asyncz.events import TaskExecutionEvent, TaskSubmissionEvent
+from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED, TASK_SUBMITTED
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -27,6 +30,44 @@ class CommandScheduler(AsyncIOScheduler):
         pass
 
 
+@contextlib.asynccontextmanager
+async def finish_runs(scheduler: AsyncIOScheduler, task_id: str) -> AsyncIterator[None]:
+    """
+    Waits for the runs of the task which are submitted inside the block.
+
+    Args:
+        scheduler: The scheduler which is asked to run the task.
+        task_id: The id of the task.
+    """
+    loop: asyncio.AbstractEventLoop = asyncio.get_running_loop()
+    progress: asyncio.Event = asyncio.Event()
+    submitted: list[Any] = []
+    finished: list[Any] = []
+
+    def listener(event: Any) -> None:
+        if event.task_id != task_id:
+            return
+        if isinstance(event, TaskSubmissionEvent):
+            submitted.extend(event.scheduled_run_times)
+        elif isinstance(event, TaskExecutionEvent):
+            finished.append(event.scheduled_run_time)
+        loop.call_soon_threadsafe(progress.set)
+
+    scheduler.add_listener(listener, TASK_SUBMITTED | TASK_EXECUTED | TASK_ERROR | TASK_MISSED)
+    try:
+        yield
+        # in an event loop which is not running the runs would never finish
+        while (
+            len(finished) < len(submitted)
+            and scheduler.event_loop is not None
+            and scheduler.event_loop.is_running()
+        ):
+            progress.clear()
+            await progress.wait()
+    finally:
+        scheduler.remove_listener(listener)
+
+
 async def maybe_await(value: Any) -> Any:
     """
     Awaits the provided value only if it is awaitable (e.g., a coroutine, Future, or Task).
-- 
2.43.0


From ca1c2678718fe482469918d1a29ea11945278b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 51/65] fix: add refuses arguments which are no JSON array or
 object

---
 asyncz/cli/commands/add.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 64e6b3d..d88fd97 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -6,6 +6,7 @@ import json
 from collections.abc import Callable
 from typing import Annotated, Any
 
+import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
@@ -62,7 +63,11 @@ def add(
 
         # 2) Parse JSON args/kwargs
         pos: list[Any] = json.loads(args) if args else []
+        if not isinstance(pos, list):
+            raise click.BadParameter("args must be a JSON array.")
         kw: dict[str, Any] = json.loads(kwargs) if kwargs else {}
+        if not isinstance(kw, dict):
+            raise click.BadParameter("kwargs must be a JSON object.")
 
         # 3) Resolve scheduler
         bootstrap_mode = bool(bootstrap)
-- 
2.43.0


From 0544de8713bd121cf8f3ad708f4e4162d49ba99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 52/65] fix: timelines show the runs of every task, also of
 equal ids in two stores

---
 asyncz/cli/commands/timeline.py                  | 2 +-
 asyncz/contrib/dashboard/controllers/timeline.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index c458f99..81527ca 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -47,7 +47,7 @@ def _timeline_payload(
         if task.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task.id, count=per_task)
+        preview = scheduler.preview_task_runs(task.id, task.store_alias, count=per_task)
         if preview is None:
             continue
         if preview.exhausted:
diff --git a/asyncz/contrib/dashboard/controllers/timeline.py b/asyncz/contrib/dashboard/controllers/timeline.py
index dc79977..7524b8f 100644
--- a/asyncz/contrib/dashboard/controllers/timeline.py
+++ b/asyncz/contrib/dashboard/controllers/timeline.py
@@ -42,7 +42,9 @@ def build_timeline_context(scheduler: AsyncIOScheduler, request: Request) -> dic
         if task_info.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task_info.id, count=filters["per_task"])
+        preview = scheduler.preview_task_runs(
+            task_info.id, task_info.store_alias, count=filters["per_task"]
+        )
         if preview is None:
             continue
         if preview.exhausted:
-- 
2.43.0


From be964147889ba2c34c6b5e228ea363b9b99823bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 53/65] fix: Ctrl+C stops the hook and the scheduler of start

---
 asyncz/cli/commands/start.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index 492743f..ed7ec23 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -155,4 +155,10 @@ def start(
             await maybe_await(_call_hook(on_stop))
             await maybe_await(scheduler.shutdown(wait=True))
 
-    loop.run_until_complete(run_forever())
+    runner: asyncio.Task[None] = loop.create_task(run_forever())
+    try:
+        loop.run_until_complete(runner)
+    except KeyboardInterrupt:
+        # stop the hook and the scheduler within the loop
+        runner.cancel()
+        loop.run_until_complete(runner)
-- 
2.43.0


From 94039b38ad8ec7f29cf4735a1209b2f9760b22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 54/65] fix: commands print ids and names literally

---
 asyncz/cli/commands/add.py       |  3 ++-
 asyncz/cli/commands/doctor.py    |  3 ++-
 asyncz/cli/commands/inspect.py   |  3 ++-
 asyncz/cli/commands/instances.py |  3 ++-
 asyncz/cli/commands/list.py      |  3 ++-
 asyncz/cli/commands/pause.py     |  3 ++-
 asyncz/cli/commands/preview.py   |  3 ++-
 asyncz/cli/commands/remove.py    |  3 ++-
 asyncz/cli/commands/resume.py    |  3 ++-
 asyncz/cli/commands/run.py       |  3 ++-
 asyncz/cli/commands/start.py     |  3 ++-
 asyncz/cli/commands/status.py    |  3 ++-
 asyncz/cli/commands/timeline.py  |  3 ++-
 asyncz/cli/commands/update.py    |  3 ++-
 asyncz/cli/commands/version.py   |  3 ++-
 asyncz/cli/output.py             | 24 ++++++++++++++++++++++++
 16 files changed, 54 insertions(+), 15 deletions(-)
 create mode 100644 asyncz/cli/output.py

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index d88fd97..035300b 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -7,9 +7,10 @@ from collections.abc import Callable
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.types import parse_trigger
 from asyncz.cli.utils import (
     CommandScheduler,
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index 2d1195b..82f6377 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -4,10 +4,11 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.commands.status import _serialize_scheduler_info
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index a9a9051..891dc98 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -5,9 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index a624e9b..c0631df 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -3,9 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInstanceInfo
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index ea90fb2..4cc4d89 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -4,9 +4,10 @@ import contextlib
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.enums import TaskScheduleState
 from asyncz.schedulers import AsyncIOScheduler
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 9b80048..079e830 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info, success
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index b46079d..3ce8052 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -5,9 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 653c105..a92b01c 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info, success
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 71e2ea5..9401609 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info, success
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 428768e..d85e0f3 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -4,9 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import (
     CommandScheduler,
     build_stores_map,
diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index ed7ec23..6fd46e1 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -6,10 +6,11 @@ import importlib
 import sys
 from typing import Annotated, Any
 
-from sayer import Option, command, info, success
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.loader import load_jobs_from_config, load_jobs_from_module
+from asyncz.cli.output import info, success
 from asyncz.cli.utils import (
     WatchTarget,
     _call_hook,
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 50697bd..f1fe3a6 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -3,9 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 81527ca..812108f 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -5,9 +5,10 @@ import json
 from datetime import datetime, timezone
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index c221668..94812b7 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -5,9 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
+from asyncz.cli.output import info, success
 from asyncz.cli.utils import CommandScheduler, build_stores_map, ensure_loop, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
diff --git a/asyncz/cli/commands/version.py b/asyncz/cli/commands/version.py
index a4be169..404e605 100644
--- a/asyncz/cli/commands/version.py
+++ b/asyncz/cli/commands/version.py
@@ -3,9 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz import __version__
+from asyncz.cli.output import info
 
 
 @command(name="version")
diff --git a/asyncz/cli/output.py b/asyncz/cli/output.py
new file mode 100644
index 0000000..cd97f8e
--- /dev/null
+++ b/asyncz/cli/output.py
@@ -0,0 +1,24 @@
+from __future__ import annotations
+
+from rich.text import Text
+from sayer.utils.console import console
+
+
+def info(message: str) -> None:
+    """
+    Prints an informational message literally, ids and names are no markup.
+
+    Args:
+        message: The informational message string to display.
+    """
+    console.print(Text(f"ℹ {message}", style="bold blue"))
+
+
+def success(message: str) -> None:
+    """
+    Prints a success message literally, ids and names are no markup.
+
+    Args:
+        message: The success message string to display.
+    """
+    console.print(Text(f"✔ {message}", style="bold green"))
-- 
2.43.0


From d3ee40324410acb0594f66defe155d51db395eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 55/65] fix: a task default of None for mistrigger_grace_time
 is used

---
 asyncz/schedulers/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 5d24cb9..c6f633e 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -662,7 +662,6 @@ class BaseScheduler(SchedulerType):
         task_defaults = self.shape.dump(
             self.task_defaults,
             context=task_default_context,
-            exclude_none=True,
         )
         if not isinstance(task_defaults, Mapping):
             raise TypeError("Task defaults must dump to a mapping.")
-- 
2.43.0


From f18b95457c4bab8cdd92c4e1d173c78805bc91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 56/65] fix: fields of shapes have no markers of their library
 as default

---
 asyncz/shapes/builtins.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 64adcc4..278f026 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -106,7 +106,8 @@ class PydanticShape(Shape):
             result: list[ShapeField] = []
             for name, field in model_type.model_fields.items():
                 required = field.is_required()
-                default = None if required else field.default
+                # factories have no fixed default
+                default = None if required or field.default_factory else field.default
                 result.append(
                     ShapeField(
                         name=name,
@@ -195,7 +196,8 @@ class DataclassShape(Shape):
                 field.default is dataclasses.MISSING
                 and field.default_factory is dataclasses.MISSING
             )
-            default = None if required else field.default
+            # factories have no fixed default
+            default = None if field.default is dataclasses.MISSING else field.default
             result.append(
                 ShapeField(
                     name=field.name,
@@ -311,7 +313,12 @@ class AttrsShape(Shape):
             ShapeField(
                 name=field.name,
                 annotation=field.type,
-                default=None if field.default is attr.NOTHING else field.default,
+                # factories have no fixed default
+                default=(
+                    None
+                    if field.default is attr.NOTHING or isinstance(field.default, attr.Factory)
+                    else field.default
+                ),
                 required=field.default is attr.NOTHING,
             )
             for field in attr.fields(model_type)
@@ -422,7 +429,7 @@ class MsgspecShape(Shape):
             ShapeField(
                 name=field.name,
                 annotation=field.type,
-                default=field.default,
+                default=None if field.default is msgspec.NODEFAULT else field.default,
                 required=field.required,
             )
             for field in msgspec.structs.fields(model_type)
-- 
2.43.0


From bfe49a69b6683401f022200a8ee9db8d76cc4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 57/65] fix: compact dumps of msgspec structs leave out None

---
 asyncz/shapes/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 278f026..c75df85 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -404,7 +404,7 @@ class MsgspecShape(Shape):
         msgspec = self._msgspec()
         if self.supports(value):
             try:
-                return msgspec.to_builtins(value)
+                return dump_plain(msgspec.to_builtins(value), exclude_none=exclude_none)
             except Exception as exc:
                 raise ShapeSerializationError(
                     f'Shape "{self.name}" could not dump {value.__class__.__name__}.'
-- 
2.43.0


From 9455c8a324bf57dd3cae2e423c083adb220213a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 58/65] fix: settings of inherited classes are read from the
 environment and exported

---
 asyncz/conf/global_settings.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/asyncz/conf/global_settings.py b/asyncz/conf/global_settings.py
index 5c2d32e..1a4310a 100644
--- a/asyncz/conf/global_settings.py
+++ b/asyncz/conf/global_settings.py
@@ -21,17 +21,33 @@ from asyncz import __version__  # noqa
 def safe_get_type_hints(cls: type) -> dict[str, Any]:
     """
     Safely get type hints for a class, handling potential errors.
-    This function attempts to retrieve type hints for the given class,
-    and if it fails, it prints a warning and returns the class annotations.
+    This function retrieves the type hints of the given class and its bases.
+    A hint which cannot be resolved is returned as it is annotated.
     Args:
         cls (type): The class to get type hints for.
     Returns:
         dict[str, Any]: A dictionary of type hints for the class.
     """
+    hints: dict[str, Any] = {}
+    for base in reversed(cls.__mro__):
+        for key, hint in inspect.get_annotations(base).items():
+            if key.startswith("__"):
+                continue
+            hints[key] = _safe_resolve_hint(base, hint)
+        for key, value in vars(base).items():
+            # computed, no setting anymore
+            if isinstance(value, (property, cached_property)):
+                hints.pop(key, None)
+    return hints
+
+
+def _safe_resolve_hint(cls: type, hint: Any) -> Any:
+    # resolved in the module: in the class methods like dict would shadow the builtins
+    holder = type("holder", (), {"__annotations__": {"hint": hint}, "__module__": cls.__module__})
     try:
-        return get_type_hints(cls, include_extras=True)
+        return get_type_hints(holder, include_extras=True)["hint"]
     except Exception:
-        return cls.__annotations__
+        return hint
 
 
 class BaseSettings:
-- 
2.43.0


From e17a2069b1ad85fff46a5ec2995bf1066de5f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 59/65] fix: the digits after the point of a date are a
 fraction of a second

---
 asyncz/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 164102e..ae387ac 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -147,6 +147,8 @@ def to_datetime(
             sign = 1 if tzname[0] == "+" else -1
             tz = dttz(sign * timedelta(hours=hours, minutes=minutes))
 
+        # the digits after the point are a fraction
+        values["microsecond"] = (values["microsecond"] or "").ljust(6, "0")
         values = {k: int(v or 0) for k, v in values.items()}
         _datetime = datetime(**values)  # type: ignore
     else:
-- 
2.43.0


From 5a14040a59ccc696c3d5dd46ad03156979a07a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 60/65] fix: references lead to inherited class methods and
 private methods

---
 asyncz/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index ae387ac..691245a 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -269,7 +269,18 @@ def obj_to_ref(obj: Any) -> str:
     if "<locals>" in name:
         raise ValueError("Cannot create a reference to a nested function")
 
-    if inspect.ismethod(obj):
+    owner, _, attribute = name.rpartition(".")
+    if owner and attribute.startswith("__") and not attribute.endswith("__"):
+        # a private name is an attribute under the name of its class too
+        attribute = f"_{owner.rpartition('.')[2].lstrip('_')}{attribute}"
+        name = f"{owner}.{attribute}"
+
+    if inspect.ismethod(obj) and inspect.isclass(obj.__self__):
+        # a class method runs for the class it was taken from, which can have inherited it
+        module, name = obj.__self__.__module__, f"{obj.__self__.__qualname__}.{attribute}"
+        if "<locals>" in name or getattr(obj.__self__, attribute, None) != obj:
+            raise ValueError("Cannot create a reference to an overridden class method")
+    elif inspect.ismethod(obj):
         if hasattr(obj, "im_self") and obj.im_self:
             module = obj.im_self.__module__
         elif hasattr(obj, "im_class") and obj.im_class:
-- 
2.43.0


From e6772781b18868cafa775109a6f93142868b7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 61/65] fix: callable objects are not stored as their class

---
 asyncz/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 691245a..6f5517b 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -288,7 +288,10 @@ def obj_to_ref(obj: Any) -> str:
         else:
             module = obj.__module__
     else:
-        module = obj.__module__
+        module = getattr(obj, "__module__", None)
+    if not module or not (hasattr(obj, "__qualname__") or hasattr(obj, "__name__")):
+        # the class of a callable object is something else than the object
+        raise ValueError("Cannot create a reference to an instance")
     return f"{module}:{name}"
 
 
-- 
2.43.0


From bce267f0a04350cd92a0f38512803552a92d4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 62/65] fix: functions with a cache can be scheduled

---
 asyncz/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6f5517b..53b635a 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -367,7 +367,12 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
     has_varargs = has_var_kwargs = False
 
     try:
-        sig = inspect.signature(func, follow_wrapped=False)
+        try:
+            sig = inspect.signature(func, follow_wrapped=False)
+        except ValueError:
+            # a wrapper like functools.cache has no signature of its own, it takes what
+            # the wrapped function takes
+            sig = inspect.signature(func)
     except ValueError as e:
         raise AsynczException(detail=str(e)) from e
 
-- 
2.43.0


From 32ef4fdd2fb5638489aab014258f1473cb623b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 63/65] fix: the JSON output of a command is only JSON

---
 asyncz/cli/commands/doctor.py    | 2 +-
 asyncz/cli/commands/inspect.py   | 2 +-
 asyncz/cli/commands/instances.py | 2 +-
 asyncz/cli/commands/list.py      | 2 +-
 asyncz/cli/commands/preview.py   | 2 +-
 asyncz/cli/commands/status.py    | 2 +-
 asyncz/cli/commands/timeline.py  | 2 +-
 asyncz/cli/commands/update.py    | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index 82f6377..d210fc9 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -128,7 +128,7 @@ def doctor(
     async def main() -> dict[str, Any] | None:
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
         else:
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index 891dc98..8004d56 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -61,7 +61,7 @@ def inspect_task(
     async def main() -> dict[str, Any] | None:
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index c0631df..82863c8 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -60,7 +60,7 @@ def instances(
     async def main() -> dict[str, Any] | None:
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
         else:
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 4cc4d89..59e65c1 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -74,7 +74,7 @@ def list_jobs(
         # 1) Resolve scheduler
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
 
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index 3ce8052..c41e7e8 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -62,7 +62,7 @@ def preview(
     async def main() -> dict[str, Any] | None:
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index f1fe3a6..899f508 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -59,7 +59,7 @@ def status(
     async def main() -> dict[str, Any] | None:
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
         else:
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 812108f..05e348b 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -101,7 +101,7 @@ def timeline(
     async def main() -> dict[str, Any] | None:
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index 94812b7..a65e2fc 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -130,7 +130,7 @@ def update(
 
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
-            if store:
+            if store and not as_json:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
             with contextlib.suppress(Exception):
-- 
2.43.0


From 140c6724c97c3c73bffe175083d8251a925100a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:34 +0000
Subject: [PATCH 64/65] fix: new arguments don't change the reference of a task

---
 asyncz/tasks/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..d3493aa 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -106,6 +106,9 @@ class Task(BaseState, TaskType):  # type: ignore
             elif isinstance(fn, str):
                 fn_reference = fn
                 fn = ref_to_obj(fn)
+            elif fn is self.fn and self.fn_reference:
+                # it can have been given as reference
+                fn_reference = self.fn_reference
             elif callable(fn):
                 try:
                     fn_reference = obj_to_ref(fn)
-- 
2.43.0


From 5d7d9e4f29026d1b4199db0578b993b7902bb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:45 +0000
Subject: [PATCH 65/65] fix: other arguments don't replace the instance of a
 stored method

---
 asyncz/datastructures.py |  2 ++
 asyncz/tasks/base.py     | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index 4de6e22..eaa36f7 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -63,6 +63,8 @@ class TaskState(BaseDatastructureState):  # type: ignore
     fn: Optional[Union[Callable[..., Any], str]] = None
     fn_reference: Optional[str] = None
     args: Optional[Any] = None
+    # the first of the args is the instance the method is bound to
+    bound: bool = False
     kwargs: Optional[Any] = None
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index d3493aa..976182c 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -1,6 +1,8 @@
 import inspect
 from collections.abc import Callable, Iterable, Mapping, Sequence
+from contextlib import suppress
 from datetime import datetime, tzinfo
+from types import MethodType
 from typing import Any, Optional, Union, cast
 from uuid import uuid4
 
@@ -205,9 +207,14 @@ class Task(BaseState, TaskType):  # type: ignore
         object_setattr(self, "__pydantic_extra__", state.__pydantic_extra__)
         state.model_config.update(self.model_config)
 
+        bound = self.__dict__.pop("bound", False)
         for name, value in self.__dict__.items():
             if name == "fn":
                 self.__dict__[name] = ref_to_obj(value)
+        if bound:
+            # the instance is part of the callable, other arguments don't replace it
+            self.fn = MethodType(self.fn, self.args[0])
+            self.args = self.args[1:]
         # the task was serialized in a store, so it is active
         self.submitted = True
         self.pending = False
@@ -222,14 +229,12 @@ class Task(BaseState, TaskType):  # type: ignore
             )
 
         fn = self.fn
-        if (
-            inspect.ismethod(fn)
-            and not inspect.isclass(fn.__self__)
-            and obj_to_ref(fn) == self.fn_reference
-        ):
-            args = (fn.__self__, *self.args)
-        else:
-            args = tuple(self.args)
+        bound = False
+        if inspect.ismethod(fn) and not inspect.isclass(fn.__self__):
+            # a reference which was given can lead to a method without one of its own
+            with suppress(ValueError):
+                bound = obj_to_ref(fn) == self.fn_reference
+        args = (fn.__self__, *self.args) if bound else tuple(self.args)
 
         task_state = TaskState(
             id=self.id,
@@ -244,6 +249,7 @@ class Task(BaseState, TaskType):  # type: ignore
             max_instances=self.max_instances,
             next_run_time=self.next_run_time,
             fn_reference=self.fn_reference,
+            bound=bound,
         )
         return task_state
 
-- 
2.43.0

