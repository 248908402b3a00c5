From 298b8a240d10370ecd4754b656241391337214c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 01/70] fix: interpret naive start/end bounds with localize so
 pytz scheduler zones do not use LMT

---
 asyncz/triggers/cron/trigger.py |  4 ++--
 asyncz/triggers/interval.py     | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..dd82930 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -227,12 +227,12 @@ class CronTrigger(BaseTrigger):
         if now is None:
             now = datetime.now(timezone)
         start_at_field = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
         end_at_field = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..df9981c 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -4,7 +4,14 @@ from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
 from asyncz.triggers.base import BaseTrigger
-from asyncz.utils import datetime_repr, normalize, timedelta_seconds, to_datetime, to_timezone
+from asyncz.utils import (
+    datetime_repr,
+    localize,
+    normalize,
+    timedelta_seconds,
+    to_datetime,
+    to_timezone,
+)
 
 
 class IntervalTrigger(BaseTrigger):
@@ -73,7 +80,7 @@ class IntervalTrigger(BaseTrigger):
             now = datetime.now(timezone)
         next_trigger_time: Optional[datetime]
         start_at = (
-            self.start_at.replace(tzinfo=timezone)
+            localize(self.start_at, timezone)
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
@@ -91,7 +98,7 @@ class IntervalTrigger(BaseTrigger):
                 next_trigger_time=next_trigger_time, jitter=self.jitter, now=now
             )
         end_at = (
-            self.end_at.replace(tzinfo=timezone)
+            localize(self.end_at, timezone)
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
-- 
2.43.0


From 7009170fc99c058df1207336a98a279eb44716b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 02/70] fix: interval triggers count elapsed time exactly,
 across clock changes and after unpickling

---
 asyncz/triggers/interval.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index df9981c..a4ea3d0 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,5 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
-from math import ceil
+from datetime import timezone as dttz
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
@@ -7,7 +7,6 @@ from asyncz.triggers.base import BaseTrigger
 from asyncz.utils import (
     datetime_repr,
     localize,
-    normalize,
     timedelta_seconds,
     to_datetime,
     to_timezone,
@@ -84,14 +83,13 @@ class IntervalTrigger(BaseTrigger):
             if self.start_at and self.start_at.tzinfo is None
             else self.start_at
         )
+        # calculate in UTC: the interval is elapsed time, also across clock changes
+        first_time = start_at.astimezone(dttz.utc)
         if previous_time:
-            next_trigger_time = previous_time + self.interval
-        elif start_at > now:
-            next_trigger_time = start_at
+            next_trigger_time = previous_time.astimezone(dttz.utc) + self.interval
         else:
-            time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
-            next_trigger_time = start_at + self.interval * next_interval_number
+            elapsed = max(now.astimezone(dttz.utc) - first_time, timedelta())
+            next_trigger_time = first_time - self.interval * (-elapsed // self.interval)
 
         if self.jitter is not None:
             next_trigger_time = self.apply_jitter(
@@ -104,7 +102,7 @@ class IntervalTrigger(BaseTrigger):
         )
 
         if not end_at or next_trigger_time <= end_at:
-            return normalize(value=next_trigger_time)
+            return next_trigger_time.astimezone(timezone)
         return None
 
     def __getstate__(self) -> IntervalState:  # type: ignore
-- 
2.43.0


From d8c4466fbfeab0d282231c87f1a2a9e1237d6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 03/70] fix: default start of an interval trigger without a
 time zone is a definite instant

---
 asyncz/triggers/interval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index a4ea3d0..f05428c 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -64,7 +64,8 @@ class IntervalTrigger(BaseTrigger):
         else:
             self.timezone = None
 
-        start_at = start_at or (datetime.now(self.timezone) + self.interval)
+        # without a time zone of its own, the start must still be one definite instant
+        start_at = start_at or (datetime.now(self.timezone or dttz.utc) + self.interval)
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
-- 
2.43.0


From f9d9b7836ffbc854ae4d65697c849f566dbe5ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 04/70] fix: cron triggers never fire in the past or skip local
 times around clock changes

---
 asyncz/triggers/cron/trigger.py | 44 ++++++++++++++++++++++-----------
 asyncz/utils.py                 | 18 ++++++++++++++
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index dd82930..66dedcb 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -1,5 +1,6 @@
 from datetime import datetime, timedelta, tzinfo
-from typing import Any, ClassVar, Optional, Union
+from datetime import timezone as dttz
+from typing import Any, ClassVar, Optional, Union, cast
 
 from asyncz.datastructures import CronState
 from asyncz.triggers.base import BaseTrigger
@@ -14,8 +15,8 @@ from asyncz.triggers.cron.fields import (
 from asyncz.utils import (
     datetime_ceil,
     datetime_repr,
+    first_instant_after,
     localize,
-    normalize,
     to_datetime,
     to_timezone,
 )
@@ -202,11 +203,20 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return normalize(dateval + difference), field_number
+        return self.move_forward(dateval, datetime(**values)), field_number
+
+    def move_forward(self, dateval: datetime, target: datetime) -> datetime:
+        """
+        Moves to the local time `target`, or as far as elapsed time allows when clocks are set back
+        in between, so that the repeated local times are visited as well.
+        """
+        timezone = cast(tzinfo, dateval.tzinfo)
+        after = dateval.astimezone(dttz.utc)
+        elapsed = after + (target - dateval.replace(tzinfo=None, fold=0))
+        return min(elapsed, first_instant_after(target, timezone, after)).astimezone(timezone)
 
     def set_field_value(
-        self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
+        self, dateval: datetime, field_number: int, new_value: Any
     ) -> datetime:
         values = {}
         for i, field in enumerate(self.fields):
@@ -218,7 +228,7 @@ class CronTrigger(BaseTrigger):
                 else:
                     values[field.name] = new_value
 
-        return localize(datetime(**values), timezone)
+        return self.move_forward(dateval, datetime(**values))
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
@@ -236,17 +246,20 @@ class CronTrigger(BaseTrigger):
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
+        # compare and round in UTC: local times are ambiguous when clocks are set back
+        if end_at_field:
+            end_at_field = end_at_field.astimezone(dttz.utc)
+        start_at = now.astimezone(dttz.utc)
         if previous_time:
-            start_at = min(now, previous_time + timedelta(microseconds=1))
+            previous_time = previous_time.astimezone(dttz.utc)
+            start_at = min(start_at, previous_time + timedelta(microseconds=1))
             if start_at == previous_time:
                 start_at += timedelta(microseconds=1)
-        else:
-            start_at = max(now, start_at_field) if start_at_field else now
-        if start_at.tzinfo != timezone:
-            start_at = start_at.astimezone(timezone)
+        elif start_at_field:
+            start_at = max(start_at, start_at_field.astimezone(dttz.utc))
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = datetime_ceil(start_at).astimezone(timezone)
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
@@ -257,8 +270,9 @@ class CronTrigger(BaseTrigger):
                 next_date, fieldnum = self.increment_field_value(next_date, fieldnum - 1)
             elif next_value > curr_value:
                 if field.real:
-                    next_date = self.set_field_value(next_date, fieldnum, next_value, timezone)
-                    fieldnum += 1
+                    next_date = self.set_field_value(next_date, fieldnum, next_value)
+                    # start over if a clock change was in the way
+                    fieldnum = fieldnum + 1 if field.get_value(next_date) >= next_value else 0
                 else:
                     next_date, fieldnum = self.increment_field_value(next_date, fieldnum)
             else:
@@ -269,7 +283,7 @@ class CronTrigger(BaseTrigger):
 
         if fieldnum >= 0:
             next_date = self.apply_jitter(next_date, self.jitter, now)
-            return min(next_date, end_at_field) if end_at_field else next_date
+            return min(next_date, end_at_field).astimezone(timezone) if end_at_field else next_date
         return None
 
     def __getstate__(self) -> Any:
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6401b6a..c4d9ce5 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -427,6 +427,24 @@ def normalize(value: datetime) -> datetime:
     return datetime.fromtimestamp(value.timestamp(), value.tzinfo)
 
 
+def first_instant_after(value: datetime, tzinfo: tzinfo, after: datetime) -> datetime:
+    """
+    Returns the first instant later than ``after`` at which clocks in the time zone show the naive
+    ``value``. A local time skipped by a clock change is moved forward by the length of the gap.
+    """
+    if hasattr(tzinfo, "localize"):
+        # pytz encodes both readings of a repeated local time with is_dst
+        candidates = [tzinfo.localize(value, is_dst=is_dst) for is_dst in (True, False)]
+    else:
+        candidates = [value.replace(tzinfo=tzinfo, fold=fold) for fold in (0, 1)]
+    instants = sorted(candidate.astimezone(dttz.utc) for candidate in candidates)
+    for instant in instants:
+        candidate = instant.astimezone(tzinfo)
+        if candidate.replace(tzinfo=None, fold=0) == value and instant > after:
+            return candidate
+    return instants[-1].astimezone(tzinfo)
+
+
 def localize(value: datetime, tzinfo: tzinfo) -> datetime:
     if hasattr(tzinfo, "localize"):
         # pytz localize
-- 
2.43.0


From fb4a02ced0cbd70d64df90d759c959cb23d34d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 05/70] fix: cron text must match its grammar completely;
 compare and print cron expressions correctly

---
 asyncz/triggers/cron/expressions.py | 8 +++++---
 asyncz/triggers/cron/fields.py      | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index fdc6cf3..4b33654 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -99,7 +99,8 @@ class RangeExpression(AllExpression):
                 f"The last value ({self.last}) is higher than the maximum value ({MAX_VALUES[field_name]})."
             )
 
-        value_range = (self.last or MAX_VALUES[field_name]) - self.first
+        last = MAX_VALUES[field_name] if self.last is None else self.last
+        value_range = last - self.first
 
         if self.step and self.step > value_range:
             raise ValueError(
@@ -127,6 +128,7 @@ class RangeExpression(AllExpression):
             isinstance(other, self.__class__)
             and self.first == other.first
             and self.last == other.last
+            and self.step == other.step
         )
 
     def __str__(self) -> str:
@@ -187,7 +189,7 @@ class MonthRangeExpression(RangeExpression):
         return MONTHS[self.first - 1]
 
     def __repr__(self) -> str:
-        args = [f"'{MONTHS[self.first]}'"]
+        args = [f"'{MONTHS[self.first - 1]}'"]
         if self.last != self.first and self.last is not None:
             args.append(f"'{MONTHS[self.last - 1]}'")
         return f"{self.__class__.__name__}({', '.join(args)})"
@@ -273,7 +275,7 @@ class WeekdayPositionExpression(AllExpression):
     def __eq__(self, other: Any) -> bool:
         return (
             super().__eq__(other)
-            and self.option_number == other.option_num
+            and self.option_number == other.option_number
             and self.weekday == other.weekday
         )
 
diff --git a/asyncz/triggers/cron/fields.py b/asyncz/triggers/cron/fields.py
index 08fd10e..10a9b5d 100644
--- a/asyncz/triggers/cron/fields.py
+++ b/asyncz/triggers/cron/fields.py
@@ -71,7 +71,7 @@ class BaseField(BaseModel):
 
     def compile_expression(self, expr: Any) -> None:
         for compiler in self.compilers or []:
-            match = compiler.regex.match(expr)
+            match = compiler.regex.fullmatch(expr)
             if match:
                 compiled_expr = compiler(**match.groupdict())
                 try:
@@ -85,7 +85,7 @@ class BaseField(BaseModel):
         raise ValueError(f'Unrecognized expression "{expr}" for field "{self.name}"')
 
     def __eq__(self, other: Any) -> bool:
-        return isinstance(self, self.__class__) and self.expressions == other.expressions
+        return isinstance(other, self.__class__) and self.expressions == other.expressions
 
     def __str__(self) -> str:
         expr_strings = (str(e) for e in self.expressions)
-- 
2.43.0


From 6a691d11f5bd98a365ddacae1cb2affba4e112f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 06/70] fix: AndTrigger always answers, also for previous runs
 and triggers that never agree

---
 asyncz/triggers/combination.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..ca0c689 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -3,6 +3,9 @@ from typing import ClassVar, Optional, Union
 
 from asyncz.triggers.base import BaseCombinationTrigger
 
+# how many candidate times an AndTrigger examines before it considers its triggers incompatible
+MAX_CANDIDATES = 10000
+
 
 class AndTrigger(BaseCombinationTrigger):
     """
@@ -21,7 +24,7 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
-        while True:
+        for _ in range(MAX_CANDIDATES):
             trigger_times = []
             for trigger in self.triggers:
                 next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
@@ -31,9 +34,13 @@ class AndTrigger(BaseCombinationTrigger):
                 trigger_times.append(next_trigger_time)
             if min(trigger_times) == max(trigger_times):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
-            else:
-                # recheck
-                now = max(trigger_times)
+            if previous_time is None and max(trigger_times) <= now:
+                # a trigger stays behind the others: they will never agree
+                return None
+            # recheck: every trigger has to move on to the latest of the candidates
+            now = max(trigger_times)
+            previous_time = None
+        return None
 
 
 class OrTrigger(BaseCombinationTrigger):
-- 
2.43.0


From b37ab227bb62d1b001d35502223f56c6804b47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 07/70] fix: triggers without a state object of their own can
 be restored

---
 asyncz/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..2759898 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # no state object of its own: the default state of Pydantic
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
-- 
2.43.0


From 84a5747d5611c1ee651613746d5ceea54c2ec3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 08/70] fix: tasks with a fractional mistrigger grace time can
 be stored

---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From 2acb502cf49f8ba73e64afd722b8721d16f429c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 09/70] fix: references to inherited classmethods and callable
 objects do not name another callable

---
 asyncz/utils.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index c4d9ce5..6858da5 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -257,14 +257,24 @@ def obj_to_ref(obj: Any) -> str:
     """
     if isinstance(obj, partial):
         raise ValueError("Cannot create a reference to a partial()")
-
-    name = get_callable_name(obj)
+    if not hasattr(obj, "__qualname__") and not hasattr(obj, "__name__"):
+        # only the class has a name, and a reference to the class is another callable
+        raise ValueError("Cannot create a reference to a callable object")
+
+    # an inherited classmethod belongs to the class it is bound to
+    bound_class = obj.__self__ if inspect.ismethod(obj) and inspect.isclass(obj.__self__) else None
+    if bound_class is not None:
+        name = f"{bound_class.__qualname__}.{obj.__name__}"
+    else:
+        name = get_callable_name(obj)
     if "<lambda>" in name:
         raise ValueError("Cannot create a reference to a lambda")
     if "<locals>" in name:
         raise ValueError("Cannot create a reference to a nested function")
 
-    if inspect.ismethod(obj):
+    if bound_class is not None:
+        module = bound_class.__module__
+    elif inspect.ismethod(obj):
         if hasattr(obj, "im_self") and obj.im_self:
             module = obj.im_self.__module__
         elif hasattr(obj, "im_class") and obj.im_class:
-- 
2.43.0


From 31abe75b6d921ede38a463df9e88ed1fb177a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 10/70] fix: redis store reports tasks that are due since
 before 1970

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..0dba240 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,7 +67,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From 4cc26e5d7e5f9445813548f0549718276de942b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 11/70] fix: file store keeps every accepted task under
 concurrent use, killed writers and failing reads

---
 asyncz/file_locking.py |   6 +-
 asyncz/stores/file.py  | 133 ++++++++++++++++++++++++++---------------
 2 files changed, 89 insertions(+), 50 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..957bec6 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -4,10 +4,12 @@ import glob
 import os
 import pickle
 import shutil
-from contextlib import suppress
+from collections.abc import Generator
+from contextlib import contextmanager, suppress
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Optional, Union, cast
+from uuid import uuid4
 
 from asyncz.exceptions import ConflictIdError, TaskLookupError
 from asyncz.file_locking import LOCK_EX, LOCK_SH, with_lock
@@ -31,6 +33,9 @@ class FileStore(BaseStore):
     """
 
     forbidden_characters: set[str] = {"/", "\\", "\0", ":"}
+    # internal files are no tasks (task ids never start with a dot)
+    lock_name: str = ".asyncz-lock"
+    temp_prefix: str = ".asyncz-temp-"
 
     def __init__(
         self,
@@ -71,16 +76,47 @@ class FileStore(BaseStore):
             shutil.rmtree(self.directory, ignore_errors=True)
         super().shutdown()
 
+    @contextmanager
+    def locked_directory(self, flags: int) -> Generator[None, None, None]:
+        """
+        Locks the directory against the other users: shared for reading, exclusive for writing.
+        """
+        with open(self.directory / self.lock_name, "a+b") as lock_ob, with_lock(lock_ob, flags):
+            yield
+
+    def write_task_file(self, task_path: Path, state: bytes) -> None:
+        """
+        Writes the task file as a whole, a killed writer leaves the old version. Requires the lock.
+        """
+        temp_path = self.directory / f"{self.temp_prefix}{uuid4().hex}"
+        try:
+            temp_path.write_bytes(state)
+            os.replace(temp_path, task_path)
+        except BaseException:
+            temp_path.unlink(missing_ok=True)
+            raise
+
+    def remove_unreadable(self, task_path: Path, state: bytes) -> None:
+        """
+        Removes a task file which cannot be restored, except it was replaced in the meantime.
+        """
+        with suppress(FileNotFoundError), self.locked_directory(LOCK_EX):
+            if task_path.read_bytes() == state:
+                task_path.unlink()
+
     def lookup_task(self, task_id: str) -> Optional[TaskType]:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
+            with self.locked_directory(LOCK_SH):
+                state = task_path.read_bytes()
+        except FileNotFoundError:
+            return None
+        try:
+            return self.rebuild_task(state)
         except Exception:
-            task_path.unlink(missing_ok=True)
-            task = None
-        return task
+            self.remove_unreadable(task_path, state)
+            return None
 
     def rebuild_task(self, state: Any) -> TaskType:
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -99,29 +135,32 @@ class FileStore(BaseStore):
 
     def get_tasks(self) -> list[TaskType]:
         tasks: list[tuple[TaskType, os.stat_result]] = []
-        with os.scandir(self.directory) as scanner:
+        states: list[tuple[str, bytes, os.stat_result]] = []
+        with self.locked_directory(LOCK_SH), os.scandir(self.directory) as scanner:
             for entry in scanner:
+                if entry.name == self.lock_name or entry.name.startswith(self.temp_prefix):
+                    continue
                 if not entry.name.endswith(self.suffix) or not entry.is_file():
                     continue
-                try:
-                    with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        task = self.rebuild_task(read_ob.read())
-                    tasks.append((task, entry.stat()))
-                except Exception:
-                    with suppress(FileNotFoundError):
-                        os.unlink(entry.path)
-            return [
-                task
-                for task, _ in sorted(
-                    tasks,
-                    key=lambda task_stat: (
-                        int(task_stat[0].next_run_time is None),
-                        task_stat[0].next_run_time,
-                        # sort for task creation not update
-                        task_stat[1].st_ctime,
-                    ),
-                )
-            ]
+                with suppress(FileNotFoundError):
+                    states.append((entry.path, Path(entry.path).read_bytes(), entry.stat()))
+        for path, state, stat in states:
+            try:
+                tasks.append((self.rebuild_task(state), stat))
+            except Exception:
+                self.remove_unreadable(Path(path), state)
+        return [
+            task
+            for task, _ in sorted(
+                tasks,
+                key=lambda task_stat: (
+                    int(task_stat[0].next_run_time is None),
+                    task_stat[0].next_run_time,
+                    # sort for task creation not update
+                    task_stat[1].st_ctime,
+                ),
+            )
+        ]
 
     def get_next_run_time(self) -> Optional[datetime]:
         next_run_time: datetime | None = None
@@ -138,41 +177,39 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileExistsError:
-            raise ConflictIdError(task.id) from None
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
+        with self.locked_directory(LOCK_EX):
+            if task_path.exists():
+                raise ConflictIdError(task.id)
+            self.write_task_file(task_path, state)
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileNotFoundError:
-            raise TaskLookupError(task.id) from None
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
+        with self.locked_directory(LOCK_EX):
+            if not task_path.exists():
+                raise TaskLookupError(task.id)
+            self.write_task_file(task_path, state)
 
     def delete_task(self, task_id: str) -> None:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            task_path.unlink(missing_ok=False)
+            with self.locked_directory(LOCK_EX):
+                task_path.unlink(missing_ok=False)
         except FileNotFoundError:
             raise TaskLookupError(task_id) from None
 
     def remove_all_tasks(self) -> None:
-        for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
-            task_path.unlink(missing_ok=True)
+        with self.locked_directory(LOCK_EX):
+            for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
+                if task_path.name != self.lock_name:
+                    task_path.unlink(missing_ok=True)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} (directory={self.directory})>"
-- 
2.43.0


From 1e14a0a185b8fac8b2923686ca949e5d27cd1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 12/70] fix: date texts mean decimal fractions of a second and
 empty or wrong values are rejected

---
 asyncz/triggers/interval.py |  3 ++-
 asyncz/utils.py             | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index f05428c..43203a8 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -65,7 +65,8 @@ class IntervalTrigger(BaseTrigger):
             self.timezone = None
 
         # without a time zone of its own, the start must still be one definite instant
-        start_at = start_at or (datetime.now(self.timezone or dttz.utc) + self.interval)
+        if start_at is None:
+            start_at = datetime.now(self.timezone or dttz.utc) + self.interval
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6858da5..aa5989a 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -29,7 +29,7 @@ DATE_REGEX = re.compile(
     r"(?P<year>\d{4})-(?P<month>\d{1,2})-(?P<day>\d{1,2})"
     r"(?:[ T](?P<hour>\d{1,2}):(?P<minute>\d{1,2}):(?P<second>\d{1,2})"
     r"(?:\.(?P<microsecond>\d{1,6}))?"
-    r"(?P<timezone>Z|[+-]\d\d:\d\d)?)?$"
+    r"(?P<timezone>Z|[+-]\d\d:[0-5]\d)?)?$"
 )
 
 
@@ -124,7 +124,7 @@ def to_datetime(
     If a native datetime object is passed, it is given the specified timezone.
     If the input is a string, it is parsed as a datetime with the given timezone.
     """
-    if not value or value is None:
+    if value is None:
         return None
 
     if isinstance(value, datetime):
@@ -147,6 +147,8 @@ def to_datetime(
             sign = 1 if tzname[0] == "+" else -1
             tz = dttz(sign * timedelta(hours=hours, minutes=minutes))
 
+        # a decimal fraction: ".5" is half a second
+        values["microsecond"] = (values["microsecond"] or "0").ljust(6, "0")
         values = {k: int(v or 0) for k, v in values.items()}
         _datetime = datetime(**values)  # type: ignore
     else:
@@ -433,8 +435,8 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
 
 
 def normalize(value: datetime) -> datetime:
-    # applies dst change
-    return datetime.fromtimestamp(value.timestamp(), value.tzinfo)
+    # applies dst change, without the rounding of a float timestamp
+    return value.astimezone(dttz.utc).astimezone(value.tzinfo)
 
 
 def first_instant_after(value: datetime, tzinfo: tzinfo, after: datetime) -> datetime:
-- 
2.43.0


From f863f1d06e380b80b4e73edd453f0d2d4e852838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 13/70] fix: task updates validate every value and keep their
 own copies of arguments

---
 asyncz/tasks/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..b27646a 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -1,6 +1,7 @@
 import inspect
 from collections.abc import Callable, Iterable, Mapping, Sequence
 from datetime import datetime, tzinfo
+from math import inf
 from typing import Any, Optional, Union, cast
 from uuid import uuid4
 
@@ -95,8 +96,8 @@ class Task(BaseState, TaskType):  # type: ignore
         if "id" in updates:
             raise ValueError("The task ID may not be changed.")
 
-        if fn or "args" in updates or "kwargs" in updates:
-            if not fn:
+        if fn is not None or "args" in updates or "kwargs" in updates:
+            if fn is None:
                 fn = self.fn
             args = updates.pop("args") if "args" in updates else self.args
             kwargs = updates.pop("kwargs") if "kwargs" in updates else self.kwargs
@@ -121,6 +122,9 @@ class Task(BaseState, TaskType):  # type: ignore
                 raise TypeError("args must be a non-string iterable.")
             if isinstance(kwargs, str) or not isinstance(kwargs, Mapping):
                 raise TypeError("kwargs must be a dict-like object.")
+            # copies: one-shot iterables are consumed and containers may change afterwards
+            args = tuple(args)
+            kwargs = dict(kwargs)
 
             if fn is not None:
                 check_callable_args(cast(Callable[..., Any], fn), args, kwargs)
@@ -142,7 +146,8 @@ class Task(BaseState, TaskType):  # type: ignore
         if "mistrigger_grace_time" in updates:
             mistrigger_grace_time = updates.pop("mistrigger_grace_time")
             if mistrigger_grace_time is not None and (
-                not isinstance(mistrigger_grace_time, (float, int)) or mistrigger_grace_time <= 0
+                not isinstance(mistrigger_grace_time, (float, int))
+                or not 0 < mistrigger_grace_time < inf
             ):
                 raise TypeError(
                     "mistrigger_grace_time must be either None or a positive float/integer."
-- 
2.43.0


From 048c115bd63983a547473a39cde88df2fb6a8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 14/70] fix: arguments are accepted exactly when the callable
 could be called with them

---
 asyncz/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index aa5989a..e5dccdd 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -364,6 +364,11 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
     except ValueError as e:
         raise AsynczException(detail=str(e)) from e
 
+    # **kwargs also take a keyword named like a positional-only parameter
+    accepts_var_kwargs = any(
+        param.kind == param.VAR_KEYWORD for param in sig.parameters.values()
+    )
+
     for param in sig.parameters.values():
         if param.kind == param.POSITIONAL_OR_KEYWORD:
             if param.name in unmatched_kwargs and unmatched_args:
@@ -377,7 +382,9 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
         elif param.kind == param.POSITIONAL_ONLY:
             if unmatched_args:
                 del unmatched_args[0]
-            elif param.name in unmatched_kwargs:
+            elif param.name in unmatched_kwargs and not (
+                accepts_var_kwargs and param.default is not param.empty
+            ):
                 unmatched_kwargs.remove(param.name)
                 positional_only_kwargs.append(param.name)
             elif param.default is param.empty:
@@ -426,6 +433,9 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
             f"(allowed: {len(args) - len(unmatched_args)}, given in args: {len(args)})"
         )
 
+    if not all(isinstance(key, str) for key in kwargs):
+        raise ValueError("Keyword arguments must be strings.")
+
     if not has_var_kwargs and unmatched_kwargs:
         raise ValueError(
             "The target callable does not accept the following keyword arguments: {}".format(
-- 
2.43.0


From 2e331d28288a831e04687a1d492796d1da7f0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 15/70] fix: a task does not store a reference that names
 another callable

---
 asyncz/tasks/base.py |  4 ++++
 asyncz/utils.py      | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index b27646a..6d5607d 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -16,6 +16,7 @@ from asyncz.utils import (
     check_callable_args,
     datetime_repr,
     get_callable_name,
+    is_ref_to_obj,
     obj_to_ref,
     ref_to_obj,
     to_datetime,
@@ -112,6 +113,9 @@ class Task(BaseState, TaskType):  # type: ignore
                     fn_reference = obj_to_ref(fn)
                 except ValueError:
                     fn_reference = None
+                # the name may be taken by something else
+                if fn_reference is not None and not is_ref_to_obj(fn_reference, fn):
+                    fn_reference = None
             else:
                 raise TypeError("fn must be a callable or a textual reference to a callable.")
 
diff --git a/asyncz/utils.py b/asyncz/utils.py
index e5dccdd..8945031 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -319,6 +319,19 @@ def ref_to_obj(ref: str) -> Any:
         ) from None
 
 
+def is_ref_to_obj(ref: str, obj: Any) -> bool:
+    """
+    Tells whether the reference resolves to the given callable, or to the function of a method
+    bound to an instance.
+    """
+    if inspect.ismethod(obj) and not inspect.isclass(obj.__self__):
+        obj = obj.__func__
+    try:
+        return bool(ref_to_obj(ref) == obj)
+    except (AsynczException, AsynczLookupError, ValueError):
+        return False
+
+
 def maybe_ref(ref: Any) -> Any:
     """
     Returns the object that the given reference points to, if it is indeed a reference.
-- 
2.43.0


From 93489c5dfc157dea14c4a96d7e50113727576ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 16/70] fix: the event of an added task names its store

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..f3c5f28 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1471,7 +1471,9 @@ class BaseScheduler(SchedulerType):
                 raise exc
         task.pending = False
 
-        event = TaskEvent(code=TASK_ADDED, task_id=task.id, alias=task.store_alias)
+        event = TaskEvent(
+            code=TASK_ADDED, task_id=task.id, alias=task.store_alias, store=task.store_alias
+        )
         self.dispatch_event(event)
 
         self.loggers[self.logger_name].info(
-- 
2.43.0


From 43b024597320f822c6a32bd3b61b999d81202c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 17/70] fix: a task keeps the textual reference it was given

---
 asyncz/tasks/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 6d5607d..93081f7 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -105,6 +105,9 @@ class Task(BaseState, TaskType):  # type: ignore
 
             if fn is None:
                 fn_reference = None
+            elif fn is self.fn and self.fn_reference:
+                # it may have been given as a text that cannot be derived from the callable
+                fn_reference = self.fn_reference
             elif isinstance(fn, str):
                 fn_reference = fn
                 fn = ref_to_obj(fn)
-- 
2.43.0


From 2611754694cc5d7ebf388419f84164996f37fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 18/70] fix: a failed start or shutdown leaves the scheduler as
 it was, default grace time None applies

---
 asyncz/schedulers/base.py | 54 ++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f3c5f28..f844085 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -201,40 +201,49 @@ class BaseScheduler(SchedulerType):
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
+        with contextlib.ExitStack() as undo:
+            # a failed start leaves a stopped scheduler behind, which can be started again
+            undo.callback(self.decr_refcount)
+            self._start_components(undo)
+            undo.pop_all()
+
+        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
+        self.started_at = datetime.now(self.timezone)
+        self.last_seen_at = self.started_at
+        self.loggers[self.logger_name].info("Scheduler started.")
+        self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
+
+        if not paused:
+            self.wakeup()
+        return True
+
+    def _start_components(self, undo: contextlib.ExitStack) -> None:
         self.check_uwsgi()
-        with self.executor_lock:
+        with self.executor_lock, self.store_lock:
             if "default" not in self.executors:
                 self.add_executor(self.create_default_executor(), "default")
+            if "default" not in self.stores:
+                self.add_store(self.create_default_store(), "default")
+            for task, _, _ in self.pending_tasks:
+                if task.store_alias is not None:
+                    self.lookup_store(task.store_alias)
 
             for alias, executor in self.executors.items():
                 executor.start(self, alias)
-        #
-        min_dtime = None
-        if self.lock_path:
-            min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
-
-        with self.store_lock:
-            if "default" not in self.stores:
-                self.add_store(self.create_default_store(), "default")
+                undo.callback(executor.shutdown)
+            min_dtime = None
+            if self.lock_path:
+                min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
 
             for alias, store in self.stores.items():
                 store.start(self, alias)
+                undo.callback(store.shutdown)
 
             for task, replace_existing, start_task in self.pending_tasks:
                 with contextlib.suppress(ConflictIdError):
                     self.real_add_task(task, replace_existing, start_task, min_dtime)
             del self.pending_tasks[:]
 
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
-        self.started_at = datetime.now(self.timezone)
-        self.last_seen_at = self.started_at
-        self.loggers[self.logger_name].info("Scheduler started.")
-        self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
-
-        if not paused:
-            self.wakeup()
-        return True
-
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
         try:
@@ -269,12 +278,12 @@ class BaseScheduler(SchedulerType):
         Args:
             wait: True to wait until all currently executing tasks have finished.
         """
-        if not self.decr_refcount():
-            return False
-
         if self.state == SchedulerState.STATE_STOPPED:
             raise SchedulerNotRunningError()
 
+        if not self.decr_refcount():
+            return False
+
         self.state = SchedulerState.STATE_STOPPED
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
@@ -630,7 +639,6 @@ class BaseScheduler(SchedulerType):
         task_defaults = self.shape.dump(
             self.task_defaults,
             context=task_default_context,
-            exclude_none=True,
         )
         if not isinstance(task_defaults, Mapping):
             raise TypeError("Task defaults must dump to a mapping.")
-- 
2.43.0


From 1c682451ddcf8e19e87d8c9cde149c7759a5b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 19/70] fix: tasks can be updated and paused by object

---
 asyncz/schedulers/base.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f844085..661616c 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -666,17 +666,19 @@ class BaseScheduler(SchedulerType):
         """
         if isinstance(task_id, TaskType):
             assert task_id.id, "Cannot update a decorator type Task"
-            new_updates = self.shape.dump(
-                task_id,
-                context=ShapeContext(
-                    entity="task",
-                    operation="dump",
-                    scheduler_identity=self.identity,
-                ),
-            )
-            if not isinstance(new_updates, Mapping):
-                raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
+            # the state of the given object, as far as it can be changed
+            new_updates = {
+                "name": task_id.name,
+                "fn": task_id.fn,
+                "args": task_id.args,
+                "kwargs": task_id.kwargs,
+                "mistrigger_grace_time": task_id.mistrigger_grace_time,
+                "coalesce": task_id.coalesce,
+                "max_instances": task_id.max_instances,
+                "trigger": task_id.trigger,
+                "executor": task_id.executor,
+                "next_run_time": task_id.next_run_time,
+            }
             new_updates.update(**updates)
             task_id = task_id.id
         else:
-- 
2.43.0


From c5b42eafe4e1932717db4cd22fa42e618964fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 20/70] fix: running a task now wakes the scheduler for its
 next run

---
 asyncz/schedulers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 661616c..13a06c5 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -870,6 +870,10 @@ class BaseScheduler(SchedulerType):
             with self.store_lock:
                 self.lookup_store(store_alias).update_task(task)
 
+        # the next run may be earlier than it was before
+        if next_run_time is not None and self.state == SchedulerState.STATE_RUNNING:
+            self.wakeup()
+
         return task
 
     def _coalesce_run_times(
-- 
2.43.0


From 07bf0d4d801ff0e168cbea6796f6b4017cc213e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 21/70] fix: shutting down a scheduler that is not running is
 refused, results mean the same everywhere

---
 asyncz/schedulers/asyncio.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..10bead0 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -6,6 +6,8 @@ from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
+from asyncz.enums import SchedulerState
+from asyncz.exceptions import SchedulerNotRunningError
 from asyncz.executors.asyncio import AsyncIOExecutor
 from asyncz.schedulers.base import BaseScheduler
 from asyncz.schedulers.utils import run_in_event_loop
@@ -68,10 +70,13 @@ class AsyncIOScheduler(BaseScheduler):
                     thread.join()
 
     def shutdown(self, wait: bool = True) -> bool:
+        if self.state == SchedulerState.STATE_STOPPED:
+            # do not leave this to the event loop: there may be none
+            raise SchedulerNotRunningError()
         # not decremented yet so +1
         result = self.ref_counter
         self._shutdown(wait)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -129,8 +134,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self._shutdown_handle = None
 
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
-        # not decremented yet so +1
-        result = self.ref_counter
+        result = False
         if super(AsyncIOScheduler, self).shutdown(wait):
             handle = self._shutdown_handle
             if handle is not None:
@@ -142,7 +146,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
                 self.event_loop.stop()
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
-        return result > 1
+            result = True
+        return result
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
-- 
2.43.0


From 6b757b234fc964cafbaa7111200da7bdb1296ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 22/70] fix: tasks paused or resumed while tentative stay so
 when the scheduler starts

---
 asyncz/schedulers/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 13a06c5..b059cac 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -690,6 +690,14 @@ class BaseScheduler(SchedulerType):
 
             if store:
                 self.lookup_store(store).update_task(task)
+            elif "next_run_time" in updates:
+                # paused tasks stay paused when the scheduler starts
+                self.pending_tasks = [
+                    (pending, replace, updates["next_run_time"] is not None)
+                    if pending is task
+                    else (pending, replace, start_task)
+                    for pending, replace, start_task in self.pending_tasks
+                ]
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
 
-- 
2.43.0


From e1eb893d655a4c83f3cf4a907315a42eaa9bef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 23/70] fix: a refused task object can be submitted again

---
 asyncz/schedulers/base.py | 111 ++++++++++++++++++++------------------
 1 file changed, 60 insertions(+), 51 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b059cac..e2a2438 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -565,52 +565,57 @@ class BaseScheduler(SchedulerType):
         if isinstance(fn_or_task, TaskType):
             assert fn_or_task.submitted is False, "Can submit tasks only once"
             fn_or_task.submitted = True
-            # tweak task before submitting
-            # WARNING: in contrast to the decorator mode this really updates the task
-            # by providing an id (e.g. autogenerated) you can make a real task from decorator type task while submitting
-            task_update_kwargs: dict[str, Any] = {
-                "scheduler": self,
-                "args": tuple(args) if args is not None else undefined,
-                "kwargs": dict(kwargs) if kwargs is not None else undefined,
-                "id": id or undefined,
-                "name": name or undefined,
-                "mistrigger_grace_time": mistrigger_grace_time,
-                "coalesce": coalesce,
-                "max_instances": max_instances,
-                "next_run_time": next_run_time,
-                "executor": executor if executor is not None else undefined,
-                "store_alias": store if store is not None else undefined,
-            }
-            if trigger:
-                task_update_kwargs["trigger"] = self.create_trigger(trigger, trigger_args)
-                # WARNING: when submitting a task object allow_mistrigger_by_default has no effect
-            task_update_kwargs = {
-                key: value for key, value in task_update_kwargs.items() if value is not undefined
-            }
-            fn_or_task.update_task(**task_update_kwargs)
-            # fallback if still not set. Set manually executor and store_alias to default.
-            if fn_or_task.executor is None:
-                fn_or_task.executor = "default"
-            if fn_or_task.store_alias is None:
-                fn_or_task.store_alias = "default"
-            assert fn_or_task.trigger is not None, "Cannot submit a task without a trigger."
-            assert fn_or_task.id is not None, "Cannot submit a decorator type task."
-            with self.store_lock:
-                if self.state == SchedulerState.STATE_STOPPED:
-                    self.pending_tasks.append(
-                        (
-                            fn_or_task,
-                            replace_existing,
-                            next_run_time is not None,
+            try:
+                # tweak task before submitting
+                # WARNING: in contrast to the decorator mode this really updates the task
+                # by providing an id (e.g. autogenerated) you can make a real task from decorator type task while submitting
+                task_update_kwargs: dict[str, Any] = {
+                    "scheduler": self,
+                    "args": tuple(args) if args is not None else undefined,
+                    "kwargs": dict(kwargs) if kwargs is not None else undefined,
+                    "id": id or undefined,
+                    "name": name or undefined,
+                    "mistrigger_grace_time": mistrigger_grace_time,
+                    "coalesce": coalesce,
+                    "max_instances": max_instances,
+                    "next_run_time": next_run_time,
+                    "executor": executor if executor is not None else undefined,
+                    "store_alias": store if store is not None else undefined,
+                }
+                if trigger:
+                    task_update_kwargs["trigger"] = self.create_trigger(trigger, trigger_args)
+                    # WARNING: when submitting a task object allow_mistrigger_by_default has no effect
+                task_update_kwargs = {
+                    key: value for key, value in task_update_kwargs.items() if value is not undefined
+                }
+                fn_or_task.update_task(**task_update_kwargs)
+                # fallback if still not set. Set manually executor and store_alias to default.
+                if fn_or_task.executor is None:
+                    fn_or_task.executor = "default"
+                if fn_or_task.store_alias is None:
+                    fn_or_task.store_alias = "default"
+                assert fn_or_task.trigger is not None, "Cannot submit a task without a trigger."
+                assert fn_or_task.id is not None, "Cannot submit a decorator type task."
+                with self.store_lock:
+                    if self.state == SchedulerState.STATE_STOPPED:
+                        self.pending_tasks.append(
+                            (
+                                fn_or_task,
+                                replace_existing,
+                                next_run_time is not None,
+                            )
                         )
-                    )
-                    self.loggers[self.logger_name].info(
-                        "Adding task tentatively. It will be properly scheduled when the scheduler starts."
-                    )
-                else:
-                    self.real_add_task(
-                        fn_or_task, replace_existing, next_run_time is not None, None
-                    )
+                        self.loggers[self.logger_name].info(
+                            "Adding task tentatively. It will be properly scheduled when the scheduler starts."
+                        )
+                    else:
+                        self.real_add_task(
+                            fn_or_task, replace_existing, next_run_time is not None, None
+                        )
+            except BaseException:
+                # it was refused, so it can be submitted again
+                fn_or_task.submitted = False
+                raise
             return fn_or_task
         task_kwargs: dict[str, Any] = {
             "scheduler": self,
@@ -1464,6 +1469,7 @@ class BaseScheduler(SchedulerType):
         assert task.store_alias is not None, "Submitted task has no store_alias set."
         assert task.executor is not None, "Submitted task has no executor set."
         replacements: dict[str, Any] = {}
+        old_next_run_time = task.next_run_time
 
         # Calculate the next run time if there is none defined
         if task.next_run_time is None and start_task:
@@ -1479,18 +1485,21 @@ class BaseScheduler(SchedulerType):
         # Apply replacements
         task.update_task(**replacements)
         # Add the task to the given store
-        store = self.lookup_store(task.store_alias)
         try:
-            store.add_task(task)
-        except ConflictIdError as exc:
-            if replace_existing:
+            store = self.lookup_store(task.store_alias)
+            try:
+                store.add_task(task)
+            except ConflictIdError:
+                if not replace_existing:
+                    raise
                 try:
                     store.update_task(task)
                 except TaskLookupError:
                     # was executed and is now gone
                     return
-            else:
-                raise exc
+        except BaseException:
+            task.next_run_time = old_next_run_time
+            raise
         task.pending = False
 
         event = TaskEvent(
-- 
2.43.0


From 906311ae8434c2247e100dc4e191ef1c2cef32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 24/70] fix: the processing lock is released when processing
 fails

---
 asyncz/locks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From 55006812b29b8b63b14872750e9d882fe384c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 25/70] fix: a failing or self-changing task does not disturb
 the other due tasks

---
 asyncz/schedulers/base.py | 171 +++++++++++++++++++++++++++-----------
 1 file changed, 122 insertions(+), 49 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index e2a2438..8b81f25 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -111,6 +111,8 @@ class BaseScheduler(SchedulerType):
         self.listeners: list[Any] = []
         self.listeners_lock: RLock = self.create_lock()
         self.pending_tasks: list[tuple[TaskType, bool, bool]] = []
+        # counts the changes of tasks seen as events
+        self.task_changes: int = 0
         self.state: Union[SchedulerState, Any] = SchedulerState.STATE_STOPPED
         self.identity = ""
         self.started_at: datetime | None = None
@@ -824,6 +826,7 @@ class BaseScheduler(SchedulerType):
 
         assert task.executor is not None, "Task has no executor configured."
         executor = self.lookup_executor(task.executor)
+        scheduled_time, changes = task.next_run_time, self.task_changes
 
         try:
             executor.send_task(task, run_times)
@@ -863,6 +866,15 @@ class BaseScheduler(SchedulerType):
                 )
             )
 
+        if self.task_changes != changes:
+            # executed inline the task may have changed or removed itself
+            try:
+                task, store_alias = self.lookup_task(task_id, store_alias)
+            except TaskLookupError:
+                return None
+            if task.next_run_time != scheduled_time:
+                return task
+
         next_run_time = task.trigger.get_next_trigger_time(  # type: ignore[union-attr]
             self.timezone,
             run_times[-1],
@@ -1427,6 +1439,8 @@ class BaseScheduler(SchedulerType):
         """
         if isinstance(event, TaskEvent) and event.scheduler_identity is None:
             event.scheduler_identity = self.identity or None
+        if event.code & (TASK_ADDED | TASK_MODIFIED | TASK_REMOVED | ALL_TASKS_REMOVED):
+            self.task_changes += 1
 
         with self.listeners_lock:
             listeners = tuple(self.listeners)
@@ -1617,67 +1631,126 @@ class BaseScheduler(SchedulerType):
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
+            failed: set[Optional[str]] = set()
+            changes = self.task_changes
             for task in due_tasks:
                 try:
-                    executor = self.lookup_executor(task.executor)  # type: ignore
+                    if self.task_changes != changes:
+                        # a task executed inline may have changed or removed this one
+                        current = store.lookup_task(cast(str, task.id))
+                        if (
+                            current is None
+                            or current.next_run_time is None
+                            or current.next_run_time > now
+                        ):
+                            continue
+                        task = current
+                    self._process_task(now, store_alias, store, task, events)
                 except Exception:
-                    self.loggers[self.logger_name].error(
-                        f"Executor lookup ('{task.executor}') failed for task '{task}'. Removing it from the store."
+                    failed.add(task.id)
+                    self.loggers[self.logger_name].exception(
+                        f"Error processing task '{task.id}' from the store '{store_alias}'."
                     )
-                    self.delete_task(task.id, store_alias)
-                    continue
-
-                run_times = task.get_run_times(self.timezone, now)
-                run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
-
-                if run_times:
-                    try:
-                        executor.send_task(task, run_times)
-                    except MaximumInstancesError:
-                        self.loggers[self.logger_name].warning(
-                            f"Execution of task '{task}' skipped: Maximum number of running "
-                            f"instances reached '({task.max_instances})'."
-                        )
-                        event = TaskSubmissionEvent(
-                            code=TASK_MAX_INSTANCES,
-                            task_id=task.id,
-                            store=store_alias,
-                            scheduled_run_times=run_times,
-                            source="scheduled",
-                            coalesced_run_count=coalesced_run_count,
-                        )
-                        events.append(event)
-                    except Exception as exc:
-                        self.loggers[self.logger_name].exception(
-                            f"Error submitting task '{task}' to executor '{task.executor}': {exc}"
-                        )
-                    else:
-                        event = TaskSubmissionEvent(
-                            code=TASK_SUBMITTED,
-                            task_id=task.id,
-                            store=store_alias,
-                            scheduled_run_times=run_times,
-                            source="scheduled",
-                            coalesced_run_count=coalesced_run_count,
-                        )
-                        events.append(event)
 
-                    next_run = task.trigger.get_next_trigger_time(  # type: ignore
-                        self.timezone, run_times[-1], now
+            store_next_run_time: Optional[datetime]
+            try:
+                if failed:
+                    store_next_run_time = min(
+                        (
+                            task.next_run_time
+                            for task in store.get_all_tasks()
+                            if task.id not in failed and task.next_run_time is not None
+                        ),
+                        default=None,
                     )
-                    if next_run:
-                        task.update_task(next_run_time=next_run)
-                        store.update_task(task)
-                    else:
-                        self.delete_task(task.id, store_alias)
-
-            store_next_run_time = store.get_next_run_time()
+                else:
+                    store_next_run_time = store.get_next_run_time()
+            except Exception as e:
+                self.loggers[self.logger_name].warning(
+                    f'Error getting the next run time from the store "{store_alias}": {e}.'
+                )
+                failed.add(None)
+                store_next_run_time = None
+            if failed:
+                retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                    next_wakeup_time = retry_wakeup_time
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
                 next_wakeup_time = store_next_run_time.astimezone(self.timezone)
             return next_wakeup_time
 
+    def _process_task(
+        self,
+        now: datetime,
+        store_alias: str,
+        store: StoreType,
+        task: TaskType,
+        events: list[SchedulerEvent],
+    ) -> None:
+        try:
+            executor = self.lookup_executor(task.executor)  # type: ignore
+        except Exception:
+            self.loggers[self.logger_name].error(
+                f"Executor lookup ('{task.executor}') failed for task '{task}'. Removing it from the store."
+            )
+            self.delete_task(task.id, store_alias)
+            return
+
+        run_times = task.get_run_times(self.timezone, now)
+        run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
+        if not run_times:
+            return
+
+        scheduled_time, changes = task.next_run_time, self.task_changes
+        try:
+            executor.send_task(task, run_times)
+        except MaximumInstancesError:
+            self.loggers[self.logger_name].warning(
+                f"Execution of task '{task}' skipped: Maximum number of running "
+                f"instances reached '({task.max_instances})'."
+            )
+            event = TaskSubmissionEvent(
+                code=TASK_MAX_INSTANCES,
+                task_id=task.id,
+                store=store_alias,
+                scheduled_run_times=run_times,
+                source="scheduled",
+                coalesced_run_count=coalesced_run_count,
+            )
+            events.append(event)
+        except Exception as exc:
+            self.loggers[self.logger_name].exception(
+                f"Error submitting task '{task}' to executor '{task.executor}': {exc}"
+            )
+        else:
+            event = TaskSubmissionEvent(
+                code=TASK_SUBMITTED,
+                task_id=task.id,
+                store=store_alias,
+                scheduled_run_times=run_times,
+                source="scheduled",
+                coalesced_run_count=coalesced_run_count,
+            )
+            events.append(event)
+
+        if self.task_changes != changes:
+            # executed inline the task may have changed or removed itself
+            current = store.lookup_task(cast(str, task.id))
+            if current is None or current.next_run_time != scheduled_time:
+                return
+            task = current
+
+        next_run = task.trigger.get_next_trigger_time(  # type: ignore
+            self.timezone, run_times[-1], now
+        )
+        if next_run:
+            task.update_task(next_run_time=next_run)
+            store.update_task(task)
+        else:
+            self.delete_task(task.id, store_alias)
+
     def process_tasks(self) -> Optional[float]:
         """
         Iterates through tasks in every store, starts tasks that are due and figures out how long
-- 
2.43.0


From 3528b017a7f5bfc421b812143e2b78e5c159512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 26/70] fix: runs are counted from their start, sys.exit in a
 task is its failure, huge grace times are compared

---
 asyncz/executors/base.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index eef1cae..a966216 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -2,7 +2,7 @@ import logging
 import sys
 import traceback
 from collections.abc import Callable
-from datetime import datetime, timedelta
+from datetime import datetime
 from datetime import timezone as tz
 from threading import RLock
 from traceback import format_tb
@@ -65,18 +65,26 @@ class BaseExecutor(ExecutorType):
             if self.instances[task.id] >= task.max_instances:
                 raise MaximumInstancesError(task.id, task.max_instances)
 
-            self.do_send_task(task, run_times)
+            # count before: the run may be over when do_send_task returns
             self.instances[task.id] += 1
+            try:
+                self.do_send_task(task, run_times)
+            except BaseException:
+                self._release_instance(task.id)
+                raise
+
+    def _release_instance(self, task_id: str) -> None:
+        with self.lock:
+            self.instances[task_id] -= 1
+            if self.instances[task_id] <= 0:
+                del self.instances[task_id]
 
     def run_task_success(self, task_id: str, events: list[TaskExecutionEvent]) -> None:
         """
         Called by the executor with the list of generated events when the function run_task has
         been successfully executed.
         """
-        with self.lock:
-            self.instances[task_id] -= 1
-            if self.instances[task_id] == 0:
-                del self.instances[task_id]
+        self._release_instance(task_id)
 
         for event in events or []:
             self.scheduler.dispatch_event(event)
@@ -85,10 +93,7 @@ class BaseExecutor(ExecutorType):
         """
         Called by the executor with the exception if there is an error calling the run_task.
         """
-        with self.lock:
-            self.instances[task_id] -= 1
-            if self.instances[task_id] == 0:
-                del self.instances[task_id]
+        self._release_instance(task_id)
 
         self.scheduler.loggers[self.logger_name].error(
             f"Error running task {task_id}", exc_info=True
@@ -113,8 +118,7 @@ def run_task(
         mistrigger_grace_time = task.mistrigger_grace_time
         if mistrigger_grace_time is not None:
             difference = datetime.now(tz.utc) - run_time
-            grace_time = timedelta(seconds=mistrigger_grace_time)
-            if difference > grace_time:
+            if difference.total_seconds() > mistrigger_grace_time:
                 events.append(
                     TaskExecutionEvent(
                         code=TASK_MISSED,
@@ -129,7 +133,7 @@ def run_task(
         logger.info(f'Running task "{task}" (scheduled at {run_time})')
         try:
             return_value = cast(Callable[..., Any], task.fn)(*task.args, **task.kwargs)
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             trace_back = sys.exc_info()[2]
             formatted_trace_back = "".join(format_tb(trace_back))
             events.append(
@@ -175,8 +179,7 @@ async def run_coroutine_task(
         mistrigger_grace_time = task.mistrigger_grace_time
         if mistrigger_grace_time is not None:
             difference = datetime.now(tz.utc) - run_time
-            grace_time = timedelta(seconds=mistrigger_grace_time)
-            if difference > grace_time:
+            if difference.total_seconds() > mistrigger_grace_time:
                 events.append(
                     TaskExecutionEvent(
                         code=TASK_MISSED,
@@ -191,7 +194,7 @@ async def run_coroutine_task(
         logger.info(f'Running task "{task}" (scheduled at {run_time})')
         try:
             return_value = await cast(Callable[..., Any], task.fn)(*task.args, **task.kwargs)
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             trace_back = sys.exc_info()[2]
             formatted_trace_back = "".join(format_tb(trace_back))
             events.append(
-- 
2.43.0


From bae35f85e915616ec17ed70e28300d9e3ee1e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 27/70] fix: pool executors can be started again, replace
 broken pools and release cancelled runs

---
 asyncz/executors/pool.py         | 40 ++++++++++++++++++++++++--------
 asyncz/executors/process_pool.py | 10 ++++++--
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..b9a31d4 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -1,5 +1,6 @@
 import concurrent.futures
 from abc import abstractmethod
+from collections.abc import Callable
 from concurrent.futures.process import BrokenProcessPool
 from datetime import datetime
 from typing import TYPE_CHECKING, Any, Optional
@@ -17,25 +18,35 @@ class BasePoolExecutor(BaseExecutor):
     cancel_futures: bool = False
     overwrite_wait: Optional[bool] = None
 
+    # makes a new pool like the first one
+    make_pool: Optional[Callable[[], Any]] = None
+    pool_closed: bool = False
+
     @abstractmethod
     def __init__(self, pool: Any, **kwargs: Any) -> None:
         super().__init__(**kwargs)
         self.pool = pool
 
+    def start(self, scheduler: Any, alias: str) -> None:
+        super().start(scheduler, alias)
+        if self.pool_closed:
+            # started again
+            if self.make_pool is not None:
+                self.pool = self.make_pool()
+            self.pool_closed = False
+
     def do_send_task(self, task: "TaskType", run_times: list[datetime]) -> Any:
         task_id = task.id
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
-            exc, _ = (
-                fn.exception_info()
-                if hasattr(fn, "exception_info")
-                else (fn.exception(), getattr(fn.exception(), "__traceback__", None))
-            )
-            if exc:
+            try:
+                events = fn.result()
+            except BaseException:
+                # failed or cancelled
                 self.run_task_error(task_id)
             else:
-                self.run_task_success(task_id, fn.result())
+                self.run_task_success(task_id, events)
 
         try:
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
@@ -43,7 +54,11 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = (
+                self.make_pool()
+                if self.make_pool is not None
+                else self.pool.__class__(self.pool._max_workers)
+            )
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
@@ -52,6 +67,7 @@ class BasePoolExecutor(BaseExecutor):
         if self.overwrite_wait is not None:
             wait = self.overwrite_wait
         self.pool.shutdown(wait, cancel_futures=self.cancel_futures)
+        self.pool_closed = True
 
 
 class ThreadPoolExecutor(BasePoolExecutor):
@@ -65,5 +81,9 @@ class ThreadPoolExecutor(BasePoolExecutor):
 
     def __init__(self, max_workers: int = 10, pool_kwargs: Optional[Any] = None, **kwargs: Any):
         pool_kwargs = pool_kwargs or {}
-        pool = concurrent.futures.ThreadPoolExecutor(int(max_workers), **pool_kwargs)
-        super().__init__(pool, **kwargs)
+
+        def make_pool() -> Any:
+            return concurrent.futures.ThreadPoolExecutor(int(max_workers), **pool_kwargs)
+
+        super().__init__(make_pool(), **kwargs)
+        self.make_pool = make_pool
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index dadc051..f2eed23 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -64,10 +64,16 @@ class ProcessPoolExecutor(BasePoolExecutor):
     ) -> None:
         self.receive_pipe, self.send_pipe = Pipe(False)
         pool_kwargs = pool_kwargs or {}
-        pool = concurrent.futures.ProcessPoolExecutor(int(max_workers), **pool_kwargs)
-        super().__init__(pool, **kwargs)
+
+        def make_pool() -> Any:
+            return concurrent.futures.ProcessPoolExecutor(int(max_workers), **pool_kwargs)
+
+        super().__init__(make_pool(), **kwargs)
+        self.make_pool = make_pool
 
     def start(self, scheduler: "SchedulerType", alias: str) -> None:
+        if self.pool_closed:
+            self.receive_pipe, self.send_pipe = Pipe(False)
         super().start(scheduler, alias)
         assert self.logger is not None, "logger is None"
         # move the old logger to logger_receiver
-- 
2.43.0


From ae26307515cd5986fa42a8422320d0ec1ab9b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 28/70] fix: a late wake-up of a stopped scheduler does
 nothing, tasks may run tasks or add stores while processed

---
 asyncz/schedulers/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 8b81f25..e029cff 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -894,6 +894,7 @@ class BaseScheduler(SchedulerType):
         if store_alias is not None:
             with self.store_lock:
                 self.lookup_store(store_alias).update_task(task)
+        self.task_changes += 1
 
         # the next run may be earlier than it was before
         if next_run_time is not None and self.state == SchedulerState.STATE_RUNNING:
@@ -1763,6 +1764,10 @@ class BaseScheduler(SchedulerType):
             self.loggers[self.logger_name].debug("Scheduler is paused. Not processing tasks.")
             return None
 
+        if self.state == SchedulerState.STATE_STOPPED:
+            # a wake-up that was still on its way
+            return None
+
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
         now = datetime.now(self.timezone)
         next_wakeup_time: Optional[datetime] = None
@@ -1773,7 +1778,7 @@ class BaseScheduler(SchedulerType):
             if blocking_success:
                 # threading lock
                 with self.store_lock:
-                    for store_alias, store in self.stores.items():
+                    for store_alias, store in tuple(self.stores.items()):
                         next_wakeup_time = self._process_tasks_of_store(
                             now, next_wakeup_time, store_alias, store, events
                         )
-- 
2.43.0


From f447691ee175146177241005ff0f349173397482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 29/70] fix: task errors that are not Exceptions can be
 reported

---
 asyncz/events/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/events/base.py b/asyncz/events/base.py
index 1f9ade2..fad941d 100644
--- a/asyncz/events/base.py
+++ b/asyncz/events/base.py
@@ -64,5 +64,5 @@ class TaskExecutionEvent(TaskEvent):
 
     scheduled_run_time: Union[int, str, Any]
     return_value: Any = None
-    exception: Optional[Exception] = None
+    exception: Optional[BaseException] = None
     traceback: Optional[str] = None
-- 
2.43.0


From 8833d616815a709072a066f658053ae111a46e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 30/70] fix: a plugin that fails to start is not registered,
 one that fails to shut down does not keep the others up

---
 asyncz/schedulers/base.py | 61 +++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index e029cff..f0a2fab 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -9,7 +9,7 @@ import uuid
 import warnings
 from abc import abstractmethod
 from collections import defaultdict
-from collections.abc import Callable, Mapping, Sequence
+from collections.abc import Callable, Generator, Mapping, Sequence
 from datetime import datetime, timedelta
 from importlib import import_module
 from inspect import isawaitable
@@ -291,26 +291,39 @@ class BaseScheduler(SchedulerType):
         self.started_at = None
 
         with self.executor_lock, self.store_lock:
-            for executor in self.executors.values():
-                executor.shutdown(wait)
-            coros = []
-            for _store in self.stores.values():
-                for task in _store.get_all_tasks():
-                    assert task.trigger is not None
-                    if task.trigger.alias == "shutdown":
-                        _store.delete_task(cast(str, task.id))
-                        if inspect.iscoroutinefunction(task.fn):
-                            coros.append(self._ashutdown_fn_helper(task))
-                        else:
-                            self._shutdown_fn_helper(task)
+            for alias, executor in self.executors.items():
+                with self._log_errors(f"Error shutting down the executor '{alias}'."):
+                    executor.shutdown(wait)
+            coros: list[Any] = []
+            for alias, _store in self.stores.items():
+                with self._log_errors(f"Error running the shutdown tasks of '{alias}'."):
+                    self._run_shutdown_tasks(_store, coros)
             self.handle_shutdown_coros(coros)
-            for store in self.stores.values():
-                store.shutdown()
+            for alias, store in self.stores.items():
+                with self._log_errors(f"Error shutting down the store '{alias}'."):
+                    store.shutdown()
 
         self.loggers[self.logger_name].info("Scheduler has been shutdown.")
         self.dispatch_event(SchedulerEvent(code=SCHEDULER_SHUTDOWN))
         return True
 
+    @contextlib.contextmanager
+    def _log_errors(self, message: str) -> Generator[None, None, None]:
+        try:
+            yield
+        except Exception:
+            self.loggers[self.logger_name].exception(message)
+
+    def _run_shutdown_tasks(self, store: StoreType, coros: list[Any]) -> None:
+        for task in store.get_all_tasks():
+            assert task.trigger is not None
+            if task.trigger.alias == "shutdown":
+                store.delete_task(cast(str, task.id))
+                if inspect.iscoroutinefunction(task.fn):
+                    coros.append(self._ashutdown_fn_helper(task))
+                else:
+                    self._shutdown_fn_helper(task)
+
     def pause(self) -> None:
         """
         Pause task processing in the scheduler.
@@ -396,18 +409,17 @@ class BaseScheduler(SchedulerType):
                     f"This scheduler already has an executor by the alias of '{alias}'."
                 )
 
-            if isinstance(executor, ExecutorType):
-                self.executors[alias] = executor
-            elif isinstance(executor, str):
-                self.executors[alias] = executor = self.create_plugin_instance(
+            if isinstance(executor, str):
+                executor = self.create_plugin_instance(
                     PluginInstance.EXECUTOR, executor, executor_options
                 )
-            else:
+            elif not isinstance(executor, ExecutorType):
                 raise TypeError(
                     f"Expected an executor instance or a string, got {executor.__class__.__name__} instead."
                 )
             if self.state != SchedulerState.STATE_STOPPED:
                 cast("ExecutorType", executor).start(self, alias)
+            self.executors[alias] = cast("ExecutorType", executor)
 
         self.dispatch_event(SchedulerEvent(code=EXECUTOR_ADDED, alias=alias))
 
@@ -439,19 +451,18 @@ class BaseScheduler(SchedulerType):
                     f"This scheduler already has a task store by the alias of '{alias}'."
                 )
 
-            if isinstance(store, StoreType):
-                self.stores[alias] = store
-            elif isinstance(store, str):
-                self.stores[alias] = store = self.create_plugin_instance(
+            if isinstance(store, str):
+                store = self.create_plugin_instance(
                     PluginInstance.STORE, store, store_options
                 )
-            else:
+            elif not isinstance(store, StoreType):
                 raise TypeError(
                     f"Expected a task store instance or a string, got {store.__class__.__name__} instead."
                 )
 
             if self.state != SchedulerState.STATE_STOPPED:
                 cast("StoreType", store).start(self, alias)
+            self.stores[alias] = cast("StoreType", store)
 
         self.dispatch_event(SchedulerEvent(code=STORE_ADDED, alias=alias))
 
-- 
2.43.0


From 8a66794777c4182a76d1d4f98477d90ac52022d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 31/70] fix: resuming a tentative task resumes the one in the
 given store

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f0a2fab..b266ce3 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -769,7 +769,9 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot resume decorator style Task"
             task_id = task_id.id
         with self.store_lock:
-            task, store = self.lookup_task(task_id, store)
+            task, store_alias = self.lookup_task(task_id, store)
+            # None for a tentative task: keep looking where it was asked for
+            store = store_alias or store
             now = datetime.now(self.timezone)
             next_run_time = task.trigger.get_next_trigger_time(self.timezone, None, now)  # type: ignore
 
-- 
2.43.0


From d3ad6a1c1cfa3fa5349b3381b125c4676ef84c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 32/70] fix: asyncio schedulers can be restarted in another
 loop, nest starts and stop an isolated loop

---
 asyncz/schedulers/asyncio.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index 10bead0..dd8b582 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -32,6 +32,7 @@ class AsyncIOScheduler(BaseScheduler):
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
     timer: Optional[Any] = None
+    _found_event_loop: bool = False
 
     def _init_new_loop(self, event: Event) -> None:
         # called in thread
@@ -44,11 +45,16 @@ class AsyncIOScheduler(BaseScheduler):
             loop.close()
 
     def start(self, paused: bool = False) -> bool:
+        if self._found_event_loop and self.state == SchedulerState.STATE_STOPPED:
+            # the loop of the run before, it may be gone
+            self._found_event_loop = False
+            self.event_loop = None
         if not self.event_loop:
             try:
                 if self.isolated_event_loop:
                     raise RuntimeError()
                 self.event_loop = asyncio.get_running_loop()
+                self._found_event_loop = True
             except RuntimeError:
                 event = Event()
                 self.event_loop_thread = Thread(
@@ -117,13 +123,17 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
     _shutdown_handle: Any = None
 
     async def start(self, paused: bool = False) -> bool:  # type: ignore
-        if self.isolated_event_loop:
-            event = Event()
-            self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
-            self.event_loop_thread.start()
-            await asyncio.to_thread(event.wait)
-        else:
-            self.event_loop = asyncio.get_running_loop()
+        # a nested start stays on the loop of the first
+        if self.state == SchedulerState.STATE_STOPPED:
+            if not self.isolated_event_loop:
+                self.event_loop = asyncio.get_running_loop()
+            elif self.event_loop_thread is None:
+                event = Event()
+                self.event_loop_thread = Thread(
+                    target=self._init_new_loop, args=[event], daemon=True
+                )
+                self.event_loop_thread.start()
+                await asyncio.to_thread(event.wait)
 
         return super(AsyncIOScheduler, self).start(paused)
 
@@ -143,7 +153,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                # runs in another thread
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
             result = True
-- 
2.43.0


From 8c0dbf3595962cf4a885f332b88ff5bd21d9485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 33/70] fix: the asyncio executor accepts runs from other
 threads

---
 asyncz/executors/asyncio.py | 44 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/asyncz/executors/asyncio.py b/asyncz/executors/asyncio.py
index e88a40a..481852c 100644
--- a/asyncz/executors/asyncio.py
+++ b/asyncz/executors/asyncio.py
@@ -1,3 +1,4 @@
+import asyncio
 import inspect
 from datetime import datetime
 from typing import TYPE_CHECKING, Any, cast
@@ -41,20 +42,37 @@ class AsyncIOExecutor(BaseExecutor):
             self.pending_futures.discard(fn)
             try:
                 events = fn.result()
-            except BaseException:
-                self.run_task_error(task_id)
+            except BaseException as exc:
+                self.run_task_error(task_id, self.lost_run_events(task, run_times, exc))
             else:
                 self.run_task_success(task_id, events)
 
-        if inspect.iscoroutinefunction(task.fn):
-            coroutine = run_coroutine_task(
-                task, cast(str, task.store_alias), run_times, self.logger
-            )
-            fn = self.event_loop.create_task(coroutine)
-        else:
-            fn = self.event_loop.run_in_executor(
-                None, run_task, task, cast(str, task.store_alias), run_times, self.logger
-            )
+        def submit() -> None:
+            if inspect.iscoroutinefunction(task.fn):
+                coroutine = run_coroutine_task(
+                    task, cast(str, task.store_alias), run_times, self.logger
+                )
+                fn = self.event_loop.create_task(coroutine)
+            else:
+                fn = self.event_loop.run_in_executor(
+                    None, run_task, task, cast(str, task.store_alias), run_times, self.logger
+                )
+
+            fn.add_done_callback(callback)
+            self.pending_futures.add(fn)
 
-        fn.add_done_callback(callback)
-        self.pending_futures.add(fn)
+        def submit_later() -> None:
+            try:
+                submit()
+            except BaseException as exc:
+                self.run_task_error(task_id, self.lost_run_events(task, run_times, exc))
+
+        try:
+            running_loop = asyncio.get_running_loop()
+        except RuntimeError:
+            running_loop = None
+        if running_loop is self.event_loop or not self.event_loop.is_running():
+            submit()
+        else:
+            # neither tasks nor futures of a loop can be made in another thread
+            self.event_loop.call_soon_threadsafe(submit_later)
-- 
2.43.0


From 5bfbb093dd16d7b4a5cdd36a7e6435118211874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 34/70] fix: lost runs are reported, executors do not hang when
 a worker process dies

---
 asyncz/executors/base.py         | 43 ++++++++++++++++++++++++++------
 asyncz/executors/pool.py         | 41 ++++++++++++++++++++++--------
 asyncz/executors/process_pool.py | 16 +++++++++---
 3 files changed, 79 insertions(+), 21 deletions(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index a966216..d37ec35 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -6,7 +6,7 @@ from datetime import datetime
 from datetime import timezone as tz
 from threading import RLock
 from traceback import format_tb
-from typing import TYPE_CHECKING, Any, cast
+from typing import TYPE_CHECKING, Any, Optional, cast
 
 from asyncz.events import TaskExecutionEvent
 from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED
@@ -67,11 +67,12 @@ class BaseExecutor(ExecutorType):
 
             # count before: the run may be over when do_send_task returns
             self.instances[task.id] += 1
-            try:
-                self.do_send_task(task, run_times)
-            except BaseException:
-                self._release_instance(task.id)
-                raise
+        # without the lock: a pool may wait here for a run which is about to be released
+        try:
+            self.do_send_task(task, run_times)
+        except BaseException:
+            self._release_instance(task.id)
+            raise
 
     def _release_instance(self, task_id: str) -> None:
         with self.lock:
@@ -89,15 +90,43 @@ class BaseExecutor(ExecutorType):
         for event in events or []:
             self.scheduler.dispatch_event(event)
 
-    def run_task_error(self, task_id: str) -> None:
+    def run_task_error(
+        self, task_id: str, events: Optional[list[TaskExecutionEvent]] = None
+    ) -> None:
         """
         Called by the executor with the exception if there is an error calling the run_task.
+
+        Args:
+            task_id: The id of the task.
+            events: The events reporting the runs, none of which has an outcome of its own.
         """
         self._release_instance(task_id)
 
         self.scheduler.loggers[self.logger_name].error(
             f"Error running task {task_id}", exc_info=True
         )
+        for event in events or []:
+            self.scheduler.dispatch_event(event)
+
+    def lost_run_events(
+        self, task: "TaskType", run_times: list[datetime], exc: BaseException
+    ) -> list[TaskExecutionEvent]:
+        """
+        The events of runs whose outcome is unknown: run_task itself failed, was cancelled, or its
+        worker died.
+        """
+        formatted_trace_back = "".join(format_tb(exc.__traceback__))
+        return [
+            TaskExecutionEvent(
+                code=TASK_ERROR,
+                task_id=task.id,
+                store=task.store_alias,
+                scheduled_run_time=run_time,
+                exception=exc,
+                traceback=formatted_trace_back,
+            )
+            for run_time in run_times
+        ]
 
 
 def run_task(
diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index b9a31d4..269e1d1 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -3,6 +3,7 @@ from abc import abstractmethod
 from collections.abc import Callable
 from concurrent.futures.process import BrokenProcessPool
 from datetime import datetime
+from threading import Thread, current_thread
 from typing import TYPE_CHECKING, Any, Optional
 
 from pydantic import ConfigDict
@@ -26,6 +27,7 @@ class BasePoolExecutor(BaseExecutor):
     def __init__(self, pool: Any, **kwargs: Any) -> None:
         super().__init__(**kwargs)
         self.pool = pool
+        self.reporters: list[Thread] = []
 
     def start(self, scheduler: Any, alias: str) -> None:
         super().start(scheduler, alias)
@@ -42,23 +44,36 @@ class BasePoolExecutor(BaseExecutor):
         def callback(fn: Any) -> None:
             try:
                 events = fn.result()
-            except BaseException:
+            except BrokenProcessPool as exc:
+                # the pool is locked while it reports this
+                reporter = Thread(
+                    target=self.run_task_error,
+                    args=[task_id, self.lost_run_events(task, run_times, exc)],
+                    daemon=True,
+                )
+                reporter.start()
+                self.reporters = [r for r in self.reporters if r.is_alive()] + [reporter]
+            except BaseException as exc:
                 # failed or cancelled
-                self.run_task_error(task_id)
+                self.run_task_error(task_id, self.lost_run_events(task, run_times, exc))
             else:
                 self.run_task_success(task_id, events)
 
+        pool = self.pool
         try:
-            fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
+            fn = pool.submit(run_task, task, task.store_alias, run_times, self.logger)
         except (BrokenProcessPool, TypeError):
-            self.scheduler.loggers[self.logger_name].warning(
-                "Process pool is broken. Replacing pool with a new instance."
-            )
-            self.pool = (
-                self.make_pool()
-                if self.make_pool is not None
-                else self.pool.__class__(self.pool._max_workers)
-            )
+            with self.lock:
+                # unless another submission has done so
+                if self.pool is pool:
+                    self.scheduler.loggers[self.logger_name].warning(
+                        "Process pool is broken. Replacing pool with a new instance."
+                    )
+                    self.pool = (
+                        self.make_pool()
+                        if self.make_pool is not None
+                        else self.pool.__class__(self.pool._max_workers)
+                    )
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
@@ -68,6 +83,10 @@ class BasePoolExecutor(BaseExecutor):
             wait = self.overwrite_wait
         self.pool.shutdown(wait, cancel_futures=self.cancel_futures)
         self.pool_closed = True
+        reporters, self.reporters = self.reporters, []
+        for reporter in reporters:
+            if wait and reporter is not current_thread():
+                reporter.join()
 
 
 class ThreadPoolExecutor(BasePoolExecutor):
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index f2eed23..8c5b602 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -34,7 +34,7 @@ class ProcessPoolLoggerSender:
 
 class ProcessPoolReceiver(Thread):
     def __init__(self, receive_pipe: connection.Connection, logger: "logging.Logger") -> None:
-        super().__init__()
+        super().__init__(daemon=True)
         self.receive_pipe = receive_pipe
         self.logger = logger
         self.start()
@@ -42,7 +42,10 @@ class ProcessPoolReceiver(Thread):
     def run(self) -> None:
         try:
             while True:
-                fn_name, args, kwargs = self.receive_pipe.recv()
+                message = self.receive_pipe.recv()
+                if message is None:
+                    break
+                fn_name, args, kwargs = message
                 if not fn_name.startswith("_"):
                     getattr(self.logger, fn_name)(*args, **kwargs)
         except EOFError:
@@ -82,6 +85,13 @@ class ProcessPoolExecutor(BasePoolExecutor):
         self.logger = cast("logging.Logger", ProcessPoolLoggerSender(self.send_pipe))
 
     def shutdown(self, wait: bool = True) -> None:
+        if self.overwrite_wait is not None:
+            wait = self.overwrite_wait
         super().shutdown(wait=wait)
+        if wait and not self.send_pipe.closed:
+            # the end of the pipe may never be reached: copies of the pipe sent to workers which
+            # died before they took them stay open
+            self.send_pipe.send(None)
         self.send_pipe.close()
-        self.logger_receiver.join()
+        if wait:
+            self.logger_receiver.join()
-- 
2.43.0


From c17af8ac16d9b109452a77e2a94ce9eed5b4e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 35/70] fix: removing a lock file does not let two users in

---
 asyncz/locks.py | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index ad0e088..6376687 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -4,7 +4,7 @@ import os
 from collections.abc import Generator
 from contextlib import contextmanager, suppress
 from threading import Lock, RLock
-from typing import Any, Optional
+from typing import IO, Any, Optional
 
 from .file_locking import LOCK_EX, LOCK_NB, lock, unlock
 from .protocols import LockProtectedProtocol
@@ -59,21 +59,39 @@ class FileLockProtected(LockProtectedProtocol):
             kwargs["ppid"] = os.getppid()
         self.file_path = file_path.format(**kwargs)
 
+    def _is_current(self, file: IO) -> bool:
+        # the file may have been removed by the shutdown of another user
+        try:
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.file_path))
+        except FileNotFoundError:
+            return False
+
     @contextmanager
     def protected(
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
-        with open(self.file_path, "w+") as file:
-            flags = LOCK_EX
-            if not blocking:
-                flags |= LOCK_NB
-            locked = lock(file, flags)
-            try:
-                yield locked
-            finally:
-                if locked:
-                    unlock(file)
+        flags = LOCK_EX
+        if not blocking:
+            flags |= LOCK_NB
+        while True:
+            with open(self.file_path, "w+") as file:
+                locked = lock(file, flags)
+                try:
+                    if locked and not self._is_current(file):
+                        continue
+                    yield locked
+                    return
+                finally:
+                    if locked:
+                        unlock(file)
 
     def shutdown(self) -> None:
-        with suppress(FileNotFoundError):
-            os.remove(self.file_path)
+        if os.name == "nt":
+            # files in use cannot be removed
+            with suppress(FileNotFoundError, PermissionError):
+                os.remove(self.file_path)
+            return
+        with suppress(FileNotFoundError), self.protected() as locked:
+            # not while others hold the lock, they would share it with the users of a new file
+            if locked:
+                os.remove(self.file_path)
-- 
2.43.0


From 66efc618271a110f41406088677a0e7040e4aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 36/70] fix: tasks scheduled for shutdown run to their end on
 own event loops and before the program exits

---
 asyncz/schedulers/asyncio.py | 96 +++++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 24 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index dd8b582..b232b16 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -1,10 +1,12 @@
 from __future__ import annotations
 
 import asyncio
+import atexit
 import contextlib
 from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
+from weakref import WeakSet
 
 from asyncz.enums import SchedulerState
 from asyncz.exceptions import SchedulerNotRunningError
@@ -17,6 +19,17 @@ if TYPE_CHECKING:
     from asyncz.executors.base import BaseExecutor
 
 
+# threads of own event loops which are about to end, they still may run shutdown tasks
+_ending_threads: WeakSet[Thread] = WeakSet()
+
+
+@atexit.register
+def _join_ending_threads() -> None:
+    for thread in list(_ending_threads):
+        while thread in _ending_threads and thread.is_alive():
+            thread.join(0.05)
+
+
 class AsyncIOScheduler(BaseScheduler):
     """
     A scheduler that runs on an asyncio event loop.
@@ -33,6 +46,8 @@ class AsyncIOScheduler(BaseScheduler):
     event_loop_thread: Optional[Thread] = None
     timer: Optional[Any] = None
     _found_event_loop: bool = False
+    _shutdown_handle: Any = None
+    _leaving: int = 0
 
     def _init_new_loop(self, event: Event) -> None:
         # called in thread
@@ -41,6 +56,11 @@ class AsyncIOScheduler(BaseScheduler):
         try:
             loop.run_forever()
         finally:
+            tasks = asyncio.all_tasks(loop)
+            for task in tasks:
+                task.cancel()
+            if tasks:
+                loop.run_until_complete(asyncio.wait(tasks))
             loop.run_until_complete(loop.shutdown_asyncgens())
             loop.close()
 
@@ -64,25 +84,59 @@ class AsyncIOScheduler(BaseScheduler):
                 event.wait()
         return super().start(paused)
 
+    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
+        if coros:
+            self._shutdown_handle = asyncio.gather(*coros)
+        else:
+            self._shutdown_handle = None
+
+    def decr_refcount(self) -> bool:
+        with self.ref_lock:
+            if self._leaving:
+                self._leaving -= 1
+            self.ref_counter -= 1
+            return self.ref_counter <= 0
+
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
-        if super().shutdown(wait):
+        if not super().shutdown(wait):
+            with self.ref_lock:
+                # started again in the meantime
+                if self.event_loop_thread and self.ref_counter > self._leaving:
+                    _ending_threads.discard(self.event_loop_thread)
+        else:
             self.stop_timer()
+            handle, self._shutdown_handle = self._shutdown_handle, None
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                loop = self.event_loop
+                if handle is None:
+                    loop.stop()
+                else:
+                    # the shutdown tasks run to their end first
+                    handle.add_done_callback(lambda _: loop.stop())
                 self.event_loop = self.event_loop_thread = None
                 with contextlib.suppress(RuntimeError):
                     thread.join()
 
     def shutdown(self, wait: bool = True) -> bool:
-        if self.state == SchedulerState.STATE_STOPPED:
-            # do not leave this to the event loop: there may be none
-            raise SchedulerNotRunningError()
-        # not decremented yet so +1
-        result = self.ref_counter
-        self._shutdown(wait)
-        return result <= 1
+        with self.ref_lock:
+            # the users which are left after the shutdowns the event loop did not come to yet
+            users = self.ref_counter - self._leaving
+            if self.state == SchedulerState.STATE_STOPPED or users <= 0:
+                # do not leave this to the event loop: there may be none
+                raise SchedulerNotRunningError()
+            self._leaving += 1
+            last = users == 1
+            if last and self.event_loop_thread:
+                _ending_threads.add(self.event_loop_thread)
+        try:
+            self._shutdown(wait)
+        except BaseException:
+            with self.ref_lock:
+                self._leaving -= 1
+            raise
+        return last
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -120,8 +174,6 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
         isolated_event_loop: Use a fresh, isolated event_loop instead the existing.
     """
 
-    _shutdown_handle: Any = None
-
     async def start(self, paused: bool = False) -> bool:  # type: ignore
         # a nested start stays on the loop of the first
         if self.state == SchedulerState.STATE_STOPPED:
@@ -133,29 +185,25 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
                     target=self._init_new_loop, args=[event], daemon=True
                 )
                 self.event_loop_thread.start()
-                await asyncio.to_thread(event.wait)
+                # other starts must not see it half way
+                event.wait()
 
         return super(AsyncIOScheduler, self).start(paused)
 
-    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
-        if coros:
-            self._shutdown_handle = asyncio.gather(*coros)
-        else:
-            self._shutdown_handle = None
-
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
         result = False
         if super(AsyncIOScheduler, self).shutdown(wait):
-            handle = self._shutdown_handle
+            # a start may come in between from here on
+            self.stop_timer()
+            handle, self._shutdown_handle = self._shutdown_handle, None
+            thread, loop = self.event_loop_thread, self.event_loop
+            if thread:
+                self.event_loop = self.event_loop_thread = None
             if handle is not None:
-                self._shutdown_handle = None
                 await handle
-            self.stop_timer()
-            thread = self.event_loop_thread
             if thread:
                 # runs in another thread
-                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
-                self.event_loop = self.event_loop_thread = None
+                loop.call_soon_threadsafe(loop.stop)
                 await asyncio.to_thread(thread.join)
             result = True
         return result
-- 
2.43.0


From 978af5833fadb357e3ee980bb977856866e677d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 37/70] fix: resuming a task scheduled for shutdown keeps it

---
 asyncz/schedulers/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b266ce3..21abea3 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -775,7 +775,8 @@ class BaseScheduler(SchedulerType):
             now = datetime.now(self.timezone)
             next_run_time = task.trigger.get_next_trigger_time(self.timezone, None, now)  # type: ignore
 
-            if next_run_time:
+            # the schedule of a shutdown task is not finished before the shutdown
+            if next_run_time or getattr(task.trigger, "alias", None) == "shutdown":
                 return self.update_task(task_id, store, next_run_time=next_run_time)
             else:
                 self.delete_task(task.id, store)
-- 
2.43.0


From 6956933b0b8b11720d595a459edee7732fc44e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 38/70] fix: the asgi wrapper shuts down when the lifespan ends
 without a shutdown message

---
 asyncz/schedulers/base.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 21abea3..cc5808e 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Callable, Generator, Mapping, Sequence
 from datetime import datetime, timedelta
+from functools import partial, wraps
 from importlib import import_module
 from inspect import isawaitable
 from threading import TIMEOUT_MAX, Lock, RLock
@@ -395,7 +396,39 @@ class BaseScheduler(SchedulerType):
             cm.push_async_callback(shutdown)
             return cm
 
-        return LifespanHook(app, setup=setup, do_forward=not handle_lifespan)
+        if app is None:
+            return partial(self.asgi, handle_lifespan=handle_lifespan, wait=wait)
+
+        hook = LifespanHook(app, do_forward=not handle_lifespan)
+
+        @wraps(hook)
+        async def wrapper(scope: Any, receive: Any, send: Any) -> None:
+            if scope["type"] != "lifespan":
+                await hook(scope, receive, send)
+                return
+            started: list[contextlib.AsyncExitStack] = []
+            answered = False
+
+            async def setup_lifespan() -> contextlib.AsyncExitStack:
+                started.append(await setup())
+                return started[0]
+
+            async def watched_send(message: Any) -> None:
+                nonlocal answered
+                if message.get("type") in ("lifespan.startup.complete", "lifespan.startup.failed"):
+                    answered = True
+                await send(message)
+
+            try:
+                await LifespanHook(app, setup=setup_lifespan, do_forward=not handle_lifespan)(
+                    scope, receive, watched_send
+                )
+            finally:
+                # the startup was refused or the lifespan ended early: no shutdown message follows
+                if answered and started:
+                    await started[0].aclose()
+
+        return wrapper
 
     def add_executor(
         self,
-- 
2.43.0


From e0dbc431e5a2b4ae6d12eee9db482507af2e1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 39/70] fix: schedulers can be started and shut down from
 several threads at once

---
 asyncz/schedulers/asyncio.py | 80 ++++++++++++++++++------------------
 asyncz/schedulers/base.py    |  5 ++-
 2 files changed, 44 insertions(+), 41 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index b232b16..dfe4e4e 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -65,24 +65,26 @@ class AsyncIOScheduler(BaseScheduler):
             loop.close()
 
     def start(self, paused: bool = False) -> bool:
-        if self._found_event_loop and self.state == SchedulerState.STATE_STOPPED:
-            # the loop of the run before, it may be gone
-            self._found_event_loop = False
-            self.event_loop = None
-        if not self.event_loop:
-            try:
-                if self.isolated_event_loop:
-                    raise RuntimeError()
-                self.event_loop = asyncio.get_running_loop()
-                self._found_event_loop = True
-            except RuntimeError:
-                event = Event()
-                self.event_loop_thread = Thread(
-                    target=self._init_new_loop, args=[event], daemon=True
-                )
-                self.event_loop_thread.start()
-                event.wait()
-        return super().start(paused)
+        # not while the event loop thread is stopping, nor while another start is half way
+        with self.lifecycle_lock:
+            if self._found_event_loop and self.state == SchedulerState.STATE_STOPPED:
+                # the loop of the run before, it may be gone
+                self._found_event_loop = False
+                self.event_loop = None
+            if not self.event_loop:
+                try:
+                    if self.isolated_event_loop:
+                        raise RuntimeError()
+                    self.event_loop = asyncio.get_running_loop()
+                    self._found_event_loop = True
+                except RuntimeError:
+                    event = Event()
+                    self.event_loop_thread = Thread(
+                        target=self._init_new_loop, args=[event], daemon=True
+                    )
+                    self.event_loop_thread.start()
+                    event.wait()
+            return super().start(paused)
 
     def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
         if coros:
@@ -94,30 +96,30 @@ class AsyncIOScheduler(BaseScheduler):
         with self.ref_lock:
             if self._leaving:
                 self._leaving -= 1
-            self.ref_counter -= 1
-            return self.ref_counter <= 0
+            return super().decr_refcount()
 
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
-        if not super().shutdown(wait):
-            with self.ref_lock:
-                # started again in the meantime
-                if self.event_loop_thread and self.ref_counter > self._leaving:
-                    _ending_threads.discard(self.event_loop_thread)
-        else:
-            self.stop_timer()
-            handle, self._shutdown_handle = self._shutdown_handle, None
-            thread = self.event_loop_thread
-            if thread:
-                loop = self.event_loop
-                if handle is None:
-                    loop.stop()
-                else:
-                    # the shutdown tasks run to their end first
-                    handle.add_done_callback(lambda _: loop.stop())
-                self.event_loop = self.event_loop_thread = None
-                with contextlib.suppress(RuntimeError):
-                    thread.join()
+        with self.lifecycle_lock:
+            if not super().shutdown(wait):
+                with self.ref_lock:
+                    # started again in the meantime
+                    if self.event_loop_thread and self.ref_counter > self._leaving:
+                        _ending_threads.discard(self.event_loop_thread)
+            else:
+                self.stop_timer()
+                handle, self._shutdown_handle = self._shutdown_handle, None
+                thread = self.event_loop_thread
+                if thread:
+                    loop = self.event_loop
+                    if handle is None:
+                        loop.stop()
+                    else:
+                        # the shutdown tasks run to their end first
+                        handle.add_done_callback(lambda _: loop.stop())
+                    self.event_loop = self.event_loop_thread = None
+                    with contextlib.suppress(RuntimeError):
+                        thread.join()
 
     def shutdown(self, wait: bool = True) -> bool:
         with self.ref_lock:
diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index cc5808e..3bac74a 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -14,7 +14,7 @@ from datetime import datetime, timedelta
 from functools import partial, wraps
 from importlib import import_module
 from inspect import isawaitable
-from threading import TIMEOUT_MAX, Lock, RLock
+from threading import TIMEOUT_MAX, RLock
 from typing import TYPE_CHECKING, Any, Optional, Union, cast, overload
 
 from monkay.asgi import ASGIApp, LifespanHook
@@ -122,7 +122,8 @@ class BaseScheduler(SchedulerType):
         self.shape = resolve_shape()
 
         self.ref_counter: int = 0
-        self.ref_lock: Lock = Lock()
+        self.ref_lock: RLock = self.create_lock()
+        self.lifecycle_lock: RLock = self.create_lock()
         self.instances: dict[str, int] = defaultdict(lambda: 0)
         self.setup(global_config, **kwargs)
 
-- 
2.43.0


From 3d3d05cdcbb582f89acd818edee644f28d7c68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 40/70] fix: settings see inherited and optional fields in the
 environment

---
 asyncz/conf/global_settings.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/asyncz/conf/global_settings.py b/asyncz/conf/global_settings.py
index 5c2d32e..48ae898 100644
--- a/asyncz/conf/global_settings.py
+++ b/asyncz/conf/global_settings.py
@@ -9,6 +9,7 @@ from types import UnionType
 from typing import (
     Annotated,
     Any,
+    ClassVar,
     Union,
     get_args,
     get_origin,
@@ -20,18 +21,32 @@ from asyncz import __version__  # noqa
 
 def safe_get_type_hints(cls: type) -> dict[str, Any]:
     """
-    Safely get type hints for a class, handling potential errors.
-    This function attempts to retrieve type hints for the given class,
-    and if it fails, it prints a warning and returns the class annotations.
+    Safely get type hints for a class including the inherited ones, handling potential errors.
+    Annotations which cannot be resolved are returned as they are written.
     Args:
         cls (type): The class to get type hints for.
     Returns:
         dict[str, Any]: A dictionary of type hints for the class.
     """
-    try:
-        return get_type_hints(cls, include_extras=True)
-    except Exception:
-        return cls.__annotations__
+    hints: dict[str, Any] = {}
+    for base in reversed(cls.__mro__):
+        for name, hint in inspect.get_annotations(base).items():
+            if name.startswith("__"):
+                continue
+            try:
+                # every annotation for itself, one which fails does not take the others with it
+                holder = type(
+                    base.__name__,
+                    (),
+                    {"__module__": base.__module__, "__annotations__": {name: hint}},
+                )
+                hint = get_type_hints(holder, include_extras=True)[name]
+            except Exception:  # noqa: S110
+                pass
+            if get_origin(hint) is ClassVar or hint is ClassVar:
+                continue
+            hints[name] = hint
+    return hints
 
 
 class BaseSettings:
-- 
2.43.0


From 5a9a57a69ccb4f77fe82b0905d9d1c8ca2f431d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 41/70] fix: configurations mixing nested and dotted keys are
 merged and left untouched

---
 asyncz/schedulers/base.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 3bac74a..f200503 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -166,17 +166,29 @@ class BaseScheduler(SchedulerType):
 
         config: dict[str, Any] = {}
         for key, value in global_config.items():
-            parts = key.split(".")
-            parent = config
-            key = parts.pop(0)
-            while parts:
-                parent = parent.setdefault(key, {})
-                key = parts.pop(0)
-            parent[key] = value
+            for part in reversed(key.split(".")):
+                value = {part: value}
+            config = self._merge_config(config, value)
 
         config.update(options)
         self._setup(config)
 
+    @classmethod
+    def _merge_config(cls, config: Any, other: Mapping) -> dict[str, Any]:
+        """
+        Returns the configuration with the other merged in. Both are left untouched.
+        """
+        merged = dict(config)
+        for key, value in other.items():
+            if key in merged:
+                nested = [isinstance(entry, Mapping) for entry in (merged[key], value)]
+                if all(nested):
+                    value = cls._merge_config(merged[key], value)
+                elif any(nested):
+                    raise TypeError(f"Conflicting configuration values for '{key}'.")
+            merged[key] = value
+        return merged
+
     def inc_refcount(self) -> bool:
         with self.ref_lock:
             self.ref_counter += 1
-- 
2.43.0


From 7f5d6edf36ff4e6ed232172605612ac6e7349a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 42/70] fix: tasks and listeners may use the scheduler while
 its shutdown waits for them

---
 asyncz/schedulers/base.py | 86 +++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 39 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f200503..3bed150 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -212,26 +212,27 @@ class BaseScheduler(SchedulerType):
         Args:
             paused: If True don't start the process until resume is called.
         """
-        if not self.inc_refcount():
-            return False
-        # should not happen, ref_counter should protect
-        assert self.state == SchedulerState.STATE_STOPPED
-
-        with contextlib.ExitStack() as undo:
-            # a failed start leaves a stopped scheduler behind, which can be started again
-            undo.callback(self.decr_refcount)
-            self._start_components(undo)
-            undo.pop_all()
-
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
-        self.started_at = datetime.now(self.timezone)
-        self.last_seen_at = self.started_at
-        self.loggers[self.logger_name].info("Scheduler started.")
-        self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
-
-        if not paused:
-            self.wakeup()
-        return True
+        with self.lifecycle_lock:
+            if not self.inc_refcount():
+                return False
+            # should not happen, ref_counter should protect
+            assert self.state == SchedulerState.STATE_STOPPED
+
+            with contextlib.ExitStack() as undo:
+                # a failed start leaves a stopped scheduler behind, which can be started again
+                undo.callback(self.decr_refcount)
+                self._start_components(undo)
+                undo.pop_all()
+
+            self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
+            self.started_at = datetime.now(self.timezone)
+            self.last_seen_at = self.started_at
+            self.loggers[self.logger_name].info("Scheduler started.")
+            self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
+
+            if not paused:
+                self.wakeup()
+            return True
 
     def _start_components(self, undo: contextlib.ExitStack) -> None:
         self.check_uwsgi()
@@ -297,29 +298,36 @@ class BaseScheduler(SchedulerType):
         if self.state == SchedulerState.STATE_STOPPED:
             raise SchedulerNotRunningError()
 
-        if not self.decr_refcount():
-            return False
+        with self.lifecycle_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
+            if not self.decr_refcount():
+                return False
 
-        self.state = SchedulerState.STATE_STOPPED
-        self.last_seen_at = datetime.now(self.timezone)
-        self.started_at = None
+            self.state = SchedulerState.STATE_STOPPED
+            self.last_seen_at = datetime.now(self.timezone)
+            self.started_at = None
 
-        with self.executor_lock, self.store_lock:
-            for alias, executor in self.executors.items():
+            with self.executor_lock, self.store_lock:
+                # what is under way has been submitted now
+                executors = tuple(self.executors.items())
+            # without the locks: the tasks which are waited for may use the scheduler
+            for alias, executor in executors:
                 with self._log_errors(f"Error shutting down the executor '{alias}'."):
                     executor.shutdown(wait)
-            coros: list[Any] = []
-            for alias, _store in self.stores.items():
-                with self._log_errors(f"Error running the shutdown tasks of '{alias}'."):
-                    self._run_shutdown_tasks(_store, coros)
-            self.handle_shutdown_coros(coros)
-            for alias, store in self.stores.items():
-                with self._log_errors(f"Error shutting down the store '{alias}'."):
-                    store.shutdown()
-
-        self.loggers[self.logger_name].info("Scheduler has been shutdown.")
-        self.dispatch_event(SchedulerEvent(code=SCHEDULER_SHUTDOWN))
-        return True
+            with self.executor_lock, self.store_lock:
+                coros: list[Any] = []
+                for alias, _store in self.stores.items():
+                    with self._log_errors(f"Error running the shutdown tasks of '{alias}'."):
+                        self._run_shutdown_tasks(_store, coros)
+                self.handle_shutdown_coros(coros)
+                for alias, store in self.stores.items():
+                    with self._log_errors(f"Error shutting down the store '{alias}'."):
+                        store.shutdown()
+
+            self.loggers[self.logger_name].info("Scheduler has been shutdown.")
+            self.dispatch_event(SchedulerEvent(code=SCHEDULER_SHUTDOWN))
+            return True
 
     @contextlib.contextmanager
     def _log_errors(self, message: str) -> Generator[None, None, None]:
-- 
2.43.0


From 1dd8076ae87d8e1ed3e846c8af23a198c4c79e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 43/70] fix: run history does not mix up runs or revive
 finished ones

---
 asyncz/contrib/dashboard/history.py | 57 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..ea2c484 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import hashlib
+import json
 import threading
 import weakref
 from collections import deque
@@ -114,6 +115,8 @@ class MemoryRunHistoryStorage:
 
         out: list[RunRecord] = []
         for record in sorted(records, key=sort_key, reverse=True):
+            if len(out) >= limit:
+                break
             if task_id and record.task_id != task_id:
                 continue
             if status_filter and record.status != status_filter:
@@ -137,8 +140,6 @@ class MemoryRunHistoryStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
@@ -174,18 +175,20 @@ class MemoryRunHistoryStorage:
                 scheduler_identity=event.scheduler_identity,
                 now=now,
             )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            # the run may finish in the meantime, in another thread
+            with self._lock:
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -222,17 +225,19 @@ class MemoryRunHistoryStorage:
             scheduler_identity=event.scheduler_identity,
             now=now,
         )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        return_value = _safe_repr(event.return_value) if event.return_value is not None else None
+        exception_message = _safe_str(event.exception)
+        exception = _safe_repr(event.exception) if event.exception is not None else None
+        with self._lock:
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = _status_from_execution_code(event.code)
+            record.return_value = return_value
+            record.exception_type = _exception_type(event.exception)
+            record.exception_message = exception_message
+            record.exception = exception
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
@@ -428,7 +433,7 @@ def _run_key(
 
 
 def _run_id(key: tuple[str, str | None, str]) -> str:
-    raw = "|".join(part or "" for part in key)
+    raw = json.dumps(key)
     return hashlib.sha256(raw.encode()).hexdigest()[:20]
 
 
-- 
2.43.0


From 7b109ad8a81c5e9d040ba7bffebb565a7c55d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 44/70] fix: dashboard queries respect the limit, task loggers
 leave the extra of the caller alone

---
 asyncz/contrib/dashboard/audit.py        | 4 ++--
 asyncz/contrib/dashboard/events.py       | 4 ++--
 asyncz/contrib/dashboard/logs/handler.py | 8 +++++---
 asyncz/contrib/dashboard/logs/storage.py | 7 +++----
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/asyncz/contrib/dashboard/audit.py b/asyncz/contrib/dashboard/audit.py
index 4f4b1f2..25d0716 100644
--- a/asyncz/contrib/dashboard/audit.py
+++ b/asyncz/contrib/dashboard/audit.py
@@ -89,6 +89,8 @@ class MemoryAuditTrailStorage:
 
         out: list[AuditRecord] = []
         for record in records:
+            if len(out) >= limit:
+                break
             if action_filter and record.action != action_filter:
                 continue
             if status_filter and record.status != status_filter:
@@ -109,8 +111,6 @@ class MemoryAuditTrailStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index 7dc4147..a158180 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -125,6 +125,8 @@ class MemorySchedulerEventStorage:
 
         out: list[SchedulerEventRecord] = []
         for record in reversed(records):
+            if len(out) >= limit:
+                break
             if category_filter and record.category != category_filter:
                 continue
             if name_filter and record.name != name_filter:
@@ -148,8 +150,6 @@ class MemorySchedulerEventStorage:
                 if needle not in haystack:
                     continue
             out.append(record)
-            if len(out) >= limit:
-                break
         return out
 
     def summary(self) -> dict[str, int]:
diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 8173ec6..568a535 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -92,7 +92,9 @@ class TaskLoggerAdapter(logging.LoggerAdapter):
         Returns:
             The original message and the modified kwargs dictionary.
         """
-        extra: dict[str, Any] = kwargs.setdefault("extra", {})
+        # the dict belongs to the caller
+        extra: dict[str, Any] = dict(kwargs.get("extra") or {})
+        kwargs["extra"] = extra
 
         # Inject the task_id from the adapter's context, but do not clobber an
         # existing, explicit task_id provided in the log call itself.
@@ -139,6 +141,8 @@ def install_task_log_handler(storage: LogStorage, level: int = logging.INFO) ->
     """
     global _handler
     storage = storage or get_log_storage()
+    root = logging.getLogger("asyncz")
+    root.setLevel(min(root.level or level, level))
     if _handler is not None:
         if isinstance(_handler, TaskLogHandler):
             _handler.storage = storage
@@ -147,8 +151,6 @@ def install_task_log_handler(storage: LogStorage, level: int = logging.INFO) ->
 
     _handler = TaskLogHandler(storage, level=level)
 
-    root = logging.getLogger("asyncz")
-    root.setLevel(min(root.level or level, level))
     root.addHandler(_handler)
     root.propagate = True  # let parent/handlers still receive if needed
     return _handler
diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index e8a8a1c..9bee2f2 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -192,6 +192,9 @@ class MemoryLogStorage(LogStorage):
         with self.mutex:
             # Iterate in reverse order (newest first)
             for e in reversed(self.buffer):
+                # Check limit and break if reached
+                if len(out) >= limit:
+                    break
                 # Filter 1: task_id
                 if task_id and e.task_id != task_id:
                     continue
@@ -212,10 +215,6 @@ class MemoryLogStorage(LogStorage):
 
                 out.append(e)
 
-                # Check limit and break if reached
-                if len(out) >= limit:
-                    break
-
         # Returns a list, which is a common pattern for returning a finite result set from a query
         return out
 
-- 
2.43.0


From 6350de9798a24be59c3b18717e19dd4688808f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 45/70] fix: task log entries do not take what formatters leave
 on a record for extra data

---
 asyncz/contrib/dashboard/logs/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/handler.py b/asyncz/contrib/dashboard/logs/handler.py
index 568a535..b43f4a4 100644
--- a/asyncz/contrib/dashboard/logs/handler.py
+++ b/asyncz/contrib/dashboard/logs/handler.py
@@ -11,7 +11,8 @@ from asyncz.contrib.dashboard.logs.storage import LogStorage
 _TASK_ID_KEYS: tuple[str, ...] = ("task_id", "job_id", "asyncz_task_id")
 """Tuple of attribute keys checked on a LogRecord to extract the associated task ID."""
 
-_STANDARD_LOG_RECORD_KEYS = set(logging.makeLogRecord({}).__dict__)
+# including those which formatters set
+_STANDARD_LOG_RECORD_KEYS = {*logging.makeLogRecord({}).__dict__, "message", "asctime"}
 
 
 def _extract_task_id(record: logging.LogRecord) -> str | None:
-- 
2.43.0


From b0d4ad2ea460ccc0318668c0f2d309a65ec8875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 46/70] fix: remote scheduler operations keep their arguments,
 task ids and refusals

---
 asyncz/contrib/dashboard/remote.py | 210 ++++++++++++++++++++---------
 1 file changed, 147 insertions(+), 63 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..26d55b1 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -9,6 +9,8 @@ so dashboard reads and task actions travel over HTTP to the worker.
 from __future__ import annotations
 
 import base64
+import contextlib
+import http.client
 import json
 import pickle
 import urllib.error
@@ -224,6 +226,76 @@ def _dump_json(value: Any) -> Any:
     return value
 
 
+def _dump_task_argument(value: Any) -> Any:
+    """
+    Render a task argument for display, whatever it is.
+
+    A task on the worker may have any arguments. They must not make the
+    inspection of the task, or of all tasks, fail.
+    """
+
+    if isinstance(value, tuple | list):
+        return [_dump_task_argument(item) for item in value]
+    if isinstance(value, Mapping):
+        return {str(key): _dump_task_argument(item) for key, item in value.items()}
+    try:
+        json.dumps(value)
+    except (TypeError, ValueError):
+        with contextlib.suppress(Exception):
+            return repr(value)
+        return f"<{type(value).__name__}>"
+    return value
+
+
+def _dump_result(value: Any) -> Any:
+    """
+    Convert the result of a scheduler operation into JSON-compatible data.
+    """
+
+    if isinstance(value, list):
+        return [_dump_result(item) for item in value]
+    try:
+        return _dump_json(value)
+    except ValueError:
+        # arguments which have no JSON form
+        if isinstance(value, TaskRunPreview):
+            plain = value.model_copy(update={"task": _plain_task(value.task)})
+        elif isinstance(value, TaskInfo):
+            plain = _plain_task(value)
+        else:
+            raise
+        return _dump_json(plain)
+
+
+def _plain_task(info: TaskInfo) -> TaskInfo:
+    return info.model_copy(
+        update={
+            "args": tuple(_dump_task_argument(item) for item in info.args),
+            "kwargs": _dump_task_argument(info.kwargs),
+        }
+    )
+
+
+def _quote_task_id(task_id: Any) -> str:
+    """
+    Quote a task id for a request path.
+
+    Servers decode the path before routing: what is left for the router must
+    not contain slashes.
+    """
+
+    plain = str(task_id).replace("%", "%25").replace("/", "%2F")
+    return urllib.parse.quote(plain, safe="")
+
+
+def _path_task_id(request: Request) -> str:
+    """
+    Return the task id of a request path, see `_quote_task_id`.
+    """
+
+    return urllib.parse.unquote(request.path_params["task_id"])
+
+
 def _encode_trigger(trigger: TriggerType) -> str:
     """
     Serialize a trigger object for a trusted remote control request.
@@ -255,7 +327,7 @@ def _success(data: Any = None) -> JSONResponse:
     successful `None` results from error payloads.
     """
 
-    return JSONResponse({"data": _dump_json(data)})
+    return JSONResponse({"data": _dump_result(data)})
 
 
 def _error(exc: Exception, *, status_code: int = 500, task_id: str | None = None) -> JSONResponse:
@@ -385,7 +457,7 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
         if task is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
@@ -401,13 +473,17 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        task_id = _path_task_id(request)
+        params = request.query_params
+        try:
+            result = scheduler.preview_task_runs(
+                task_id,
+                params.get("store") or None,
+                count=int(params.get("count") or 5),
+                now=datetime.fromisoformat(params["now"]) if params.get("now") else None,
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
@@ -422,32 +498,34 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        body = await _json_body(request)
-        trigger: Any
-        trigger_args = dict(body.get("trigger_args") or {})
-        if body.get("trigger_pickle"):
-            trigger = _decode_trigger(str(body["trigger_pickle"]))
-        else:
-            trigger = body.get("trigger")
-        kwargs = {
-            key: body[key]
-            for key in (
-                "id",
-                "name",
-                "args",
-                "kwargs",
-                "mistrigger_grace_time",
-                "coalesce",
-                "max_instances",
-                "next_run_time",
-                "store",
-                "executor",
-                "replace_existing",
-            )
-            if key in body
-        }
         try:
-            task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
+            body = await _json_body(request)
+            if not body.get("fn"):
+                raise ValueError("A reference to the callable is required.")
+            trigger: Any
+            trigger_args = dict(body.get("trigger_args") or {})
+            if body.get("trigger_pickle"):
+                trigger = _decode_trigger(str(body["trigger_pickle"]))
+            else:
+                trigger = body.get("trigger")
+            kwargs = {
+                key: body[key]
+                for key in (
+                    "id",
+                    "name",
+                    "args",
+                    "kwargs",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "next_run_time",
+                    "store",
+                    "executor",
+                    "replace_existing",
+                )
+                if key in body
+            }
+            task = scheduler.add_task(body["fn"], trigger=trigger, **kwargs, **trigger_args)
         except Exception as exc:
             return _error(exc, status_code=400)
         return _success(task.snapshot())
@@ -462,12 +540,13 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
-        body = await _json_body(request)
+        task_id = _path_task_id(request)
         try:
-            task = scheduler.update_task(
-                task_id, body.get("store"), **dict(body.get("updates") or {})
-            )
+            body = await _json_body(request)
+            updates = dict(body.get("updates") or {})
+            if body.get("trigger_pickle"):
+                updates["trigger"] = _decode_trigger(str(body["trigger_pickle"]))
+            task = scheduler.update_task(task_id, body.get("store"), **updates)
         except TaskLookupError as exc:
             return _error(exc, status_code=404, task_id=task_id)
         except Exception as exc:
@@ -484,11 +563,11 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        task_id = request.path_params["task_id"]
+        task_id = _path_task_id(request)
         action = request.path_params["action"]
-        body = await _json_body(request)
-        store = body.get("store")
         try:
+            body = await _json_body(request)
+            store = body.get("store")
             if action == "run":
                 task = scheduler.run_task(
                     task_id,
@@ -613,16 +692,16 @@ class RemoteSchedulerClient:
         url = f"{self.base_url}{path}"
         if query:
             url = f"{url}?{urllib.parse.urlencode(query)}"
-        data = None if payload is None else json.dumps(_dump_json(payload)).encode()
+        data = None if payload is None else json.dumps(payload).encode()
         request = urllib.request.Request(url, data=data, method=method, headers=headers)
         try:
-            with urllib.request.urlopen(request, timeout=10) as response:
-                body = response.read().decode() or "{}"
-                return response.status, json.loads(body)
-        except urllib.error.HTTPError as exc:
-            body = exc.read().decode() or "{}"
-            return exc.code, json.loads(body)
-        except urllib.error.URLError as exc:
+            try:
+                with urllib.request.urlopen(request, timeout=10) as response:
+                    status_code, body = response.status, response.read()
+            except urllib.error.HTTPError as exc:
+                status_code, body = exc.code, exc.read()
+            return status_code, json.loads(body.decode() or "{}")
+        except (OSError, http.client.HTTPException, ValueError) as exc:
             raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
 
     def _request(
@@ -641,12 +720,16 @@ class RemoteSchedulerClient:
         """
 
         headers = self._headers()
+        if payload is not None:
+            payload = _dump_json(payload)
         if self.transport is not None:
             status_code, response = self.transport(method, path, payload, headers, query)
         else:
             status_code, response = self._urllib_request(method, path, payload, headers, query)
+        if not isinstance(response, dict) or (status_code < 400 and "data" not in response):
+            raise RemoteSchedulerError("Remote scheduler request failed: unexpected answer.")
         if status_code < 400:
-            return response.get("data")
+            return response["data"]
         self._raise_remote_error(response)
 
     def _raise_remote_error(self, response: dict[str, Any]) -> None:
@@ -750,7 +833,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}",
+                f"/tasks/{_quote_task_id(task_id)}",
                 query={"store": store} if store else None,
             )
         except TaskLookupError:
@@ -804,7 +887,7 @@ class RemoteSchedulerClient:
         try:
             data = self._request(
                 "GET",
-                f"/tasks/{urllib.parse.quote(task_id, safe='')}/preview",
+                f"/tasks/{_quote_task_id(task_id)}/preview",
                 query=query,
             )
         except TaskLookupError:
@@ -862,7 +945,7 @@ class RemoteSchedulerClient:
             "store": store,
             "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            if value is not undefined:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
@@ -879,11 +962,12 @@ class RemoteSchedulerClient:
 
         if isinstance(task_id, RemoteTask):
             task_id = task_id.id
-        data = self._request(
-            "PATCH",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}",
-            {"store": store, "updates": updates},
-        )
+        payload: dict[str, Any] = {"store": store, "updates": updates}
+        if isinstance(updates.get("trigger"), TriggerType):
+            payload["trigger_pickle"] = _encode_trigger(updates.pop("trigger"))
+        if callable(updates.get("fn")):
+            updates["fn"] = obj_to_ref(updates["fn"])
+        data = self._request("PATCH", f"/tasks/{_quote_task_id(task_id)}", payload)
         task = self._task_from_data(data)
         assert task is not None
         return task
@@ -907,7 +991,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/run",
+            f"/tasks/{_quote_task_id(task_id)}/run",
             {"store": store, "force": force, "remove_finished": remove_finished},
         )
         return self._task_from_data(data)
@@ -923,7 +1007,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/pause",
+            f"/tasks/{_quote_task_id(task_id)}/pause",
             {"store": store},
         )
         task = self._task_from_data(data)
@@ -942,7 +1026,7 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         data = self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/resume",
+            f"/tasks/{_quote_task_id(task_id)}/resume",
             {"store": store},
         )
         return self._task_from_data(data)
@@ -959,6 +1043,6 @@ class RemoteSchedulerClient:
             task_id = task_id.id
         self._request(
             "POST",
-            f"/tasks/{urllib.parse.quote(str(task_id), safe='')}/remove",
+            f"/tasks/{_quote_task_id(task_id)}/remove",
             {"store": store},
         )
-- 
2.43.0


From 8996329a029bf16a7d34f8c06d73ab3921109ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 47/70] fix: dashboard sign-in is reachable at its path,
 returns where it was asked for and stays on the site

---
 asyncz/contrib/dashboard/admin/backends.py    | 24 +++++++++++++++----
 asyncz/contrib/dashboard/admin/core.py        | 14 +++++------
 .../dashboard/admin/middleware/auth_gate.py   | 11 ++++++---
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 00616d0..0287acf 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 from collections.abc import Callable
 from typing import Any
 
-from lilya.compat import reverse
 from lilya.datastructures import FormData
 from lilya.requests import Request
 from lilya.responses import RedirectResponse, Response
@@ -15,6 +14,19 @@ from asyncz.contrib.dashboard.mixins import default_context
 VerifyCallable = Callable[[str, str], User | None]
 
 
+def _is_local_path(value: str) -> bool:
+    """
+    Whether a redirect to the value stays on this site: an absolute path, and nothing
+    browsers would read as the start of another host.
+    """
+    return (
+        value.startswith("/")
+        and not value.startswith("//")
+        and "\\" not in value
+        and not any(ord(char) < 32 or ord(char) == 127 for char in value)
+    )
+
+
 class SimpleUsernamePasswordBackend(AuthBackend):
     """
     A basic authentication backend that verifies credentials using a synchronous
@@ -92,7 +104,7 @@ class SimpleUsernamePasswordBackend(AuthBackend):
 
         if not user:
             # Login failed: re-render form with error message
-            context.update({"error": "Invalid credentials"})
+            context.update({"error": "Invalid credentials", "next": form.get("next")})
             return templates.get_template_response(request, self.login_template, context)
 
         # Login successful: store user data in session
@@ -103,8 +115,10 @@ class SimpleUsernamePasswordBackend(AuthBackend):
             **user.extra,  # Merge any extra user data
         }
 
-        # Redirect to the requested 'next' URL or default to root
-        next: str = form.get("next") or reverse("dashboard:index")
+        # Redirect to the requested 'next' path of this site or default to root
+        next: str = form.get("next") or ""
+        if not _is_local_path(next):
+            next = request.url_path_for("dashboard:index").path
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
@@ -119,4 +133,4 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         """
         # Remove user data from the session
         request.session.pop(self.session_key, None)
-        return RedirectResponse(reverse("login"), status_code=303)
+        return RedirectResponse(request.url_path_for("login").path, status_code=303)
diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..71987dd 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -135,8 +135,8 @@ class AsynczAdmin:
             """
             return await backend.logout(request)
 
-        # 1. Add /login route
-        routes.append(Path("/login", login, methods=["GET", "POST"], name="login"))
+        # 1. Add the login route
+        routes.append(Path(self.login_path, login, methods=["GET", "POST"], name="login"))
 
         # 2. Add /logout route
         routes.append(Path("/logout", logout, methods=["GET", "POST"], name="logout"))
@@ -184,7 +184,7 @@ class AsynczAdmin:
         Returns:
             DefineMiddleware: The fully configured authentication gate middleware definition.
         """
-        allowlist = self.allowlist
+        allowlist = (*self.allowlist, self.login_path)
         prefix = self.url_prefix.rstrip("/")
         if prefix and prefix != "/":
             allowlist = (
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level.
+            # They come first: a dashboard mounted at "/" matches every path.
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..db3d62d 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -86,11 +87,15 @@ class AuthGateMiddleware:
 
         # 4. Unauthenticated Response
 
-        # Build the final login URL under the mount prefix
-        login_url: str = f"{mount_prefix}{self.login_path}"
+        # Build the final login URL under the mount prefix, as seen from outside of a proxy
+        external: str = scope.get("asyncz_forwarded_prefix", "")
+        login_url: str = quote(f"{external}{mount_prefix}{self.login_path}")
 
         # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        target: str = quote(f"{external}{path}")
+        if query := scope.get("query_string", b"").decode("latin-1"):
+            target = f"{target}?{query}"
+        next_q: str = f"?next={quote(target)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From af21a50068d16ae3e196b811b200f05cbeb7a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 48/70] fix: dashboard links follow where it is mounted,
 forwarded prefixes are clean paths

---
 asyncz/contrib/dashboard/admin/core.py        |  3 +-
 .../admin/middleware/forward_root_path.py     | 29 ++++++++++------
 .../dashboard/admin/middleware/mount.py       | 34 +++++++++++++++++++
 asyncz/contrib/dashboard/engine.py            | 15 +++-----
 asyncz/contrib/dashboard/mixins.py            | 18 ++++++++--
 5 files changed, 75 insertions(+), 24 deletions(-)
 create mode 100644 asyncz/contrib/dashboard/admin/middleware/mount.py

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 71987dd..98c3458 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -18,6 +18,7 @@ from asyncz.contrib.dashboard.admin.middleware import AuthGateMiddleware, Securi
 from asyncz.contrib.dashboard.admin.middleware.forward_root_path import (
     ForwardedPrefixMiddleware,
 )
+from asyncz.contrib.dashboard.admin.middleware.mount import MountMiddleware
 from asyncz.contrib.dashboard.admin.protocols import AuthBackend
 from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
 from asyncz.contrib.dashboard.engine import templates
@@ -270,7 +271,7 @@ class AsynczAdmin:
         routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
-        middlewares: list[DefineMiddleware] = []
+        middlewares: list[DefineMiddleware] = [DefineMiddleware(MountMiddleware)]
 
         if self.enable_forward_middleware:
             # X-Forwarded-Prefix handling (useful if mounted via proxy)
diff --git a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
index 7cf004c..c608b6b 100644
--- a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
+++ b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
@@ -1,12 +1,16 @@
 from __future__ import annotations
 
 import ipaddress
+import re
 from collections.abc import Iterable
 
 from lilya.types import ASGIApp, Receive, Scope, Send
 
 DEFAULT_TRUSTED_FORWARD_CLIENTS: tuple[str, ...] = ("127.0.0.1", "::1", "localhost")
 
+# One or more path segments, none of them empty, "." or "..".
+CLEAN_PREFIX = re.compile(r"(/(?!\.{1,2}(/|$))[A-Za-z0-9._~-]+)+")
+
 
 class ForwardedPrefixMiddleware:
     """
@@ -67,19 +71,24 @@ class ForwardedPrefixMiddleware:
                     if p != "/":
                         p = p.rstrip("/")
 
-                    # 3. Combine with any existing external root path
-                    existing: str = scope.get("app_root_path") or scope.get("root_path") or ""
+                    # 3. Ignore values which are no clean path, for example "//host"
+                    if CLEAN_PREFIX.fullmatch(p):
+                        # 4. Combine with any existing external root path
+                        existing: str = scope.get("app_root_path", scope.get("root_path")) or ""
 
-                    # Ensure existing external prefix also has a leading slash
-                    if existing and not existing.startswith("/"):
-                        existing = "/" + existing
+                        # Ensure existing external prefix also has a leading slash
+                        if existing and not existing.startswith("/"):
+                            existing = "/" + existing
 
-                    # Concatenate and clean up trailing slash (result is either '/base' or '/')
-                    combined: str = (p + existing).rstrip("/") or "/"
+                        # Concatenate and clean up trailing slash
+                        combined: str = (p + existing).rstrip("/") or "/"
 
-                    # 4. Create a copy of the scope and update URL generation metadata
-                    scope = dict(scope)
-                    scope["app_root_path"] = combined
+                        # 5. Create a copy of the scope and update URL generation metadata
+                        scope = dict(scope)
+                        scope["app_root_path"] = combined
+                        scope["asyncz_forwarded_prefix"] = p + scope.get(
+                            "asyncz_forwarded_prefix", ""
+                        )
 
         # Pass control to the next application
         await self.app(scope, receive, send)
diff --git a/asyncz/contrib/dashboard/admin/middleware/mount.py b/asyncz/contrib/dashboard/admin/middleware/mount.py
new file mode 100644
index 0000000..67e8dce
--- /dev/null
+++ b/asyncz/contrib/dashboard/admin/middleware/mount.py
@@ -0,0 +1,34 @@
+from __future__ import annotations
+
+from lilya.types import ASGIApp, Receive, Scope, Send
+
+
+class MountMiddleware:
+    """
+    ASGI middleware that makes the dashboard generate URLs from its own routes.
+
+    A host application leaves its router and its root path in the scope. Route names
+    would be looked up there, where they can be missing, unknown to another framework or
+    those of the host. This middleware makes the dashboard the root of URL generation,
+    below the path it is mounted at.
+    """
+
+    def __init__(self, app: ASGIApp) -> None:
+        self.app: ASGIApp = app
+
+    async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
+        if scope["type"] in ("http", "websocket"):
+            scope = dict(scope)
+            scope.pop("router", None)
+            root_path: str = scope.get("root_path") or ""
+
+            # A prefix some outer layer knows of, which is not part of the request path
+            forwarded: str | None = scope.get("asyncz_forwarded_prefix")
+            if forwarded is None:
+                outer: str = scope.get("app_root_path") or ""
+                forwarded = "" if root_path.startswith(outer) else outer
+
+            scope["asyncz_forwarded_prefix"] = forwarded
+            scope["app_root_path"] = f"{forwarded}{root_path}"
+
+        await self.app(scope, receive, send)
diff --git a/asyncz/contrib/dashboard/engine.py b/asyncz/contrib/dashboard/engine.py
index a0171ed..2b28555 100644
--- a/asyncz/contrib/dashboard/engine.py
+++ b/asyncz/contrib/dashboard/engine.py
@@ -1,16 +1,14 @@
 from pathlib import Path
 from typing import Any
 
-from lilya.apps import Lilya
-from lilya.compat import reverse
 from lilya.requests import Request
-from lilya.routing import NoMatchFound, Router
+from lilya.routing import NoMatchFound
 from lilya.templating import Jinja2Template
 
 
 def safe_url_for(request: Request, name: str, **params: Any) -> str | None:
     """
-    Safely generates a full URL for a given route name within the current request's scope.
+    Safely generates the URL path for a given route name within the current request's scope.
 
     This function attempts to resolve the URL using the router associated with the
     current ASGI scope and catches `NoMatchFound` exceptions, returning `None` instead
@@ -22,16 +20,11 @@ def safe_url_for(request: Request, name: str, **params: Any) -> str | None:
         **params: Keyword arguments required for path parameters (e.g., `user_id=1`).
 
     Returns:
-        The generated absolute URL string, or `None` if the route name cannot be found.
+        The generated URL path, as seen from outside, or `None` if the route name cannot be found.
     """
-    # Retrieve the router or application instance from the ASGI scope
-    scoped_app: Router | Lilya | Any | None = request.scope.get("router") or request.scope.get(
-        "app"
-    )
-
     try:
         # Attempt to reverse the URL using the current routing context
-        return reverse(name, app=scoped_app, **params)
+        return str(request.url_path_for(name, **params).path)
     except NoMatchFound:
         # Gracefully handle the case where the route name does not exist
         return None
diff --git a/asyncz/contrib/dashboard/mixins.py b/asyncz/contrib/dashboard/mixins.py
index c2bbfda..50187bf 100644
--- a/asyncz/contrib/dashboard/mixins.py
+++ b/asyncz/contrib/dashboard/mixins.py
@@ -1,6 +1,7 @@
 from typing import Any
 
 from lilya.requests import Request
+from lilya.routing import NoMatchFound
 
 from asyncz import monkay
 from asyncz.contrib.dashboard.config import get_effective_prefix
@@ -8,11 +9,24 @@ from asyncz.contrib.dashboard.engine import templates
 from asyncz.contrib.dashboard.messages import get_messages
 
 
+def _url_prefix(request: Request) -> str:
+    """
+    The path of the dashboard as seen from outside, without a trailing slash.
+
+    The routes know where the dashboard is mounted. The configured prefix is used when
+    they do not, for example when the dashboard routes are used on their own.
+    """
+    try:
+        return str(request.url_path_for("dashboard:index").path).rstrip("/")
+    except NoMatchFound:
+        return get_effective_prefix(request).rstrip("/")
+
+
 def default_context(request: Request) -> dict:
     context = {}
-    effective_prefix = get_effective_prefix(request)
+    effective_prefix = _url_prefix(request)
     favicon = monkay.settings.dashboard_config.favicon
-    if favicon == "/static/favicon.ico" and effective_prefix != "/":
+    if favicon == "/static/favicon.ico":
         favicon = f"{effective_prefix}/static/favicon.ico"
 
     context.update(
-- 
2.43.0


From d43ecbae1579b470eeb3f33deca5c293f768c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 49/70] fix: dashboard messages are escaped, unknown states and
 sort fields in a query are ignored

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 35e0a0c..7cb9cb8 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import html
 import json
 from collections.abc import Mapping
 from datetime import datetime
@@ -11,6 +12,7 @@ from lilya.responses import HTMLResponse
 
 from asyncz.contrib.dashboard.engine import templates
 from asyncz.contrib.dashboard.history import RunRecord, get_run_history_storage
+from asyncz.enums import TaskScheduleState
 from asyncz.tasks.inspection import TaskInfo
 from asyncz.triggers.cron import CronTrigger
 from asyncz.triggers.date import DateTrigger
@@ -19,6 +21,10 @@ from asyncz.triggers.interval import IntervalTrigger
 if TYPE_CHECKING:
     from asyncz.schedulers import AsyncIOScheduler
 
+TASK_STATES = frozenset(state.value for state in TaskScheduleState)
+TASK_SORT_FIELDS = frozenset(
+    {"id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger"}
+)
 TASK_PAGE_SIZE_OPTIONS = (25, 50, 100, 200)
 DEFAULT_TASK_PAGE_SIZE = 50
 MAX_TASK_PAGE_SIZE = 200
@@ -227,7 +233,7 @@ def _render_messages_oob(request: Request, context: dict[str, Any]) -> str:
             else:
                 color = "blue"
                 icon = "info"
-            text = str(m.get("text", ""))
+            text = html.escape(str(m.get("text", "")))
             parts.append(
                 f"""
                   <div id="flash-{i}" class="relative flex items-start gap-3 p-4 bg-{color}-50
@@ -249,15 +255,20 @@ def parse_task_filters(request: Request) -> dict[str, Any]:
     Parse and normalize task-filter query parameters from a dashboard request.
 
     The returned mapping matches the scheduler's ``get_task_infos()`` API while
-    also keeping the original form values needed by the templates.
+    also keeping the original form values needed by the templates. Values the
+    scheduler does not know fall back to the defaults of the form.
     """
 
     params: Mapping[str, Any] = request.query_params
     q = (params.get("q") or "").strip() or None
     state = (params.get("state") or "").strip().lower() or None
+    if state not in TASK_STATES:
+        state = None
     executor = (params.get("executor") or "").strip() or None
     trigger = (params.get("trigger") or "").strip() or None
     sort_by = (params.get("sort") or "next_run_time").strip() or "next_run_time"
+    if sort_by not in TASK_SORT_FIELDS:
+        sort_by = "next_run_time"
     direction = (params.get("direction") or "asc").strip().lower() or "asc"
     descending = direction == "desc"
     page = _bounded_int(params.get("page"), default=1, minimum=1, maximum=10_000)
-- 
2.43.0


From a8ffe7bc5c1ce0f29dc0a53950cf24278f9b7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 50/70] fix: dashboard task links are quoted

---
 .../contrib/dashboard/templates/tasks/_table.html  | 14 +++++++-------
 .../contrib/dashboard/templates/tasks/detail.html  | 10 +++++-----
 asyncz/contrib/dashboard/templates/tasks/edit.html |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/asyncz/contrib/dashboard/templates/tasks/_table.html b/asyncz/contrib/dashboard/templates/tasks/_table.html
index b414186..9230b42 100644
--- a/asyncz/contrib/dashboard/templates/tasks/_table.html
+++ b/asyncz/contrib/dashboard/templates/tasks/_table.html
@@ -106,7 +106,7 @@
 
             <td style="text-align: right">
               <div class="az-actions">
-                <form hx-post="{{ t.id }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                <form hx-post="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                   <button class="az-icon-button az-action-button az-icon-button--primary" aria-label="Run {{ t.name or t.id }} now" title="Run now">
                     <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                       <path d="M8 5v14l11-7z"/>
@@ -115,7 +115,7 @@
                   </button>
                 </form>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open details for {{ t.name or t.id }}"
                    title="Details">
@@ -128,7 +128,7 @@
                 </a>
 
                 {% if t.state == "scheduled" %}
-                  <form hx-post="{{ t.id }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--warning" aria-label="Pause {{ t.name or t.id }}" title="Pause">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M9 6v12"/>
@@ -138,7 +138,7 @@
                     </button>
                   </form>
                 {% else %}
-                  <form hx-post="{{ t.id }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--success" aria-label="Resume {{ t.name or t.id }}" title="Resume">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M8 5v14l11-7z"/>
@@ -148,7 +148,7 @@
                   </form>
                 {% endif %}
 
-                <a href="{{ url_prefix }}/logs?task_id={{ t.id }}"
+                <a href="{{ url_prefix }}/logs?task_id={{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open logs for {{ t.name or t.id }}"
                    title="Logs">
@@ -163,7 +163,7 @@
                   <span>Logs</span>
                 </a>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}/edit"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/edit"
                    class="az-icon-button az-action-button"
                    aria-label="Edit {{ t.name or t.id }}"
                    title="Edit">
@@ -187,7 +187,7 @@
                   <span>Copy</span>
                 </button>
 
-                <form hx-post="{{ t.id }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
+                <form hx-post="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
                       data-confirm-label="{{ t.name or t.id }}"
                       x-on:submit="confirmRemove">
                   <button class="az-icon-button az-action-button az-icon-button--danger" aria-label="Remove {{ t.name or t.id }}" title="Remove">
diff --git a/asyncz/contrib/dashboard/templates/tasks/detail.html b/asyncz/contrib/dashboard/templates/tasks/detail.html
index 0944d22..ca62022 100644
--- a/asyncz/contrib/dashboard/templates/tasks/detail.html
+++ b/asyncz/contrib/dashboard/templates/tasks/detail.html
@@ -19,9 +19,9 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/tasks/{{ task.id }}/edit" class="az-button">Edit</a>
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
-          <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button az-button--primary">Logs</a>
+          <a href="{{ url_prefix }}/tasks/{{ task.id|urlencode }}/edit" class="az-button">Edit</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button az-button--primary">Logs</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -124,7 +124,7 @@
           <h2 class="az-panel-title">Recent Runs</h2>
           <div class="az-panel-meta">Latest run records for this task.</div>
         </div>
-        <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">Open History</a>
+        <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">Open History</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
@@ -176,7 +176,7 @@
           <h2 class="az-panel-title">Recent Logs</h2>
           <div class="az-panel-meta">Latest captured log records for this task id.</div>
         </div>
-        <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button">Open Logs</a>
+        <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button">Open Logs</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
diff --git a/asyncz/contrib/dashboard/templates/tasks/edit.html b/asyncz/contrib/dashboard/templates/tasks/edit.html
index a9335a8..5f49a2d 100644
--- a/asyncz/contrib/dashboard/templates/tasks/edit.html
+++ b/asyncz/contrib/dashboard/templates/tasks/edit.html
@@ -19,7 +19,7 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -58,7 +58,7 @@
       </div>
     {% endif %}
 
-    <form method="post" action="{{ url_for('dashboard:tasks:edit', task_id=task.id) }}" class="az-panel" data-no-loading>
+    <form method="post" action="{{ url_prefix }}/tasks/{{ task.id|urlencode }}/edit" class="az-panel" data-no-loading>
       <div class="az-panel-header">
         <div>
           <h2 class="az-panel-title">Task Metadata</h2>
-- 
2.43.0


From b408f7895ecaaaba7f5ab4128876b787ce642c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 51/70] fix: dashboard forms and runs report errors, edits keep
 the arguments left as shown

---
 asyncz/contrib/dashboard/controllers/tasks.py | 76 ++++++++++++++-----
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..c7e602d 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -39,7 +39,11 @@ def _string_form_value(form: Any, key: str, default: str = "") -> str:
 
 
 def _json_text(value: Any) -> str:
-    return json.dumps(value, indent=2, sort_keys=True)
+    try:
+        return json.dumps(value, indent=2, sort_keys=True)
+    except (TypeError, ValueError):
+        # not everything a task can be given has a JSON form
+        return repr(value)
 
 
 def _task_update_snapshot(task: TaskType) -> dict[str, Any]:
@@ -113,6 +117,11 @@ def _parse_bool(value: str) -> bool:
     raise ValueError("coalesce must be true or false.")
 
 
+def _same_text(submitted: Any, shown: str) -> bool:
+    # browsers normalize the line ends of a textarea
+    return str(submitted).replace("\r\n", "\n").strip() == shown.strip()
+
+
 def _parse_json_list(value: str) -> list[Any]:
     parsed = json.loads(value or "[]")
     if isinstance(parsed, str) or not isinstance(parsed, list):
@@ -167,12 +176,15 @@ def _parse_task_edit_updates(form: Any, task: TaskType) -> tuple[dict[str, Any],
         errors.append("executor is required.")
 
     try:
-        updates["args"] = _parse_json_list(str(values["args"]))
+        # the text shown for the present value may not say all of it (tuples, dates, ...)
+        if not _same_text(values["args"], _json_text(list(task.args))):
+            updates["args"] = _parse_json_list(str(values["args"]))
     except (TypeError, ValueError, json.JSONDecodeError) as exc:
         errors.append(str(exc))
 
     try:
-        updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
+        if not _same_text(values["kwargs"], _json_text(dict(task.kwargs))):
+            updates["kwargs"] = _parse_json_object(str(values["kwargs"]))
     except (TypeError, ValueError, json.JSONDecodeError) as exc:
         errors.append(str(exc))
 
@@ -270,6 +282,9 @@ class TaskRunController(_BaseTaskAction):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            add_message(request, "error", str(exc))
+            _audit_task_action("run", task_id, status="failed", message=str(exc))
         return await self._redirect()
 
 
@@ -409,20 +424,25 @@ class TaskCreateController(DashboardMixin, Controller):
         trigger_type: str = (form.get("trigger_type") or "interval").strip()
         trigger_value: str = (form.get("trigger_value") or "10s").strip()
 
-        # Parse args/kwargs JSON
-        raw_args: str = (form.get("args") or "").strip()
-        raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
-
-        # Import callable and parse trigger
+        # Parse args/kwargs JSON, import the callable, parse the trigger and add the task
         try:
+            args: list[Any] = _parse_json_list((form.get("args") or "").strip())
+            kwargs: dict[str, Any] = _parse_json_object((form.get("kwargs") or "").strip())
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
             message = str(e)
             add_message(request, "error", f"{message}")
@@ -436,16 +456,6 @@ class TaskCreateController(DashboardMixin, Controller):
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
@@ -571,7 +581,25 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except Exception as exc:
+            _audit_task_action(
+                "update",
+                task_id,
+                status="failed",
+                message=str(exc),
+                details={"errors": [str(exc)]},
+            )
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                diff=diff,
+                errors=[str(exc)],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
@@ -635,6 +663,9 @@ class TaskBulkRunController(DashboardMixin, Controller):
             except TaskLookupError:
                 _audit_task_action("run", task_id, status="failed", message="Task was not found.")
                 continue
+            except Exception as exc:
+                add_message(request, "error", str(exc))
+                _audit_task_action("run", task_id, status="failed", message=str(exc))
 
         # Return refreshed table fragment for HTMX swap
         context = await self.get_context_data(request)
@@ -712,6 +743,9 @@ class TaskHXRunController(DashboardMixin, Controller):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            add_message(request, "error", str(exc))
+            _audit_task_action("run", task_id, status="failed", message=str(exc))
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
-- 
2.43.0


From e7fddb12906f16ba6877a6d8d72c7bbd3052ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:42 +0000
Subject: [PATCH 52/70] fix: dashboard timeline tells tasks of the same id in
 different stores apart

---
 asyncz/contrib/dashboard/controllers/timeline.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/timeline.py b/asyncz/contrib/dashboard/controllers/timeline.py
index dc79977..f89635b 100644
--- a/asyncz/contrib/dashboard/controllers/timeline.py
+++ b/asyncz/contrib/dashboard/controllers/timeline.py
@@ -9,6 +9,7 @@ from lilya.responses import Response
 from lilya.templating.controllers import TemplateController
 
 from asyncz.contrib.dashboard.mixins import DashboardMixin
+from asyncz.exceptions import TaskLookupError
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -42,7 +43,13 @@ def build_timeline_context(scheduler: AsyncIOScheduler, request: Request) -> dic
         if task_info.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task_info.id, count=filters["per_task"])
+        try:
+            preview = scheduler.preview_task_runs(
+                task_info.id, task_info.store_alias, count=filters["per_task"]
+            )
+        except TaskLookupError:
+            # removed in the meantime
+            continue
         if preview is None:
             continue
         if preview.exhausted:
-- 
2.43.0


From 0c16249de5db7d84a51efa0e3e81364fe24f27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 53/70] fix: the CLI builds the stores its --store options say

---
 asyncz/cli/_parsers.py | 66 +++++++++++++++++++++++++++++++++++++-----
 asyncz/cli/utils.py    | 18 ++++--------
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/asyncz/cli/_parsers.py b/asyncz/cli/_parsers.py
index e605ff2..077fc38 100644
--- a/asyncz/cli/_parsers.py
+++ b/asyncz/cli/_parsers.py
@@ -11,11 +11,55 @@ _STORE_ALIASES = {
 }
 
 
+def parse_store_value(value: str) -> tuple[str, dict] | None:
+    """
+    Translates the value of a store specification into the plugin and its arguments.
+
+    Returns None when the value is neither "memory" nor a URL.
+    """
+    scheme, has_scheme, rest = value.partition("://")
+    scheme = scheme.lower()
+
+    if value.lower() == "memory":
+        return "memory", {}
+
+    if not has_scheme:
+        return None
+
+    if scheme == "file":
+        if not rest:
+            raise click.BadParameter(
+                "File store requires a directory, e.g. durable=file:///tmp/asyncz-store"
+            )
+        return "file", {"directory": rest}
+
+    if scheme == "redis":
+        from redis.connection import parse_url
+
+        options = dict(parse_url(f"redis://{rest}"))
+        return "redis", {"database": options.pop("db", 0), **options}
+
+    if scheme in ("mongo", "mongodb"):
+        from pymongo.uri_parser import parse_uri
+
+        url = f"mongodb://{rest}"
+        parsed = parse_uri(url)
+        kwargs = {key: parsed[key] for key in ("database", "collection") if parsed.get(key)}
+        return "mongodb", {"host": url, **kwargs}
+
+    # anything else is the URL of a database
+    return "sqlalchemy", {"database": value}
+
+
 def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
     """
     Accepts things like:
       - "durable=sqlite:///file.db"
       - "sqlalchemy=sqlite:///file.db"
+      - "default=memory"
+      - "durable=file:///tmp/asyncz-store"
+      - "cache=redis://localhost:6379/0"
+      - "durable=mongodb://localhost:27017/asyncz"
       - "memory"
     Returns (plugin_id, kwargs, alias_hint) suitable for scheduler configuration.
     """
@@ -23,14 +67,19 @@ def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
         # default to in-memory store
         return "memory", {}, None
 
-    alias_hint = None
+    alias_hint: str | None = None
+    value: str = ""
     if "=" in spec:
-        kind, value = spec.split("=", 1)
-        kind = kind.strip().lower()
-        alias_hint = kind
-        value = value.strip()
+        alias_hint, value = (part.strip() for part in spec.split("=", 1))
+        if not alias_hint or "://" in alias_hint:
+            raise click.BadParameter(f"Store '{spec}' has no alias, use alias=value.")
+        kind = alias_hint.lower()
     else:
-        kind, value = spec.strip().lower(), None
+        kind = spec.strip().lower()
+
+    parsed = parse_store_value(value)
+    if parsed is not None:
+        return parsed[0], parsed[1], alias_hint
 
     plugin = _STORE_ALIASES.get(kind, kind)
 
@@ -42,9 +91,10 @@ def parse_store_option(spec: str) -> tuple[str, dict, str | None]:
         # IMPORTANT: SQLAlchemyStore(database=...)
         return "sqlalchemy", {"database": value}, alias_hint
 
-    if plugin == "memory":
+    if plugin == "memory" and not value:
         return "memory", {}, alias_hint
 
     raise click.BadParameter(
-        f"Unknown store '{kind}'. Try one of: {', '.join(sorted(_STORE_ALIASES))}."
+        f"Unknown store '{value or kind}'. Use alias=value with 'memory' or a URL, "
+        f"or one of: {', '.join(sorted(_STORE_ALIASES))}."
     )
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..c087e80 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -6,7 +6,7 @@ from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
 
-from asyncz.cli._parsers import parse_store_option
+from asyncz.cli._parsers import parse_store_option, parse_store_value
 
 
 async def maybe_await(value: Any) -> Any:
@@ -147,17 +147,9 @@ def parse_store(spec: str) -> tuple[str, dict[str, Any]]:
     alias = alias.strip()
     value = value.strip()
 
-    if value == "memory":
-        return alias, {"type": "memory"}
-
-    if value.startswith("file://"):
-        return alias, {"type": "file", "path": value.removeprefix("file://")}
-
-    if value.startswith("redis://"):
-        return alias, {"type": "redis", "url": value}
-
-    if value.startswith("mongo://") or value.startswith("mongodb://"):
-        return alias, {"type": "mongodb", "url": value}
+    parsed: tuple[str, dict[str, Any]] | None = parse_store_value(value)
+    if parsed is not None:
+        return alias, {"type": parsed[0], **parsed[1]}
 
     # fallback to sqlalchemy for anything else that looks like a DB URL
     return alias, {"type": "sqlalchemy", "database": value}
@@ -238,6 +230,8 @@ def build_stores_map(specs: list[str]) -> dict[str, dict[str, Any]]:
 
         # Determine the alias: use hint, or 'default' for the first store, or the plugin type
         alias: str = alias_hint or ("default" if i == 0 else plugin)
+        if alias in stores:
+            raise ValueError(f"Store alias '{alias}' is given more than once.")
 
         stores[alias] = {"type": plugin, **kwargs}
 
-- 
2.43.0


From c4fe2511541396bbdba68510b73b615781ba56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 54/70] fix: jobs loaded and added by the CLI take times
 without offset in the zone of the scheduler, arguments of the right kind only

---
 asyncz/cli/commands/add.py | 20 +++++++++++++-------
 asyncz/cli/loader.py       | 24 ++++++++++++++++++------
 asyncz/cli/types.py        | 14 ++++++++++++--
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..c121b44 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -6,6 +6,7 @@ import json
 from collections.abc import Callable
 from typing import Annotated, Any
 
+import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
@@ -51,19 +52,23 @@ def add(
     async def main() -> None:
         """The core asynchronous logic for submitting the job."""
 
-        # 1) Parse trigger (mutually exclusive)
-        t: BaseTrigger = parse_trigger(cron=cron, interval=interval, at=at)
-
-        # 2) Parse JSON args/kwargs
+        # 1) Parse JSON args/kwargs
         pos: list[Any] = json.loads(args) if args else []
+        if not isinstance(pos, list):
+            raise click.BadParameter("args must be a JSON array.")
         kw: dict[str, Any] = json.loads(kwargs) if kwargs else {}
+        if not isinstance(kw, dict):
+            raise click.BadParameter("kwargs must be a JSON object.")
 
-        # 3) Resolve scheduler
+        # 2) Resolve scheduler
         bootstrap_mode = bool(bootstrap)
         if bootstrap_mode:
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
+            t: BaseTrigger = parse_trigger(
+                cron=cron, interval=interval, at=at, timezone=scheduler.timezone
+            )
 
             with contextlib.suppress(Exception):
                 await maybe_await(scheduler.start())
@@ -88,9 +93,10 @@ def add(
             cfg: dict[str, Any] = {"stores": stores_cfg}
             target_store_alias = next(iter(stores_cfg.keys()))
             scheduler = AsyncIOScheduler(**cfg)
+            t = parse_trigger(cron=cron, interval=interval, at=at, timezone=scheduler.timezone)
             await maybe_await(scheduler.start())
 
-        # 4) Resolve callable and add task
+        # 3) Resolve callable and add task
         func: Callable[..., Any] = import_callable(callable_path)
         job = await maybe_await(
             scheduler.add_task(
@@ -106,7 +112,7 @@ def add(
 
         info(f"Added job {job.id} ({job.name or func.__name__})")
 
-        # 5) Shutdown only if we created a temporary scheduler
+        # 4) Shutdown only if we created a temporary scheduler
         if not bootstrap_mode:
             await maybe_await(scheduler.shutdown())
 
diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..f5b7269 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -2,11 +2,11 @@ from __future__ import annotations
 
 import importlib
 import json
+from datetime import date
 from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,10 +21,10 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
             trigger=item["trigger"],
+            name=item.get("name"),
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
         )
@@ -56,10 +56,22 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
 
     added = 0
     for job in data.get("jobs", []):
-        trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
+        at = job.get("at")
+        if isinstance(at, date):
+            # YAML has dates of its own
+            at = at.isoformat()
+        trig = parse_trigger(
+            cron=job.get("cron"),
+            interval=job.get("interval"),
+            at=at,
+            timezone=scheduler.timezone,
+        )
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            trigger=trig,
+            name=job.get("name"),
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
         )
         added += 1
     return added
diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index d69e152..22c9f4e 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -32,6 +32,9 @@ def parse_interval(text: str) -> float:
         raise ValueError("Invalid interval, use Ns/Nm/Nh (e.g., 10s, 5m, 2h)")
 
     value: int = int(m.group(1))
+    if not value:
+        raise ValueError("Invalid interval, it must be longer than 0 seconds")
+
     unit: Literal["s", "m", "h"] = m.group(2).lower()  # type: ignore[assignment]
 
     # Mapping unit to multiplier
@@ -40,7 +43,13 @@ def parse_interval(text: str) -> float:
     return float(value * mult[unit])
 
 
-def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) -> BaseTrigger:
+def parse_trigger(
+    *,
+    cron: str | None,
+    interval: str | None,
+    at: str | None,
+    timezone: dt.tzinfo | str | None = None,
+) -> BaseTrigger:
     """
     Parses mutually exclusive job scheduling arguments into the appropriate Asyncz trigger object.
 
@@ -50,6 +59,7 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
         cron: A cron expression string (e.g., '0 0 * * *').
         interval: A human-readable duration string (e.g., '10m', '2h').
         at: An ISO 8601 formatted datetime string indicating a single run time.
+        timezone: The time zone of `at` when it has no offset of its own.
 
     Returns:
         An instantiated subclass of `BaseTrigger` (CronTrigger, IntervalTrigger, or DateTrigger).
@@ -75,4 +85,4 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
     when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
     from asyncz.triggers.date import DateTrigger
 
-    return DateTrigger(run_at=when)
+    return DateTrigger(run_at=when, timezone=timezone)
-- 
2.43.0


From 2a5cfe33e81658c334592917823b141859cd1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 55/70] fix: CLI commands on a store do not run its due tasks,
 the timeline tells tasks of the same id apart

---
 asyncz/cli/commands/add.py       | 2 +-
 asyncz/cli/commands/doctor.py    | 2 ++
 asyncz/cli/commands/inspect.py   | 2 +-
 asyncz/cli/commands/instances.py | 2 ++
 asyncz/cli/commands/list.py      | 2 +-
 asyncz/cli/commands/pause.py     | 2 +-
 asyncz/cli/commands/preview.py   | 2 +-
 asyncz/cli/commands/remove.py    | 2 +-
 asyncz/cli/commands/resume.py    | 2 +-
 asyncz/cli/commands/run.py       | 2 +-
 asyncz/cli/commands/status.py    | 2 ++
 asyncz/cli/commands/timeline.py  | 4 ++--
 asyncz/cli/commands/update.py    | 2 +-
 13 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index c121b44..fa5abd9 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -94,7 +94,7 @@ def add(
             target_store_alias = next(iter(stores_cfg.keys()))
             scheduler = AsyncIOScheduler(**cfg)
             t = parse_trigger(cron=cron, interval=interval, at=at, timezone=scheduler.timezone)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 3) Resolve callable and add task
         func: Callable[..., Any] = import_callable(callable_path)
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index ce5f0a3..2e5e2cd 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -158,6 +158,8 @@ def doctor(
             return payload if as_json else None
         finally:
             if not bootstrap_mode:
+                # nothing was run so far, the due tasks are left to other schedulers
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index d9e4955..463e75c 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -70,7 +70,7 @@ def inspect_task(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             task = await maybe_await(scheduler.get_task(job_id))
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 94b8906..eb1a718 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -90,6 +90,8 @@ def instances(
             return None
         finally:
             if not bootstrap_mode:
+                # nothing was run so far, the due tasks are left to other schedulers
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 1a7cf38..f996123 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -87,7 +87,7 @@ def list_jobs(
             )
             cfg: dict[str, dict[str, dict[str, Any]]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             # 2) Fetch task snapshots
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..d11aa6c 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -52,7 +52,7 @@ def pause(
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Delegate to the scheduler API.
         await maybe_await(scheduler.pause_task(job_id))
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index c7336f1..393d0b5 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -71,7 +71,7 @@ def preview(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             preview_result = scheduler.preview_task_runs(job_id, count=count)
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..bdcc863 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -51,7 +51,7 @@ def remove(
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
         #    If your scheduler supports delete by ID only, this lookup is still safe and provides validation.
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..47b0e0a 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -51,7 +51,7 @@ def resume(
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Delegate to the scheduler API and mirror the resulting state in the message.
         resumed_task = await maybe_await(scheduler.resume_task(job_id))
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..1daa730 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -51,7 +51,7 @@ def run(
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         # 2. Delegate the "run now" flow to the scheduler itself.
         await maybe_await(scheduler.run_task(job_id))
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 37a3ac2..9c78962 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -94,6 +94,8 @@ def status(
             return None
         finally:
             if not bootstrap_mode:
+                # nothing was run so far, the due tasks are left to other schedulers
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 435d3cc..7e950b7 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -47,7 +47,7 @@ def _timeline_payload(
         if task.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task.id, count=per_task)
+        preview = scheduler.preview_task_runs(task.id, task.store_alias, count=per_task)
         if preview is None:
             continue
         if preview.exhausted:
@@ -110,7 +110,7 @@ def timeline(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             payload = _timeline_payload(
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index e52c8ea..a9b1d37 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -139,7 +139,7 @@ def update(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             task, store_alias = scheduler.lookup_task(job_id, None)
-- 
2.43.0


From 4452559fe336bee36562c53ae34334d8b2535bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 56/70] fix: asyncz run waits for the run, start stops cleanly
 on Ctrl+C, names are shown as they are

---
 asyncz/cli/commands/add.py       |  4 +--
 asyncz/cli/commands/doctor.py    |  4 +--
 asyncz/cli/commands/inspect.py   |  4 +--
 asyncz/cli/commands/instances.py |  4 +--
 asyncz/cli/commands/list.py      |  4 +--
 asyncz/cli/commands/pause.py     |  4 +--
 asyncz/cli/commands/preview.py   |  4 +--
 asyncz/cli/commands/remove.py    |  4 +--
 asyncz/cli/commands/resume.py    |  4 +--
 asyncz/cli/commands/run.py       |  6 ++--
 asyncz/cli/commands/start.py     | 13 ++++++--
 asyncz/cli/commands/status.py    |  4 +--
 asyncz/cli/commands/timeline.py  |  4 +--
 asyncz/cli/commands/update.py    |  4 +--
 asyncz/cli/utils.py              | 54 ++++++++++++++++++++++++++++++++
 15 files changed, 92 insertions(+), 29 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index fa5abd9..5e2f134 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -7,11 +7,11 @@ from collections.abc import Callable
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.types import parse_trigger
-from asyncz.cli.utils import build_stores_map, ensure_loop, import_callable, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, import_callable, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.triggers.base import BaseTrigger
 
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index 2e5e2cd..cb70a0b 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -4,11 +4,11 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.commands.status import _serialize_scheduler_info
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index 463e75c..3e02033 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -5,10 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index eb1a718..dea2476 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInstanceInfo
 
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index f996123..6b756f5 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -4,10 +4,10 @@ import contextlib
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.enums import TaskScheduleState
 from asyncz.schedulers import AsyncIOScheduler
 
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index d11aa6c..25f9afd 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -4,10 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await, success
 from asyncz.schedulers import AsyncIOScheduler
 
 
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index 393d0b5..b71205b 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -5,10 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskRunPreview
 
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index bdcc863..4c2441b 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -4,10 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await, success
 from asyncz.schedulers import AsyncIOScheduler
 
 
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 47b0e0a..7dd5232 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -4,10 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await, success
 from asyncz.schedulers import AsyncIOScheduler
 
 
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 1daa730..7ad7888 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -4,10 +4,10 @@ import asyncio
 import contextlib
 from typing import Annotated, Any
 
-from sayer import Argument, Option, command, info
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await, run_and_wait
 from asyncz.schedulers import AsyncIOScheduler
 
 
@@ -54,7 +54,7 @@ def run(
             await maybe_await(scheduler.start(paused=True))
 
         # 2. Delegate the "run now" flow to the scheduler itself.
-        await maybe_await(scheduler.run_task(job_id))
+        await run_and_wait(scheduler, job_id)
         info(f"Triggered job {job_id}")
 
         # 3. Shutdown the temporary scheduler
diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index 492743f..d247bbd 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -6,7 +6,7 @@ import importlib
 import sys
 from typing import Annotated, Any
 
-from sayer import Option, command, info, success
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
 from asyncz.cli.loader import load_jobs_from_config, load_jobs_from_module
@@ -18,7 +18,9 @@ from asyncz.cli.utils import (
     changed,
     collect_watch_targets,
     ensure_loop,
+    info,
     maybe_await,
+    success,
 )
 from asyncz.exceptions import SchedulerAlreadyRunningError
 from asyncz.schedulers import AsyncIOScheduler
@@ -155,4 +157,11 @@ def start(
             await maybe_await(_call_hook(on_stop))
             await maybe_await(scheduler.shutdown(wait=True))
 
-    loop.run_until_complete(run_forever())
+    main_task = loop.create_task(run_forever())
+    try:
+        loop.run_until_complete(main_task)
+    except KeyboardInterrupt:
+        # let it leave its loop and shut down
+        main_task.cancel()
+        with contextlib.suppress(asyncio.CancelledError):
+            loop.run_until_complete(main_task)
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 9c78962..845da13 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 import json
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.schedulers.inspection import SchedulerInfo
 
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 7e950b7..7e1212c 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -5,10 +5,10 @@ import json
 from datetime import datetime, timezone
 from typing import Annotated, Any
 
-from sayer import Option, command, info
+from sayer import Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.inspection import TaskInfo
 
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index a9b1d37..0da947f 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -5,10 +5,10 @@ import json
 from typing import Annotated, Any
 
 import click
-from sayer import Argument, Option, command, info, success
+from sayer import Argument, Option, command
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
-from asyncz.cli.utils import build_stores_map, ensure_loop, maybe_await
+from asyncz.cli.utils import build_stores_map, ensure_loop, info, maybe_await, success
 from asyncz.schedulers import AsyncIOScheduler
 from asyncz.tasks.types import TaskType
 
diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index c087e80..1adee17 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -6,7 +6,25 @@ from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
 
+import sayer
+from rich.markup import escape
+
 from asyncz.cli._parsers import parse_store_option, parse_store_value
+from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED, TASK_SUBMITTED
+
+
+def info(message: str) -> None:
+    """
+    Shows a message as it is, task ids and names in it may look like console markup.
+    """
+    sayer.info(escape(message))
+
+
+def success(message: str) -> None:
+    """
+    Shows a success message as it is.
+    """
+    sayer.success(escape(message))
 
 
 async def maybe_await(value: Any) -> Any:
@@ -37,6 +55,42 @@ async def _call_hook(path: str | None) -> None:
     await maybe_await(maybe_coro)
 
 
+async def run_and_wait(scheduler: Any, task_id: str) -> None:
+    """
+    Runs a task immediately and waits until the runs of it are over.
+
+    There is nothing to wait for when the event loop of the scheduler is not running.
+
+    Args:
+        scheduler: The started scheduler.
+        task_id: The id of the task to run.
+    """
+    loop = asyncio.get_running_loop()
+    progress = asyncio.Event()
+    submitted = finished = 0
+
+    def on_event(event: Any) -> None:
+        nonlocal submitted, finished
+        if event.task_id != task_id:
+            return
+        if event.code == TASK_SUBMITTED:
+            submitted += len(event.scheduled_run_times)
+        else:
+            finished += 1
+        loop.call_soon_threadsafe(progress.set)
+
+    scheduler.add_listener(on_event, TASK_SUBMITTED | TASK_EXECUTED | TASK_ERROR | TASK_MISSED)
+    try:
+        await maybe_await(scheduler.run_task(task_id))
+        event_loop = getattr(scheduler, "event_loop", None)
+        if event_loop is not None and event_loop.is_running():
+            while finished < submitted:
+                progress.clear()
+                await progress.wait()
+    finally:
+        scheduler.remove_listener(on_event)
+
+
 def ensure_loop() -> asyncio.AbstractEventLoop:
     """
     Retrieves the currently running event loop. If no loop is running in the current
-- 
2.43.0


From 16239ea345623a069a2a1b386929bd458ab4bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 57/70] fix: the CLI refuses an executor alias that is given
 more than once

---
 asyncz/cli/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 1adee17..132861b 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -229,6 +229,8 @@ def build_executors_map(executors: list[str]) -> dict[str, dict[str, Any]]:
         cfg: dict[str, Any]
         alias, cfg = parse_executor(spec)
         etype: str = cfg.pop("type")
+        if alias in out:
+            raise ValueError(f"Executor alias '{alias}' is given more than once.")
 
         # Map simple type alias to the full class path
         if etype == "asyncio":
-- 
2.43.0


From 6b52f68af0b0cf903e88fc2daf06423995c33975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 58/70] fix: Ctrl+C does not cut a start or reload short, files
 changed while being loaded are reloaded

---
 asyncz/cli/commands/start.py | 43 +++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/asyncz/cli/commands/start.py b/asyncz/cli/commands/start.py
index d247bbd..043cfe5 100644
--- a/asyncz/cli/commands/start.py
+++ b/asyncz/cli/commands/start.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import asyncio
 import contextlib
 import importlib
+import signal
 import sys
 from typing import Annotated, Any
 
@@ -65,6 +66,8 @@ def start(
     waits for shutdown signals.
     """
     loop: asyncio.AbstractEventLoop = ensure_loop()
+    interrupted = False
+    waiting = False
 
     async def boot_once() -> AsyncIOScheduler:
         """
@@ -116,11 +119,12 @@ def start(
         """
         The main asynchronous loop that orchestrates scheduling, watching, and reloading.
         """
-        scheduler: AsyncIOScheduler = await boot_once()
-
-        # Determine watch targets if hot-reloading is enabled
+        nonlocal waiting
+        # Determine watch targets if hot-reloading is enabled, before they are read
         targets: list[WatchTarget] = collect_watch_targets(module, config) if watch else []
 
+        scheduler: AsyncIOScheduler = await boot_once()
+
         # Quick exit if not running in standalone/watch mode
         if not watch and not standalone:
             await maybe_await(_call_hook(on_stop))
@@ -128,7 +132,7 @@ def start(
             return
 
         try:
-            while True:
+            while not interrupted:
                 if watch and changed(targets):
                     info("Change detected, reloading...")
 
@@ -146,7 +150,12 @@ def start(
                     scheduler = await boot_once()
 
                 # Sleep interval for polling/waiting
-                await asyncio.sleep(watch_interval)
+                waiting = True
+                try:
+                    if not interrupted:
+                        await asyncio.sleep(watch_interval)
+                finally:
+                    waiting = False
 
         except (KeyboardInterrupt, asyncio.CancelledError):
             # Exit loop gracefully on standard interrupt signals
@@ -158,10 +167,24 @@ def start(
             await maybe_await(scheduler.shutdown(wait=True))
 
     main_task = loop.create_task(run_forever())
+
+    def leave() -> None:
+        # starting, reloading and stopping are not cut short
+        if waiting:
+            main_task.cancel()
+
+    def on_interrupt(signum: int, frame: Any) -> None:
+        nonlocal interrupted
+        if interrupted:
+            raise KeyboardInterrupt
+        interrupted = True
+        loop.call_soon_threadsafe(leave)
+
+    previous: Any = None
+    with contextlib.suppress(ValueError):  # signals are for the main thread only
+        previous = signal.signal(signal.SIGINT, on_interrupt)
     try:
         loop.run_until_complete(main_task)
-    except KeyboardInterrupt:
-        # let it leave its loop and shut down
-        main_task.cancel()
-        with contextlib.suppress(asyncio.CancelledError):
-            loop.run_until_complete(main_task)
+    finally:
+        if previous is not None:
+            signal.signal(signal.SIGINT, previous)
-- 
2.43.0


From aff80962ae285e1c16e138ac9a8dab2906bc98ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 59/70] fix: tasks written with an unregistered Shape are
 restored by it

---
 asyncz/stores/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/stores/base.py b/asyncz/stores/base.py
index 70d3cfd..d70a22f 100644
--- a/asyncz/stores/base.py
+++ b/asyncz/stores/base.py
@@ -163,7 +163,9 @@ class BaseStore(BaseStateExtra, StoreType):
                 f"Unsupported Asyncz task state version: {stored_state.version}."
             )
 
-        shape = resolve_shape(stored_state.shape)
+        # the Shape of the scheduler does not need to be registered
+        own_shape = stored_state.shape == self.shape.name
+        shape = self.shape if own_shape else resolve_shape(stored_state.shape)
         context = ShapeContext(
             entity=stored_state.entity,
             operation="restore",
-- 
2.43.0


From 5ace5a76e811d3ec4829f9f9a77a3d96361783fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 60/70] fix: Shapes restore their own dumps of aliased and
 private fields, None is left out where asked

---
 asyncz/shapes/builtins.py | 42 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 64adcc4..92c14d2 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -2,13 +2,14 @@ from __future__ import annotations
 
 import dataclasses
 from collections.abc import Mapping
-from inspect import isclass
+from inspect import isclass, signature
 from typing import Any, get_type_hints
 
 from asyncz.shapes.base import Shape, ShapeContext, ShapeField, dump_plain
 from asyncz.shapes.errors import (
     ShapeCapabilityError,
     ShapeDependencyError,
+    ShapeDeserializationError,
     ShapeSerializationError,
     ShapeValidationError,
 )
@@ -91,6 +92,27 @@ class PydanticShape(Shape):
                 ) from exc
         return super().dump(value, mode=mode, context=context, exclude_none=exclude_none)
 
+    def load(
+        self, model_type: type[Any], value: Any, *, context: ShapeContext | None = None
+    ) -> Any:
+        """
+        Restore a model from a dumped representation.
+
+        Dumps have the names of the fields, not their aliases.
+        """
+
+        if not self.supports(model_type) or isinstance(value, model_type):
+            return super().load(model_type, value, context=context)
+        options: dict[str, Any] = {}
+        if "by_name" in signature(model_type.model_validate).parameters:
+            options = {"by_alias": True, "by_name": True}
+        try:
+            return model_type.model_validate(value, **options)
+        except Exception as exc:
+            raise ShapeDeserializationError(
+                f'Shape "{self.name}" could not restore {model_type.__name__}.'
+            ) from exc
+
     def fields(
         self, model_type: type[Any], *, context: ShapeContext | None = None
     ) -> tuple[ShapeField, ...]:
@@ -294,6 +316,21 @@ class AttrsShape(Shape):
             }
         return super().dump(value, mode=mode, context=context, exclude_none=exclude_none)
 
+    def load(
+        self, model_type: type[Any], value: Any, *, context: ShapeContext | None = None
+    ) -> Any:
+        """
+        Restore an attrs instance from a dumped representation.
+
+        Dumps have the names of the attributes, the initializer takes their aliases.
+        """
+
+        attr = self._attrs()
+        if attr.has(model_type) and isinstance(value, Mapping):
+            aliases = {field.name: field.alias for field in attr.fields(model_type)}
+            value = {aliases.get(key, key): item for key, item in value.items()}
+        return super().load(model_type, value, context=context)
+
     def fields(
         self, model_type: type[Any], *, context: ShapeContext | None = None
     ) -> tuple[ShapeField, ...]:
@@ -397,7 +434,8 @@ class MsgspecShape(Shape):
         msgspec = self._msgspec()
         if self.supports(value):
             try:
-                return msgspec.to_builtins(value)
+                data = msgspec.to_builtins(value)
+                return dump_plain(data, exclude_none=True) if exclude_none else data
             except Exception as exc:
                 raise ShapeSerializationError(
                     f'Shape "{self.name}" could not dump {value.__class__.__name__}.'
-- 
2.43.0


From c83742b35c15fc597114b2d19330c3a1f60dc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:04 +0000
Subject: [PATCH 61/70] fix: a tentative task that is resumed without a next
 run time is no longer kept as paused

---
 asyncz/schedulers/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 3bed150..d0fa678 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -831,7 +831,13 @@ class BaseScheduler(SchedulerType):
 
             # the schedule of a shutdown task is not finished before the shutdown
             if next_run_time or getattr(task.trigger, "alias", None) == "shutdown":
-                return self.update_task(task_id, store, next_run_time=next_run_time)
+                resumed = self.update_task(task_id, store, next_run_time=next_run_time)
+                # a tentative task is no longer paused, even without a next run time
+                self.pending_tasks = [
+                    (pending, replace, start_task or pending is resumed)
+                    for pending, replace, start_task in self.pending_tasks
+                ]
+                return resumed
             else:
                 self.delete_task(task.id, store)
                 return None
-- 
2.43.0


From 1668399cdf2940f09fd0e7787ebf0eed23e7dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:07 +0000
Subject: [PATCH 62/70] fix: the time a round took was slept again, runs due in
 the meantime came late

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d0fa678..906ae84 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1877,7 +1877,9 @@ class BaseScheduler(SchedulerType):
                 self.loggers[self.logger_name].debug("No tasks. Waiting until task is added.")
 
         else:
-            wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
+            # this round took its time
+            remaining = timedelta_seconds(next_wakeup_time - datetime.now(self.timezone))
+            wait_seconds = min(max(remaining, 0), TIMEOUT_MAX)
             self.loggers[self.logger_name].debug(
                 f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
             )
-- 
2.43.0


From e9ce550eb4dc79da2889da9f7416eef939b32ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 63/70] fix: an interrupted read of a redis or MongoDB store no
 longer removes the task which was being read

---
 asyncz/stores/mongo.py | 2 +-
 asyncz/stores/redis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/stores/mongo.py b/asyncz/stores/mongo.py
index 10327c0..a696a35 100644
--- a/asyncz/stores/mongo.py
+++ b/asyncz/stores/mongo.py
@@ -86,7 +86,7 @@ class MongoDBStore(BaseStore):
         ):
             try:
                 tasks.append(self.rebuild_task(document["state"]))
-            except BaseException:
+            except Exception:
                 doc_id = document["_id"]
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{doc_id}'. Removing it..."
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 0dba240..de81b70 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -80,7 +80,7 @@ class RedisStore(BaseStore):
         for task_id, state in states:
             try:
                 tasks.append(self.rebuild_task(state))
-            except BaseException:
+            except Exception:
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-- 
2.43.0


From 616c6693cfeeda441e5449698339e78a48927d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 64/70] fix: schedulers which start at the same time on a new
 database no longer fail to create its table

---
 asyncz/stores/sqlalchemy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/stores/sqlalchemy.py b/asyncz/stores/sqlalchemy.py
index f8b8c85..0b8c32d 100644
--- a/asyncz/stores/sqlalchemy.py
+++ b/asyncz/stores/sqlalchemy.py
@@ -12,7 +12,7 @@ from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime
 
 try:
     import sqlalchemy
-    from sqlalchemy.exc import IntegrityError
+    from sqlalchemy.exc import DBAPIError, IntegrityError
 except ImportError:
     raise ImportError("SQLALchemyStore requires SQLALchemy to be installed") from None
 
@@ -61,7 +61,12 @@ class SQLAlchemyStore(BaseStore):
         When starting omits from the index any documents that lack next_run_time field.
         """
         super().start(scheduler, alias)
-        self.metadata.create_all(self.engine)
+        try:
+            self.metadata.create_all(self.engine)
+        except DBAPIError:
+            # another user of the database may have created it at the same time
+            if not sqlalchemy.inspect(self.engine).has_table(self.table.name):
+                raise
 
     def shutdown(self) -> None:
         self.engine.dispose()
-- 
2.43.0


From 7f3fd65736f7bc914460c1a0f1f2a06cc44c019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 65/70] fix: clean-up of an unreadable record leaves the task
 which has replaced it in the meantime

---
 asyncz/stores/mongo.py      |  9 +++++----
 asyncz/stores/redis.py      | 25 ++++++++++++++++++-------
 asyncz/stores/sqlalchemy.py | 11 +++++++----
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/asyncz/stores/mongo.py b/asyncz/stores/mongo.py
index a696a35..92f2132 100644
--- a/asyncz/stores/mongo.py
+++ b/asyncz/stores/mongo.py
@@ -79,7 +79,7 @@ class MongoDBStore(BaseStore):
 
     def get_tasks(self, conditions: DictAny) -> list["TaskType"]:
         tasks: list[TaskType] = []
-        failed_task_ids = []
+        failed_documents = []
 
         for document in self.collection.find(
             conditions, ["_id", "state"], sort=[("next_run_time", ASCENDING)]
@@ -91,10 +91,11 @@ class MongoDBStore(BaseStore):
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{doc_id}'. Removing it..."
                 )
-                failed_task_ids.append(doc_id)
+                failed_documents.append(document)
 
-        if failed_task_ids:
-            self.collection.delete_many({"_id": {"$in": failed_task_ids}})
+        for document in failed_documents:
+            # except it was replaced in the meantime
+            self.collection.delete_one({"_id": document["_id"], "state": document.get("state")})
 
         return tasks
 
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index de81b70..1da14c4 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -75,7 +75,7 @@ class RedisStore(BaseStore):
 
     def rebuild_tasks(self, states: Iterable[tuple[str, Any]]) -> list["TaskType"]:
         tasks = []
-        failed_task_ids = []
+        failed_tasks = []
 
         for task_id, state in states:
             try:
@@ -84,16 +84,27 @@ class RedisStore(BaseStore):
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-                failed_task_ids.append(task_id)
+                failed_tasks.append((task_id, state))
 
-        if failed_task_ids:
-            with self.redis.pipeline() as pipe:
-                pipe.hdel(self.tasks_key, *failed_task_ids)
-                pipe.zrem(self.run_times_key, *failed_task_ids)
-                pipe.execute()
+        for task_id, state in failed_tasks:
+            self.remove_unreadable(task_id, state)
 
         return tasks
 
+    def remove_unreadable(self, task_id: str, state: Any) -> None:
+        """
+        Removes a task which cannot be restored, except it was replaced in the meantime.
+        """
+
+        def remove(pipe: Any) -> None:
+            unchanged = pipe.hget(self.tasks_key, task_id) == state
+            pipe.multi()
+            if unchanged:
+                pipe.hdel(self.tasks_key, task_id)
+                pipe.zrem(self.run_times_key, task_id)
+
+        self.redis.transaction(remove, self.tasks_key)
+
     def get_next_run_time(self) -> datetime | None:
         next_run_time: Any = self.redis.zrange(self.run_times_key, 0, 0, withscores=True)
         if next_run_time:
diff --git a/asyncz/stores/sqlalchemy.py b/asyncz/stores/sqlalchemy.py
index 0b8c32d..1f746e8 100644
--- a/asyncz/stores/sqlalchemy.py
+++ b/asyncz/stores/sqlalchemy.py
@@ -90,7 +90,7 @@ class SQLAlchemyStore(BaseStore):
 
     def get_tasks(self, conditions: Any = None, limit: int = 0) -> list[TaskType]:
         tasks: list[TaskType] = []
-        failed_task_ids = []
+        failed_rows = []
         stmt = self.table.select().order_by(self.table.c.next_run_time.asc().nullslast())
         if conditions is not None:
             stmt = stmt.where(conditions)
@@ -107,10 +107,13 @@ class SQLAlchemyStore(BaseStore):
                     cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                         f"Unable to restore task '{task_id}'. Removing it..."
                     )
-                    failed_task_ids.append(task_id)
+                    failed_rows.append(row)
 
-            if failed_task_ids:
-                stmt2 = self.table.delete().where(self.table.c.id.in_(failed_task_ids))
+            for row in failed_rows:
+                # except it was replaced in the meantime
+                stmt2 = self.table.delete().where(
+                    self.table.c.id == row.id, self.table.c.state == row.state
+                )
                 conn.execute(stmt2)
                 conn.commit()
         return tasks
-- 
2.43.0


From 1d9cd0f124d434846620124091cebd3922f44852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:26 +0000
Subject: [PATCH 66/70] fix: users of one redis store no longer overwrite or
 revive each other's tasks

---
 asyncz/stores/redis.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 1da14c4..338ecb5 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -119,10 +119,11 @@ class RedisStore(BaseStore):
 
     def add_task(self, task: "TaskType") -> None:
         assert task.id
-        if self.redis.hexists(self.tasks_key, task.id):
-            raise ConflictIdError(task.id)
 
-        with self.redis.pipeline() as pipe:
+        def add(pipe: Any) -> None:
+            if pipe.hexists(self.tasks_key, task.id):
+                raise ConflictIdError(task.id)
+
             pipe.multi()
             pipe.hset(
                 self.tasks_key,
@@ -137,14 +138,18 @@ class RedisStore(BaseStore):
                     self.run_times_key,
                     {task.id: datetime_to_utc_timestamp(task.next_run_time)},
                 )
-            pipe.execute()
+
+        # nobody else may add it after the look
+        self.redis.transaction(add, self.tasks_key)
 
     def update_task(self, task: "TaskType") -> None:
         assert task.id
-        if not self.redis.hexists(self.tasks_key, task.id):
-            raise TaskLookupError(task.id)
 
-        with self.redis.pipeline() as pipe:
+        def update(pipe: Any) -> None:
+            if not pipe.hexists(self.tasks_key, task.id):
+                raise TaskLookupError(task.id)
+
+            pipe.multi()
             pipe.hset(
                 self.tasks_key,
                 task.id,
@@ -160,16 +165,16 @@ class RedisStore(BaseStore):
             else:
                 pipe.zrem(self.run_times_key, task.id)
 
-            pipe.execute()
+        # nobody else may remove it after the look
+        self.redis.transaction(update, self.tasks_key)
 
     def delete_task(self, task_id: str) -> None:
-        if not self.redis.hexists(self.tasks_key, task_id):
-            raise TaskLookupError(task_id)
-
         with self.redis.pipeline() as pipe:
             pipe.hdel(self.tasks_key, task_id)
             pipe.zrem(self.run_times_key, task_id)
-            pipe.execute()
+            deleted, _ = pipe.execute()
+        if not deleted:
+            raise TaskLookupError(task_id)
 
     def remove_all_tasks(self) -> None:
         with self.redis.pipeline() as pipe:
-- 
2.43.0


From 2bf5b7d96ed945f19c459d00058f2774999eea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:54 +0000
Subject: [PATCH 67/70] fix: refuse an endless grace time in edits of remote
 tasks as in those of local ones

---
 asyncz/contrib/dashboard/remote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 26d55b1..fe7754d 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -19,6 +19,7 @@ import urllib.request
 from collections.abc import Callable, Mapping
 from datetime import datetime
 from enum import Enum
+from math import inf
 from typing import Any
 
 from lilya.requests import Request
@@ -158,7 +159,8 @@ class RemoteTask:
         if "mistrigger_grace_time" in updates:
             mistrigger_grace_time = updates.pop("mistrigger_grace_time")
             if mistrigger_grace_time is not None and (
-                not isinstance(mistrigger_grace_time, int | float) or mistrigger_grace_time <= 0
+                not isinstance(mistrigger_grace_time, int | float)
+                or not 0 < mistrigger_grace_time < inf
             ):
                 raise TypeError(
                     "mistrigger_grace_time must be either None or a positive float/integer."
-- 
2.43.0


From f81f704a7692e5175655025b54288ee679c75b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:38 +0000
Subject: [PATCH 68/70] fix: pool executors take the cancel_futures and
 overwrite_wait parameters they document

---
 asyncz/executors/pool.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 269e1d1..e8ace49 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -24,9 +24,19 @@ class BasePoolExecutor(BaseExecutor):
     pool_closed: bool = False
 
     @abstractmethod
-    def __init__(self, pool: Any, **kwargs: Any) -> None:
+    def __init__(
+        self,
+        pool: Any,
+        cancel_futures: Optional[bool] = None,
+        overwrite_wait: Optional[bool] = None,
+        **kwargs: Any,
+    ) -> None:
         super().__init__(**kwargs)
         self.pool = pool
+        if cancel_futures is not None:
+            self.cancel_futures = cancel_futures
+        if overwrite_wait is not None:
+            self.overwrite_wait = overwrite_wait
         self.reporters: list[Thread] = []
 
     def start(self, scheduler: Any, alias: str) -> None:
-- 
2.43.0


From 63ca3f89d83e1f0a303c6b7319467520e6ccb150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:38 +0000
Subject: [PATCH 69/70] fix: runs queued in a process pool that is shut down
 without waiting are lost with its log pipe

---
 asyncz/executors/process_pool.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index 8c5b602..c8987b0 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -88,10 +88,12 @@ class ProcessPoolExecutor(BasePoolExecutor):
         if self.overwrite_wait is not None:
             wait = self.overwrite_wait
         super().shutdown(wait=wait)
-        if wait and not self.send_pipe.closed:
+        if not wait:
+            # the runs which are left still need the pipe, it is closed with its last reference
+            return
+        if not self.send_pipe.closed:
             # the end of the pipe may never be reached: copies of the pipe sent to workers which
             # died before they took them stay open
             self.send_pipe.send(None)
         self.send_pipe.close()
-        if wait:
-            self.logger_receiver.join()
+        self.logger_receiver.join()
-- 
2.43.0


From ce716cdc92098fbdbf24a85fa41f495f746af41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:25 +0000
Subject: [PATCH 70/70] fix: cron schedules never fire at other times or skip
 times right after unusual clock changes

---
 asyncz/triggers/cron/trigger.py | 54 ++++++++++++++++++++++++++-------
 asyncz/utils.py                 | 16 ++++++++++
 2 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 66dedcb..7176ecd 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -15,6 +15,7 @@ from asyncz.triggers.cron.fields import (
 from asyncz.utils import (
     datetime_ceil,
     datetime_repr,
+    first_clock_change,
     first_instant_after,
     localize,
     to_datetime,
@@ -203,17 +204,35 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        return self.move_forward(dateval, datetime(**values)), field_number
+        return self.move_forward(dateval, datetime(**values), field_number), field_number
 
-    def move_forward(self, dateval: datetime, target: datetime) -> datetime:
+    def move_forward(self, dateval: datetime, target: datetime, field_number: int) -> datetime:
         """
         Moves to the local time `target`, or as far as elapsed time allows when clocks are set back
-        in between, so that the repeated local times are visited as well.
+        in between, so that the repeated local times are visited as well. A skipped `target` is
+        not moved past matching local times right after the gap.
         """
         timezone = cast(tzinfo, dateval.tzinfo)
         after = dateval.astimezone(dttz.utc)
-        elapsed = after + (target - dateval.replace(tzinfo=None, fold=0))
-        return min(elapsed, first_instant_after(target, timezone, after)).astimezone(timezone)
+        wall_time = dateval.replace(tzinfo=None, fold=0)
+        elapsed = after + (target - wall_time)
+        moved = min(elapsed, first_instant_after(target, timezone, after))
+
+        # clocks are set back to before the time already visited
+        change = first_clock_change(timezone, after, min(moved, after + timedelta(days=1)))
+        if change is not None and change.replace(tzinfo=None) < wall_time:
+            return change
+
+        result = moved.astimezone(timezone)
+        gap = result.replace(tzinfo=None) - target
+        if gap > timedelta():
+            change = first_clock_change(timezone, max(after, moved - gap), moved)
+            names = [field.name for field in self.fields[: field_number + 1] if field.real]
+            if change is not None and change != result:
+                if all(getattr(change, name) == getattr(target, name) for name in names):
+                    return change
+                return self.get_next_match(change, result) or result
+        return result
 
     def set_field_value(
         self, dateval: datetime, field_number: int, new_value: Any
@@ -228,7 +247,7 @@ class CronTrigger(BaseTrigger):
                 else:
                     values[field.name] = new_value
 
-        return self.move_forward(dateval, datetime(**values))
+        return self.move_forward(dateval, datetime(**values), field_number)
 
     def get_next_trigger_time(
         self, timezone: tzinfo, previous_time: Optional[datetime], now: Optional[datetime] = None
@@ -258,13 +277,25 @@ class CronTrigger(BaseTrigger):
         elif start_at_field:
             start_at = max(start_at, start_at_field.astimezone(dttz.utc))
 
+        next_match = self.get_next_match(datetime_ceil(start_at).astimezone(timezone), end_at_field)
+        if next_match is None:
+            return None
+        next_date = self.apply_jitter(next_match, self.jitter, now)
+        return min(next_date, end_at_field).astimezone(timezone) if end_at_field else next_date
+
+    def get_next_match(
+        self, next_date: datetime, end_at_field: Optional[datetime]
+    ) -> Optional[datetime]:
+        """
+        Returns the first matching time from `next_date` on, not later than `end_at_field`.
+        """
         fieldnum = 0
-        next_date = datetime_ceil(start_at).astimezone(timezone)
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
             curr_value = field.get_value(next_date)
             next_value = field.get_next_value(next_date)
+            wall_time = next_date.replace(tzinfo=None, fold=0)
 
             if next_value is None:
                 next_date, fieldnum = self.increment_field_value(next_date, fieldnum - 1)
@@ -278,13 +309,14 @@ class CronTrigger(BaseTrigger):
             else:
                 fieldnum += 1
 
+            # start over if clocks were set back in between: larger fields may not match any more
+            if fieldnum > 0 and next_date.replace(tzinfo=None, fold=0) < wall_time:
+                fieldnum = 0
+
             if end_at_field and next_date > end_at_field:
                 return None
 
-        if fieldnum >= 0:
-            next_date = self.apply_jitter(next_date, self.jitter, now)
-            return min(next_date, end_at_field).astimezone(timezone) if end_at_field else next_date
-        return None
+        return next_date if fieldnum >= 0 else None
 
     def __getstate__(self) -> Any:
         state = CronState(
diff --git a/asyncz/utils.py b/asyncz/utils.py
index 8945031..317bda6 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -480,6 +480,22 @@ def first_instant_after(value: datetime, tzinfo: tzinfo, after: datetime) -> dat
     return instants[-1].astimezone(tzinfo)
 
 
+def first_clock_change(tzinfo: tzinfo, start: datetime, end: datetime) -> Optional[datetime]:
+    """
+    Returns the first instant after ``start`` with another offset, if there is another one at ``end``.
+    """
+    offset = start.astimezone(tzinfo).utcoffset()
+    if end.astimezone(tzinfo).utcoffset() == offset:
+        return None
+    while end - start > timedelta(seconds=1):
+        middle = start + timedelta(seconds=(end - start) // timedelta(seconds=2))
+        if middle.astimezone(tzinfo).utcoffset() == offset:
+            start = middle
+        else:
+            end = middle
+    return end.astimezone(tzinfo)
+
+
 def localize(value: datetime, tzinfo: tzinfo) -> datetime:
     if hasattr(tzinfo, "localize"):
         # pytz localize
-- 
2.43.0

