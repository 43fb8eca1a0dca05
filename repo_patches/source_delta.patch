From 79c7b1b21b34cbf0373c673e21efd4a2efb96caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 01/75] fix: record the stream id of promoted tasks so cancel
 and replace can remove them

---
 src/docket/worker.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..2c090c3 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -203,9 +203,13 @@ async def _stream_due_tasks(
                 )
                 redis.call('DEL', hash_key)
 
-                -- Set run state to queued
+                -- Set run state to queued, recording where the task now lives so
+                -- that cancel() and replace() can still find it
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key,
+                    'state', 'queued',
+                    'stream_id', message_id
+                )
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From e9109a970184564c9a8a6e5d27cba8f8254364f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 02/75] fix: cancelling a task while it is being claimed no
 longer stops the worker

---
 src/docket/worker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 2c090c3..4a5445d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -724,6 +724,13 @@ class Worker:
                             extra=log_context,
                         )
                         await e.execution.mark_as_cancelled()
+                except asyncio.CancelledError:
+                    if not task.cancelled():  # pragma: no cover
+                        raise
+                    # docket.cancel() reached the task outside of the guarded part
+                    # of _execute (e.g. while it was still being claimed).  That
+                    # ends this task, not the worker.
+                    await execution.mark_as_cancelled()
 
                 # Safety net: if nothing inside _execute or these except
                 # handlers acked the stream message (e.g. a custom
-- 
2.43.0


From df09001d03004eb18204c1e81405ed7b11e42100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 03/75] fix: a task cancelled between delivery and claim does
 not run

---
 src/docket/execution.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..bf98add 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -283,6 +283,15 @@ async def _claim(
             end
             return 'SUPERSEDED'
         end
+        -- Cancelled between delivery and this claim: cancel() has already
+        -- recorded the outcome, so the message must not run.
+        if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+            if message_id ~= '' then
+                redis.call('XACK', stream_key, worker_group_name, message_id)
+                redis.call('XDEL', stream_key, message_id)
+            end
+            return 'SUPERSEDED'
+        end
     end
 
     -- Update execution state to running
-- 
2.43.0


From f83c1f89e07f39c20d49e37eab8109f7c8b61508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 04/75] fix: scheduling a key again starts from a clean run
 record, so the old one's expiry cannot delete it

---
 src/docket/execution.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index bf98add..1d2b2cb 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -103,6 +103,18 @@ async def _schedule(
         end
     end
 
+    -- Start a new generation on a clean runs hash.  Whatever an earlier
+    -- generation left behind must not outlive it: an expiry set when it ended
+    -- would delete the record of this one while it is still pending (and the
+    -- message would then be dropped as superseded), and its worker, outcome and
+    -- result would be reported as this one's.
+    local function begin_generation()
+        local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+        redis.call('DEL', runs_key)
+        redis.call('HSET', runs_key, 'generation', tostring(new_gen))
+        return new_gen
+    end
+
     -- Handle rescheduling from stream: atomically ACK the original message and
     -- re-route the task.  Prevents both task loss (ACK before reschedule) and
     -- duplicate execution (reschedule before ACK with slow reschedule causing
@@ -115,8 +127,7 @@ async def _schedule(
         redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
         redis.call('XDEL', stream_key, reschedule_message_id)
 
-        -- Increment generation counter
-        local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+        local new_gen = begin_generation()
         if generation_index then
             message[generation_index] = tostring(new_gen)
         end
@@ -145,14 +156,8 @@ async def _schedule(
                 'args', args_data,
                 'kwargs', kwargs_data
             )
-            redis.call('HDEL', runs_key, 'stream_id')
         end
 
-        -- Clear fields written by the previous attempt's ``_claim`` so the
-        -- runs hash describes the rescheduled (queued/scheduled) attempt,
-        -- not the worker and start-time of the attempt that just failed.
-        redis.call('HDEL', runs_key, 'worker', 'started_at')
-
         redis.call('PUBLISH', state_channel, state_payload)
 
         return 'OK'
@@ -196,8 +201,7 @@ async def _schedule(
         end
     end
 
-    -- Increment generation counter
-    local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+    local new_gen = begin_generation()
     if generation_index then
         message[generation_index] = tostring(new_gen)
     end
-- 
2.43.0


From 895d864dc8d0dd09ed52fe39fd00f156524c3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 05/75] fix: cancel expires the record in the same step, not
 after a new task may have taken the key

---
 src/docket/docket.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..0214e59 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -76,6 +76,7 @@ async def _cancel_task(
     progress_key: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    ttl_seconds: Arg[int],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -113,6 +114,14 @@ async def _cancel_task(
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
     end
 
+    -- Expire (or, without observability, drop) the tombstone here and not in a
+    -- later command, which could hit a task added under this key meanwhile.
+    if ttl_seconds > 0 then
+        redis.call('EXPIRE', runs_key, ttl_seconds)
+    else
+        redis.call('DEL', runs_key)
+    end
+
     return 'OK'
     """
     ...
@@ -754,6 +763,10 @@ class Docket(DocketSnapshotMixin):
         completed_at = datetime.now(timezone.utc).isoformat()
         task_runs_key = self.runs_key(key)
 
+        ttl_seconds = (
+            int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+        )
+
         # Execute the cancellation script
         await _cancel_task(
             redis,
@@ -766,16 +779,9 @@ class Docket(DocketSnapshotMixin):
             progress_key=self.key(f"progress:{key}"),
             task_key=key,
             completed_at=completed_at,
+            ttl_seconds=ttl_seconds,
         )
 
-        # Apply TTL or delete tombstone based on execution_ttl
-        if self.execution_ttl:
-            ttl_seconds = int(self.execution_ttl.total_seconds())
-            await redis.expire(task_runs_key, ttl_seconds)
-        else:
-            # execution_ttl=0 means no observability - delete tombstone immediately
-            await redis.delete(task_runs_key)
-
     async def strike(
         self,
         function: Callable[P, Awaitable[R]] | str | None = None,
-- 
2.43.0


From 26cd9d9eebad103036e3a96e887844e51b6c1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 06/75] fix: cancelling a pending task announces the cancelled
 state to those waiting for it

---
 src/docket/docket.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 0214e59..8975133 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -42,6 +43,7 @@ from ._uuid7 import uuid7
 from .execution import (
     Disposition,
     Execution,
+    ExecutionState,
     TaskFunction,
 )
 from .instrumentation import (
@@ -74,9 +76,11 @@ async def _cancel_task(
     stream_id_key: Key[str],
     runs_key: Key[str],
     progress_key: Key[str],
+    state_channel: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
     ttl_seconds: Arg[int],
+    state_payload: Arg[str],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -112,6 +116,12 @@ async def _cancel_task(
     local current_state = redis.call('HGET', runs_key, 'state')
     if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+
+        -- Nothing else will announce the end of a task that never started; a
+        -- running one is announced by its worker once it has been interrupted.
+        if current_state ~= 'running' then
+            redis.call('PUBLISH', state_channel, state_payload)
+        end
     end
 
     -- Expire (or, without observability, drop) the tombstone here and not in a
@@ -766,6 +776,14 @@ class Docket(DocketSnapshotMixin):
         ttl_seconds = (
             int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
         )
+        state_payload = json.dumps(
+            {
+                "type": "state",
+                "key": key,
+                "state": ExecutionState.CANCELLED.value,
+                "completed_at": completed_at,
+            }
+        )
 
         # Execute the cancellation script
         await _cancel_task(
@@ -777,9 +795,11 @@ class Docket(DocketSnapshotMixin):
             stream_id_key=self.stream_id_key(key),
             runs_key=task_runs_key,
             progress_key=self.key(f"progress:{key}"),
+            state_channel=self.key(f"state:{key}"),
             task_key=key,
             completed_at=completed_at,
             ttl_seconds=ttl_seconds,
+            state_payload=state_payload,
         )
 
     async def strike(
-- 
2.43.0


From de42f29c323942ba11d6956861aef70e4a3d63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 07/75] fix: clear frees the keys it clears and leaves running
 tasks alone

---
 src/docket/docket.py | 144 ++++++++++++++++++++++++++-----------------
 1 file changed, 88 insertions(+), 56 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 8975133..df2bd01 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -137,6 +137,83 @@ async def _cancel_task(
     ...
 
 
+@redis_script
+async def _clear_tasks(
+    redis: RedisClient,
+    *,
+    stream_key: Key[str],
+    queue_key: Key[str],
+    docket_prefix: Arg[str],
+    completed_at: Arg[str],
+    ttl_seconds: Arg[int],
+) -> int:
+    """
+    -- Inline JSON-string escaper (see _stream_due_tasks for the rationale).
+    local function json_escape(s)
+        s = s:gsub('\\\\', '\\\\\\\\')
+        s = s:gsub('"', '\\\\"')
+        s = s:gsub('\\n', '\\\\n')
+        s = s:gsub('\\r', '\\\\r')
+        s = s:gsub('\\t', '\\\\t')
+        return s
+    end
+
+    -- Forget a task that has not started, leaving a tombstone like cancel()'s
+    -- and its key free to be scheduled again.
+    local function forget(task_key)
+        local runs_key = docket_prefix .. ":runs:" .. task_key
+
+        -- TODO: Remove in next breaking release (v0.14.0) - legacy key locations
+        redis.call('DEL',
+            docket_prefix .. ":known:" .. task_key,
+            docket_prefix .. ":stream-id:" .. task_key
+        )
+
+        redis.call('HDEL', runs_key, 'known', 'stream_id')
+        redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+        if ttl_seconds > 0 then
+            redis.call('EXPIRE', runs_key, ttl_seconds)
+        else
+            redis.call('DEL', runs_key)
+        end
+
+        local payload = '{"type":"state","key":"' .. json_escape(task_key) .. '","state":"cancelled","completed_at":"' .. completed_at .. '"}'
+        redis.call('PUBLISH', docket_prefix .. ":state:" .. task_key, payload)
+    end
+
+    local cleared = 0
+
+    for _, task_key in ipairs(redis.call('ZRANGE', queue_key, 0, -1)) do
+        redis.call('DEL', docket_prefix .. ":" .. task_key)
+        forget(task_key)
+        cleared = cleared + 1
+    end
+    redis.call('DEL', queue_key)
+
+    -- Entries are deleted one by one, which preserves the consumer group and
+    -- the messages of running tasks: claiming a task removes its stream_id.
+    for _, entry in ipairs(redis.call('XRANGE', stream_key, '-', '+')) do
+        local message_id = entry[1]
+        local fields = entry[2]
+        for i = 1, #fields, 2 do
+            if fields[i] == 'key' then
+                local task_key = fields[i + 1]
+                local runs_key = docket_prefix .. ":runs:" .. task_key
+                if redis.call('HGET', runs_key, 'stream_id') == message_id then
+                    redis.call('XDEL', stream_key, message_id)
+                    forget(task_key)
+                    cleared = cleared + 1
+                end
+                break
+            end
+        end
+    end
+
+    return cleared
+    """
+    ...
+
+
 P = ParamSpec("P")
 R = TypeVar("R")
 
@@ -874,60 +951,15 @@ class Docket(DocketSnapshotMixin):
             "docket.clear",
             attributes=self.labels(),
         ):
+            ttl_seconds = (
+                int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+            )
             async with self.redis() as redis:
-                async with redis.pipeline() as pipeline:
-                    # Get counts before clearing
-                    pipeline.xlen(self.stream_key)
-                    pipeline.zcard(self.queue_key)
-                    pipeline.zrange(self.queue_key, 0, -1)
-
-                    stream_count: int
-                    queue_count: int
-                    scheduled_keys: list[bytes]
-                    stream_count, queue_count, scheduled_keys = await pipeline.execute()
-
-                # Get keys from stream messages before trimming
-                stream_keys: list[str] = []
-                if stream_count > 0:
-                    # Read all messages from the stream
-                    messages = await redis.xrange(self.stream_key, "-", "+")
-                    for message_id, fields in messages:
-                        # Extract the key field from the message
-                        if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
-
-                async with redis.pipeline() as pipeline:
-                    # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
-                    pipeline.delete(self.queue_key)
-
-                    # Clear parked task data and known task keys for scheduled tasks
-                    for key_bytes in scheduled_keys:
-                        task_key = key_bytes.decode()
-                        pipeline.delete(self.parked_task_key(task_key))
-                        pipeline.delete(self.known_task_key(task_key))
-                        pipeline.delete(self.stream_id_key(task_key))
-
-                        # Handle runs hash: set TTL or delete based on execution_ttl
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    # Handle runs hash for immediate tasks from stream
-                    for task_key in stream_keys:
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    await pipeline.execute()
-
-                    total_cleared = stream_count + queue_count
-                    return total_cleared
+                return await _clear_tasks(
+                    redis,
+                    stream_key=self.stream_key,
+                    queue_key=self.queue_key,
+                    docket_prefix=self.prefix,
+                    completed_at=datetime.now(timezone.utc).isoformat(),
+                    ttl_seconds=ttl_seconds,
+                )
-- 
2.43.0


From 8c54ae4431da3e6f962ef090822c8bf51249b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 08/75] fix: a superseded run's retry, postponement or
 perpetuation leaves its successor alone

---
 src/docket/dependencies/_perpetual.py | 51 ++++++++++++++++-----------
 src/docket/dependencies/_retry.py     | 12 ++++++-
 src/docket/docket.py                  | 16 +++++++--
 src/docket/execution.py               | 46 ++++++++++++++++++------
 src/docket/worker.py                  |  9 +++--
 5 files changed, 97 insertions(+), 37 deletions(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..1b95240 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -100,29 +100,14 @@ class Perpetual(CompletionHandler["Perpetual"]):
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
         """Handle completion by scheduling the next execution."""
+        if await execution.is_superseded():
+            return self._superseded(execution, outcome)
+
         if self.cancelled:
-            docket = current_docket.get()
-            async with docket.redis() as redis:
-                await docket._cancel(redis, execution.key)
+            # Nothing is scheduled under this key: claiming this run retired its
+            # own entry, and had anyone scheduled another it would be superseded.
             return False
 
-        if await execution.is_superseded():
-            worker = current_worker.get()
-            TASKS_SUPERSEDED.add(
-                1,
-                {
-                    **worker.labels(),
-                    **execution.general_labels(),
-                    "docket.where": "on_complete",
-                },
-            )
-            logger.info(
-                "↬ [%s] %s (superseded)",
-                format_duration(outcome.duration.total_seconds()),
-                execution.call_repr(),
-            )
-            return True
-
         docket = current_docket.get()
         worker = current_worker.get()
 
@@ -132,10 +117,16 @@ class Perpetual(CompletionHandler["Perpetual"]):
             now = datetime.now(timezone.utc)
             when = max(now, now + self.every - outcome.duration)
 
-        await docket.replace(execution.function, when, execution.key)(
+        from ..execution import Disposition
+
+        successor = await docket.replace(
+            execution.function, when, execution.key, superseding=execution.generation
+        )(
             *self.args,
             **self.kwargs,
         )
+        if successor.disposition is Disposition.ALREADY_SCHEDULED:
+            return self._superseded(execution, outcome)
 
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
@@ -154,3 +145,21 @@ class Perpetual(CompletionHandler["Perpetual"]):
         )
 
         return True
+
+    def _superseded(self, execution: Execution, outcome: TaskOutcome) -> bool:
+        """Note that someone else has already decided what runs next."""
+        worker = current_worker.get()
+        TASKS_SUPERSEDED.add(
+            1,
+            {
+                **worker.labels(),
+                **execution.general_labels(),
+                "docket.where": "on_complete",
+            },
+        )
+        logger.info(
+            "↬ [%s] %s (superseded)",
+            format_duration(outcome.duration.total_seconds()),
+            execution.call_repr(),
+        )
+        return True
diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..3f11365 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -103,13 +103,23 @@ class Retry(FailureHandler["Retry"]):
         if self.attempts is not None and execution.attempt >= self.attempts:
             return False
 
+        from ..execution import Disposition
+
         execution.when = datetime.now(timezone.utc) + self.delay
         execution.attempt += 1
         # Pass both replace=True and the original message_id.  The reschedule
         # branch handles the ACK+XDEL of the failed message when message_id is
         # set; replace=True keeps correct behavior in the (otherwise
         # impossible) case where message_id is None.
-        await execution.schedule(replace=True, reschedule_message=execution.message_id)
+        disposition = await execution.schedule(
+            replace=True,
+            reschedule_message=execution.message_id,
+            superseding=execution.generation,
+        )
+        if disposition is not Disposition.SCHEDULED:
+            # Replaced while it was running: this was the last attempt.
+            execution.attempt -= 1
+            return False
 
         worker = current_worker.get()
         TASKS_RETRIED.add(1, {**worker.labels(), **execution.general_labels()})
diff --git a/src/docket/docket.py b/src/docket/docket.py
index df2bd01..2e095e6 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -545,6 +545,7 @@ class Docket(DocketSnapshotMixin):
         function: Callable[P, Awaitable[R]],
         when: datetime,
         key: str,
+        superseding: int = 0,
     ) -> Callable[P, Awaitable[Execution]]:
         """Replace a previously scheduled task on the Docket.
 
@@ -560,6 +561,7 @@ class Docket(DocketSnapshotMixin):
         function: str,
         when: datetime,
         key: str,
+        superseding: int = 0,
     ) -> Callable[..., Awaitable[Execution]]:
         """Replace a previously scheduled task on the Docket.
 
@@ -574,6 +576,7 @@ class Docket(DocketSnapshotMixin):
         function: Callable[P, Awaitable[R]] | str,
         when: datetime,
         key: str,
+        superseding: int = 0,
     ) -> Callable[..., Awaitable[Execution]]:
         """Replace a previously scheduled task on the Docket.
 
@@ -581,13 +584,17 @@ class Docket(DocketSnapshotMixin):
             function: The task to replace.
             when: The time to schedule the task.
             key: The key to schedule the task under.
+            superseding: If non-zero, only replace if no generation newer than this
+                one has been scheduled under the key (for a run that schedules its
+                own successor).
 
         Returns:
             A callable that, when invoked with the task's arguments, returns
             an :class:`Execution`. The returned execution's ``disposition`` is
             ``Disposition.SCHEDULED`` if the task was placed (overwriting any
-            prior schedule for ``key``), or ``Disposition.STRUCK`` if a strike
-            rule blocked the call.
+            prior schedule for ``key``), ``Disposition.STRUCK`` if a strike
+            rule blocked the call, or ``Disposition.ALREADY_SCHEDULED`` if a
+            generation newer than ``superseding`` exists.
         """
         function_name: str | None = None
         if isinstance(function, str):
@@ -638,9 +645,12 @@ class Docket(DocketSnapshotMixin):
                     return execution
 
                 # Schedule atomically (includes state record write)
-                await execution.schedule(replace=True)
+                await execution.schedule(replace=True, superseding=superseding)
                 span.set_attribute("docket.disposition", execution.disposition.value)
 
+            if execution.disposition is not Disposition.SCHEDULED:
+                return execution
+
             TASKS_REPLACED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_CANCELLED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 1d2b2cb..fa1b07e 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -70,6 +70,7 @@ async def _schedule(
     is_immediate: Arg[bool],
     replace: Arg[bool],
     reschedule_message_id: Arg[bytes],
+    superseding: Arg[int],
     worker_group_name: Arg[str],
     state_payload: Arg[str],
     message: Args[dict[bytes, bytes]],
@@ -115,6 +116,20 @@ async def _schedule(
         return new_gen
     end
 
+    -- A run that schedules its own successor (a retry, a postponement, the next
+    -- run of a perpetual) may only do so while it is still the newest
+    -- generation; otherwise whoever replaced it has decided what runs next.
+    if superseding > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > superseding then
+            if reschedule_message_id ~= '' then
+                redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
+                redis.call('XDEL', stream_key, reschedule_message_id)
+            end
+            return 'SUPERSEDED'
+        end
+    end
+
     -- Handle rescheduling from stream: atomically ACK the original message and
     -- re-route the task.  Prevents both task loss (ACK before reschedule) and
     -- duplicate execution (reschedule before ACK with slow reschedule causing
@@ -667,7 +682,10 @@ class Execution:
         return [trace.Link(initiating_context)] if initiating_context.is_valid else []
 
     async def schedule(
-        self, replace: bool = False, reschedule_message: "RedisMessageID | None" = None
+        self,
+        replace: bool = False,
+        reschedule_message: "RedisMessageID | None" = None,
+        superseding: int = 0,
     ) -> Disposition:
         """Schedule this task atomically in Redis.
 
@@ -691,17 +709,24 @@ class Execution:
             reschedule_message: If provided, atomically acknowledges and deletes
                     this stream message ID before rescheduling the task to the queue.
                     Used when a task needs to be rescheduled from an active stream message.
+            superseding: If non-zero, only schedule if no generation newer than
+                    this one exists.  Rescheduling a message implies this
+                    execution's own generation.
 
         Returns:
             ``Disposition.SCHEDULED`` if the task was placed on the queue/stream,
             or ``Disposition.ALREADY_SCHEDULED`` if a task with the same key was
-            already known and ``replace=False`` (in which case the existing
-            schedule is preserved and no local state changes are published).
+            already known and ``replace=False``, or the run being rescheduled was
+            superseded (in which case the existing schedule is preserved and no
+            local state changes are published).
             Sets ``self.disposition`` to the same value.
         """
         message: dict[bytes, bytes] = self.as_message()
         propagate.inject(message, setter=message_setter)
 
+        if reschedule_message and not superseding:
+            superseding = self._generation
+
         key = self.key
         when = self.when
         known_task_key = self.docket.known_task_key(key)
@@ -743,12 +768,19 @@ class Execution:
                     is_immediate=is_immediate,
                     replace=replace,
                     reschedule_message_id=reschedule_message or b"",
+                    superseding=superseding,
                     worker_group_name=self.docket.worker_group_name,
                     state_payload=state_payload,
                     message=message,
                 )
 
-        if reply in (b"EXISTS", "EXISTS"):
+        # The reschedule branch in `_schedule` XACKed and XDELed the original
+        # stream message, so any caller passing in our own message_id has
+        # implicitly retired this Execution's pending entry.
+        if reschedule_message and reschedule_message == self.message_id:
+            self._acked = True
+
+        if reply in (b"EXISTS", "EXISTS", b"SUPERSEDED", "SUPERSEDED"):
             # An existing schedule for this key remains untouched; leave local
             # state alone and do not publish a misleading state event.
             self.disposition = Disposition.ALREADY_SCHEDULED
@@ -759,12 +791,6 @@ class Execution:
         else:
             self.state = ExecutionState.SCHEDULED
 
-        # The reschedule branch in `_schedule` XACKed and XDELed the original
-        # stream message, so any caller passing in our own message_id has
-        # implicitly retired this Execution's pending entry.
-        if reschedule_message and reschedule_message == self.message_id:
-            self._acked = True
-
         self.disposition = Disposition.SCHEDULED
         return self.disposition
 
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 4a5445d..1db7d73 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -73,7 +73,7 @@ from .docket import (
     RedisMessageID,
     RedisReadGroupResponse,
 )
-from .execution import TaskFunction, compact_signature, get_signature
+from .execution import Disposition, TaskFunction, compact_signature, get_signature
 from .instrumentation import (
     QUEUE_DEPTH,
     REDIS_DISRUPTIONS,
@@ -716,7 +716,12 @@ class Worker:
                             extra=log_context,
                         )
                         e.execution.when = datetime.now(timezone.utc) + delay
-                        await e.execution.schedule(reschedule_message=message_id)
+                        if (
+                            await e.execution.schedule(reschedule_message=message_id)
+                            is not Disposition.SCHEDULED
+                        ):
+                            # Replaced while it was being admitted.
+                            await e.execution.mark_as_cancelled()
                     else:
                         logger.debug(
                             "⏭ Task %s blocked by admission control, dropping",
-- 
2.43.0


From fd767da02d32e409ed9040da89d4b3c25dffa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 09/75] fix: a superseded run does not overwrite the stored
 result of its successor

---
 src/docket/worker.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 1db7d73..dd1ca2c 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1149,7 +1149,12 @@ class Worker:
                     else:
                         # No handler or handler didn't handle - normal completion
                         result_key = None
-                        if result is not None and self.docket.execution_ttl:
+                        if (
+                            result is not None
+                            and self.docket.execution_ttl
+                            # The result belongs to the newest run of the key
+                            and not await execution.is_superseded()
+                        ):
                             # Serialize and store result
                             pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
                             # Base64-encode for JSON serialization
@@ -1230,7 +1235,11 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
-                    if self.docket.execution_ttl:
+                    if (
+                        self.docket.execution_ttl
+                        # The result belongs to the newest run of the key
+                        and not await execution.is_superseded()
+                    ):
                         pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
-- 
2.43.0


From db55552ad022bdadb893dfd3417eb7e8666856cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 10/75] fix: a superseded run's progress reports are not mixed
 into its successor's

---
 src/docket/_execution_progress.py | 54 ++++++++++++++++++++++++++++---
 src/docket/execution.py           |  4 ++-
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 13cae8d..4089148 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -28,11 +28,21 @@ async def _progress_write(
     redis: RedisClient,
     *,
     progress_key: Key[str],
+    generation: Arg[int],
     payload: Arg[str],
     clear_message: Arg[bool],
     fields: Args[dict[str, str]],
 ) -> bytes:
     """
+    -- A newer run of this key is reporting here: what an older, superseded run
+    -- still has to say must not be mixed into it (generation 0 = untracked).
+    if generation > 0 then
+        local owner = redis.call('HGET', progress_key, 'generation')
+        if owner and tonumber(owner) > generation then
+            return 'SUPERSEDED'
+        end
+    end
+
     local hset_args = {}
     for i = fields_start, #ARGV, 2 do
         hset_args[#hset_args + 1] = ARGV[i]
@@ -50,6 +60,31 @@ async def _progress_write(
     ...
 
 
+@redis_script
+async def _progress_increment(
+    redis: RedisClient,
+    *,
+    progress_key: Key[str],
+    generation: Arg[int],
+    amount: Arg[int],
+    updated_at: Arg[str],
+) -> int:
+    """
+    -- See _progress_write; a count is never negative, so -1 says "superseded".
+    if generation > 0 then
+        local owner = redis.call('HGET', progress_key, 'generation')
+        if owner and tonumber(owner) > generation then
+            return -1
+        end
+    end
+
+    local current = redis.call('HINCRBY', progress_key, 'current', amount)
+    redis.call('HSET', progress_key, 'updated_at', updated_at)
+    return current
+    """
+    ...
+
+
 class ProgressEvent(TypedDict):
     type: Literal["progress"]
     key: str
@@ -82,15 +117,17 @@ class ExecutionProgress:
     This data is ephemeral and deleted when the task completes.
     """
 
-    def __init__(self, docket: "Docket", key: str) -> None:
+    def __init__(self, docket: "Docket", key: str, generation: int = 0) -> None:
         """Initialize progress tracker for a specific task.
 
         Args:
             docket: The docket instance
             key: The task execution key
+            generation: The scheduling generation of the reporting run, if known
         """
         self.docket = docket
         self.key = key
+        self.generation = generation
         self._redis_key = docket.key(f"progress:{key}")
         self.current: int | None = None
         self.total: int = 1
@@ -144,6 +181,7 @@ class ExecutionProgress:
             await _progress_write(
                 redis,
                 progress_key=self._redis_key,
+                generation=self.generation,
                 payload=json.dumps(payload),
                 clear_message=False,
                 fields={"total": str(total), "updated_at": updated_at},
@@ -163,10 +201,15 @@ class ExecutionProgress:
         updated_at_dt = datetime.now(timezone.utc)
         updated_at = updated_at_dt.isoformat()
         async with self.docket.redis() as redis:
-            async with redis.pipeline() as pipe:
-                pipe.hincrby(self._redis_key, "current", amount)
-                pipe.hset(self._redis_key, "updated_at", updated_at)
-                new_current, _ = await pipe.execute()
+            new_current = await _progress_increment(
+                redis,
+                progress_key=self._redis_key,
+                generation=self.generation,
+                amount=amount,
+                updated_at=updated_at,
+            )
+        if new_current < 0:
+            return
         # Update instance attributes using Redis return value
         self.current = new_current
         self.updated_at = updated_at_dt
@@ -197,6 +240,7 @@ class ExecutionProgress:
             await _progress_write(
                 redis,
                 progress_key=self._redis_key,
+                generation=self.generation,
                 payload=json.dumps(payload),
                 clear_message=message is None,
                 fields=fields,
diff --git a/src/docket/execution.py b/src/docket/execution.py
index fa1b07e..15f93e5 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -531,7 +531,9 @@ class Execution:
         self.disposition: Disposition = Disposition.LOADED
 
         # Progress tracking
-        self.progress: ExecutionProgress = ExecutionProgress(docket, key)
+        self.progress: ExecutionProgress = ExecutionProgress(
+            docket, key, generation
+        )
 
         # Redis key
         self._redis_key = docket.key(f"runs:{key}")
-- 
2.43.0


From 6ba1bd104e32de929ce849a2149892aae60ed5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 11/75] fix: a task's own timeout error, or a result on the
 dot, is its outcome

---
 src/docket/dependencies/_timeout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..ea85189 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -91,6 +91,11 @@ class Timeout(Runtime["Timeout"]):
                     )
                 except asyncio.TimeoutError:
                     continue
+
+            if not timed_out:
+                # The task ended by itself, just as its time ran out or with a
+                # timeout error of its own: that is its outcome.
+                return task.result()
         finally:
             if not task.done():
                 timeout_reason = (
-- 
2.43.0


From eb3a0f4ad35d48137eee87645043f5e0562a0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 12/75] fix: exponential retries do not overflow after many
 attempts

---
 src/docket/dependencies/_retry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 3f11365..a0e68e0 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -214,8 +214,13 @@ class ExponentialRetry(Retry):
         retry.attempt = execution.attempt
 
         if execution.attempt > 1:
-            backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
+            # Stop doubling at the maximum: the number of attempts may be
+            # unlimited, but a timedelta is not.
+            calculated_delay = self.delay
+            for _ in range(execution.attempt - 1):
+                if not calculated_delay or calculated_delay > self.maximum_delay:
+                    break
+                calculated_delay *= 2
 
             if calculated_delay > self.maximum_delay:
                 retry.delay = self.maximum_delay
-- 
2.43.0


From 2de922193021d819d0af8b3efac14ba23a7dc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 13/75] fix: a cron task's first run waits for the next time
 from now, not from its declaration

---
 src/docket/dependencies/_cron.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index abb99c8..706152e 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -104,7 +104,13 @@ class Cron(Perpetual):
 
     @property
     def initial_when(self) -> datetime:
-        """Return the next cron time for initial scheduling."""
+        """Return the next cron time for initial scheduling.
+
+        Counts from now, not from when this Cron was declared: by the time a
+        worker asks (at startup, or to restart a lost chain) the times since the
+        declaration are past, and scheduling one would run the task at once.
+        """
+        self._iterator = CronSim(self.expression, datetime.now(self.tz))
         return self.next_time()
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
-- 
2.43.0


From 6b0b4fcb8f84527c55061b4533edeeb53f04b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 14/75] fix: cancelling a key interrupts its current run even
 right after an earlier run of it ended

A retried, perpetuated or replaced-while-running task could not be interrupted:
cleaning up after its previous run forgot the new run of the same key.
---
 src/docket/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index dd1ca2c..f69662c 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -699,7 +699,10 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                # The key may already be running again (retried, perpetuated or
+                # replaced), and that run must stay reachable for docket.cancel().
+                if self._tasks_by_key.get(execution.key) is task:
+                    del self._tasks_by_key[execution.key]
                 try:
                     await task
                 except AdmissionBlocked as e:
-- 
2.43.0


From 79b4153df718839d298efae6fefd24c7008ed4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 15/75] fix: a run that was cancelled does not schedule its
 retry or next run afterwards

---
 src/docket/execution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 15f93e5..b73fb0c 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -117,11 +117,13 @@ async def _schedule(
     end
 
     -- A run that schedules its own successor (a retry, a postponement, the next
-    -- run of a perpetual) may only do so while it is still the newest
-    -- generation; otherwise whoever replaced it has decided what runs next.
+    -- run of a perpetual) may only do so while it is still the newest generation
+    -- and was not cancelled; otherwise whoever replaced or cancelled it has
+    -- decided what runs next.
     if superseding > 0 then
         local current = redis.call('HGET', runs_key, 'generation')
-        if not current or tonumber(current) > superseding then
+        if not current or tonumber(current) > superseding
+            or redis.call('HGET', runs_key, 'state') == 'cancelled' then
             if reschedule_message_id ~= '' then
                 redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
                 redis.call('XDEL', stream_key, reschedule_message_id)
-- 
2.43.0


From c06cda600522279ff39d29187d0af03bdac7075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 16/75] fix: a cancellation arriving while a finished run is
 recorded does not overwrite its outcome

---
 src/docket/_cancellation.py | 17 +++++++++++++-
 src/docket/execution.py     | 45 +++++++++++++++++++++++++------------
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/docket/_cancellation.py b/src/docket/_cancellation.py
index f3f95eb..3fd7575 100644
--- a/src/docket/_cancellation.py
+++ b/src/docket/_cancellation.py
@@ -14,7 +14,9 @@ The cancel_task() helper handles this by tracking that we initiated the cancel.
 
 import asyncio
 import sys
-from typing import Any
+from typing import Any, Awaitable, TypeVar
+
+T = TypeVar("T")
 
 # Sentinel message for internal cancellation during cleanup
 CANCEL_MSG_CLEANUP = "docket:cleanup"
@@ -41,6 +43,19 @@ def is_our_cancellation(exc: asyncio.CancelledError, expected_msg: str) -> bool:
     return bool(exc.args and exc.args[0] == expected_msg)
 
 
+async def uninterrupted(awaitable: Awaitable[T]) -> T:
+    """Await something that must not be abandoned halfway.
+
+    A cancellation arriving meanwhile is raised once it has finished.
+    """
+    task = asyncio.ensure_future(awaitable)
+    try:
+        return await asyncio.shield(task)
+    except asyncio.CancelledError:
+        await asyncio.wait([task])
+        raise
+
+
 async def cancel_task(task: "asyncio.Task[Any]", reason: str) -> None:
     """Cancel a task and await its completion, suppressing our own cancellation.
 
diff --git a/src/docket/execution.py b/src/docket/execution.py
index b73fb0c..c7a3879 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -20,6 +20,7 @@ import cloudpickle
 import opentelemetry.context
 import uncalled_for
 from opentelemetry import propagate, trace
+from ._cancellation import uninterrupted
 from ._telemetry import suppress_instrumentation
 from typing_extensions import Self
 
@@ -397,6 +398,19 @@ async def _terminal(
         end
     end
 
+    -- A cancellation that arrives while a run is being wrapped up comes too
+    -- late to change (or announce again) how the run has already ended.
+    if state == 'cancelled' then
+        local ended = redis.call('HGET', runs_key, 'state')
+        if ended == 'completed' or ended == 'failed' then
+            if message_id ~= '' then
+                redis.call('XACK', stream_key, worker_group_name, message_id)
+                redis.call('XDEL', stream_key, message_id)
+            end
+            return 'ENDED'
+        end
+    end
+
     -- Build HSET args: state + completed_at + any extras
     local hset_args = {'state', state, 'completed_at', completed_at}
     for i = extra_fields_start, #ARGV, 2 do
@@ -922,20 +936,23 @@ class Execution:
 
         with self._maybe_suppress_instrumentation():
             async with self.docket.redis() as redis:
-                await _terminal(
-                    redis,
-                    runs_key=self._redis_key,
-                    state_channel=self.docket.key(f"state:{self.key}"),
-                    progress_key=self.progress._redis_key,
-                    stream_key=self.docket.stream_key,
-                    generation=self._generation,
-                    state=state.value,
-                    completed_at=completed_at,
-                    ttl_seconds=ttl_seconds,
-                    state_payload=state_payload,
-                    worker_group_name=self.docket.worker_group_name,
-                    message_id=self.message_id or b"",
-                    extra_fields=extra_fields,
+                # (A cancellation must not leave it unknown how the run was recorded.)
+                await uninterrupted(
+                    _terminal(
+                        redis,
+                        runs_key=self._redis_key,
+                        state_channel=self.docket.key(f"state:{self.key}"),
+                        progress_key=self.progress._redis_key,
+                        stream_key=self.docket.stream_key,
+                        generation=self._generation,
+                        state=state.value,
+                        completed_at=completed_at,
+                        ttl_seconds=ttl_seconds,
+                        state_payload=state_payload,
+                        worker_group_name=self.docket.worker_group_name,
+                        message_id=self.message_id or b"",
+                        extra_fields=extra_fields,
+                    )
                 )
 
         self.state = state
-- 
2.43.0


From 570243513c31d689e26e7430e6e62c09f3230c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 17/75] fix: a task cancelled or replaced while it takes, waits
 for or gives back a concurrency slot leaks nothing

Cancelled or replaced between claim and admission, it was parked as if it were
the newest definition; cancelled while the slot was taken or released, the slot
stayed taken until it went stale.
---
 src/docket/dependencies/_concurrency.py | 67 +++++++++++++++++--------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..fc75824 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -11,7 +11,7 @@ from typing import TYPE_CHECKING, Any, AsyncIterator, overload
 
 from opentelemetry import propagate
 
-from .._cancellation import CANCEL_MSG_CLEANUP, cancel_task
+from .._cancellation import CANCEL_MSG_CLEANUP, cancel_task, uninterrupted
 from .._lua import Arg, Args, Key, redis_script
 from .._redis import RedisClient
 from ..instrumentation import message_setter
@@ -55,6 +55,7 @@ async def _acquire_or_park(
     is_redelivery: Arg[bool],
     stale_threshold: Arg[float],
     key_ttl: Arg[int],
+    generation: Arg[int],
     message_id: Arg[bytes],
     worker_group_name: Arg[str],
     state_channel: Arg[str],
@@ -66,7 +67,16 @@ async def _acquire_or_park(
     -- atomically.  Returns 1 if acquired (task should run), 0 if parked
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
-    -- so the worker takes no further action).
+    -- so the worker takes no further action), or 2 if the task was cancelled
+    -- or replaced since it was claimed (it must neither run nor be parked:
+    -- parking would make it the newest generation and revive it).
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > generation
+            or redis.call('HGET', runs_key, 'state') == 'cancelled' then
+            return 2
+        end
+    end
 
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
@@ -573,23 +583,38 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             {"type": "state", "key": execution.key, "state": "scheduled"}
         )
         async with docket.redis() as redis:
-            result = await _acquire_or_park(
-                redis,
-                slots_key=concurrency_key,
-                waiters_stream=waiters_stream,
-                stream_key=docket.stream_key,
-                runs_key=execution._redis_key,
-                max_concurrent=self.max_concurrent,
-                task_key=execution.key,
-                current_time=current_time,
-                is_redelivery=execution.redelivered,
-                stale_threshold=stale_threshold,
-                key_ttl=key_ttl,
-                message_id=execution.message_id,
-                worker_group_name=docket.worker_group_name,
-                state_channel=f"{docket.prefix}:state:{execution.key}",
-                state_payload=park_state_payload,
-                message=message,
+            acquiring = asyncio.ensure_future(
+                _acquire_or_park(
+                    redis,
+                    slots_key=concurrency_key,
+                    waiters_stream=waiters_stream,
+                    stream_key=docket.stream_key,
+                    runs_key=execution._redis_key,
+                    max_concurrent=self.max_concurrent,
+                    task_key=execution.key,
+                    current_time=current_time,
+                    is_redelivery=execution.redelivered,
+                    stale_threshold=stale_threshold,
+                    key_ttl=key_ttl,
+                    generation=execution.generation,
+                    message_id=execution.message_id,
+                    worker_group_name=docket.worker_group_name,
+                    state_channel=f"{docket.prefix}:state:{execution.key}",
+                    state_payload=park_state_payload,
+                    message=message,
+                )
+            )
+            try:
+                result = await uninterrupted(acquiring)
+            except asyncio.CancelledError:  # pragma: no cover - cancelled meanwhile
+                if acquiring.result() == 1:
+                    await limit._release_and_wake()
+                raise
+
+        if result == 2:
+            # The worker drops it, recording and announcing it as cancelled.
+            raise AdmissionBlocked(
+                execution, reason="cancelled or replaced", reschedule=False
             )
 
         if not bool(result):  # pragma: no branch
@@ -630,7 +655,9 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             name=f"{docket.name} - concurrency lease:{execution.key}",
         )
         stack = _Depends.stack.get()
-        stack.push_async_callback(limit._release_and_wake)
+        stack.push_async_callback(
+            lambda: uninterrupted(limit._release_and_wake()),
+        )
         stack.push_async_callback(cancel_task, limit._renewal_task, CANCEL_MSG_CLEANUP)
 
         return limit
-- 
2.43.0


From 7a59111d3da19f7c958118ab391a873be48e772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 18/75] fix: add() under the key of a task waiting for a
 concurrency slot is rejected

---
 src/docket/dependencies/_concurrency.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index fc75824..a788e2f 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -137,9 +137,11 @@ async def _acquire_or_park(
     local waiter_entry_id = redis.call('XADD', waiters_stream, '*', unpack(message))
 
     -- Record the waiter's location so the dependency's cancel subscriber can
-    -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- find and XDEL the waiter entry when the task transitions to 'cancelled',
+    -- and mark the key as known again so add() dedups against the waiter.
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', redis.call('HGET', runs_key, 'when') or current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
-- 
2.43.0


From 29555d3dea43bca871278ba36174316c32c34008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 19/75] fix: cancelled or replaced waiters neither use up a
 freed slot nor revive

A dropped waiter consumed the capacity meant for the next one, and a waiter
whose key had been replaced was forwarded as the newest definition.
---
 src/docket/dependencies/_concurrency.py | 128 +++++++++++++-----------
 1 file changed, 72 insertions(+), 56 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index a788e2f..e8a77a8 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -209,9 +209,14 @@ async def _release_and_wake(
         end
     end
 
+    -- Waiters that are dropped take no slot, so keep going until the capacity
+    -- is used up or nobody is waiting (every entry looked at is XDEL'd).
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity > 0 then
+    while capacity > 0 do
         local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
+        end
         for _, entry in ipairs(entries) do
             local waiter_id = entry[1]
             local fields = entry[2]
@@ -228,20 +233,25 @@ async def _release_and_wake(
 
             local runs_key = runs_prefix .. waiter_task_key
 
-            -- Forward only if the task is still in the parked state.  Anything
-            -- else -- 'cancelled', a missing runs hash (DELed by a cancel with
-            -- execution_ttl=0), or any other terminal state -- means the task
-            -- has been superseded and must not be revived.  Drop the waiter
-            -- entry without forwarding.
+            -- Forward only if the task is still parked, with this very entry.
+            -- Anything else -- 'cancelled', a missing runs hash (DELed by a
+            -- cancel with execution_ttl=0), any other terminal state, or a
+            -- replacement scheduled since -- means the entry has been superseded
+            -- and must not be revived.  Drop it without forwarding.
             local current_state = redis.call('HGET', runs_key, 'state')
+            local current_entry = redis.call('HGET', runs_key, 'waiter_entry_id')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if current_state ~= 'scheduled' or current_entry ~= waiter_id then
                 redis.call('XDEL', waiters_stream, waiter_id)
-                -- Cancelled/superseded waiter: drop its safeguard backstop too.
-                redis.call('ZREM', queue_key, safeguard_key)
-                redis.call('DEL', parked_prefix .. safeguard_key)
-                redis.call('DEL', runs_prefix .. safeguard_key)
+                -- Cancelled/superseded waiter: drop its safeguard backstop too,
+                -- unless the key's replacement is parked and relies on it.
+                if current_state ~= 'scheduled' or not current_entry then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
             else
+                capacity = capacity - 1
                 local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
                 for i = 1, #fields, 2 do
                     if fields[i] == 'generation' then
@@ -327,55 +337,60 @@ async def _scavenge_and_wake(
     end
 
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity == 0 then
-        return 0
-    end
-
     local woken = 0
-    local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
-    for _, entry in ipairs(entries) do
-        local waiter_id = entry[1]
-        local fields = entry[2]
-
-        local waiter_task_key
-        for i = 1, #fields, 2 do
-            if fields[i] == 'key' then
-                waiter_task_key = fields[i + 1]
-                break
-            end
+    while woken < capacity do
+        local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity - woken)
+        if #entries == 0 then
+            break
         end
+        for _, entry in ipairs(entries) do
+            local waiter_id = entry[1]
+            local fields = entry[2]
 
-        local runs_key = runs_prefix .. waiter_task_key
-
-        -- Skip cancelled/superseded waiters: drop the entry without forwarding.
-        local current_state = redis.call('HGET', runs_key, 'state')
-        local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
-        else
-            local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+            local waiter_task_key
             for i = 1, #fields, 2 do
-                if fields[i] == 'generation' then
-                    fields[i + 1] = tostring(new_gen)
+                if fields[i] == 'key' then
+                    waiter_task_key = fields[i + 1]
+                    break
                 end
             end
 
-            local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
-            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+            local runs_key = runs_prefix .. waiter_task_key
 
-            -- Cancel the safeguard task this waiter scheduled on park.
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+            -- Skip cancelled/superseded waiters: drop the entry without forwarding
+            -- (see _release_and_wake for the rationale).
+            local current_state = redis.call('HGET', runs_key, 'state')
+            local current_entry = redis.call('HGET', runs_key, 'waiter_entry_id')
+            local safeguard_key = '__safeguard__:' .. waiter_task_key
+            if current_state ~= 'scheduled' or current_entry ~= waiter_id then
+                redis.call('XDEL', waiters_stream, waiter_id)
+                if current_state ~= 'scheduled' or not current_entry then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
+            else
+                local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+                for i = 1, #fields, 2 do
+                    if fields[i] == 'generation' then
+                        fields[i + 1] = tostring(new_gen)
+                    end
+                end
+
+                local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
+                redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+                -- Cancel the safeguard task this waiter scheduled on park.
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
 
-            local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
-            redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
-            woken = woken + 1
+                local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
+                redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                woken = woken + 1
+            end
         end
     end
 
@@ -639,13 +654,14 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             # no-op (the safeguard hadn't been added yet), and we'd leak
             # the safeguard into the future queue -- preventing
             # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we've already been forwarded back to
-            # the main stream, cancel the leftover safeguard.
+            # If the runs hash shows we're not parked any more (forwarded back to
+            # the main stream, cancelled or replaced), cancel the leftover
+            # safeguard.
             async with docket.redis() as redis:
-                state = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "state"
+                waiter_entry_id = await redis.hget(  # type: ignore[misc]
+                    execution._redis_key, "waiter_entry_id"
                 )
-            if state != b"scheduled":
+            if waiter_entry_id is None:
                 await docket.cancel(safeguard_key)
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
-- 
2.43.0


From 89c39d86d3f35e57b5c22fa969c892191435e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 20/75] fix: the safeguard of a waiting task stands by until
 the task is no longer waiting

It ran once; when the slot holder died after that with its task cancelled,
nothing was left to wake the waiters.
---
 src/docket/dependencies/_concurrency.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index e8a77a8..7f87185 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -22,6 +22,7 @@ from ._base import (
     current_execution,
     current_worker,
 )
+from ._perpetual import Perpetual
 
 logger = logging.getLogger("docket.dependencies")
 
@@ -866,7 +867,11 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         return self._concurrency_key
 
 
-async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
+async def _safeguard_wake(
+    waiter_stream: str,
+    max_concurrent: int,
+    perpetual: Perpetual = Perpetual(),
+) -> None:
     """Recover a waiter stream that the normal release path may not reach.
 
     Scheduled by ``ConcurrencyLimit.__aenter__`` as a future-queue task
@@ -881,6 +886,10 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
        arrived to scavenge them -- the script evicts the stale slots
        and wakes the waiters.
 
+    If its own waiter is still parked after that (live holders have kept the
+    slots), it stands by for another ``redelivery_timeout``: a holder may yet
+    die without anything left to release its slot.
+
     This is the dependency-owned recovery for the "burst then idle"
     pathology.  No background loop, no central registry: each park
     schedules its own backstop.
@@ -910,3 +919,12 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
             state_prefix=f"{docket.prefix}:state:",
             parked_prefix=f"{docket.prefix}:",
         )
+        task_key = current_execution.get().key.removeprefix("__safeguard__:")
+        parked = await redis.hexists(  # type: ignore[misc]
+            docket.runs_key(task_key), "waiter_entry_id"
+        )
+
+    if parked:
+        perpetual.after(redelivery_timeout)
+    else:
+        perpetual.cancel()
-- 
2.43.0


From e9dd97195a4e59352cf07cfaf6aa3bc163cf1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 21/75] fix: limits on an annotated parameter see positional
 and default arguments

resolved_dependencies looked the value of the annotated parameter up in kwargs
only, so RateLimit, Debounce and Cooldown lumped all the tasks submitted with
positional arguments (or with the default) together in one bucket for None.
---
 src/docket/dependencies/_resolution.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..6206d06 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -9,6 +9,7 @@ from typing import TYPE_CHECKING, Any, AsyncGenerator, TypeVar
 from uncalled_for import (
     FailedDependency,
     get_annotation_dependencies,
+    get_signature,
 )
 
 from ._base import (
@@ -159,6 +160,23 @@ def detect_single_conflicts(
     return conflicts
 
 
+def _argument_value(
+    execution: Execution, parameter: str, resolved: Mapping[str, Any]
+) -> Any:
+    """The value the function is going to see for ``parameter``, whether it was
+    passed by position, by keyword, resolved, or left at its default."""
+    if parameter in resolved:
+        return resolved[parameter]
+    try:
+        bound = get_signature(execution.function).bind_partial(
+            *execution.args, **execution.kwargs
+        )
+    except TypeError:  # the call itself is going to report the mismatch
+        return execution.kwargs.get(parameter)
+    bound.apply_defaults()
+    return bound.arguments.get(parameter)
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -208,8 +226,8 @@ async def resolved_dependencies(
 
                 annotations = get_annotation_dependencies(execution.function)
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
+                    argument_value = _argument_value(
+                        execution, parameter_name, arguments
                     )
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
-- 
2.43.0


From 7ef228bf929a2edf14f5a61ad2e0360b01140ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 22/75] fix: a concurrency limit or TaskArgument on an argument
 left at its default

Execution.get_argument raised KeyError for an argument the call left at its
default value, which failed every task limited by such an argument.
---
 src/docket/execution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index c7a3879..2fa2ca8 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -669,6 +669,14 @@ class Execution:
     def get_argument(self, parameter: str) -> Any:
         signature = get_signature(self.function)
         bound_args = signature.bind(*self.args, **self.kwargs)
+        if parameter not in bound_args.arguments:
+            # Left at its default, unless that is still to be resolved.
+            default = signature.parameters[parameter].default
+            if default is signature.empty or isinstance(
+                default, uncalled_for.Dependency
+            ):
+                raise KeyError(parameter)
+            return default
         return bound_args.arguments[parameter]
 
     def call_repr(self) -> str:
-- 
2.43.0


From 4181603cebe262ba80d4480b13115cb8fe65e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 23/75] fix: the first admission control to block a task
 decides what becomes of it

Resolution went on after AdmissionBlocked, so a task postponed by a RateLimit
could also be parked by a ConcurrencyLimit, or open the window of a Cooldown it
never started in.
---
 src/docket/dependencies/_resolution.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index 6206d06..881c085 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -13,6 +13,7 @@ from uncalled_for import (
 )
 
 from ._base import (
+    AdmissionBlocked,
     Dependency,
     current_docket,
     current_execution,
@@ -196,6 +197,11 @@ async def resolved_dependencies(
                     slot = f"__worker_dep__{name}"
                     try:
                         arguments[slot] = await stack.enter_async_context(dependency)
+                    except AdmissionBlocked:
+                        # The task isn't going to run now, and whatever blocked it
+                        # has decided what becomes of it: no other control may
+                        # take it as arrived, or decide again.
+                        raise
                     except Exception as error:
                         arguments[slot] = FailedDependency(name, error)
 
@@ -221,6 +227,8 @@ async def resolved_dependencies(
                         arguments[parameter] = await stack.enter_async_context(
                             dependency
                         )
+                    except AdmissionBlocked:
+                        raise
                     except Exception as error:
                         arguments[parameter] = FailedDependency(parameter, error)
 
@@ -235,6 +243,8 @@ async def resolved_dependencies(
                         )
                         try:
                             await stack.enter_async_context(bound)
+                        except AdmissionBlocked:
+                            raise
                         except Exception as error:
                             arguments[parameter_name] = FailedDependency(
                                 parameter_name, error
-- 
2.43.0


From 9cc7e06888190d0cf90f312954e1ce861c3c6fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 24/75] fix: attempts of one task in the same millisecond count
 separately

The member a RateLimit recorded was the key and the millisecond, so a retry or
the next run of a perpetual task in the same millisecond overwrote the entry of
the one before and the limit was exceeded.
---
 src/docket/dependencies/_ratelimit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..67a9ade 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -2,7 +2,7 @@
 
 Caps how many times a task (or a per-parameter scope) can execute within a
 sliding window.  Uses a Redis sorted set as a sliding window log: members are
-``{execution_key}:{now_ms}`` strings (unique per attempt), scores are
+``{execution_key}:{now_ms}:{uuid}`` strings (unique per attempt), scores are
 millisecond timestamps.
 """
 
@@ -12,6 +12,7 @@ import time
 from datetime import timedelta
 from types import TracebackType
 from typing import Any
+from uuid import uuid4
 
 from .._lua import Arg, Key, redis_script
 from .._redis import RedisClient
@@ -124,7 +125,7 @@ class RateLimit(Dependency["RateLimit"]):
         window_ms = int(self.per.total_seconds() * 1000)
         now_ms = int(time.time() * 1000)
         ttl_ms = window_ms * 2
-        member = f"{execution.key}:{now_ms}"
+        member = f"{execution.key}:{now_ms}:{uuid4().hex}"
 
         async with docket.redis() as redis:
             result = await _ratelimit(
-- 
2.43.0


From dd19102973f518d007bf184c5b461355bf33a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 25/75] fix: RateLimit gives back the entry of the execution
 that was blocked

The entry to release was kept on the dependency, which as a default parameter is
shared: when two executions interleaved, the one blocked by another control
released the other's entry (or none), and a phantom entry stayed in the window.
---
 src/docket/dependencies/_ratelimit.py | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 67a9ade..054fac7 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -101,8 +101,6 @@ class RateLimit(Dependency["RateLimit"]):
         self.scope = scope
         self._argument_name: str | None = None
         self._argument_value: Any = None
-        self._ratelimit_key: str | None = None
-        self._member: str | None = None
 
     def bind_to_parameter(self, name: str, value: Any) -> RateLimit:
         bound = RateLimit(self.limit, per=self.per, drop=self.drop, scope=self.scope)
@@ -111,6 +109,8 @@ class RateLimit(Dependency["RateLimit"]):
         return bound
 
     async def __aenter__(self) -> RateLimit:
+        from ._functional import _Depends
+
         execution = current_execution.get()
         docket = current_docket.get()
 
@@ -142,8 +142,20 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
+
+            async def release(
+                exc_type: type[BaseException] | None,
+                exc_value: BaseException | None,
+                traceback: TracebackType | None,
+            ) -> None:
+                # Another control blocked the task, so it didn't start after all.
+                if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+                    async with docket.redis() as redis:
+                        await redis.zrem(ratelimit_key, member)
+
+            # As a default parameter this instance is shared by all the executions,
+            # so the entry to release is kept with this one's exit stack.
+            _Depends.stack.get().push_async_exit(release)
             return self
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
@@ -163,9 +175,5 @@ class RateLimit(Dependency["RateLimit"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if exc_type is not None and self._member is not None:
-            if issubclass(exc_type, AdmissionBlocked):
-                assert self._ratelimit_key is not None
-                docket = current_docket.get()
-                async with docket.redis() as redis:
-                    await redis.zrem(self._ratelimit_key, self._member)
+        # No-op.  An entry is released through the resolver's AsyncExitStack.
+        pass
-- 
2.43.0


From 5eb896571dee0197ca70304a2bf013e6e5b125c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 26/75] fix: a task another control blocked doesn't open the
 window of its Cooldown

The window was left open for a task that was postponed, parked or dropped by
another control, so the task dropped itself when it came back, and (with several
Cooldowns) a dropped task kept later ones from running.
---
 src/docket/dependencies/_cooldown.py | 39 +++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index b72d22c..be6a7f5 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -10,9 +10,28 @@ from datetime import timedelta
 from types import TracebackType
 from typing import Any
 
+from .._lua import Arg, Key, redis_script
+from .._redis import RedisClient
 from ._base import AdmissionBlocked, Dependency, current_docket, current_execution
 
 
+@redis_script
+async def _close_window(
+    redis: RedisClient,
+    *,
+    cooldown_key: Key[str],
+    run: Arg[str],
+) -> int:
+    """
+    -- Close the window again, unless it is another run's by now.
+    if redis.call('GET', cooldown_key) == run then
+        return redis.call('DEL', cooldown_key)
+    end
+    return 0
+    """
+    ...
+
+
 class Cooldown(Dependency["Cooldown"]):
     """Execute first, drop duplicates within window.
 
@@ -45,6 +64,8 @@ class Cooldown(Dependency["Cooldown"]):
         return bound
 
     async def __aenter__(self) -> Cooldown:
+        from ._functional import _Depends
+
         execution = current_execution.get()
         docket = current_docket.get()
 
@@ -58,8 +79,10 @@ class Cooldown(Dependency["Cooldown"]):
 
         window_ms = int(self.window.total_seconds() * 1000)
 
+        run = f"{execution.generation}:{execution.key}"
+
         async with docket.redis() as redis:
-            acquired = await redis.set(cooldown_key, 1, nx=True, px=window_ms)
+            acquired = await redis.set(cooldown_key, run, nx=True, px=window_ms)
 
         if not acquired:
             raise AdmissionBlocked(
@@ -68,6 +91,20 @@ class Cooldown(Dependency["Cooldown"]):
                 reschedule=False,
             )
 
+        async def release(
+            exc_type: type[BaseException] | None,
+            exc_value: BaseException | None,
+            traceback: TracebackType | None,
+        ) -> None:
+            # Another control blocked the task, so it didn't start after all.
+            if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+                async with docket.redis() as redis:
+                    await _close_window(redis, cooldown_key=cooldown_key, run=run)
+
+        # As a default parameter this instance is shared by all the executions,
+        # so the window to close is kept with this one's exit stack.
+        _Depends.stack.get().push_async_exit(release)
+
         return self
 
     async def __aexit__(
-- 
2.43.0


From b26d29ac48bd9ab7bc297e955b79e14ed666623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 27/75] fix: a Cooldown doesn't drop the retry or redelivery of
 the task that opened it

An accepted task that failed and was retried, or whose worker died, ran into the
window it had opened itself and was dropped instead of finished.
---
 src/docket/dependencies/_cooldown.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index be6a7f5..f5370ba 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -9,6 +9,7 @@ from __future__ import annotations
 from datetime import timedelta
 from types import TracebackType
 from typing import Any
+from uuid import uuid4
 
 from .._lua import Arg, Key, redis_script
 from .._redis import RedisClient
@@ -79,10 +80,21 @@ class Cooldown(Dependency["Cooldown"]):
 
         window_ms = int(self.window.total_seconds() * 1000)
 
-        run = f"{execution.generation}:{execution.key}"
+        run = f"{execution.generation}:{uuid4().hex}:{execution.key}"
 
         async with docket.redis() as redis:
             acquired = await redis.set(cooldown_key, run, nx=True, px=window_ms)
+            holder = None if acquired else await redis.get(cooldown_key)
+            if holder is not None:
+                generation, _, rest = holder.decode().partition(":")
+                key = rest.partition(":")[2]
+                if key == execution.key and (
+                    generation == str(execution.generation) or execution.attempt > 1
+                ):
+                    # This very task opened the window, and now it is redelivered
+                    # (its worker went away) or retried: it starts once more.
+                    await redis.set(cooldown_key, run, px=window_ms)
+                    return self
 
         if not acquired:
             raise AdmissionBlocked(
-- 
2.43.0


From daa8d8290952c3914181142998710d590ec299a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 28/75] fix: submissions aren't dropped in favour of a Debounce
 winner that is gone

The winner was known by its key alone and lived as long as others kept arriving:
once it was cancelled, struck or replaced, every later submission was dropped and
none ever ran; and a new submission under its key ran at once, unsettled.  It is
now one particular run, and the next submission takes its place once it is gone.
---
 src/docket/dependencies/_debounce.py | 73 ++++++++++++++++++----------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 3c10695..8b85dd0 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -27,25 +27,27 @@ async def _debounce(
     *,
     winner_key: Key[str],
     seen_key: Key[str],
-    execution_key: Arg[str],
+    run: Arg[str],
+    previous_run: Arg[str],
+    gone_run: Arg[str],
     settle_ms: Arg[int],
     now_ms: Arg[int],
     ttl_ms: Arg[int],
-) -> list[int]:
+) -> list[Any]:
     """
-    -- Atomic debounce decision.  Returns ``[action, remaining_ms]`` where
-    -- action is one of PROCEED/RESCHEDULE/DROP (see constants above).
+    -- Atomic debounce decision.  Returns ``[action, remaining_ms, winner]``
+    -- where action is one of PROCEED/RESCHEDULE/DROP (see constants above).
 
     local winner = redis.call('GET', winner_key)
 
-    if not winner then
-        -- No winner: I become winner, record last_seen = now
-        redis.call('SET', winner_key, execution_key, 'PX', ttl_ms)
+    if not winner or winner == gone_run then
+        -- No winner (any more): I become winner, record last_seen = now
+        redis.call('SET', winner_key, run, 'PX', ttl_ms)
         redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
-        return {2, settle_ms}
+        return {2, settle_ms, ''}
     end
 
-    if winner == execution_key then
+    if winner == run or winner == previous_run then
         -- I'm the winner, returning from reschedule
         local last_seen_str = redis.call('GET', seen_key)
         local last_seen = tonumber(last_seen_str) or 0
@@ -54,24 +56,41 @@ async def _debounce(
         if elapsed >= settle_ms then
             -- Settled: clean up and proceed
             redis.call('DEL', winner_key, seen_key)
-            return {1, 0}
+            return {1, 0, ''}
         else
             -- Not settled yet: refresh TTLs and reschedule for remaining time
             local remaining = settle_ms - elapsed
-            redis.call('PEXPIRE', winner_key, ttl_ms)
+            redis.call('SET', winner_key, run, 'PX', ttl_ms)
             redis.call('PEXPIRE', seen_key, ttl_ms)
-            return {2, remaining}
+            return {2, remaining, ''}
         end
     end
 
     -- Someone else is the winner: update last_seen and refresh TTLs
     redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
     redis.call('PEXPIRE', winner_key, ttl_ms)
-    return {3, 0}
+    return {3, 0, winner}
     """
     ...
 
 
+def _run(runs_key: str, generation: int) -> str:
+    return f"{generation}:{runs_key}"
+
+
+async def _is_gone(redis: RedisClient, winner: str) -> bool:
+    """Whether the winner is never going to come back: it was cancelled, struck or
+    replaced, so a new submission has to take its place."""
+    generation, _, runs_key = winner.partition(":")
+    state, current = await redis.hmget(  # type: ignore[misc]
+        runs_key, ["state", "generation"]
+    )
+    if state in (None, b"completed", b"failed", b"cancelled"):
+        return True
+    # Coming back from its reschedule it is one generation further.
+    return int(current or 0) > int(generation) + 1
+
+
 class Debounce(Dependency["Debounce"]):
     """Wait for submissions to settle, then fire once.
 
@@ -127,18 +146,22 @@ class Debounce(Dependency["Debounce"]):
         ttl_ms = settle_ms * 10
 
         async with docket.redis() as redis:
-            result = await _debounce(
-                redis,
-                winner_key=winner_key,
-                seen_key=seen_key,
-                execution_key=execution.key,
-                settle_ms=settle_ms,
-                now_ms=now_ms,
-                ttl_ms=ttl_ms,
-            )
-
-        action = result[0]
-        remaining_ms = result[1]
+            gone = ""
+            while True:
+                action, remaining_ms, winner = await _debounce(
+                    redis,
+                    winner_key=winner_key,
+                    seen_key=seen_key,
+                    run=_run(execution._redis_key, execution.generation),
+                    previous_run=_run(execution._redis_key, execution.generation - 1),
+                    gone_run=gone,
+                    settle_ms=settle_ms,
+                    now_ms=now_ms,
+                    ttl_ms=ttl_ms,
+                )
+                gone = winner.decode()
+                if action != _ACTION_DROP or not await _is_gone(redis, gone):
+                    break
 
         if action == _ACTION_PROCEED:
             return self
-- 
2.43.0


From 40e1b5f39447e7d5a5b81654cf24d071897509aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 29/75] fix: striking a whole task and striking its parameters
 don't affect each other

A whole task was stricken while it had an entry without parameter strikes, so
striking it had no effect next to a parameter strike (and couldn't be restored),
striking a parameter lifted it, and restoring the last parameter strike dropped it.
---
 src/docket/strikelist.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..e906356 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -168,6 +168,7 @@ class StrikeList:
     """
 
     task_strikes: TaskStrikes
+    stricken_tasks: set[str]
     parameter_strikes: ParameterStrikes
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
@@ -195,6 +196,7 @@ class StrikeList:
         self.name = name
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
+        self.stricken_tasks = set()
         self.parameter_strikes = {}
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
@@ -384,10 +386,11 @@ class StrikeList:
         function_name = execution.function_name
 
         # Check if the entire task is stricken (without parameter conditions)
-        task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self.stricken_tasks:
             return True
 
+        task_strikes = self.task_strikes.get(function_name, {})
+
         signature = get_signature(execution.function)
 
         try:
@@ -481,10 +484,8 @@ class StrikeList:
             parameter_strikes.add((strike.operator, strike.value))
 
         elif strike.function:
-            try:
-                task_strikes = self.task_strikes[strike.function]
-            except KeyError:
-                task_strikes = self.task_strikes[strike.function] = {}
+            self.stricken_tasks.add(strike.function)
+            self.task_strikes.setdefault(strike.function, {})
 
         elif strike.parameter:  # pragma: no branch
             try:
@@ -514,17 +515,12 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self.stricken_tasks:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
-            try:
-                task_strikes = self.task_strikes[restore.function]
-            except KeyError:
-                return
-
-            # If there are no parameter strikes, this was a full task strike
-            if not task_strikes:
+            self.stricken_tasks.discard(restore.function)
+            if not self.task_strikes.get(restore.function):
                 self.task_strikes.pop(restore.function, None)
 
         elif restore.parameter:  # pragma: no branch
-- 
2.43.0


From 17ad22fa803a51f4e01772b03e7695debdce10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 30/75] fix: a comparison that fails in its own way doesn't
 strike or crash a task

A comparison raising anything but ValueError or TypeError (decimal signals, for
one), or whose result has no truth value (arrays), got out of is_stricken and
failed docket.add() or the worker's task.
---
 src/docket/strikelist.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index e906356..f788b4d 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -425,23 +425,23 @@ class StrikeList:
         try:
             match operator:
                 case "==":
-                    return value == strike_value
+                    return bool(value == strike_value)
                 case "!=":
-                    return value != strike_value
+                    return bool(value != strike_value)
                 case ">":
-                    return value > strike_value
+                    return bool(value > strike_value)
                 case ">=":
-                    return value >= strike_value
+                    return bool(value >= strike_value)
                 case "<":
-                    return value < strike_value
+                    return bool(value < strike_value)
                 case "<=":
-                    return value <= strike_value
+                    return bool(value <= strike_value)
                 case "between":  # pragma: no branch
                     lower, upper = strike_value
-                    return lower <= value <= upper
+                    return bool(lower <= value <= upper)
                 case _:  # pragma: no cover
                     raise ValueError(f"Unknown operator: {operator}")
-        except (ValueError, TypeError):
+        except Exception:
             # If we can't make the comparison due to incompatible types, just log the
             # error and assume the task is not stricken
             logger.warning(
-- 
2.43.0


From fbdd53f93f0bfddc636e7e0a2176ed1c0f9034e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 31/75] fix: every client applies strikes and restores in the
 order of the stream

send_instruction applied its instruction locally once Redis had answered, and the
monitor again from the stream: when the monitor had already gone past it to another
client's restore, the strike came back on this client alone, for good.
---
 src/docket/strikelist.py | 50 ++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index f788b4d..0f6b635 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -118,6 +118,11 @@ class StrikeInstruction(abc.ABC):
         )
 
 
+def _stream_position(message_id: bytes) -> tuple[int, int]:
+    milliseconds, _, sequence = message_id.decode().partition("-")
+    return int(milliseconds), int(sequence)
+
+
 class Strike(StrikeInstruction):
     direction: Literal["strike", "restore"] = "strike"
 
@@ -202,6 +207,7 @@ class StrikeList:
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
         self._strikes_loaded = None
+        self._last_id = b"0-0"
 
     @property
     def prefix(self) -> str:
@@ -304,9 +310,14 @@ class StrikeList:
             )
 
         async with self._redis.client() as r:
-            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+            async with r.pipeline() as pipeline:
+                pipeline.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+                # Everything up to and including our own instruction, so that it takes
+                # effect here too in the order everyone else sees.
+                pipeline.xread({self.strike_key: self._last_id})
+                _, streams = await pipeline.execute()
 
-        self.update(instruction)
+        self._apply(streams)
 
     async def strike(
         self,
@@ -539,18 +550,17 @@ class StrikeList:
 
     async def _monitor_strikes(self) -> NoReturn:
         """Background task that monitors Redis for strike updates."""
-        from .instrumentation import REDIS_DISRUPTIONS, STRIKES_IN_EFFECT
+        from .instrumentation import REDIS_DISRUPTIONS
 
         assert self._redis is not None
 
-        last_id = "0-0"
         initial_load_complete = False
         while True:
             try:
                 async with self._redis.client() as r:
                     while True:
-                        last_id, initial_load_complete = await self._read_strikes(
-                            r, last_id, initial_load_complete, STRIKES_IN_EFFECT
+                        initial_load_complete = await self._read_strikes(
+                            r, initial_load_complete
                         )
             except redis.exceptions.ConnectionError:  # pragma: no cover
                 REDIS_DISRUPTIONS.add(1, {"docket": self.name})
@@ -563,21 +573,19 @@ class StrikeList:
     async def _read_strikes(
         self,
         r: Redis | RedisCluster,
-        last_id: str,
         initial_load_complete: bool,
-        strikes_in_effect: Any,
-    ) -> tuple[str, bool]:
+    ) -> bool:
         """Read and process strike messages from Redis stream.
 
         Returns:
-            Tuple of (last_id, initial_load_complete) to allow state persistence.
+            Whether the initial load is complete.
         """
         with self._maybe_suppress_instrumentation():
             # Non-blocking for initial load (block=None), then block
             # for new messages (block=60_000). Note: block=0 means
             # "block forever" in Redis, not "non-blocking".
             streams = await r.xread(
-                {self.strike_key: last_id},
+                {self.strike_key: self._last_id},
                 count=100,
                 block=60_000 if initial_load_complete else None,
             )
@@ -588,14 +596,24 @@ class StrikeList:
             # _strikes_loaded is always set when _monitor_strikes runs
             assert self._strikes_loaded is not None
             self._strikes_loaded.set()
-            return last_id, initial_load_complete
+            return initial_load_complete
 
         if not streams and initial_load_complete:  # pragma: no cover
-            return last_id, initial_load_complete
+            return initial_load_complete
+
+        self._apply(streams)
+        return initial_load_complete
+
+    def _apply(self, streams: Any) -> None:
+        """Apply the instructions read from the stream, in its order, each one once:
+        both the monitor and send_instruction read on from the last one applied."""
+        from .instrumentation import STRIKES_IN_EFFECT
 
         for _, messages in streams:
             for message_id, message in messages:
-                last_id = message_id
+                if _stream_position(message_id) <= _stream_position(self._last_id):
+                    continue
+                self._last_id = message_id
                 instruction = StrikeInstruction.from_message(message)
                 self.update(instruction)
                 logger.info(
@@ -604,12 +622,10 @@ class StrikeList:
                     instruction.call_repr(),
                 )
 
-                strikes_in_effect.add(
+                STRIKES_IN_EFFECT.add(
                     1 if instruction.direction == "strike" else -1,
                     {
                         "docket.name": self.name,
                         **instruction.labels(),
                     },
                 )
-
-        return last_id, initial_load_complete
-- 
2.43.0


From 64a3e461b23311d6f856987e6dddb5f6c6d686f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 32/75] fix: an unreadable strike instruction doesn't hold up
 all the others

A value this process can't unpickle made the monitor fail on the same message
over and over: no later strike took effect and no worker got past its start.
---
 src/docket/strikelist.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 0f6b635..8940b69 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -614,7 +614,13 @@ class StrikeList:
                 if _stream_position(message_id) <= _stream_position(self._last_id):
                     continue
                 self._last_id = message_id
-                instruction = StrikeInstruction.from_message(message)
+                try:
+                    instruction = StrikeInstruction.from_message(message)
+                except Exception:
+                    # Such as a value of a class that isn't known here.  Without it,
+                    # the others still have to take effect.
+                    logger.exception("Unreadable strike instruction %r", message_id)
+                    continue
                 self.update(instruction)
                 logger.info(
                     "%s %r",
-- 
2.43.0


From 3e26423960172d38391be6b19840ccba0933e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 33/75] fix: tasks still running when a worker stops keep their
 leases until they finish

---
 src/docket/worker.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index f69662c..0433b73 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -753,6 +753,9 @@ class Worker:
                     await execution.mark_as_failed(error=None)
 
         disconnect: ConnectionError | None = None
+        # Outlives the loop's other background work: tasks that are still running
+        # when the loop stops keep their leases until they finish.
+        lease_renewal: asyncio.Task[None] | None = None
         try:
             async with AsyncExitStack() as dependency_stack:
                 # Each Dependency class used by a registered task may declare
@@ -790,7 +793,7 @@ class Worker:
                         self._scheduler_loop(redis),
                         name=f"{self.docket.name} - scheduler",
                     )
-                    infra.create_task(
+                    lease_renewal = asyncio.create_task(
                         self._renew_leases(redis, active_tasks),
                         name=f"{self.docket.name} - lease renewal",
                     )
@@ -854,13 +857,17 @@ class Worker:
                 )
         finally:
             session.stopping.set()
-            if self._heartbeat_task is not None:
-                await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
-            self._heartbeat_task = None
-            await self._remove_heartbeat()
-            if active_tasks:
-                await asyncio.gather(*active_tasks, return_exceptions=True)
-                await process_completed_tasks()
+            try:
+                if self._heartbeat_task is not None:
+                    await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
+                self._heartbeat_task = None
+                await self._remove_heartbeat()
+                if active_tasks:
+                    await asyncio.gather(*active_tasks, return_exceptions=True)
+                    await process_completed_tasks()
+            finally:
+                if lease_renewal is not None:
+                    await cancel_task(lease_renewal, CANCEL_MSG_CLEANUP)
             if self._processing_session is session:
                 self._processing_session = None
 
@@ -908,21 +915,16 @@ class Worker:
         redis: Redis,
         active_messages: dict[asyncio.Task[None], RedisMessageID],
     ) -> None:
-        """Periodically renew leases on stream messages.
+        """Periodically renew leases on stream messages, until cancelled.
 
         Calls XCLAIM with idle=0 to reset the message's idle time, preventing
         XAUTOCLAIM from reclaiming it while we're still processing.
         """
-        session = self._processing_session
-        if session is None:
-            return  # pragma: no cover
-
         # Renew leases 4 times per redelivery_timeout period
         renewal_interval = self.redelivery_timeout.total_seconds() / 4
 
-        while not session.stopping.is_set():  # pragma: no branch
-            if await _wait_for_event(session.stopping, renewal_interval):
-                return
+        while True:
+            await asyncio.sleep(renewal_interval)
 
             message_ids = list(active_messages.values())
             if not message_ids:
-- 
2.43.0


From df5d16fc09e4fe12d1d714d8ecbb218542ea16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 34/75] fix: clear() removes the tasks waiting for a
 concurrency slot too

---
 src/docket/docket.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 2e095e6..7f73880 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -181,12 +181,42 @@ async def _clear_tasks(
         redis.call('PUBLISH', docket_prefix .. ":state:" .. task_key, payload)
     end
 
+    -- A task waiting for admission is parked on a stream of its own, with a
+    -- safeguard standing in for it among the scheduled and queued tasks.
+    local safeguard = '__safeguard__:'
+    local function is_safeguard(task_key)
+        return string.sub(task_key, 1, #safeguard) == safeguard
+    end
+
+    local function forget_waiter(safeguard_key)
+        local task_key = string.sub(safeguard_key, #safeguard + 1)
+        local runs_key = docket_prefix .. ":runs:" .. task_key
+        local waiter_stream = redis.call('HGET', runs_key, 'waiter_stream')
+        local waiter_entry_id = redis.call('HGET', runs_key, 'waiter_entry_id')
+        if not waiter_stream or not waiter_entry_id then
+            return 0
+        end
+
+        redis.call('XDEL', waiter_stream, waiter_entry_id)
+        if redis.call('XLEN', waiter_stream) == 0 then
+            redis.call('DEL', waiter_stream)
+        end
+        redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+        redis.call('DEL', docket_prefix .. ":progress:" .. task_key)
+        forget(task_key)
+        return 1
+    end
+
     local cleared = 0
 
     for _, task_key in ipairs(redis.call('ZRANGE', queue_key, 0, -1)) do
         redis.call('DEL', docket_prefix .. ":" .. task_key)
         forget(task_key)
-        cleared = cleared + 1
+        if is_safeguard(task_key) then
+            cleared = cleared + forget_waiter(task_key)
+        else
+            cleared = cleared + 1
+        end
     end
     redis.call('DEL', queue_key)
 
@@ -199,9 +229,14 @@ async def _clear_tasks(
             if fields[i] == 'key' then
                 local task_key = fields[i + 1]
                 local runs_key = docket_prefix .. ":runs:" .. task_key
-                if redis.call('HGET', runs_key, 'stream_id') == message_id then
+                local started = redis.call('HGET', runs_key, 'stream_id') ~= message_id
+                if not started then
                     redis.call('XDEL', stream_key, message_id)
                     forget(task_key)
+                end
+                if is_safeguard(task_key) then
+                    cleared = cleared + forget_waiter(task_key)
+                elseif not started then
                     cleared = cleared + 1
                 end
                 break
-- 
2.43.0


From cb77eb53a2bbbf77581d6e886838700f8c3f35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 35/75] fix: a struck message that was superseded doesn't free
 its key's newer definition

---
 src/docket/execution.py | 4 ++++
 src/docket/worker.py    | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 2fa2ca8..6297b31 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -419,6 +419,10 @@ async def _terminal(
     end
     redis.call('HSET', runs_key, unpack(hset_args))
 
+    -- The key is free again.  (Claiming a task frees it too, but one that has been
+    -- struck ends without being claimed.)
+    redis.call('HDEL', runs_key, 'known', 'stream_id')
+
     if ttl_seconds > 0 then
         redis.call('EXPIRE', runs_key, ttl_seconds)
     else
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 0433b73..f66365a 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1020,9 +1020,8 @@ class Worker:
 
     async def _delete_known_task(self, redis: Redis, execution: Execution) -> None:
         logger.debug("Deleting known task", extra=self._log_context())
-        # Delete known/stream_id from runs hash to allow task rescheduling
-        runs_key = self.docket.runs_key(execution.key)
-        await redis.hdel(runs_key, "known", "stream_id")
+        # The known/stream_id fields of the runs hash may belong to a newer
+        # definition by now, so they are left for the terminal state to remove.
 
         # TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup
         known_task_key = self.docket.known_task_key(execution.key)
-- 
2.43.0


From 764be80c6c556b9fe20690ed34485c356f268055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 36/75] fix: an argument that can't be described doesn't keep
 its task from running

---
 src/docket/annotations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 03c7380..a5c09e4 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -70,6 +70,13 @@ class Logged(Annotation):
         self.length_only = length_only
 
     def format(self, argument: Any) -> str:
+        try:
+            return self._format(argument)
+        except Exception:
+            # Describing an argument must not get in the way of running the task
+            return f"<{type(argument).__name__}>"
+
+    def _format(self, argument: Any) -> str:
         if self.length_only:
             if isinstance(argument, (dict, set)):
                 return f"{{len {len(argument)}}}"
-- 
2.43.0


From 3784a7e1b9b4bb71c6abe04821811545ab2cf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 37/75] fix: a perpetual task scheduled under another name
 keeps it

---
 src/docket/dependencies/_perpetual.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 1b95240..d3fb102 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -119,8 +119,16 @@ class Perpetual(CompletionHandler["Perpetual"]):
 
         from ..execution import Disposition
 
+        # Under the name it was scheduled by, unless that isn't this function's (a
+        # fallback standing in for a task that isn't registered here).
+        registered = docket.tasks.get(execution.function_name)
         successor = await docket.replace(
-            execution.function, when, execution.key, superseding=execution.generation
+            execution.function_name
+            if registered is execution.function
+            else execution.function,
+            when,
+            execution.key,
+            superseding=execution.generation,
         )(
             *self.args,
             **self.kwargs,
-- 
2.43.0


From cfbc8940af7f778af55fa13db0777d77d34fa659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 38/75] fix: looking up a task shows its own name and attempt

---
 src/docket/docket.py    |  5 +++--
 src/docket/execution.py | 15 +++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 7f73880..d3984ef 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -811,7 +811,7 @@ class Docket(DocketSnapshotMixin):
                 return None
             when = datetime.fromtimestamp(float(when_str.decode()), tz=timezone.utc)
 
-            # Build execution (attempt defaults to 1 for initial scheduling)
+            # Build execution (older versions did not record the attempt)
             from docket.execution import Execution
 
             execution = Execution(
@@ -821,7 +821,8 @@ class Docket(DocketSnapshotMixin):
                 kwargs=kwargs,
                 key=key,
                 when=when,
-                attempt=1,
+                attempt=int(data.get(b"attempt", b"1")),
+                function_name=function_name_str,
             )
 
             # Sync with current state from Redis
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 6297b31..ed402b5 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -85,6 +85,7 @@ async def _schedule(
     local function_name = nil
     local args_data = nil
     local kwargs_data = nil
+    local attempt = '1'
     local generation_index = nil
 
     for i = message_start, #ARGV, 2 do
@@ -100,6 +101,8 @@ async def _schedule(
             args_data = field_value
         elseif field_name == 'kwargs' then
             kwargs_data = field_value
+        elseif field_name == 'attempt' then
+            attempt = field_value
         elseif field_name == 'generation' then
             generation_index = #message
         end
@@ -160,7 +163,8 @@ async def _schedule(
                 'stream_id', new_message_id,
                 'function', function_name,
                 'args', args_data,
-                'kwargs', kwargs_data
+                'kwargs', kwargs_data,
+                'attempt', attempt
             )
         else
             -- Park task data for future execution
@@ -172,7 +176,8 @@ async def _schedule(
                 'known', when_timestamp,
                 'function', function_name,
                 'args', args_data,
-                'kwargs', kwargs_data
+                'kwargs', kwargs_data,
+                'attempt', attempt
             )
         end
 
@@ -236,7 +241,8 @@ async def _schedule(
             'stream_id', message_id,
             'function', function_name,
             'args', args_data,
-            'kwargs', kwargs_data
+            'kwargs', kwargs_data,
+            'attempt', attempt
         )
     else
         -- Park task data for future execution
@@ -252,7 +258,8 @@ async def _schedule(
             'known', when_timestamp,
             'function', function_name,
             'args', args_data,
-            'kwargs', kwargs_data
+            'kwargs', kwargs_data,
+            'attempt', attempt
         )
     end
 
-- 
2.43.0


From bef7414f6d6f3961fcf5d2ff4d28673b05190750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 39/75] fix: automatic tasks can be registered under other
 names than their own

---
 src/docket/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index f66365a..66b0288 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -986,7 +986,7 @@ class Worker:
                     timeout=AUTOMATIC_PERPETUAL_LOCK_TIMEOUT_SECONDS,
                     blocking=False,
                 ):
-                    for task_function in self.docket.tasks.values():
+                    for name, task_function in list(self.docket.tasks.items()):
                         perpetual = get_single_dependency_parameter_of_type(
                             task_function, Perpetual
                         )
@@ -1002,7 +1002,7 @@ class Worker:
                             if await self._automatic_perpetual_is_live(redis, key):
                                 continue
                             await self.docket.add(
-                                task_function, when=perpetual.initial_when, key=key
+                                name, when=perpetual.initial_when, key=key
                             )()
             except LockError:  # pragma: no cover
                 return
-- 
2.43.0


From 5cca2a6da4d515d28c2b30773b11bf77748452e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 40/75] fix: a task whose message can't be read fails instead
 of stopping every worker

---
 src/docket/worker.py | 58 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 66b0288..43da945 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -39,7 +39,7 @@ from ._lua import Arg, Key, redis_script
 from ._redis import RedisClient
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
-from redis.exceptions import ConnectionError, LockError, ResponseError
+from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
 from typing_extensions import Self
 
 from .dependencies import (
@@ -675,13 +675,21 @@ class Worker:
             message: RedisMessage,
             is_redelivery: bool = False,
         ) -> None:
-            execution = await Execution.from_message(
-                self.docket,
-                message,
-                redelivered=is_redelivery,
-                fallback_task=self.fallback_task,
-                message_id=message_id,
-            )
+            try:
+                execution = await Execution.from_message(
+                    self.docket,
+                    message,
+                    redelivered=is_redelivery,
+                    fallback_task=self.fallback_task,
+                    message_id=message_id,
+                )
+            except RedisError:
+                raise
+            except Exception as error:
+                # Arguments that can't be unpickled here, for example.  Left alone,
+                # the message would stop one worker after another.
+                await self._fail_unreadable(message_id, message, error)
+                return
 
             task = asyncio.create_task(
                 self._execute(execution),
@@ -1018,6 +1026,40 @@ class Worker:
             return True
         return (await redis.hget(runs_key, "state")) == b"running"
 
+    async def _fail_unreadable(
+        self, message_id: RedisMessageID, message: RedisMessage, error: Exception
+    ) -> None:
+        """Fail a task whose message can't be turned into an execution."""
+        key = message.get(b"key", b"").decode(errors="replace")
+        logger.exception(
+            "Failing task %r, which can't be read",
+            key,
+            exc_info=error,
+            extra=self._log_context(),
+        )
+
+        if not key:
+            async with self.docket.redis() as redis:
+                await redis.xack(
+                    self.docket.stream_key, self.docket.worker_group_name, message_id
+                )
+                await redis.xdel(self.docket.stream_key, message_id)
+            return
+
+        generation = message.get(b"generation", b"")
+        execution = Execution(
+            self.docket,
+            self.fallback_task,
+            (),
+            {},
+            key,
+            datetime.now(timezone.utc),
+            attempt=1,
+            generation=int(generation) if generation.isdigit() else 0,
+            message_id=message_id,
+        )
+        await execution.mark_as_failed(f"{type(error).__name__}: {error}")
+
     async def _delete_known_task(self, redis: Redis, execution: Execution) -> None:
         logger.debug("Deleting known task", extra=self._log_context())
         # The known/stream_id fields of the runs hash may belong to a newer
-- 
2.43.0


From 60b874dc4cdf945285fdbe008240d4209628a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 41/75] fix: a retried or perpetual task gets the arguments it
 was given, even if its body changed them in place

---
 src/docket/dependencies/_cron.py      |  3 +--
 src/docket/dependencies/_perpetual.py |  3 +--
 src/docket/execution.py               | 20 ++++++++++++++++++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index 706152e..b5fc77f 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -94,8 +94,7 @@ class Cron(Perpetual):
     async def __aenter__(self) -> Cron:
         execution = current_execution.get()
         cron = Cron(expression=self.expression, automatic=self.automatic, tz=self.tz)
-        cron.args = execution.args
-        cron.kwargs = execution.kwargs
+        cron.args, cron.kwargs = execution.submitted_arguments()
         return cron
 
     def next_time(self) -> datetime:
diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index d3fb102..d14ce19 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -74,8 +74,7 @@ class Perpetual(CompletionHandler["Perpetual"]):
     async def __aenter__(self) -> Perpetual:
         execution = current_execution.get()
         perpetual = Perpetual(every=self.every, automatic=self.automatic)
-        perpetual.args = execution.args
-        perpetual.kwargs = execution.kwargs
+        perpetual.args, perpetual.kwargs = execution.submitted_arguments()
         return perpetual
 
     @property
diff --git a/src/docket/execution.py b/src/docket/execution.py
index ed402b5..d35d973 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -532,6 +532,10 @@ class Execution:
         self._kwargs = kwargs
         self._key = key
 
+        # The arguments as they were submitted (when read from a message), which
+        # the task may since have changed in place
+        self._submitted: tuple[bytes, bytes] | None = None
+
         # Scheduling metadata
         self.when = when
         self.attempt = attempt
@@ -621,13 +625,24 @@ class Execution:
         else:  # pragma: no cover
             yield
 
+    def submitted_arguments(self) -> tuple[tuple[Any, ...], dict[str, Any]]:
+        """The arguments as they were submitted, whatever became of them since."""
+        if self._submitted is None:
+            return self._args, self._kwargs
+        args, kwargs = self._submitted
+        return cloudpickle.loads(args), cloudpickle.loads(kwargs)
+
     def as_message(self) -> Message:
+        args, kwargs = self._submitted or (
+            cloudpickle.dumps(self.args),
+            cloudpickle.dumps(self.kwargs),
+        )
         return {
             b"key": self.key.encode(),
             b"when": self.when.isoformat().encode(),
             b"function": self.function_name.encode(),
-            b"args": cloudpickle.dumps(self.args),
-            b"kwargs": cloudpickle.dumps(self.kwargs),
+            b"args": args,
+            b"kwargs": kwargs,
             b"attempt": str(self.attempt).encode(),
             b"generation": str(self.generation).encode(),
         }
@@ -663,6 +678,7 @@ class Execution:
             generation=int(message.get(b"generation", b"0")),
             message_id=message_id,
         )
+        instance._submitted = (message[b"args"], message[b"kwargs"])
         await instance.sync()
         return instance
 
-- 
2.43.0


From 115485f64bb33d879f6e977453176338ca854de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 42/75] fix: a snapshot is consistent while tasks move, and
 shows when running tasks started

---
 src/docket/_docket_snapshot.py | 146 ++++++++++++++++++++-------------
 1 file changed, 91 insertions(+), 55 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..389cb35 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -14,6 +14,21 @@ if TYPE_CHECKING:
     from .docket import RedisMessage, RedisMessageID, RedisStreamPendingMessage
 
 
+# How often to read again because tasks were scheduled while taking a snapshot
+SNAPSHOT_ATTEMPTS = 10
+
+
+def _with_str_keys(pending: "RedisStreamPendingMessage") -> "RedisStreamPendingMessage":
+    """The in-memory backend reports the fields of a pending message as bytes."""
+    return cast(
+        "RedisStreamPendingMessage",
+        {
+            field.decode() if isinstance(field, bytes) else field: value
+            for field, value in pending.items()
+        },
+    )
+
+
 @dataclass
 class WorkerInfo:
     name: str
@@ -41,6 +56,8 @@ class RunningExecution(Execution):
             attempt=execution.attempt,
             trace_context=execution.trace_context,
             redelivered=execution.redelivered,
+            function_name=execution.function_name,
+            generation=execution.generation,
         )
         self.state: ExecutionState = execution.state
         self.started_at: datetime | None = execution.started_at
@@ -112,63 +129,73 @@ class DocketSnapshotMixin:
         running: list[RunningExecution] = []
         future: list[Execution] = []
 
+        total_stream_messages: int
+        total_schedule_messages: int
+        pending_messages: list[RedisStreamPendingMessage]
+        stream_messages: list[tuple[RedisMessageID, RedisMessage]]
+        scheduled_task_keys: list[bytes]
+
+        parked_task_keys: list[bytes] = []
+
         async with self.redis() as r:
-            async with r.pipeline() as pipeline:
-                pipeline.xlen(self.stream_key)
-
-                pipeline.zcard(self.queue_key)
-
-                pipeline.xpending_range(
-                    self.stream_key,
-                    self.worker_group_name,
-                    min="-",
-                    max="+",
-                    count=1000,
-                )
-
-                pipeline.xrange(self.stream_key, "-", "+", count=1000)
-
-                pipeline.zrange(self.queue_key, 0, -1)
-
-                total_stream_messages: int
-                total_schedule_messages: int
-                pending_messages: list[RedisStreamPendingMessage]
-                stream_messages: list[tuple[RedisMessageID, RedisMessage]]
-                scheduled_task_keys: list[bytes]
-
-                now = datetime.now(timezone.utc)
-                try:
-                    (
-                        total_stream_messages,
-                        total_schedule_messages,
-                        pending_messages,
-                        stream_messages,
-                        scheduled_task_keys,
-                    ) = await pipeline.execute()
-                except redis.exceptions.ResponseError as e:
-                    # Check for NOGROUP error. Also check for XPENDING because
-                    # redis-py 7.0 has a bug where pipeline errors lose the
-                    # original NOGROUP message (shows "{exception.args}" instead).
-                    error_str = str(e)
-                    if "NOGROUP" in error_str or "XPENDING" in error_str:
-                        await self._ensure_stream_and_group()
-                        return await self.snapshot()
-                    raise  # pragma: no cover
-
-                for task_key in scheduled_task_keys:
-                    pipeline.hgetall(self.parked_task_key(task_key.decode()))
-
-                # Because these are two separate pipeline commands, it's possible that
-                # a message has been moved from the schedule to the stream in the
-                # meantime, which would end up being an empty `{}` message
-                queued_messages: list[RedisMessage] = [
-                    m for m in await pipeline.execute() if m
-                ]
+            for _ in range(SNAPSHOT_ATTEMPTS):
+                async with r.pipeline() as pipeline:
+                    pipeline.xlen(self.stream_key)
+
+                    pipeline.zcard(self.queue_key)
+
+                    pipeline.xpending_range(
+                        self.stream_key,
+                        self.worker_group_name,
+                        min="-",
+                        max="+",
+                        count=1000,
+                    )
+
+                    pipeline.xrange(self.stream_key, "-", "+", count=1000)
+
+                    pipeline.zrange(self.queue_key, 0, -1)
+
+                    for task_key in parked_task_keys:
+                        pipeline.hgetall(self.parked_task_key(task_key.decode()))
+
+                    now = datetime.now(timezone.utc)
+                    try:
+                        (
+                            total_stream_messages,
+                            total_schedule_messages,
+                            pending_messages,
+                            stream_messages,
+                            scheduled_task_keys,
+                            *parked_messages,
+                        ) = await pipeline.execute()
+                    except redis.exceptions.ResponseError as e:
+                        # Check for NOGROUP error. Also check for XPENDING because
+                        # redis-py 7.0 has a bug where pipeline errors lose the
+                        # original NOGROUP message (shows "{exception.args}" instead).
+                        error_str = str(e)
+                        if "NOGROUP" in error_str or "XPENDING" in error_str:
+                            await self._ensure_stream_and_group()
+                            return await self.snapshot()
+                        raise  # pragma: no cover
+
+                # The parked messages were read along with everything else, so the
+                # snapshot is consistent unless more tasks have been scheduled since
+                # we learned the keys to read.
+                if set(scheduled_task_keys) <= set(parked_task_keys):
+                    break
+
+                parked_task_keys = scheduled_task_keys
+
+        # A message may have been moved from the schedule to the stream since we
+        # learned its key, which is then an empty `{}` message here
+        queued_messages: list[RedisMessage] = [m for m in parked_messages if m]
 
         total_tasks = total_stream_messages + total_schedule_messages
 
         pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
-            pending["message_id"]: pending for pending in pending_messages
+            pending["message_id"]: pending
+            for pending in map(_with_str_keys, pending_messages)
         }
 
         # Import here to avoid circular import
@@ -180,9 +207,18 @@ class DocketSnapshotMixin:
             execution = await Execution.from_message(docket, message)
             if message_id in pending_lookup:
                 worker_name = pending_lookup[message_id]["consumer"].decode()
-                started = now - timedelta(
-                    milliseconds=pending_lookup[message_id]["time_since_delivered"]
-                )
+                if (
+                    execution.state is ExecutionState.RUNNING
+                    and execution.worker == worker_name
+                    and execution.started_at is not None
+                ):
+                    started = execution.started_at
+                else:
+                    # Delivered, but not started yet (once started, the worker keeps
+                    # renewing the delivery)
+                    started = now - timedelta(
+                        milliseconds=pending_lookup[message_id]["time_since_delivered"]
+                    )
                 running.append(RunningExecution(execution, worker_name, started))
             else:
                 future.append(execution)  # pragma: no cover
-- 
2.43.0


From b658a6e4362ab14a83d9f813c4558bcd5ff29ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 43/75] fix: waiting for a task doesn't miss a change made just
 before subscribing

---
 src/docket/execution.py | 62 ++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index d35d973..3d0a99a 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1209,11 +1209,44 @@ class Execution:
             - For state events: type="state", state, worker, timestamps, error
             - For progress events: type="progress", current, total, message, updated_at
         """
-        # First, emit the current state
-        await self.sync()
+        state_channel = self.docket.key(f"state:{self.key}")
+        progress_channel = self.docket.key(f"progress:{self.key}")
+        async with self.docket._pubsub() as pubsub:
+            # Subscribe before looking at the current state, so that no change is
+            # missed in between
+            await pubsub.subscribe(state_channel, progress_channel)
+            unacknowledged = {state_channel, progress_channel}
+            current = False
+
+            async for message in pubsub.listen():  # pragma: no cover
+                if message["type"] == "subscribe":
+                    channel = message["channel"]
+                    if isinstance(channel, bytes):
+                        channel = channel.decode()
+                    unacknowledged.discard(channel)
+                    if unacknowledged:
+                        continue
+
+                    # Also when a lost connection has been reestablished: changes
+                    # may have been missed meanwhile
+                    unacknowledged = {state_channel, progress_channel}
+
+                    if ready is not None:
+                        ready.set()
+
+                    await self.sync()
+                    yield self._current_state_event()
+                    yield self._current_progress_event()
+                    current = True
+
+                elif message["type"] == "message" and current:
+                    message_data = json.loads(message["data"])
+                    if message_data["type"] == "state":
+                        message_data["state"] = ExecutionState(message_data["state"])
+                    yield message_data
 
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
+    def _current_state_event(self) -> StateEvent:
+        return {
             "type": "state",
             "key": self.key,
             "state": self.state,
@@ -1226,9 +1259,8 @@ class Execution:
             "error": self.error,
         }
 
-        yield initial_state
-
-        progress_event: ProgressEvent = {
+    def _current_progress_event(self) -> ProgressEvent:
+        return {
             "type": "progress",
             "key": self.key,
             "current": self.progress.current,
@@ -1239,22 +1271,6 @@ class Execution:
             else None,
         }
 
-        yield progress_event
-
-        # Then subscribe to real-time updates
-        state_channel = self.docket.key(f"state:{self.key}")
-        progress_channel = self.docket.key(f"progress:{self.key}")
-        async with self.docket._pubsub() as pubsub:
-            await pubsub.subscribe(state_channel, progress_channel)
-            if ready is not None:
-                ready.set()
-            async for message in pubsub.listen():  # pragma: no cover
-                if message["type"] == "message":
-                    message_data = json.loads(message["data"])
-                    if message_data["type"] == "state":
-                        message_data["state"] = ExecutionState(message_data["state"])
-                    yield message_data
-
 
 def compact_signature(signature: inspect.Signature) -> str:
     parameters: list[str] = []
-- 
2.43.0


From 99e9dce4a4b83e05ab770dd01b52d023a7f5accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 44/75] fix: an exception that can't be stored or described
 fails its task, not the worker

---
 src/docket/execution.py |  7 ++++++-
 src/docket/worker.py    | 32 ++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 3d0a99a..e09e804 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1107,7 +1107,12 @@ class Execution:
                 if result_data and "data" in result_data:
                     # Base64-decode and unpickle
                     pickled_exception = base64.b64decode(result_data["data"])
-                    exception = cloudpickle.loads(pickled_exception)
+                    try:
+                        exception = cloudpickle.loads(pickled_exception)
+                    except Exception:
+                        # Not every exception can be rebuilt from its pickle (e.g.
+                        # one whose __init__ takes other arguments than its args)
+                        raise Exception(self.error or "Task execution failed")
                     raise exception
             # If no stored exception, raise a generic error with the error message
             error_msg = self.error or "Task execution failed"
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 43da945..5ce2fef 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -9,7 +9,7 @@ import signal
 import socket
 import sys
 import time
-from contextlib import AsyncExitStack, contextmanager
+from contextlib import AsyncExitStack, contextmanager, suppress
 from dataclasses import dataclass
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -117,6 +117,22 @@ async def _wait_for_event(event: asyncio.Event, timeout: float) -> bool:
     return True
 
 
+def _error_message(error: BaseException) -> str:
+    """The error's message, if it can be described at all."""
+    try:
+        return str(error)
+    except Exception:
+        return ""
+
+
+def _pickled_exception(error: Exception) -> bytes | None:
+    """The pickled exception, or None if it (or something it refers to) can't be."""
+    try:
+        return cloudpickle.dumps(error)  # type: ignore[arg-type]
+    except Exception:
+        return None
+
+
 class PubSubMessage(TypedDict):
     """Message received from Redis pub/sub pattern subscription."""
 
@@ -1058,7 +1074,9 @@ class Worker:
             generation=int(generation) if generation.isdigit() else 0,
             message_id=message_id,
         )
-        await execution.mark_as_failed(f"{type(error).__name__}: {error}")
+        await execution.mark_as_failed(
+            f"{type(error).__name__}: {_error_message(error)}"
+        )
 
     async def _delete_known_task(self, redis: Redis, execution: Execution) -> None:
         logger.debug("Deleting known task", extra=self._log_context())
@@ -1242,8 +1260,9 @@ class Worker:
                 duration = log_context["duration"] = time.time() - start
                 TASKS_FAILED.add(1, counter_labels)
 
-                span.record_exception(e)
-                span.set_status(Status(StatusCode.ERROR, str(e)))
+                with suppress(Exception):  # recording it means describing it
+                    span.record_exception(e)
+                span.set_status(Status(StatusCode.ERROR, _error_message(e)))
 
                 outcome = TaskOutcome(
                     duration=timedelta(seconds=duration),
@@ -1281,12 +1300,13 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
+                    pickled_exception = _pickled_exception(e)
                     if (
                         self.docket.execution_ttl
+                        and pickled_exception is not None
                         # The result belongs to the newest run of the key
                         and not await execution.is_superseded()
                     ):
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
                             "ascii"
@@ -1298,7 +1318,7 @@ class Worker:
                         )
 
                     # Mark execution as failed with error message
-                    error_msg = f"{type(e).__name__}: {str(e)}"
+                    error_msg = f"{type(e).__name__}: {_error_message(e)}"
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From e8097e15e0d2c6304847bcb0bea52c461c7e2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 45/75] fix: an execution_ttl of less than a second keeps
 records that long, rather than failing tasks

---
 src/docket/docket.py    | 14 ++++++++------
 src/docket/execution.py |  6 +-----
 src/docket/worker.py    |  4 ++--
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index d3984ef..5310321 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,6 +1,7 @@
 import importlib
 import json
 import logging
+import math
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -393,6 +394,11 @@ class Docket(DocketSnapshotMixin):
         async with self._redis.client() as r:
             yield r
 
+    @property
+    def _execution_ttl_seconds(self) -> int:
+        """The execution_ttl in whole seconds, rounded up so that a short one isn't none."""
+        return math.ceil(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+
     @asynccontextmanager
     async def _pubsub(self) -> AsyncGenerator[PubSubClient, None]:
         async with self._redis.pubsub() as pubsub:
@@ -896,9 +902,7 @@ class Docket(DocketSnapshotMixin):
         completed_at = datetime.now(timezone.utc).isoformat()
         task_runs_key = self.runs_key(key)
 
-        ttl_seconds = (
-            int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
-        )
+        ttl_seconds = self._execution_ttl_seconds
         state_payload = json.dumps(
             {
                 "type": "state",
@@ -997,9 +1001,7 @@ class Docket(DocketSnapshotMixin):
             "docket.clear",
             attributes=self.labels(),
         ):
-            ttl_seconds = (
-                int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
-            )
+            ttl_seconds = self._execution_ttl_seconds
             async with self.redis() as redis:
                 return await _clear_tasks(
                     redis,
diff --git a/src/docket/execution.py b/src/docket/execution.py
index e09e804..61f808a 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -943,11 +943,7 @@ class Execution:
         if result_key is not None:
             extra_fields.extend(["result_key", result_key])
 
-        ttl_seconds = (
-            int(self.docket.execution_ttl.total_seconds())
-            if self.docket.execution_ttl
-            else 0
-        )
+        ttl_seconds = self.docket._execution_ttl_seconds
 
         # Pre-build the terminal-state payload; the Lua publishes it on both
         # the success and supersession paths.
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 5ce2fef..4d08eb7 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1226,7 +1226,7 @@ class Worker:
                                 "ascii"
                             )
                             result_key = execution.key
-                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                            ttl_seconds = self.docket._execution_ttl_seconds
                             await self.docket.result_storage.put(
                                 result_key, {"data": encoded_result}, ttl=ttl_seconds
                             )
@@ -1312,7 +1312,7 @@ class Worker:
                             "ascii"
                         )
                         result_key = execution.key
-                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                        ttl_seconds = self.docket._execution_ttl_seconds
                         await self.docket.result_storage.put(
                             result_key, {"data": encoded_exception}, ttl=ttl_seconds
                         )
-- 
2.43.0


From f89d1c5d7aaa4ee6960f00e5d4256852594ffcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 46/75] fix: an agenda's tasks are scheduled under the name
 they were added by

---
 src/docket/agenda.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index 2b95f98..0d3eb6e 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -186,10 +186,12 @@ class Agenda:
                 jittered_times.append(jittered_time)
             schedule_times = jittered_times
 
-        # Validate and resolve every task first, so an unregistered name fails
+        # Validate every task first, so an unregistered name fails
         # before we schedule anything.
         planned: list[
-            tuple[TaskFunction, tuple[Any, ...], dict[str, Any], str, datetime]
+            tuple[
+                TaskFunction | str, tuple[Any, ...], dict[str, Any], str, datetime
+            ]
         ] = []
         for (task_func, args, kwargs, explicit_key), schedule_time in zip(
             self._tasks, schedule_times
@@ -197,19 +199,17 @@ class Agenda:
             if isinstance(task_func, str):
                 if task_func not in docket.tasks:
                     raise KeyError(f"Task '{task_func}' is not registered")
-                resolved_func = docket.tasks[task_func]
-            else:
-                if task_func not in docket.tasks.values():
-                    docket.register(task_func)
-                resolved_func = task_func
+            elif task_func not in docket.tasks.values():
+                docket.register(task_func)
 
             key = explicit_key if explicit_key is not None else str(uuid7())
-            planned.append((resolved_func, args, kwargs, key, schedule_time))
+            planned.append((task_func, args, kwargs, key, schedule_time))
 
         # Schedule each task; if one fails partway, earlier ones stay scheduled.
         executions: list[Execution] = []
-        for resolved_func, args, kwargs, key, schedule_time in planned:
-            scheduler = docket.add(resolved_func, when=schedule_time, key=key)
+        for task_func, args, kwargs, key, schedule_time in planned:
+            # By name, if that's how it was added: it may not be the function's own
+            scheduler = docket.add(task_func, when=schedule_time, key=key)
             executions.append(await scheduler(*args, **kwargs))
 
         return executions
-- 
2.43.0


From 2b70375996807da57b952ca3029410d102e047e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 47/75] fix: an argument is logged only if the parameter
 receiving it says so

---
 src/docket/execution.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 61f808a..9f122c5 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -712,20 +712,36 @@ class Execution:
 
         signature = get_signature(self.function)
         logged_parameters = Logged.annotated_parameters(signature)
-        parameter_names = list(signature.parameters.keys())
 
-        for i, argument in enumerate(self.args[: len(parameter_names)]):
-            parameter_name = parameter_names[i]
-            if logged := logged_parameters.get(parameter_name):
+        # Each argument is described as the parameter that receives it would have it,
+        # with the spare ones going to *args and **kwargs
+        positional: list[str] = []
+        keywords: set[str] = set()
+        spare_positional = spare_keywords = ""
+        for name, parameter in signature.parameters.items():
+            if parameter.kind is parameter.VAR_POSITIONAL:
+                spare_positional = name
+            elif parameter.kind is parameter.VAR_KEYWORD:
+                spare_keywords = name
+            else:
+                if parameter.kind is not parameter.KEYWORD_ONLY:
+                    positional.append(name)
+                if parameter.kind is not parameter.POSITIONAL_ONLY:
+                    keywords.add(name)
+
+        for i, argument in enumerate(self.args):
+            receiver = positional[i] if i < len(positional) else spare_positional
+            if logged := logged_parameters.get(receiver):
                 arguments.append(logged.format(argument))
             else:
                 arguments.append("...")
 
-        for parameter_name, argument in self.kwargs.items():
-            if logged := logged_parameters.get(parameter_name):
-                arguments.append(f"{parameter_name}={logged.format(argument)}")
+        for name, argument in self.kwargs.items():
+            receiver = name if name in keywords else spare_keywords
+            if logged := logged_parameters.get(receiver):
+                arguments.append(f"{name}={logged.format(argument)}")
             else:
-                arguments.append(f"{parameter_name}=...")
+                arguments.append(f"{name}=...")
 
         return f"{function_name}({', '.join(arguments)}){{{self.key}}}"
 
-- 
2.43.0


From 79190c9a60db74017637324d4e6e87fd3f324c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 48/75] fix: a task whose defaults can't be hashed runs, rather
 than stopping the worker

---
 src/docket/annotations.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index a5c09e4..d7b8955 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -13,10 +13,19 @@ class Annotation(abc.ABC):
     @classmethod
     def annotated_parameters(cls, signature: inspect.Signature) -> Mapping[str, Self]:
         key = (cls, signature)
-        if key in cls._cache:
-            CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
-            return cls._cache[key]
+        try:
+            hash(key)
+        except TypeError:
+            # A signature with an unhashable default (or annotation) can't be cached
+            return cls._find_annotated(signature)
+
+        if key not in cls._cache:
+            cls._cache[key] = cls._find_annotated(signature)
+        CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
+        return cls._cache[key]
 
+    @classmethod
+    def _find_annotated(cls, signature: inspect.Signature) -> Mapping[str, Self]:
         annotated: dict[str, Self] = {}
 
         for param_name, param in signature.parameters.items():
@@ -34,8 +43,6 @@ class Annotation(abc.ABC):
                 elif isinstance(arg_type, type) and issubclass(arg_type, cls):
                     annotated[param_name] = arg_type()
 
-        cls._cache[key] = annotated
-        CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
         return annotated
 
 
-- 
2.43.0


From 515aef92d6639ecbdf18b575796b063e85d2e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 49/75] fix: a worker starts with tasks annotated with a bare
 generic

---
 src/docket/execution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 9f122c5..e2df07d 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1302,7 +1302,9 @@ def compact_signature(signature: inspect.Signature) -> str:
         if parameter.annotation is not parameter.empty:
             annotation = parameter.annotation
             if hasattr(annotation, "__origin__"):
-                annotation = annotation.__args__[0]
+                # A bare typing.List, or tuple[()], has no arguments to show
+                inner = getattr(annotation, "__args__", ())
+                annotation = inner[0] if inner else annotation.__origin__
 
             type_name = getattr(annotation, "__name__", str(annotation))
             parameter_definition = f"{parameter.name}: {type_name}"
-- 
2.43.0


From a2f088e92cb089f4757e69183f0bf7f98a25b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 50/75] fix: docket watch keeps watching a task that is quiet
 for a second

---
 src/docket/cli/_support.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 582dd00..1ca5e46 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -35,16 +35,28 @@ async def iterate_with_timeout(
     """
     import asyncio
 
+    pending: asyncio.Future[dict[str, Any]] | None = None
     try:
         while True:
-            try:
-                yield await asyncio.wait_for(iterator.__anext__(), timeout=timeout)
-            except asyncio.TimeoutError:
+            # A timeout leaves the next item pending, as cancelling it would end
+            # the iterator
+            if pending is None:
+                pending = asyncio.ensure_future(iterator.__anext__())
+            done, _ = await asyncio.wait({pending}, timeout=timeout)
+            if not done:
                 # Yield None to signal timeout, allowing caller to handle polling
                 yield None
+                continue
+            finished, pending = pending, None
+            try:
+                item = finished.result()
             except StopAsyncIteration:
                 break
+            yield item
     finally:
+        if pending is not None:
+            pending.cancel()
+            await asyncio.wait({pending})
         await iterator.aclose()
 
 
-- 
2.43.0


From 295801dfee699d7dcfee76ccfaab5980b760085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 51/75] fix: docket watch ends when the task is cancelled

---
 src/docket/cli/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index 0683961..fd89c3a 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -678,6 +678,7 @@ def watch(
                 ExecutionState.RUNNING: "blue",
                 ExecutionState.COMPLETED: "green",
                 ExecutionState.FAILED: "red",
+                ExecutionState.CANCELLED: "red",
             }
 
             # Load initial snapshot
@@ -755,6 +756,8 @@ def watch(
                     )
                 elif current_state == ExecutionState.FAILED:
                     info_lines.append("[red bold]✗ Task failed[/red bold]")
+                elif current_state == ExecutionState.CANCELLED:
+                    info_lines.append("[red bold]✗ Task cancelled[/red bold]")
 
                 info_section = "\n".join(info_lines)
 
@@ -776,7 +779,11 @@ def watch(
             layout = create_display_layout()
 
             # If already in terminal state, display once and exit
-            if current_state in (ExecutionState.COMPLETED, ExecutionState.FAILED):
+            if current_state in (
+                ExecutionState.COMPLETED,
+                ExecutionState.FAILED,
+                ExecutionState.CANCELLED,
+            ):
                 console.print(layout)
                 return
 
@@ -833,6 +840,7 @@ def watch(
                         if current_state in (
                             ExecutionState.COMPLETED,
                             ExecutionState.FAILED,
+                            ExecutionState.CANCELLED,
                         ):
                             break
 
-- 
2.43.0


From 1d8554ec3d528143241c54d77aabb503c13417f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 52/75] fix: a negative clock value isn't taken for another
 duration

---
 src/docket/cli/_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 1ca5e46..d7526d2 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -99,6 +99,8 @@ def duration(duration_str: str | timedelta) -> timedelta:
 
     if ":" in duration_str:
         parts = duration_str.split(":")
+        if any(part.strip().startswith("-") for part in parts):
+            raise ValueError(f"Invalid duration string: {duration_str}")
         if len(parts) == 2:  # mm:ss
             minutes, seconds = map(int, parts)
             return timedelta(minutes=minutes, seconds=seconds)
-- 
2.43.0


From daacf7dbbeb5437685fd727a70948bfcf32565f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 53/75] fix: a restarted worker isn't listed with tasks it no
 longer has

---
 src/docket/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 4d08eb7..190a966 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1381,6 +1381,8 @@ class Worker:
                                 pipeline.zremrangebyscore(task_workers_set, 0, oldest)
                                 pipeline.zadd(task_workers_set, {self.name: now})
 
+                            # Not those of an earlier worker of this name
+                            pipeline.delete(self.worker_tasks_set(self.name))
                             pipeline.sadd(self.worker_tasks_set(self.name), *task_names)
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
-- 
2.43.0


From 87f4142f4155babd0c25ee39c619f87fd3597625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 54/75] fix: a listed worker's tasks are kept for as long as it
 is listed

---
 src/docket/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 190a966..ede2d30 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -4,6 +4,7 @@ import asyncio
 import base64
 import importlib
 import logging
+import math
 import os
 import signal
 import socket
@@ -1387,7 +1388,9 @@ class Worker:
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
                                 max(
-                                    maximum_age, timedelta(seconds=MINIMUM_TTL_SECONDS)
+                                    # Redis expiry is in whole seconds
+                                    math.ceil(maximum_age.total_seconds()),
+                                    MINIMUM_TTL_SECONDS,
                                 ),
                             )
 
-- 
2.43.0


From b8911aee7b936f9f7d0afecd4753fd1cc8b3c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 55/75] fix: concurrent runs of a task each report their own
 progress

---
 src/docket/dependencies/_progress.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..dfb2112 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -33,9 +33,10 @@ class Progress(Dependency["Progress"]):
         self._progress: ExecutionProgress | None = None
 
     async def __aenter__(self) -> Progress:
-        execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # The default is shared by every run of the task, so each gets its own
+        progress = Progress()
+        progress._progress = current_execution.get().progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From 9dbbe520c9057a14515717050e2f5b3b83d352da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 56/75] fix: a superseded run leaves no progress behind after
 its successor ended

---
 src/docket/_execution_progress.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 4089148..45a0ca9 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -28,16 +28,19 @@ async def _progress_write(
     redis: RedisClient,
     *,
     progress_key: Key[str],
+    runs_key: Key[str],
     generation: Arg[int],
     payload: Arg[str],
     clear_message: Arg[bool],
     fields: Args[dict[str, str]],
 ) -> bytes:
     """
-    -- A newer run of this key is reporting here: what an older, superseded run
-    -- still has to say must not be mixed into it (generation 0 = untracked).
+    -- A newer run of this key is reporting here, or has been and is over: what
+    -- an older, superseded run still has to say must not be mixed into it, or
+    -- left behind (generation 0 = untracked).
     if generation > 0 then
         local owner = redis.call('HGET', progress_key, 'generation')
+            or redis.call('HGET', runs_key, 'generation')
         if owner and tonumber(owner) > generation then
             return 'SUPERSEDED'
         end
@@ -65,6 +68,7 @@ async def _progress_increment(
     redis: RedisClient,
     *,
     progress_key: Key[str],
+    runs_key: Key[str],
     generation: Arg[int],
     amount: Arg[int],
     updated_at: Arg[str],
@@ -73,6 +77,7 @@ async def _progress_increment(
     -- See _progress_write; a count is never negative, so -1 says "superseded".
     if generation > 0 then
         local owner = redis.call('HGET', progress_key, 'generation')
+            or redis.call('HGET', runs_key, 'generation')
         if owner and tonumber(owner) > generation then
             return -1
         end
@@ -129,6 +134,7 @@ class ExecutionProgress:
         self.key = key
         self.generation = generation
         self._redis_key = docket.key(f"progress:{key}")
+        self._runs_key = docket.key(f"runs:{key}")
         self.current: int | None = None
         self.total: int = 1
         self.message: str | None = None
@@ -181,6 +187,7 @@ class ExecutionProgress:
             await _progress_write(
                 redis,
                 progress_key=self._redis_key,
+                runs_key=self._runs_key,
                 generation=self.generation,
                 payload=json.dumps(payload),
                 clear_message=False,
@@ -204,6 +211,7 @@ class ExecutionProgress:
             new_current = await _progress_increment(
                 redis,
                 progress_key=self._redis_key,
+                runs_key=self._runs_key,
                 generation=self.generation,
                 amount=amount,
                 updated_at=updated_at,
@@ -240,6 +248,7 @@ class ExecutionProgress:
             await _progress_write(
                 redis,
                 progress_key=self._redis_key,
+                runs_key=self._runs_key,
                 generation=self.generation,
                 payload=json.dumps(payload),
                 clear_message=message is None,
-- 
2.43.0


From b2cda0e4a293d07f97d5cf9c98c3b8e6be3eeb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 57/75] fix: reject progress totals and amounts that aren't
 integers

---
 src/docket/_execution_progress.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 45a0ca9..e54179c 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -170,6 +170,8 @@ class ExecutionProgress:
         Args:
             total: The total number of units to complete. Must be at least 1.
         """
+        if not isinstance(total, int) or isinstance(total, bool):
+            raise TypeError("Total must be an integer")
         if total < 1:
             raise ValueError("Total must be at least 1")
 
@@ -202,6 +204,8 @@ class ExecutionProgress:
         Args:
             amount: Amount to increment by. Must be at least 1.
         """
+        if not isinstance(amount, int) or isinstance(amount, bool):
+            raise TypeError("Amount must be an integer")
         if amount < 1:
             raise ValueError("Amount must be at least 1")
 
-- 
2.43.0


From e864c6fded857369193cc095e8b4d4895b0b0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 58/75] fix: a task whose dependencies fail to close ends once,
 as failed

---
 src/docket/worker.py | 94 ++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 43 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index ede2d30..c20b4df 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1130,6 +1130,8 @@ class Worker:
         )
 
         dependencies: dict[str, Dependency] = {}
+        unresolved: Exception | None = None
+        result: Any = None
 
         with tracer.start_as_current_span(
             execution.function_name,
@@ -1153,10 +1155,11 @@ class Worker:
                     # This happens when ConcurrencyLimit couldn't acquire a slot
                     for failure in dependency_failures.values():
                         if isinstance(failure.error, AdmissionBlocked):
-                            raise failure.error
+                            unresolved = failure.error
+                            raise unresolved
 
                     if dependency_failures:
-                        raise ExceptionGroup(
+                        unresolved = ExceptionGroup(
                             (
                                 "Failed to resolve dependencies for parameter(s): "
                                 + ", ".join(
@@ -1169,6 +1172,7 @@ class Worker:
                                 for dependency in dependency_failures.values()
                             ],
                         )
+                        raise unresolved
 
                     # Worker-level deps live in the resolved dict under synthetic
                     # ``__worker_dep__`` keys and must not be passed to the task body.
@@ -1193,51 +1197,55 @@ class Worker:
                             *execution.args, **final_kwargs
                         )
 
-                    duration = log_context["duration"] = time.time() - start
-                    TASKS_SUCCEEDED.add(1, counter_labels)
+                # A dependency that swallows exceptions doesn't resolve the others
+                if unresolved is not None:
+                    raise unresolved
 
-                    span.set_status(Status(StatusCode.OK))
+                duration = log_context["duration"] = time.time() - start
+                TASKS_SUCCEEDED.add(1, counter_labels)
 
-                    # Check for completion handler (e.g., Perpetual)
-                    completion_handler = get_single_dependency_of_type(
-                        dependencies, CompletionHandler
-                    )
-                    outcome = TaskOutcome(
-                        duration=timedelta(seconds=duration),
-                        result=result,
-                    )
-                    if completion_handler and await completion_handler.on_complete(
-                        execution, outcome
+                span.set_status(Status(StatusCode.OK))
+
+                # Check for completion handler (e.g., Perpetual)
+                completion_handler = get_single_dependency_of_type(
+                    dependencies, CompletionHandler
+                )
+                outcome = TaskOutcome(
+                    duration=timedelta(seconds=duration),
+                    result=result,
+                )
+                if completion_handler and await completion_handler.on_complete(
+                    execution, outcome
+                ):
+                    # Handler took responsibility (rescheduled, logged, recorded metrics)
+                    await execution.mark_as_completed(result_key=None)
+                else:
+                    # No handler or handler didn't handle - normal completion
+                    result_key = None
+                    if (
+                        result is not None
+                        and self.docket.execution_ttl
+                        # The result belongs to the newest run of the key
+                        and not await execution.is_superseded()
                     ):
-                        # Handler took responsibility (rescheduled, logged, recorded metrics)
-                        await execution.mark_as_completed(result_key=None)
-                    else:
-                        # No handler or handler didn't handle - normal completion
-                        result_key = None
-                        if (
-                            result is not None
-                            and self.docket.execution_ttl
-                            # The result belongs to the newest run of the key
-                            and not await execution.is_superseded()
-                        ):
-                            # Serialize and store result
-                            pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
-                            # Base64-encode for JSON serialization
-                            encoded_result = base64.b64encode(pickled_result).decode(
-                                "ascii"
-                            )
-                            result_key = execution.key
-                            ttl_seconds = self.docket._execution_ttl_seconds
-                            await self.docket.result_storage.put(
-                                result_key, {"data": encoded_result}, ttl=ttl_seconds
-                            )
-                        await execution.mark_as_completed(result_key=result_key)
-                        logger.info(
-                            "↩ [%s] %s",
-                            format_duration(duration),
-                            call,
-                            extra=log_context,
+                        # Serialize and store result
+                        pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
+                        # Base64-encode for JSON serialization
+                        encoded_result = base64.b64encode(pickled_result).decode(
+                            "ascii"
                         )
+                        result_key = execution.key
+                        ttl_seconds = self.docket._execution_ttl_seconds
+                        await self.docket.result_storage.put(
+                            result_key, {"data": encoded_result}, ttl=ttl_seconds
+                        )
+                    await execution.mark_as_completed(result_key=result_key)
+                    logger.info(
+                        "↩ [%s] %s",
+                        format_duration(duration),
+                        call,
+                        extra=log_context,
+                    )
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
-- 
2.43.0


From 1ff8fff94a1fc2bc954d2a6bf47aaa28b09636a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 59/75] fix: admission control isn't undone by a dependency
 that swallows or raises exceptions

---
 src/docket/dependencies/_resolution.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index 881c085..f69beec 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -186,6 +186,7 @@ async def resolved_dependencies(
     worker_token = current_worker.set(worker)
     execution_token = current_execution.set(execution)
     cache_token = _Depends.cache.set({})
+    blocked: AdmissionBlocked | None = None
 
     try:
         async with AsyncExitStack() as stack:
@@ -197,10 +198,11 @@ async def resolved_dependencies(
                     slot = f"__worker_dep__{name}"
                     try:
                         arguments[slot] = await stack.enter_async_context(dependency)
-                    except AdmissionBlocked:
+                    except AdmissionBlocked as error:
                         # The task isn't going to run now, and whatever blocked it
                         # has decided what becomes of it: no other control may
                         # take it as arrived, or decide again.
+                        blocked = error
                         raise
                     except Exception as error:
                         arguments[slot] = FailedDependency(name, error)
@@ -227,7 +229,8 @@ async def resolved_dependencies(
                         arguments[parameter] = await stack.enter_async_context(
                             dependency
                         )
-                    except AdmissionBlocked:
+                    except AdmissionBlocked as error:
+                        blocked = error
                         raise
                     except Exception as error:
                         arguments[parameter] = FailedDependency(parameter, error)
@@ -243,7 +246,8 @@ async def resolved_dependencies(
                         )
                         try:
                             await stack.enter_async_context(bound)
-                        except AdmissionBlocked:
+                        except AdmissionBlocked as error:
+                            blocked = error
                             raise
                         except Exception as error:
                             arguments[parameter_name] = FailedDependency(
@@ -259,6 +263,14 @@ async def resolved_dependencies(
                 yield arguments
             finally:
                 _Depends.stack.reset(stack_token)
+    except Exception as error:
+        if blocked is None or error is blocked:
+            raise
+        # What becomes of the task is decided, whatever fails on the way out
+        raise blocked from error
+    else:
+        if blocked is not None:  # ...or swallows it
+            raise blocked
     finally:
         _Depends.cache.reset(cache_token)
         current_execution.reset(execution_token)
-- 
2.43.0


From 91a33354627eb7c982f570207d1528e5593a11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 60/75] fix: an argument passed by position stands in for a
 dependency too

---
 src/docket/dependencies/_resolution.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index f69beec..a657efb 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -178,6 +178,15 @@ def _argument_value(
     return bound.arguments.get(parameter)
 
 
+def _passed_by_position(execution: Execution) -> set[str]:
+    """The parameters of the function that the task's positional arguments fill."""
+    try:
+        bound = get_signature(execution.function).bind_partial(*execution.args)
+    except TypeError:  # the call itself is going to report the mismatch
+        return set()
+    return set(bound.arguments)
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -207,12 +216,15 @@ async def resolved_dependencies(
                     except Exception as error:
                         arguments[slot] = FailedDependency(name, error)
 
+                passed = _passed_by_position(execution)
                 parameters = get_dependency_parameters(execution.function)
                 for parameter, dependency in parameters.items():
                     kwargs = execution.kwargs
                     if parameter in kwargs:
                         arguments[parameter] = kwargs[parameter]
                         continue
+                    if parameter in passed:
+                        continue
 
                     # At the top-level task function call, a bare TaskArgument without
                     # a parameter name doesn't make sense, so mark it as failed.
-- 
2.43.0


From 8da4eeec30dfe03136f97c2d30e0414d17f30bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 61/75] fix: tasks keyed like the docket's own Redis keys don't
 collide with them

A task with a key like 'queue', 'runs:x' or 'progress:x' was parked where the
docket keeps its own data, and a task's lock was kept where another task's
record of being known is.
---
 src/docket/docket.py    | 29 ++++++++++++++++++++++++++++-
 src/docket/execution.py |  2 +-
 src/docket/worker.py    | 14 +++++++++++++-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 5310321..0cde237 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -65,6 +65,16 @@ from .strikelist import (
 logger: logging.Logger = logging.getLogger(__name__)
 tracer: trace.Tracer = trace.get_tracer(__name__)
 
+# The first segments of what a docket keeps in Redis besides parked tasks, like
+# "{prefix}:queue" or "{prefix}:runs:{task_key}".  The data of a task whose key
+# begins like these is parked under a prefix of its own instead, see
+# Docket.parked_task_key and the same function in the Lua scripts.
+RESERVED_KEY_SEGMENTS = (
+    ":queue:stream:known:stream-id:runs:progress:lock:parked:results:strikes:"
+    "workers:worker-tasks:task-workers:perpetual:concurrency:ratelimit:cooldown:"
+    "debounce:"
+)
+
 
 @redis_script
 async def _cancel_task(
@@ -145,6 +155,7 @@ async def _clear_tasks(
     stream_key: Key[str],
     queue_key: Key[str],
     docket_prefix: Arg[str],
+    reserved_key_segments: Arg[str],
     completed_at: Arg[str],
     ttl_seconds: Arg[int],
 ) -> int:
@@ -159,6 +170,15 @@ async def _clear_tasks(
         return s
     end
 
+    -- As Docket.parked_task_key
+    local function parked_key(task_key)
+        local segment = ':' .. string.match(task_key, '^[^:]*') .. ':'
+        if string.find(reserved_key_segments, segment, 1, true) then
+            return docket_prefix .. ':parked:' .. task_key
+        end
+        return docket_prefix .. ':' .. task_key
+    end
+
     -- Forget a task that has not started, leaving a tombstone like cancel()'s
     -- and its key free to be scheduled again.
     local function forget(task_key)
@@ -211,7 +231,7 @@ async def _clear_tasks(
     local cleared = 0
 
     for _, task_key in ipairs(redis.call('ZRANGE', queue_key, 0, -1)) do
-        redis.call('DEL', docket_prefix .. ":" .. task_key)
+        redis.call('DEL', parked_key(task_key))
         forget(task_key)
         if is_safeguard(task_key) then
             cleared = cleared + forget_waiter(task_key)
@@ -848,8 +868,14 @@ class Docket(DocketSnapshotMixin):
         return self.key(f"known:{task_key}")
 
     def parked_task_key(self, task_key: str) -> str:
+        if f":{task_key.partition(':')[0]}:" in RESERVED_KEY_SEGMENTS:
+            return self.key(f"parked:{task_key}")
         return self.key(task_key)
 
+    def task_lock_key(self, task_key: str) -> str:
+        """Return the Redis key of the lock for scheduling a task."""
+        return self.key(f"lock:{task_key}")
+
     def stream_id_key(self, task_key: str) -> str:
         return self.key(f"stream-id:{task_key}")
 
@@ -1008,6 +1034,7 @@ class Docket(DocketSnapshotMixin):
                     stream_key=self.stream_key,
                     queue_key=self.queue_key,
                     docket_prefix=self.prefix,
+                    reserved_key_segments=RESERVED_KEY_SEGMENTS,
                     completed_at=datetime.now(timezone.utc).isoformat(),
                     ttl_seconds=ttl_seconds,
                 )
diff --git a/src/docket/execution.py b/src/docket/execution.py
index e2df07d..cc5b4db 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -822,7 +822,7 @@ class Execution:
 
         async with self.docket.redis() as redis:
             # Lock per task key to prevent race conditions between concurrent operations
-            async with redis.lock(f"{known_task_key}:lock", timeout=10):
+            async with redis.lock(self.docket.task_lock_key(key), timeout=10):
                 reply = await _schedule(
                     redis,
                     stream_key=self.docket.stream_key,
diff --git a/src/docket/worker.py b/src/docket/worker.py
index c20b4df..a87177f 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -68,6 +68,7 @@ from .dependencies._resolution import (
     validate_worker_dependencies,
 )
 from .docket import (
+    RESERVED_KEY_SEGMENTS,
     Docket,
     Execution,
     RedisMessage,
@@ -177,6 +178,7 @@ async def _stream_due_tasks(
     stream_key: Key[str],
     now_timestamp: Arg[float],
     docket_prefix: Arg[str],
+    reserved_key_segments: Arg[str],
 ) -> tuple[int, int]:
     """
     -- Inline JSON-string escaper for the common cases (`\\`, `"`, and the
@@ -193,6 +195,15 @@ async def _stream_due_tasks(
         return s
     end
 
+    -- As Docket.parked_task_key
+    local function parked_key(task_key)
+        local segment = ':' .. string.match(task_key, '^[^:]*') .. ':'
+        if string.find(reserved_key_segments, segment, 1, true) then
+            return docket_prefix .. ':parked:' .. task_key
+        end
+        return docket_prefix .. ':' .. task_key
+    end
+
     local total_work = redis.call('ZCARD', queue_key)
     local due_work = 0
 
@@ -200,7 +211,7 @@ async def _stream_due_tasks(
         local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)
 
         for i, key in ipairs(tasks) do
-            local hash_key = docket_prefix .. ":" .. key
+            local hash_key = parked_key(key)
             local task_data = redis.call('HGETALL', hash_key)
 
             if #task_data > 0 then
@@ -912,6 +923,7 @@ class Worker:
                         stream_key=self.docket.stream_key,
                         now_timestamp=datetime.now(timezone.utc).timestamp(),
                         docket_prefix=self.docket.prefix,
+                        reserved_key_segments=RESERVED_KEY_SEGMENTS,
                     )
 
                 if due_work > 0:
-- 
2.43.0


From cf6e781f765a61586001790974d2eab689828e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 62/75] fix: the result of a task with an empty key can be
 retrieved

---
 src/docket/execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index cc5b4db..7c30747 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1113,7 +1113,7 @@ class Execution:
 
         # If failed, retrieve and raise the exception
         if self.state == ExecutionState.FAILED:
-            if self.result_key:
+            if self.result_key is not None:
                 # Retrieve serialized exception from result_storage
                 result_data = await self.docket.result_storage.get(self.result_key)
                 if result_data and "data" in result_data:
@@ -1131,7 +1131,7 @@ class Execution:
             raise Exception(error_msg)
 
         # If completed successfully, retrieve result if available
-        if self.result_key:
+        if self.result_key is not None:
             result_data = await self.docket.result_storage.get(self.result_key)
             if result_data is not None and "data" in result_data:
                 # Base64-decode and unpickle
-- 
2.43.0


From aaf758c135fbb9a648fc297f22667c77bc20a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 63/75] fix: a docket named with glob characters hears its own
 cancellations, and no other docket's

---
 src/docket/dependencies/_concurrency.py | 2 +-
 src/docket/docket.py                    | 7 +++++++
 src/docket/worker.py                    | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 7f87185..b0cb5b2 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -738,7 +738,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = docket.cancel_channels
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index 0cde237..4d5e2b6 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -2,6 +2,7 @@ import importlib
 import json
 import logging
 import math
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -887,6 +888,12 @@ class Docket(DocketSnapshotMixin):
         """Return the Redis pub/sub channel for cancellation signals for a task."""
         return self.key(f"cancel:{task_key}")
 
+    @property
+    def cancel_channels(self) -> str:
+        """Return the pattern of the cancellation channels of all tasks."""
+        prefix = re.sub(r"[*?\[\]\\]", r"\\\g<0>", self.prefix)
+        return f"{prefix}:cancel:*"
+
     @property
     def results_collection(self) -> str:
         """Return the collection name for result storage."""
diff --git a/src/docket/worker.py b/src/docket/worker.py
index a87177f..9dbb443 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1456,7 +1456,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = self.docket.cancel_channels
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
-- 
2.43.0


From eb938a1fc007402674f5bb4c4b43538a72081852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 64/75] fix: a concurrency limit's argument value ending in
 ':waiters' doesn't collide with another value's waiters

---
 src/docket/dependencies/_concurrency.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index b0cb5b2..c9706b4 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -567,6 +567,10 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             concurrency_key = (
                 f"{scope}:concurrency:{self.argument_name}:{argument_value}"
             )
+            # "{concurrency_key}:waiters" is where the tasks waiting for this
+            # value are parked, which must not be any other value's key.
+            if concurrency_key.rstrip(":").endswith(":waiters"):
+                concurrency_key += ":"
         else:
             concurrency_key = f"{scope}:concurrency:{execution.function_name}"
 
-- 
2.43.0


From b3033ee400fd49977c01549ef00c19835e5d0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 65/75] fix: a task whose admission can't reach Redis is
 redelivered rather than failed

Nor does failing to release its concurrency slot make a finished task fail.
---
 src/docket/dependencies/_concurrency.py | 15 +++++++++-
 src/docket/dependencies/_resolution.py  | 40 ++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index c9706b4..c73dfa6 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -10,6 +10,7 @@ from datetime import datetime, timedelta, timezone
 from typing import TYPE_CHECKING, Any, AsyncIterator, overload
 
 from opentelemetry import propagate
+from redis.exceptions import ConnectionError
 
 from .._cancellation import CANCEL_MSG_CLEANUP, cancel_task, uninterrupted
 from .._lua import Arg, Args, Key, redis_script
@@ -679,7 +680,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         )
         stack = _Depends.stack.get()
         stack.push_async_callback(
-            lambda: uninterrupted(limit._release_and_wake()),
+            lambda: uninterrupted(limit._release()),
         )
         stack.push_async_callback(cancel_task, limit._renewal_task, CANCEL_MSG_CLEANUP)
 
@@ -804,6 +805,18 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         # key is a no-op (no waiter_stream on the safeguard's runs hash).
         await docket.cancel(f"__safeguard__:{task_key}")
 
+    async def _release(self) -> None:
+        try:
+            await self._release_and_wake()
+        except ConnectionError:
+            # The task has ended all the same.  Its slot goes stale, and the tasks
+            # waiting for it have their safeguards.
+            logger.warning(
+                "Failed to release concurrency slot for %s",
+                self._concurrency_key,
+                exc_info=True,
+            )
+
     async def _release_and_wake(self) -> None:
         """Release this task's slot and hand freed capacity to waiters."""
         assert self._concurrency_key and self._task_key and self._redelivery_timeout
diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index a657efb..dfd9b4a 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -2,10 +2,12 @@
 
 from __future__ import annotations
 
+import logging
 from collections.abc import Mapping, Sequence
 from contextlib import AsyncExitStack, asynccontextmanager
 from typing import TYPE_CHECKING, Any, AsyncGenerator, TypeVar
 
+from redis.exceptions import ConnectionError
 from uncalled_for import (
     FailedDependency,
     get_annotation_dependencies,
@@ -22,6 +24,8 @@ from ._base import (
 from ._contextual import _TaskArgument
 from ._functional import _Depends, get_dependency_parameters
 
+logger: logging.Logger = logging.getLogger(__name__)
+
 
 def _single_bases(cls: type) -> list[type[Dependency[Any]]]:
     """``Dependency`` ancestors of ``cls`` (inherited or declared) with
@@ -187,6 +191,34 @@ def _passed_by_position(execution: Execution) -> set[str]:
     return set(bound.arguments)
 
 
+def _is_built_in(dependency: Dependency[Any]) -> bool:
+    """Whether this is one of docket's own dependencies, like a limit, that only
+    ever uses docket's own connection to Redis."""
+    return not isinstance(dependency, _Depends) and (
+        type(dependency).__module__.startswith(f"{__package__}.")
+    )
+
+
+async def _enter(
+    stack: AsyncExitStack, dependency: Dependency[Any], execution: Execution
+) -> Any:
+    try:
+        return await stack.enter_async_context(dependency)
+    except ConnectionError as error:
+        if not _is_built_in(dependency):
+            raise
+        # Nothing is known to be wrong with the task, which hasn't started.  Its
+        # message is left pending, to be redelivered.
+        logger.warning(
+            "Error connecting to redis, leaving task %r to be redelivered",
+            execution.key,
+            exc_info=True,
+        )
+        raise AdmissionBlocked(
+            execution, reason="redis connection error", handled=True
+        ) from error
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -206,7 +238,7 @@ async def resolved_dependencies(
                 for name, dependency in worker.dependencies.items():
                     slot = f"__worker_dep__{name}"
                     try:
-                        arguments[slot] = await stack.enter_async_context(dependency)
+                        arguments[slot] = await _enter(stack, dependency, execution)
                     except AdmissionBlocked as error:
                         # The task isn't going to run now, and whatever blocked it
                         # has decided what becomes of it: no other control may
@@ -238,8 +270,8 @@ async def resolved_dependencies(
                         continue
 
                     try:
-                        arguments[parameter] = await stack.enter_async_context(
-                            dependency
+                        arguments[parameter] = await _enter(
+                            stack, dependency, execution
                         )
                     except AdmissionBlocked as error:
                         blocked = error
@@ -257,7 +289,7 @@ async def resolved_dependencies(
                             parameter_name, argument_value
                         )
                         try:
-                            await stack.enter_async_context(bound)
+                            await _enter(stack, bound, execution)
                         except AdmissionBlocked as error:
                             blocked = error
                             raise
-- 
2.43.0


From 6c5346f4864d929ba639403419c2b409b9b2d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 66/75] fix: a task that returned isn't recorded as failed when
 Redis fails to record it

---
 src/docket/worker.py | 48 +++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 9dbb443..2f7e7d8 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1101,6 +1101,25 @@ class Worker:
         stream_id_key = self.docket.stream_id_key(execution.key)
         await redis.delete(known_task_key, stream_id_key)
 
+    async def _record_completion(self, execution: Execution, result: Any) -> None:
+        result_key = None
+        if (
+            result is not None
+            and self.docket.execution_ttl
+            # The result belongs to the newest run of the key
+            and not await execution.is_superseded()
+        ):
+            # Serialize and store result
+            pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
+            # Base64-encode for JSON serialization
+            encoded_result = base64.b64encode(pickled_result).decode("ascii")
+            result_key = execution.key
+            ttl_seconds = self.docket._execution_ttl_seconds
+            await self.docket.result_storage.put(
+                result_key, {"data": encoded_result}, ttl=ttl_seconds
+            )
+        await execution.mark_as_completed(result_key=result_key)
+
     async def _execute(self, execution: Execution) -> None:
         log_context = {**self._log_context(), **execution.specific_labels()}
         counter_labels = {**self.labels(), **execution.general_labels()}
@@ -1233,25 +1252,18 @@ class Worker:
                     await execution.mark_as_completed(result_key=None)
                 else:
                     # No handler or handler didn't handle - normal completion
-                    result_key = None
-                    if (
-                        result is not None
-                        and self.docket.execution_ttl
-                        # The result belongs to the newest run of the key
-                        and not await execution.is_superseded()
-                    ):
-                        # Serialize and store result
-                        pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
-                        # Base64-encode for JSON serialization
-                        encoded_result = base64.b64encode(pickled_result).decode(
-                            "ascii"
-                        )
-                        result_key = execution.key
-                        ttl_seconds = self.docket._execution_ttl_seconds
-                        await self.docket.result_storage.put(
-                            result_key, {"data": encoded_result}, ttl=ttl_seconds
+                    try:
+                        await self._record_completion(execution, result)
+                    except ConnectionError:
+                        # It is Redis that failed, not the task
+                        logger.warning(
+                            "Error connecting to redis, recording completion in %s...",
+                            self.reconnection_delay,
+                            exc_info=True,
+                            extra=log_context,
                         )
-                    await execution.mark_as_completed(result_key=result_key)
+                        await asyncio.sleep(self.reconnection_delay.total_seconds())
+                        await self._record_completion(execution, result)
                     logger.info(
                         "↩ [%s] %s",
                         format_duration(duration),
-- 
2.43.0


From 96e4a88e287446bf8e7b623e60ef1d2a703ad1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 67/75] fix: a worker that loses its connection while seeding
 automatic tasks reconnects rather than exits

---
 src/docket/worker.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 2f7e7d8..8658f80 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -820,7 +820,12 @@ class Worker:
                         session.stopping.set()
                         return
                     if self.schedule_automatic_tasks:
-                        await self._schedule_all_automatic_perpetual_tasks()
+                        try:
+                            await self._schedule_all_automatic_perpetual_tasks()
+                        except ConnectionError as error:
+                            # As for the polling reads below: leave the TaskGroup
+                            # intact and let _run reconnect.
+                            disconnect = error
                         infra.create_task(
                             self._reseed_automatic_perpetual_tasks_loop(),
                             name=f"{self.docket.name} - automatic perpetual reseed",
@@ -839,8 +844,10 @@ class Worker:
                     )
                     has_work: bool = True
                     while (
-                        forever or has_work or active_tasks
-                    ) and not stopping.is_set():
+                        (forever or has_work or active_tasks)
+                        and disconnect is None
+                        and not stopping.is_set()
+                    ):
                         await process_completed_tasks()
                         available_slots = self.concurrency - len(active_tasks)
                         if available_slots <= 0:
@@ -879,7 +886,7 @@ class Worker:
 
                     session.stopping.set()
 
-            # A disconnection in the poll loop above leaves the TaskGroup intact
+            # A disconnection while seeding or polling above leaves the TaskGroup intact
             # (no exception escaped it), so re-raise it here as a bare
             # ConnectionError for _run to catch and reconnect on.
             if disconnect is not None:
-- 
2.43.0


From b3dc098cde9c03c2014754f05f7b462fac38bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 68/75] fix: a strike's value may contain colons on the command
 line

---
 src/docket/cli/_support.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index d7526d2..fac5d55 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -177,7 +177,8 @@ def interpret_python_value(value: str | None) -> Any:
     if value is None:
         return None
 
-    type, _, value = value.rpartition(":")
+    # (the value itself may contain colons, the type doesn't)
+    type, _, value = value.partition(":") if ":" in value else ("", "", value)
     if not type:
         # without a type hint, we assume the value is a string
         return value
-- 
2.43.0


From a16551ecf755767cf79cc3ff941501a9dff1c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 69/75] fix: names and keys in the command line's tables are
 shown as they are, not taken for console markup

---
 src/docket/cli/__init__.py | 34 ++++++++++++++++++++--------------
 src/docket/cli/_support.py | 11 +++++++----
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index fd89c3a..7b89580 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -9,6 +9,7 @@ import typer
 from rich.console import Console
 from rich.layout import Layout
 from rich.live import Live
+from rich.markup import escape
 from rich.progress import (
     BarColumn,
     Progress,
@@ -18,6 +19,7 @@ from rich.progress import (
     TaskID,
 )
 from rich.table import Table
+from rich.text import Text
 
 from docket import __version__, tasks
 from docket.cli._support import (
@@ -567,7 +569,8 @@ def snapshot(
             f"{len(snapshot.running)}/{snapshot.total_tasks} running"
         ),
     ]
-    table = Table(title="\n".join(summary_lines))
+    # Names and keys are shown as they are, not taken for console markup
+    table = Table(title=Text("\n".join(summary_lines), style="table.title"))
     table.add_column("When", style="green")
     table.add_column("Function", style="cyan")
     table.add_column("Key", style="cyan")
@@ -577,17 +580,17 @@ def snapshot(
     for execution in snapshot.running:
         table.add_row(
             relative(execution.when),
-            execution.function_name,
-            execution.key,
-            execution.worker,
+            Text(execution.function_name),
+            Text(execution.key),
+            Text(execution.worker),
             relative(execution.started),
         )
 
     for execution in snapshot.future:
         table.add_row(
             relative(execution.when),
-            execution.function_name,
-            execution.key,
+            Text(execution.function_name),
+            Text(execution.key),
             "",
             "",
         )
@@ -623,7 +626,7 @@ def snapshot(
                     latest_queued = relative(counts.latest_queued)
 
                 stats_table.add_row(
-                    func_name,
+                    Text(func_name),
                     str(counts.total),
                     str(counts.running),
                     str(counts.queued),
@@ -664,8 +667,9 @@ def watch(
             if not execution:
                 console = Console()
                 console.print(
-                    f"[red]Error:[/red] Task with key '{key}' not found or function not registered",
+                    f"[red]Error:[/red] Task with key '{escape(key)}' not found or function not registered",
                     style="bold",
+                    emoji=False,
                 )
                 return
 
@@ -699,7 +703,7 @@ def watch(
             progress_message = execution.progress.message
 
             active_progress = Progress(
-                TextColumn("[bold blue]{task.description}"),
+                TextColumn("{task.description}", style="bold blue", markup=False),
                 BarColumn(bar_width=None),  # Auto width
                 TaskProgressColumn(),
                 TimeElapsedColumn(),
@@ -731,8 +735,8 @@ def watch(
 
                 # Build info lines
                 info_lines = [
-                    f"[bold]Task:[/bold] {key}",
-                    f"[bold]Docket:[/bold] {docket_name}",
+                    f"[bold]Task:[/bold] {escape(key)}",
+                    f"[bold]Docket:[/bold] {escape(docket_name)}",
                 ]
 
                 # Add state with color
@@ -743,11 +747,13 @@ def watch(
 
                 # Add worker if available
                 if worker_name:  # pragma: no branch
-                    info_lines.append(f"[bold]Worker:[/bold] {worker_name}")
+                    info_lines.append(f"[bold]Worker:[/bold] {escape(worker_name)}")
 
                 # Add error if failed
                 if error_message:
-                    info_lines.append(f"[red bold]Error:[/red bold] {error_message}")
+                    info_lines.append(
+                        f"[red bold]Error:[/red bold] {escape(error_message)}"
+                    )
 
                 # Add completion status
                 if current_state == ExecutionState.COMPLETED:
@@ -759,7 +765,7 @@ def watch(
                 elif current_state == ExecutionState.CANCELLED:
                     info_lines.append("[red bold]✗ Task cancelled[/red bold]")
 
-                info_section = "\n".join(info_lines)
+                info_section = Text.from_markup("\n".join(info_lines), emoji=False)
 
                 # Build layout without big gaps
                 if progress_task_id is not None:
diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index fac5d55..61f52d5 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -14,6 +14,7 @@ from typing import Any, Collection
 import typer
 from rich.console import Console
 from rich.table import Table
+from rich.text import Text
 
 from docket.docket import DocketSnapshot, WorkerInfo
 
@@ -271,7 +272,9 @@ def print_workers(
 ) -> None:
     sorted_workers = sorted(workers, key=lambda w: w.last_seen, reverse=True)
 
-    table = Table(title=f"Workers in Docket: {docket_name}")
+    # The names are shown as they are, not taken for console markup
+    title = Text(f"Workers in Docket: {docket_name}", style="table.title")
+    table = Table(title=title)
 
     table.add_column("Name", style="cyan")
     table.add_column("Last Seen", style="green")
@@ -283,14 +286,14 @@ def print_workers(
         time_ago = now - worker.last_seen
 
         tasks = [
-            f"[bold]{task}[/bold]" if task == highlight_task else task
+            Text(task, style="bold" if task == highlight_task else "")
             for task in sorted(worker.tasks)
         ]
 
         table.add_row(
-            worker.name,
+            Text(worker.name),
             f"{time_ago} ago",
-            "\n".join(tasks) if tasks else "(none)",
+            Text("\n").join(tasks) if tasks else "(none)",
         )
 
     console = Console()
-- 
2.43.0


From c6fa70b3d386f98a0dfb9caddcd95387c71603dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:09 +0000
Subject: [PATCH 70/75] fix: clearing a docket drops the progress of the tasks
 it clears that had run before

A retried or delayed task already has a progress hash, which has no expiry:
clearing the task left it in Redis for good.
---
 src/docket/docket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 4d5e2b6..08c9f81 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -191,6 +191,9 @@ async def _clear_tasks(
             docket_prefix .. ":stream-id:" .. task_key
         )
 
+        -- A task that is to run again (retried, delayed) has made progress already
+        redis.call('DEL', docket_prefix .. ":progress:" .. task_key)
+
         redis.call('HDEL', runs_key, 'known', 'stream_id')
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
         if ttl_seconds > 0 then
@@ -224,7 +227,6 @@ async def _clear_tasks(
             redis.call('DEL', waiter_stream)
         end
         redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
-        redis.call('DEL', docket_prefix .. ":progress:" .. task_key)
         forget(task_key)
         return 1
     end
-- 
2.43.0


From 6b7b699556df7ccad1fc1738e794a0232cda97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 71/75] fix: a task waiting for a concurrency slot is woken
 although the worker that parked it died at once

The safeguard was scheduled after the task had been parked.  A worker dying in
between left the task to its slot's holders alone; if none of those ever
released a slot (cancelled, replaced or struck after their worker had died),
the task waited for good.
---
 src/docket/dependencies/_concurrency.py | 68 +++++++++++++++----------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index c73dfa6..0a23781 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -58,6 +58,7 @@ async def _acquire_or_park(
     stale_threshold: Arg[float],
     key_ttl: Arg[int],
     generation: Arg[int],
+    may_park: Arg[bool],
     message_id: Arg[bytes],
     worker_group_name: Arg[str],
     state_channel: Arg[str],
@@ -69,7 +70,8 @@ async def _acquire_or_park(
     -- atomically.  Returns 1 if acquired (task should run), 0 if parked
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
-    -- so the worker takes no further action), or 2 if the task was cancelled
+    -- so the worker takes no further action) or, unless it may be parked, if it
+    -- would have to be (nothing has changed), or 2 if the task was cancelled
     -- or replaced since it was claimed (it must neither run nor be parked:
     -- parking would make it the newest generation and revive it).
     if generation > 0 then
@@ -108,6 +110,10 @@ async def _acquire_or_park(
         end
     end
 
+    if not may_park then
+        return 0
+    end
+
     -- Park: ACK the main-stream message, re-XADD the payload into the waiter
     -- stream.  Doing this here, atomically with the acquire check, keeps a
     -- concurrent slot release from missing us in the gap between "blocked" and
@@ -590,8 +596,6 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         message: dict[bytes, bytes] = execution.as_message()
         propagate.inject(message, setter=message_setter)
 
-        current_time = datetime.now(timezone.utc).timestamp()
-        stale_threshold = current_time - redelivery_timeout.total_seconds()
         key_ttl = max(
             MINIMUM_TTL_SECONDS,
             int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),
@@ -605,7 +609,11 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         park_state_payload = json.dumps(
             {"type": "state", "key": execution.key, "state": "scheduled"}
         )
-        async with docket.redis() as redis:
+        safeguard_key = f"__safeguard__:{execution.key}"
+
+        async def acquire(redis: RedisClient, may_park: bool) -> int:
+            current_time = datetime.now(timezone.utc).timestamp()
+            stale_threshold = current_time - redelivery_timeout.total_seconds()
             acquiring = asyncio.ensure_future(
                 _acquire_or_park(
                     redis,
@@ -620,6 +628,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                     stale_threshold=stale_threshold,
                     key_ttl=key_ttl,
                     generation=execution.generation,
+                    may_park=may_park,
                     message_id=execution.message_id,
                     worker_group_name=docket.worker_group_name,
                     state_channel=f"{docket.prefix}:state:{execution.key}",
@@ -628,12 +637,38 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 )
             )
             try:
-                result = await uninterrupted(acquiring)
+                return await uninterrupted(acquiring)
             except asyncio.CancelledError:  # pragma: no cover - cancelled meanwhile
                 if acquiring.result() == 1:
                     await limit._release_and_wake()
+                if may_park and acquiring.result() != 0:
+                    await drop_safeguard(redis)
                 raise
 
+        async def drop_safeguard(redis: RedisClient) -> None:
+            # Not if it is another delivery's, which has been parked meanwhile.
+            if not await redis.hexists(  # type: ignore[misc]
+                execution._redis_key, "waiter_entry_id"
+            ):
+                await docket.cancel(safeguard_key)
+
+        async with docket.redis() as redis:
+            result = await acquire(redis, may_park=False)
+            if result == 0:
+                # Schedule a safeguard task to backstop the normal release path.
+                # If a holder releases first, this becomes a no-op when it runs;
+                # otherwise it scavenges any stale slots and wakes the waiters.
+                # It has to be there before the task is parked: if this worker
+                # dies in between, nothing else may ever wake the task.
+                await docket.add(
+                    _safeguard_wake,
+                    when=datetime.now(timezone.utc) + redelivery_timeout,
+                    key=safeguard_key,
+                )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
+                result = await acquire(redis, may_park=True)
+                if result != 0:  # pragma: no cover - a slot was released meanwhile
+                    await drop_safeguard(redis)
+
         if result == 2:
             # The worker drops it, recording and announcing it as cancelled.
             raise AdmissionBlocked(
@@ -646,29 +681,6 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 execution.key,
                 waiters_stream,
             )
-            # Schedule a safeguard task to backstop the normal release path.
-            # If a holder releases first, this becomes a no-op when it runs;
-            # otherwise it scavenges any stale slots and wakes the waiters.
-            safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.add(
-                _safeguard_wake,
-                when=datetime.now(timezone.utc) + redelivery_timeout,
-                key=safeguard_key,
-            )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-            # A wake-on-release may have fired between the park script
-            # returning and the docket.add above.  Its safeguard ZREM was a
-            # no-op (the safeguard hadn't been added yet), and we'd leak
-            # the safeguard into the future queue -- preventing
-            # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we're not parked any more (forwarded back to
-            # the main stream, cancelled or replaced), cancel the leftover
-            # safeguard.
-            async with docket.redis() as redis:
-                waiter_entry_id = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "waiter_entry_id"
-                )
-            if waiter_entry_id is None:
-                await docket.cancel(safeguard_key)
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
         # Acquired.  Start heartbeating the slot and register the release
-- 
2.43.0


From 86649b425bd1db799ced0a352391e2a577bd8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 72/75] fix: striking again what is stricken, or restoring what
 isn't, doesn't change the count of strikes in effect

---
 src/docket/strikelist.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8940b69..ed0401a 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -621,6 +621,7 @@ class StrikeList:
                     # the others still have to take effect.
                     logger.exception("Unreadable strike instruction %r", message_id)
                     continue
+                before = self._in_effect()
                 self.update(instruction)
                 logger.info(
                     "%s %r",
@@ -628,10 +629,23 @@ class StrikeList:
                     instruction.call_repr(),
                 )
 
+                # Striking again what is stricken, or restoring what isn't, changes nothing
                 STRIKES_IN_EFFECT.add(
-                    1 if instruction.direction == "strike" else -1,
+                    self._in_effect() - before,
                     {
                         "docket.name": self.name,
                         **instruction.labels(),
                     },
                 )
+
+    def _in_effect(self) -> int:
+        """How many strikes are in effect."""
+        return (
+            len(self.stricken_tasks)
+            + sum(
+                len(strikes)
+                for task_strikes in self.task_strikes.values()
+                for strikes in task_strikes.values()
+            )
+            + sum(len(strikes) for strikes in self.parameter_strikes.values())
+        )
-- 
2.43.0


From 5289feb59460a1f8f0e193acb0a866eab1ed9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 73/75] fix: a run that was scheduled for later is linked to
 the trace it was asked for in

---
 src/docket/worker.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 8658f80..44976f4 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -220,15 +220,14 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                local message_id = redis.call('XADD', stream_key, '*',
-                    'key', task['key'],
-                    'when', task['when'],
-                    'function', task['function'],
-                    'args', task['args'],
-                    'kwargs', task['kwargs'],
-                    'attempt', task['attempt'],
-                    'generation', task['generation'] or '0'
-                )
+                if not task['generation'] then
+                    task_data[#task_data+1] = 'generation'
+                    task_data[#task_data+1] = '0'
+                end
+
+                -- All that was parked moves along, with the trace context that
+                -- the run is to be linked to
+                local message_id = redis.call('XADD', stream_key, '*', unpack(task_data))
                 redis.call('DEL', hash_key)
 
                 -- Set run state to queued, recording where the task now lives so
-- 
2.43.0


From 0710f7a78ac4c8e980c0e9ca19d02e89ec510b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:25 +0000
Subject: [PATCH 74/75] fix: a run postponed by a limit stays linked to the
 trace it was asked for in

---
 src/docket/execution.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 7c30747..6026d64 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -791,7 +791,14 @@ class Execution:
             Sets ``self.disposition`` to the same value.
         """
         message: dict[bytes, bytes] = self.as_message()
-        propagate.inject(message, setter=message_setter)
+        # Outside of any span (a worker postponing a run), what the run is linked
+        # to stays what it was
+        tracing = trace.get_current_span().get_span_context().is_valid
+        propagate.inject(
+            message,
+            context=None if tracing else self.trace_context,
+            setter=message_setter,
+        )
 
         if reschedule_message and not superseding:
             superseding = self._generation
-- 
2.43.0


From 50b28bc932ef0d77ab30acaa56bb6fc0e9853448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 75/75] fix: metrics page complete when scraped twice at once

Each scrape is served on its own thread.  One scrape could consume the
measurements collected for another, which then got an empty page (or an
error), while the first showed every sample twice.
---
 src/docket/_prometheus_exporter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/docket/_prometheus_exporter.py b/src/docket/_prometheus_exporter.py
index 3e65995..53b5e0d 100644
--- a/src/docket/_prometheus_exporter.py
+++ b/src/docket/_prometheus_exporter.py
@@ -27,6 +27,7 @@ from itertools import chain
 from json import dumps
 from logging import getLogger
 from re import UNICODE, compile
+from threading import Lock
 from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
 
 from prometheus_client.core import (
@@ -201,6 +202,7 @@ class _CustomCollector:
         self._metrics_datas: Deque[MetricsData] = deque()
         self._disable_target_info = disable_target_info
         self._target_info: InfoMetricFamily | None = None
+        self._collecting = Lock()
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data."""
@@ -208,6 +210,13 @@ class _CustomCollector:
 
     def collect(self) -> Iterable[PrometheusMetric]:
         """Collect metrics for Prometheus exposition."""
+        # Each scrape is served on its own thread: the measurements it asks for must
+        # not be consumed by another one.
+        with self._collecting:
+            metric_families = self._collect()
+        yield from metric_families
+
+    def _collect(self) -> Sequence[PrometheusMetric]:
         if self._callback is not None:
             self._callback()  # type: ignore[operator]
 
@@ -230,8 +239,7 @@ class _CustomCollector:
                 self._metrics_datas.popleft(), metric_family_id_metric_family
             )
 
-            if metric_family_id_metric_family:
-                yield from metric_family_id_metric_family.values()
+        return list(metric_family_id_metric_family.values())
 
     def _translate_to_prometheus(
         self,
-- 
2.43.0

