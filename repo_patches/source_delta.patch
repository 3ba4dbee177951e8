From 124d6d0db39547c98bb01ffee0e72b51cf4b46c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 01/14] fix: fail anycast senders blocked on a full channel
 when it is closed

A sender blocked because the buffer was full stayed blocked after close(), and
added its message to the closed channel as soon as a receiver made room.
---
 src/frequenz/channels/_anycast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..d925877 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,10 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From 74e9c287837bccca36128a9e6f2d253f120a1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 02/14] fix: don't lose anycast wake-ups when a woken operation
 is cancelled

With notify(1), if the only operation that was woken up was cancelled before it
could run, the others stayed blocked although they could proceed.
---
 src/frequenz/channels/_anycast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index d925877..e757825 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -360,7 +360,7 @@ class _Sender(Sender[_T]):
             )
         self._channel._deque.append(message)
         async with self._channel._recv_cv:
-            self._channel._recv_cv.notify(1)
+            self._channel._recv_cv.notify_all()
         # pylint: enable=protected-access
 
     def __str__(self) -> str:
@@ -417,7 +417,7 @@ class _Receiver(Receiver[_T]):
                 await self._channel._recv_cv.wait()
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
-            self._channel._send_cv.notify(1)
+            self._channel._send_cv.notify_all()
         # pylint: enable=protected-access
         return True
 
-- 
2.43.0


From df3912122696ca4d7ecaf64e0b09de38b481e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 03/14] fix: don't overwrite the next message of an anycast
 receiver

When two tasks were waiting on the same receiver, each of them took a message
out of the channel and the second one replaced (lost) the first one.
---
 src/frequenz/channels/_anycast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index e757825..02406e6 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -415,6 +415,9 @@ class _Receiver(Receiver[_T]):
                 return False
             async with self._channel._recv_cv:
                 await self._channel._recv_cv.wait()
+            # Another task waiting on this same receiver could have got a message.
+            if self._next is not _Empty:
+                return True
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify_all()
-- 
2.43.0


From eb968ed287e47454de77449f18669343aa5c41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 04/14] fix: resend the latest message of a broadcast channel
 also if it is None

None is a valid message, but new receivers of a channel with resend_latest
didn't get the latest message when it was None.
---
 src/frequenz/channels/_broadcast.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..9a31cc6 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -216,6 +216,9 @@ class Broadcast(Generic[ChannelMessageT]):
         self._latest: ChannelMessageT | None = None
         """The latest message sent to the channel."""
 
+        self._has_latest: bool = False
+        """Whether there is a latest message (which can be `None`)."""
+
         self.resend_latest: bool = resend_latest
         """Whether to resend the latest message to new receivers.
 
@@ -258,6 +261,7 @@ class Broadcast(Generic[ChannelMessageT]):
         immediately.
         """
         self._latest = None
+        self._has_latest = False
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +288,9 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._has_latest:
+            # `None` can be a valid message here, so we can't use it to narrow the type.
+            recv.enqueue(self._latest)  # type: ignore[arg-type]
         return recv
 
     def __str__(self) -> str:
@@ -340,6 +345,7 @@ class _Sender(Sender[_T]):
                 self._channel
             )
         self._channel._latest = message
+        self._channel._has_latest = True
         stale_refs = []
         for _hash, recv_ref in self._channel._receivers.items():
             recv = recv_ref()
-- 
2.43.0


From cceb66ca4e5ef5875087e824228db8fe55e4f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 05/14] fix: make Event.ready() consistent with what can be
 consumed

With several tasks waiting on the same event, all but the first one failed with
an assertion in consume(). And when an event was stopped while set, ready()
reported it as stopped although there was a message pending, so select() never
reported it as stopped.
---
 src/frequenz/channels/event.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..0859d86 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -147,10 +147,12 @@ class Event(_receiver.Receiver[None]):
         Returns:
             Whether this receiver is still running.
         """
-        if self._is_stopped:
-            return False
-        await self._event.wait()
-        return not self._is_stopped
+        # Use a loop, as another task waiting on this same receiver could have consumed
+        # the event before this one could run.
+        while not self._is_set and not self._is_stopped:
+            await self._event.wait()
+        # If it was stopped while it was set, there is still an event to be consumed.
+        return self._is_set
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From 2d3ff82cc16275f060ab8cdee3b772f4454d5e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 06/14] fix: handle each received message only once in merged
 receivers

When two tasks were waiting on the same merged receiver, both of them handled the
same finished tasks, so messages were duplicated and tasks were lost.
---
 src/frequenz/channels/_merge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..d06041a 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -157,10 +157,11 @@ class Merger(Receiver[ReceiverMessageT_co]):
             if len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
-                self._pending, return_when=asyncio.FIRST_COMPLETED
-            )
-            for item in done:
+            await asyncio.wait(self._pending, return_when=asyncio.FIRST_COMPLETED)
+            # Another task waiting on this same receiver could have handled some of the
+            # done tasks already, so we only handle the ones that are still pending.
+            for item in [task for task in self._pending if task.done()]:
+                self._pending.remove(item)
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
-- 
2.43.0


From 10e3da9f609528fc72ca81a979040e036370038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 07/14] fix: stop tasks waiting on a merged receiver normally
 when it is stopped

The CancelledError of the merger's own tasks was raised to the tasks waiting for
messages, instead of reporting that the receiver was stopped. A waiting task
could also start receiving again from a source while stopping, and that task was
never cancelled.
---
 src/frequenz/channels/_merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index d06041a..affdbf6 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -130,10 +130,12 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
+        # We need to take the pending tasks first, as other tasks waiting for this merger
+        # will wake up when the pending tasks are cancelled, and shouldn't handle them.
+        pending, self._pending = self._pending, set()
+        for task in pending:
             task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        await asyncio.gather(*pending, return_exceptions=True)
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
-- 
2.43.0


From 049f63a8a80608a66a9d104a198d717ad65aadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 08/14] fix: report errors of the sources of a merged receiver
 to the consumer once

An error receiving from one source was raised by ready(), where messages from the
other sources that were received at the same time were lost, and the failed
source was never received from again. Now it is raised by consume(), in the place
of the message, like any other receiver does.
---
 src/frequenz/channels/_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index affdbf6..6d53736 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,9 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[ReceiverMessageT_co]] = deque(
+            maxlen=len(self._receivers)
+        )
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -168,8 +170,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # the result can be an error, which will be raised when consumed.
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -189,7 +191,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        return self._results.popleft().result()
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From 0fd2e1d98bac64dda4d81331d3c894a926492c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 09/14] fix: don't overwrite a pending timer tick

When two tasks were waiting for the same timer, the second one replaced the tick
that was made ready by the first one with the next tick, if that was due already.
---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..cd3a39a 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -665,6 +665,9 @@ class Timer(Receiver[timedelta]):
         # the time to the next tick and try again.
         while time_to_next_tick > 0:
             await asyncio.sleep(time_to_next_tick / 1_000_000)
+            # Another task waiting for this timer could have handled the tick already.
+            if self._current_drift is not None:
+                return True
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-- 
2.43.0


From 4a69a52fa8636ee53b236278e193c114a594259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 10/14] fix: make Timer.reset() effective for tasks already
 waiting for a tick

If a timer was reset while a task was waiting for a tick that was due later than
the first tick after the reset (because of a start delay), the task kept waiting
until the old due time.
---
 src/frequenz/channels/timer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index cd3a39a..74efb37 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -561,6 +561,12 @@ class Timer(Receiver[timedelta]):
         to wait again.
         """
 
+        self._reset_event: asyncio.Event = asyncio.Event()
+        """The event used to wake up the tasks waiting for a tick on a reset.
+
+        Each reset triggers the current event and replaces it with a new one.
+        """
+
         if auto_start:
             self.reset(start_delay=start_delay)
 
@@ -607,6 +613,8 @@ class Timer(Receiver[timedelta]):
         self._stopped = False
         self._next_tick_time = self._now() + start_delay_ms + self._interval
         self._current_drift = None
+        self._reset_event.set()
+        self._reset_event = asyncio.Event()
 
     def stop(self) -> None:
         """Stop the timer.
@@ -664,7 +672,11 @@ class Timer(Receiver[timedelta]):
         # could be reset while we are sleeping, in which case we need to recalculate
         # the time to the next tick and try again.
         while time_to_next_tick > 0:
-            await asyncio.sleep(time_to_next_tick / 1_000_000)
+            try:
+                async with asyncio.timeout(time_to_next_tick / 1_000_000):
+                    await self._reset_event.wait()
+            except TimeoutError:
+                pass
             # Another task waiting for this timer could have handled the tick already.
             if self._current_drift is not None:
                 return True
-- 
2.43.0


From 276eaff1efef1f2d4107d08568a64f62960f5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 11/14] fix: report a file watcher as inactive in ready() as
 soon as it stops

ready() returned True when the watcher stopped while waiting, so select()
reported it as stopped twice.
---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..860c0bd 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -185,6 +185,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From 18bbddc48892d6761a1e0ec6d684a0bc36c74e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 12/14] fix: keep a file watcher working when waiting for it is
 cancelled

awatch() stops for good when it is cancelled, so cancelling a task waiting for a
file watcher (as select() does when its loop is left) silently stopped the
watcher. And as it can be awaited only once at a time, a second task waiting
for the same watcher failed with a RuntimeError.
---
 src/frequenz/channels/file_watcher.py | 78 ++++++++++++++++++---------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 860c0bd..90f2c83 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -19,6 +19,7 @@ This module contains the following:
 """
 
 import asyncio
+import functools
 import pathlib
 from collections import abc
 from dataclasses import dataclass
@@ -54,6 +55,38 @@ class Event:
     """The path where the change was observed."""
 
 
+async def _next_changes(
+    awatcher: abc.AsyncGenerator[set[FileChange], None]
+) -> set[FileChange] | None:
+    """Wait for the next changes.
+
+    Args:
+        awatcher: The generator to get the changes from.
+
+    Returns:
+        The next changes, or `None` if there won't be any more.
+    """
+    return await anext(awatcher, None)
+
+
+def _filter_events(
+    event_types: frozenset[EventType],
+    change: Change,
+    path: str,  # pylint: disable=unused-argument
+) -> bool:
+    """Filter events based on the event type and path.
+
+    Args:
+        event_types: The types of events that should be notified.
+        change: The type of change to be notified.
+        path: The path of the file that changed.
+
+    Returns:
+        Whether the event should be notified.
+    """
+    return change in [event_type.value for event_type in event_types]
+
+
 class FileWatcher(Receiver[Event]):
     """A receiver that watches for file events.
 
@@ -134,28 +167,15 @@ class FileWatcher(Receiver[Event]):
             path if isinstance(path, pathlib.Path) else pathlib.Path(path)
             for path in paths
         ]
+        # This can't be a method, because awatch() would keep this watcher alive.
+        self._filter_events = functools.partial(_filter_events, self.event_types)
         self._awatch: abc.AsyncGenerator[set[FileChange], None] = awatch(
             *self._paths, stop_event=self._stop_event, watch_filter=self._filter_events
         )
+        self._awatch_task: asyncio.Task[set[FileChange] | None] | None = None
         self._awatch_stopped_exc: Exception | None = None
         self._changes: set[FileChange] = set()
 
-    def _filter_events(
-        self,
-        change: Change,
-        path: str,  # pylint: disable=unused-argument
-    ) -> bool:
-        """Filter events based on the event type and path.
-
-        Args:
-            change: The type of change to be notified.
-            path: The path of the file that changed.
-
-        Returns:
-            Whether the event should be notified.
-        """
-        return change in [event_type.value for event_type in self.event_types]
-
     def __del__(self) -> None:
         """Finalize this file watcher."""
         # We need to set the stop event to make sure that the awatch background task
@@ -177,15 +197,23 @@ class FileWatcher(Receiver[Event]):
         if self._changes:
             return True
 
-        # if it was already stopped, return immediately.
-        if self._awatch_stopped_exc is not None:
-            return False
-
-        try:
-            self._changes = await anext(self._awatch)
-        except StopAsyncIteration as err:
-            self._awatch_stopped_exc = err
-            return False
+        while not self._changes:
+            # if it was already stopped, return immediately.
+            if self._awatch_stopped_exc is not None:
+                return False
+
+            # awatch() stops for good if it is cancelled and can be awaited only once at
+            # a time, so it runs in its own task, shared by all the tasks waiting here.
+            if self._awatch_task is None:
+                self._awatch_task = asyncio.create_task(_next_changes(self._awatch))
+            task = self._awatch_task
+            await asyncio.wait([task])
+            if self._awatch_task is task:
+                self._awatch_task = None
+                if (changes := task.result()) is not None:
+                    self._changes = changes
+                else:
+                    self._awatch_stopped_exc = StopAsyncIteration()
 
         return True
 
-- 
2.43.0


From 50f7f471508127d2aaebda2cd3d80acf1c8d633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 13/14] fix: don't lose messages of merged receivers with
 concurrent waits

When several tasks wait for the same merged receiver, a task could store more
results while there were unconsumed ones, and the oldest results were silently
dropped from the bounded queue.
---
 src/frequenz/channels/_merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6d53736..bd04ab9 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -162,6 +162,10 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 return False
 
             await asyncio.wait(self._pending, return_when=asyncio.FIRST_COMPLETED)
+            # Another task waiting on this same receiver could have stored some results
+            # already, and there is only room for one result of each receiver.
+            if len(self._results) > 0:
+                return True
             # Another task waiting on this same receiver could have handled some of the
             # done tasks already, so we only handle the ones that are still pending.
             for item in [task for task in self._pending if task.done()]:
-- 
2.43.0


From 7bab8a4922e0ebaeddc43f1344516960611440b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 14/14] fix: select from receivers with equal or no hashes

The receivers were identified by their hashes, so select() ignored all but one
of the receivers with the same hash, and failed for unhashable receivers.
---
 src/frequenz/channels/_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index e8b6e80..18e1f1c 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -423,7 +423,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
             method.  Normal errors while receiving messages are not raised, but reported
             via the `Selected` instance.
     """
-    receivers_map: dict[str, Receiver[Any]] = {str(hash(r)): r for r in receivers}
+    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}
     pending: set[asyncio.Task[bool]] = set()
 
     try:
-- 
2.43.0

