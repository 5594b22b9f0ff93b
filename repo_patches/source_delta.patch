From e1cd4ea06ea02e9d443f469c7baf1f5f735b3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 01/61] fix: do not free the name of a DummySemaphore twice

Cython runs the __dealloc__ of the base class as well, so collecting any DummySemaphore
aborted the process with a double free.
---
 a_sync/primitives/locks/semaphore.pyx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ea6f43d..36bf150 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -354,11 +354,6 @@ cdef class DummySemaphore(Semaphore):
         # Copy the bytes data into the char*
         strcpy(self._name, encoded_name)
 
-    def __dealloc__(self):
-        # Free the memory allocated for _name
-        if self._name is not NULL:
-            free(self._name)
-
     def __repr__(self) -> str:
         return "<{} name={}>".format(self.__class__.__name__, self.decode_name())
 
-- 
2.43.0


From c75464f22131dd4cc0494e6139eeb60bf326bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 02/61] fix: take a semaphore permit when acquire() runs, not
 when it is called

The permit was taken when the coroutine object was created. A coroutine that never got
to run (a task cancelled before its first step, wait_for(sem.acquire(), 0), a coroutine
that is not awaited) kept its permit forever.
---
 a_sync/primitives/locks/semaphore.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 36bf150..0fcb5b9 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -15,10 +15,6 @@ from a_sync._typing import *
 from a_sync.primitives._debug cimport _DebugDaemonMixin
 
 
-async def __acquire() -> Literal[True]:
-    return True
-
-
 cdef class Semaphore(_DebugDaemonMixin):
     """
     A semaphore with additional debugging capabilities inherited from :class:`_DebugDaemonMixin`.
@@ -199,13 +195,15 @@ cdef class Semaphore(_DebugDaemonMixin):
         if self._Semaphore__value <= 0:
             self._c_ensure_debug_daemon((),{})
 
-        if not self.c_locked():
-            self._Semaphore__value -= 1
-            return __acquire()
-
         return self.__acquire()
 
     async def __acquire(self) -> Literal[True]:
+        # The permit must be taken when the coroutine runs, not when it is created,
+        # or else a coroutine that never gets to run would keep the permit forever.
+        if not self.c_locked():
+            self._Semaphore__value -= 1
+            return True
+
         # Finally block should be called before the CancelledError
         # handling as we don't want CancelledError to call
         # _wake_up_first() and attempt to wake up itself.
-- 
2.43.0


From d55e67335db8087be2b366a266f8ac3be9de4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 03/61] fix: PrioritySemaphore.locked() raises AttributeError

The loop variable of a generator expression is not typed, so the lookup of the private
attribute failed whenever a permit was free and a context manager existed.
---
 a_sync/primitives/locks/prio_semaphore.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 6a70681..aca8743 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -168,10 +168,12 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         cdef dict[object, _AbstractPrioritySemaphoreContextManager] cms = self._context_managers
         if not cms:
             return False
-        return any(
-            cm._Semaphore__waiters and any(not w.cancelled() for w in cm._Semaphore__waiters)
-            for cm in cms.values()
-        )
+        # NOTE: `cm` would not be typed inside of a generator expression
+        for cm in cms.values():
+            for w in cm._Semaphore__waiters or ():
+                if not w.cancelled():
+                    return True
+        return False
 
     cdef dict[object, Py_ssize_t] _count_waiters(self):
         """Counts the number of waiters for each priority.
-- 
2.43.0


From b67b05001b9cf808a5c7c4d918ac4a956e367409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 04/61] fix: hand the permit of a PrioritySemaphore to the
 waiter that is woken up

A released permit was up for grabs until the woken waiter ran: whoever asked in between
took it, and the woken waiter then queued up again in a context manager its parent had
already dropped, where only the emergency procedure could find it. Waiters using a kept
context manager had the same problem. Less urgent waiters overtook more urgent ones.
---
 a_sync/primitives/locks/prio_semaphore.pyx | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index aca8743..5fec466 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -236,6 +236,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
                 waiter = manager._Semaphore__waiters.popleft()
                 self._potential_lost_waiters.remove(waiter)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     woke_up = True
                     if debug_logs:
@@ -263,6 +264,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             while self._potential_lost_waiters:
                 waiter = self._potential_lost_waiters.pop(0)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     return
             return
@@ -271,6 +273,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             waiter = self._potential_lost_waiters.pop(0)
             c_logger._log(DEBUG, "we found a lost waiter %s", (waiter, ))
             if not waiter.done():
+                self._Semaphore__value -= 1
                 waiter.set_result(None)
                 c_logger._log(DEBUG, "woke up lost waiter %s", (waiter, ))
                 return
@@ -370,21 +373,25 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
         return self.__acquire()
     
     async def __acquire(self) -> Literal[True]:
-        cdef object loop, fut
-        while self._parent._Semaphore__value <= 0:
-            if self._Semaphore__waiters is None:
-                self._Semaphore__waiters = deque()
+        cdef object fut
+        cdef _AbstractPrioritySemaphoreContextManager manager
+        if self._parent._Semaphore__value <= 0:
+            # The parent drops a context manager that has no more waiters, so we must
+            # queue up with the one it uses now or else it would not find us.
+            manager = self._parent.c_getitem(self._priority)
             fut = self._c_get_loop().create_future()
-            self._Semaphore__waiters.append(fut)
+            manager._Semaphore__waiters.append(fut)
             self._parent._potential_lost_waiters.append(fut)
             try:
                 await fut
             except:
-                # See the similar code in Queue.get.
                 fut.cancel()
-                if self._parent._Semaphore__value > 0 and not fut.cancelled():
-                    self._parent._wake_up_next()
+                if not fut.cancelled():
+                    # The permit was already ours, pass it on.
+                    self._parent.c_release()
                 raise
+            # The permit was handed over to us when we were woken up.
+            return True
         self._parent._Semaphore__value -= 1
         return True
 
-- 
2.43.0


From 0f2c4dfaabd74ab6dff6c3c6253413e7180517ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 05/61] fix: PrioritySemaphore[0] is priority 0, not the
 default priority

---
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 5fec466..66defa4 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -509,7 +509,7 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
             >>> semaphore = _AbstractPrioritySemaphore(5)
             >>> context_manager = semaphore[priority]
         """
-        return self.c_getitem(priority or -1)
+        return self.c_getitem(-1 if priority is None else priority)
     
     cdef object c_getitem(self, object priority):
         if self._Semaphore__value is None:
-- 
2.43.0


From 85625043a265d4b069a25bec71f9ce248b7acbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 06/61] fix: ThreadsafeSemaphore.semaphore returned None

The documented property had no return statement.
---
 a_sync/primitives/locks/semaphore.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 0fcb5b9..516e75f 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -432,6 +432,7 @@ cdef class ThreadsafeSemaphore(Semaphore):
                 async with semaphore.semaphore:
                     return 1
         """
+        return self.c_get_semaphore()
     
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
-- 
2.43.0


From 714887d74a7c6767e9b316ec4fc9178dc8b2a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 07/61] fix: a failing get_multi_nowait() made Queue.join()
 wait forever

The items it took were put back with put_nowait(), which counts them as unfinished again.
---
 a_sync/primitives/queue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 33398b9..8c5fbfe 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -222,16 +222,16 @@ class Queue(_Queue[T]):
             >>> print(tasks)
         """
         _validate_args(i, can_return_less)
+        if self.qsize() < i and not can_return_less:
+            # taking items and putting them back would count them as unfinished twice
+            raise asyncio.QueueEmpty
         items = []
         for _ in range(i):
             try:
                 items.append(self.get_nowait())
             except asyncio.QueueEmpty:
-                if items and can_return_less:
+                if items:
                     return items
-                # put these back in the queue since we didn't return them
-                for value in items:
-                    self.put_nowait(value)
                 raise asyncio.QueueEmpty from None
         return items
 
-- 
2.43.0


From 7e59119ca411abcb06590f85c427b75d77a68242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 08/61] fix: Queue.get_multi() lost items, raised ValueError or
 returned nothing

Items taken before it had to wait were dropped, a single missing item raised ValueError,
can_return_less=True never returned any item, and items were lost on cancellation.
---
 a_sync/primitives/queue.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 8c5fbfe..940d5df 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -199,11 +199,20 @@ class Queue(_Queue[T]):
         """
         _validate_args(i, can_return_less)
         items = []
-        while len(items) < i and not can_return_less:
-            try:
-                items.extend(self.get_multi_nowait(i - len(items), can_return_less=True))
-            except asyncio.QueueEmpty:
-                items = [await self.get()]
+        try:
+            while len(items) < i:
+                try:
+                    items.append(self.get_nowait())
+                except asyncio.QueueEmpty:
+                    if items and can_return_less:
+                        break
+                    items.append(await self.get())
+        except BaseException:
+            # we were interrupted, put the items back where we took them from
+            self._queue.extendleft(reversed(items))
+            for _ in items:
+                self._wakeup_next(self._getters)
+            raise
         return items
 
     def get_multi_nowait(self, i: int, can_return_less: bool = False) -> List[T]:
-- 
2.43.0


From ef0cb962348ce505211199a6885357e95ee78c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 09/61] fix: ProcessingQueue.put() and
 SmartProcessingQueue.put() never processed their item

asyncio.Queue.put calls self.put_nowait, which these classes override with another
signature: the queued tuple was submitted as the argument of a second job whose future
was dropped at once, and the future returned to the caller never finished.
---
 a_sync/primitives/queue.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 940d5df..2d42074 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -405,10 +405,11 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
+        # NOTE: the base class' `put` would call our `put_nowait`, and this queue is never full
         if self._no_futs:
-            return await super().put((args, kwargs))
+            return super().put_nowait((args, kwargs))
         fut = self._create_future()
-        await super().put((args, kwargs, fut))
+        super().put_nowait((args, kwargs, fut))
         return fut
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
@@ -829,7 +830,7 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
-        await Queue.put(self, (_SmartFutureRef(fut), args, kwargs))
+        Queue.put_nowait(self, (_SmartFutureRef(fut), args, kwargs))
         return fut
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
-- 
2.43.0


From b35f8d786dd8baab3234b5e0be00c2b88e193991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 10/61] fix: a dropped or cancelled future could break the
 workers of a ProcessingQueue

Setting the outcome on a future that was garbage collected raised ReferenceError, logging
a cancelled one needed func.__name__, and a job raising InvalidStateError left the name
'result' unbound. Each killed the worker, and nothing in the queue was processed anymore.
---
 a_sync/primitives/queue.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 2d42074..7e0cfd9 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -500,24 +500,10 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
-                        fut.set_result(result)
-                    except asyncio.exceptions.InvalidStateError:
-                        logger.error(
-                            "cannot set result for %s %s: %s",
-                            self.func.__name__,
-                            fut,
-                            result,
-                        )
                     except Exception as e:
-                        try:
-                            fut.set_exception(e)
-                        except asyncio.exceptions.InvalidStateError:
-                            logger.error(
-                                "cannot set exception for %s %s: %s",
-                                self.func.__name__,
-                                fut,
-                                e,
-                            )
+                        _finish(self, fut, "set_exception", e)
+                    else:
+                        _finish(self, fut, "set_result", result)
                     self.task_done()
                 except Exception as e:
                     logger.error("%s for %s is broken!!!", type(self).__name__, self.func)
@@ -525,6 +511,24 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                     raise
 
 
+def _finish(queue: ProcessingQueue, fut: "asyncio.Future[V]", how: str, value: Any) -> None:
+    """
+    Sets the outcome of a job on its future, which may be done or garbage collected by now.
+
+    Args:
+        queue: The queue that processed the job.
+        fut: The future, or a weak proxy to it.
+        how: The name of the future's method that sets the outcome.
+        value: The outcome.
+    """
+    try:
+        getattr(fut, how)(value)
+    except ReferenceError:
+        logger.debug("nobody waits for the result of a job of %s", queue)
+    except asyncio.exceptions.InvalidStateError:
+        logger.error("cannot %s for %s %s: %s", how, queue.func, fut, value)
+
+
 def _validate_args(i: int, can_return_less: bool) -> None:
     """
     Validates the arguments for methods that retrieve multiple items from the queue.
-- 
2.43.0


From 2e0a8a8c55f254f72d59c307b3fb9a97a9f4e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 11/61] fix: a cancelled job broke the worker of a
 ProcessingQueue

A job that raises CancelledError, for instance because something it awaited was
cancelled, ended the worker as if the worker itself had been cancelled. Its future never
finished and the queue refused all further work.
---
 a_sync/primitives/queue.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 7e0cfd9..4df4644 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -485,6 +485,10 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                 try:
                     args, kwargs = await self.get()
                     await self.func(*args, **kwargs)
+                except asyncio.exceptions.CancelledError:
+                    if _current_task_is_cancelling():
+                        raise
+                    # only the job was cancelled
                 except Exception as e:
                     logger.error("%s in worker for %s!", type(e).__name__, self)
                     logger.exception(e)
@@ -500,6 +504,11 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
+                    except asyncio.exceptions.CancelledError:
+                        if _current_task_is_cancelling():
+                            raise
+                        # only the job was cancelled
+                        _finish(self, fut, "cancel")
                     except Exception as e:
                         _finish(self, fut, "set_exception", e)
                     else:
@@ -511,7 +520,14 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                     raise
 
 
-def _finish(queue: ProcessingQueue, fut: "asyncio.Future[V]", how: str, value: Any) -> None:
+def _current_task_is_cancelling() -> bool:
+    """Returns whether the current task was cancelled itself, which older pythons cannot tell."""
+    if sys.version_info < (3, 11):
+        return True
+    return asyncio.current_task().cancelling() > 0
+
+
+def _finish(queue: ProcessingQueue, fut: "asyncio.Future[V]", how: str, *value: Any) -> None:
     """
     Sets the outcome of a job on its future, which may be done or garbage collected by now.
 
@@ -519,10 +535,10 @@ def _finish(queue: ProcessingQueue, fut: "asyncio.Future[V]", how: str, value: A
         queue: The queue that processed the job.
         fut: The future, or a weak proxy to it.
         how: The name of the future's method that sets the outcome.
-        value: The outcome.
+        *value: The outcome, if any.
     """
     try:
-        getattr(fut, how)(value)
+        getattr(fut, how)(*value)
     except ReferenceError:
         logger.debug("nobody waits for the result of a job of %s", queue)
     except asyncio.exceptions.InvalidStateError:
-- 
2.43.0


From 5fb9842879eff96e2887636eba8d255cb2ee2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 12/61] fix: PriorityProcessingQueue could not be put to and
 compared the arguments of equal priorities

---
 a_sync/primitives/queue.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 4df4644..8f109a6 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -16,6 +16,7 @@ See Also:
 import asyncio
 import functools
 import heapq
+import itertools
 import logging
 import sys
 import weakref
@@ -673,10 +674,7 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> fut = await queue.put(priority=1, item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        fut = asyncio.get_event_loop().create_future()
-        await super().put(self, (priority, args, kwargs, fut))
-        return fut
+        return self.put_nowait(priority, *args, **kwargs)
 
     def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -695,23 +693,29 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
-        fut = self._create_future()
-        super().put_nowait(self, (priority, args, kwargs, fut))
+        fut = None if self._no_futs else self._create_future()
+        # NOTE: the counter keeps tasks of one priority in order, so that nothing else is ever compared
+        _Queue.put_nowait(self, (priority, next(self._counter), args, kwargs, fut))
         return fut
 
+    @functools.cached_property
+    def _counter(self) -> Iterator[int]:
+        """Numbers the tasks in the order they were submitted."""
+        return itertools.count()
+
     def _get(self, heappop=heapq.heappop):
         """
         Retrieves the highest priority task from the queue.
 
         Returns:
-            The priority, task arguments, keyword arguments, and future of the task.
+            The task arguments, keyword arguments, and future of the task, if it has one.
 
         Example:
             >>> task = queue._get()
             >>> print(task)
         """
-        priority, args, kwargs, fut = heappop(self._queue)
-        return args, kwargs, fut
+        priority, i, args, kwargs, fut = heappop(self._queue)
+        return (args, kwargs) if self._no_futs else (args, kwargs, fut)
 
 
 class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
-- 
2.43.0


From ae8b5b0816d2376439eba97e40d8869c467048ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 13/61] fix: SmartProcessingQueue handed a cancelled future to
 new callers

---
 a_sync/_smart.py           | 4 +++-
 a_sync/primitives/queue.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 80aa21a..e592e98 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -142,7 +142,9 @@ class _SmartFutureMixin(Generic[T]):
         """
         self._waiters.clear()
         if queue := self._queue:
-            queue._futs.pop(self._key)
+            # NOTE: a cancelled future may have been replaced by now
+            if queue._futs.get(self._key) is self:
+                queue._futs.pop(self._key)
 
 
 class SmartFuture(_SmartFutureMixin[T], asyncio.Future):
diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 8f109a6..bb0cd83 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -850,7 +850,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         """
         self._ensure_workers()
         key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
+        fut = self._futs.get(key, None)
+        if fut is not None and not fut.cancelled():
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
@@ -874,7 +875,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         """
         self._ensure_workers()
         key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
+        fut = self._futs.get(key, None)
+        if fut is not None and not fut.cancelled():
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
-- 
2.43.0


From 66c7c442bdfeadda10132ac200b671c9ea5072dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 14/61] fix: num_waiters counted cancelled shields

---
 a_sync/_smart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index e592e98..a239760 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -435,6 +435,9 @@ def shield(
     def _outer_done_callback(outer):
         if not inner.done():
             inner.remove_done_callback(_inner_done_callback)
+            if waiters is not None:
+                # outer no longer waits for inner
+                waiters.discard(outer)
 
     inner.add_done_callback(_inner_done_callback)
     outer.add_done_callback(_outer_done_callback)
-- 
2.43.0


From d2cbcc79f03d48527efa02ae95388a6c80b02682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 15/61] fix: create_task with a context failed with the smart
 task factory

---
 a_sync/_smart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index a239760..90c1330 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -281,6 +281,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         *,
         loop: Optional[asyncio.AbstractEventLoop] = None,
         name: Optional[str] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize the SmartTask with a coroutine and optional event loop.
@@ -289,6 +290,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
             coro: The coroutine to run in the task.
             loop: Optional; the event loop.
             name: Optional; the name of the task.
+            **kwargs: Other arguments of :class:`asyncio.Task`, for instance the context.
 
         Example:
             ```python
@@ -298,12 +300,14 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         See Also:
             - :func:`asyncio.create_task`
         """
-        asyncio.Task.__init__(self, coro, loop=loop, name=name)
         self._waiters: Set["asyncio.Task[T]"] = set()
+        asyncio.Task.__init__(self, coro, loop=loop, name=name, **kwargs)
         self.add_done_callback(SmartTask._self_done_cleanup_callback)
 
 
-def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> SmartTask[T]:
+def smart_task_factory(
+    loop: asyncio.AbstractEventLoop, coro: Awaitable[T], **kwargs: Any
+) -> SmartTask[T]:
     """
     Task factory function that an event loop calls to create new tasks.
 
@@ -312,6 +316,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
     Args:
         loop: The event loop.
         coro: The coroutine to run in the task.
+        **kwargs: The other arguments the event loop passes to its task factory, such as the context.
 
     Returns:
         A SmartTask instance running the provided coroutine.
@@ -328,7 +333,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
         - :func:`set_smart_task_factory`
         - :class:`SmartTask`
     """
-    return SmartTask(coro, loop=loop)
+    return SmartTask(coro, loop=loop, **kwargs)
 
 
 def set_smart_task_factory(loop: asyncio.AbstractEventLoop = None) -> None:
-- 
2.43.0


From a9b6af8a4ac6edc8ccd5f2246913b3fbd93c871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 16/61] fix: super().method() of an overridden method recursed
 into the override

---
 a_sync/a_sync/method.pxd   |  3 ++-
 a_sync/a_sync/method.pyx   | 38 +++++++++++++++++++++++++++++---------
 a_sync/a_sync/property.pyx |  9 +++++----
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index be064bd..31f6293 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,2 +1,3 @@
 cdef bint _is_a_sync_instance(object instance)
-cdef void _update_cache_timer(str field_name, object instance, object bound)
\ No newline at end of file
+cdef void _update_cache_timer(str field_name, object instance, object bound)
+cdef str _get_cache_key(object descriptor, object instance)
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 1e3afe6..5450793 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -125,8 +125,9 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         """
         if instance is None:
             return self
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             from a_sync.a_sync.abstract import ASyncABC
 
@@ -165,9 +166,9 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                 bound = ASyncBoundMethod(
                     instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
                 )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
     def __set__(self, instance, value):
@@ -222,6 +223,23 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         return asyncio.iscoroutinefunction(self.__wrapped__)
 
 
+cdef str _get_cache_key(object descriptor, object instance):
+    """
+    Get the key of a descriptor's bound method in the `__dict__` of an instance.
+
+    A method that is overridden in the class of the instance, but is reached thru `super()`,
+    needs a key of its own.
+
+    Args:
+        descriptor: The method descriptor.
+        instance: The instance the method is bound to.
+    """
+    cdef str field_name = descriptor.field_name
+    if getattr(type(instance), field_name, descriptor) is descriptor:
+        return field_name
+    return "{}.{}".format(field_name, id(descriptor))
+
+
 cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
     """
     Update the TTL for the cache handle for the instance.
@@ -315,15 +333,16 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
         """
         if instance is None:
             return self
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
 
@@ -400,15 +419,16 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         
         cdef object bound
 
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4df298f..38d15fd 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -18,7 +18,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _get_cache_key, _is_a_sync_instance, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -740,8 +740,9 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
             return self
     
         cdef object bound
+        cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[cache_key]
         except KeyError:
             bound = HiddenMethod(
                 instance,
@@ -750,9 +751,9 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.field_name,
                 **self.modifiers,
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[cache_key] = bound
             c_logger.debug("new hidden method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(cache_key, instance, bound)
         return bound
 
 
-- 
2.43.0


From e158d964995f89599fdca671d84e8dbb31e528b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 17/61] fix: using a method delayed unrelated timers of the
 event loop

---
 a_sync/a_sync/method.pyx | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 5450793..dc175b1 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -251,13 +251,33 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
     if handle := bound._cache_handle:
-        # update the timer handle
-        handle._when = handle._loop.time() + _METHOD_CACHE_TTL
+        # NOTE: we must not touch the handle itself, the event loop keeps its timers sorted
+        bound._cache_expiry = handle._loop.time() + _METHOD_CACHE_TTL
     else:
         # create and assign the timer handle
         loop = get_event_loop()
-        # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
-        bound._cache_handle = loop.call_at(loop.time() + _METHOD_CACHE_TTL, instance.__dict__.pop, field_name)
+        bound._cache_expiry = loop.time() + _METHOD_CACHE_TTL
+        # NOTE: use `instance.__dict__` instead of `instance` so we don't create a strong ref to `instance`
+        bound._cache_handle = loop.call_at(bound._cache_expiry, _expire_cache, loop, instance.__dict__, field_name)
+
+
+def _expire_cache(loop: asyncio.AbstractEventLoop, instance_dict: dict, field_name: str) -> None:
+    """
+    Pop a bound method that has not been used for the TTL from the bound method cache.
+
+    Args:
+        loop: The event loop this timer runs in.
+        instance_dict: The `__dict__` of the instance the method is bound to.
+        field_name: The key of the bound method.
+    """
+    bound = instance_dict.get(field_name)
+    if bound is None:
+        return
+    if bound._cache_expiry > loop.time():
+        # it was used in the meantime
+        bound._cache_handle = loop.call_at(bound._cache_expiry, _expire_cache, loop, instance_dict, field_name)
+    else:
+        del instance_dict[field_name]
 
 
 @final
@@ -509,6 +529,9 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
     _cache_handle: asyncio.TimerHandle = None
     """An asyncio handle used to pop the bound method from `instance.__dict__` 5 minutes after its last use."""
 
+    _cache_expiry: float = 0
+    """The time of the handle's event loop at which the 5 minutes are over."""
+
     __weakself__: "weakref.ref[I]"
     """A weak reference to the instance the function is bound to."""
 
-- 
2.43.0


From 44bdf6f7a5edfc9955b8ac093d1bc9ce3dd8fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 18/61] fix: methods could not be used in a thread without an
 event loop

---
 a_sync/a_sync/method.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index dc175b1..d105837 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -255,7 +255,11 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
         bound._cache_expiry = handle._loop.time() + _METHOD_CACHE_TTL
     else:
         # create and assign the timer handle
-        loop = get_event_loop()
+        try:
+            loop = get_event_loop()
+        except RuntimeError:
+            # there is no event loop in this thread
+            return
         bound._cache_expiry = loop.time() + _METHOD_CACHE_TTL
         # NOTE: use `instance.__dict__` instead of `instance` so we don't create a strong ref to `instance`
         bound._cache_handle = loop.call_at(bound._cache_expiry, _expire_cache, loop, instance.__dict__, field_name)
-- 
2.43.0


From 26ea7ddaac7f0fb938cc695285cee8a42c4fb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 19/61] fix: the modifiers of async methods and properties were
 applied more than once

---
 a_sync/a_sync/_descriptor.py |  6 +-----
 a_sync/a_sync/property.pyx   | 12 +++++-------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index 8c83812..2875c7f 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -85,12 +85,8 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
         if isinstance(_fget, ASyncFunction):
             self.modifiers.update(_fget.modifiers)
             self.__wrapped__ = _fget
-        elif asyncio.iscoroutinefunction(_fget):
-            _validate_wrapped_fn(_fget)
-            self.__wrapped__: AsyncUnboundMethod[I, P, T] = self.modifiers.apply_async_modifiers(
-                _fget
-            )
         else:
+            # NOTE: the modifiers are applied where the function is called: by the bound methods and by the properties
             _validate_wrapped_fn(_fget)
             self.__wrapped__ = _fget
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 38d15fd..e2def68 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await
+from a_sync.a_sync._helpers cimport _await
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -77,18 +77,16 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
             field_name: Optional name for the field. If not provided, the function's name will be used.
             **modifiers: Additional modifier arguments.
         """
-        cdef dict hidden_modifiers
         super().__init__(_fget, field_name, **modifiers)
         self.hidden_method_name = f"__{self.field_name}__"
-        hidden_modifiers = dict(self.modifiers)
-        hidden_modifiers["default"] = "async"
+        # NOTE: the hidden method calls `_fget`, which has all other modifiers
         self.hidden_method_descriptor = HiddenMethodDescriptor(
-            self.get, self.hidden_method_name, **hidden_modifiers
+            self.get, self.hidden_method_name, default="async"
         )
         if asyncio.iscoroutinefunction(_fget):
-            self._fget = self.__wrapped__
+            self._fget = self.modifiers.apply_async_modifiers(self.__wrapped__)
         else:
-            self._fget = _asyncify(self.__wrapped__, self.modifiers.executor)
+            self._fget = self._asyncify(self.__wrapped__)
 
     @overload
     def __get__(self, instance: None, owner: Type[I]) -> Self: ...
-- 
2.43.0


From fa68c15c33e0961fe56875e2602eaaba8037bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 20/61] fix: functions with a keyword-only flag argument were
 not rejected

---
 a_sync/a_sync/function.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 3360db9..226ea5d 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -129,7 +129,8 @@ cdef void _validate_argspec_cached(fn: Callable):
         _argspec_validated.add(fid)
 
 cdef void _validate_argspec(fn: Callable):
-    fn_args = inspect.getfullargspec(fn)[0]
+    argspec = inspect.getfullargspec(fn)
+    fn_args = [*argspec.args, *argspec.kwonlyargs]
     for flag in VIABLE_FLAGS:
         if flag in fn_args:
             raise RuntimeError(
-- 
2.43.0


From bf45ca2d6b63baa84e655385b9b811f0527b7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 21/61] fix: definitions were confused with discarded ones that
 had the same id

---
 a_sync/a_sync/base.pyx     | 18 +++++++++++-------
 a_sync/a_sync/function.pyx | 16 ++++++++--------
 a_sync/a_sync/method.pyx   | 11 +++++------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 143dbf7..28163b1 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,8 +1,8 @@
 import functools
 import inspect
+import weakref
 from contextlib import suppress
 from logging import DEBUG, getLogger
-from libc.stdint cimport uintptr_t
 
 from a_sync import exceptions
 from a_sync._typing import *
@@ -212,13 +212,17 @@ cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     raise exceptions.FlagNotDefined(cls, flag)
 
 
-cdef dict[uintptr_t, object] _init_signature_cache = {}
-
+# NOTE: we can't use the id of an `__init__` here, another one can have the same id later
+cdef object _init_signature_cache = weakref.WeakKeyDictionary()
 
 cdef _get_init_signature(object cls):
-    cdef uintptr_t cls_init_id = id(cls.__init__)
-    signature = _init_signature_cache.get(cls_init_id)
+    cdef object init = cls.__init__
+    try:
+        signature = _init_signature_cache.get(init)
+    except TypeError:
+        # `init` is not a function
+        return inspect.signature(init)
     if signature is None:
-        signature = inspect.signature(cls.__init__)
-        _init_signature_cache[cls_init_id] = signature
+        signature = inspect.signature(init)
+        _init_signature_cache[init] = signature
     return signature
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 226ea5d..49495be 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -2,6 +2,7 @@ import functools
 import inspect
 import logging
 import sys
+import weakref
 
 from async_lru import _LRUCacheWrapper
 from async_property.base import AsyncPropertyDescriptor  # type: ignore [import]
@@ -120,13 +121,13 @@ cpdef void _validate_wrapped_fn(fn: Callable):
 
 cdef object _function_type = type(logging.getLogger)
 
-cdef set[Py_ssize_t] _argspec_validated = set()
+# NOTE: we can't use the id of a function here, another function can have the same id later
+cdef object _argspec_validated = weakref.WeakSet()
 
 cdef void _validate_argspec_cached(fn: Callable):
-    cdef Py_ssize_t fid = id(fn)
-    if fid not in _argspec_validated:
+    if fn not in _argspec_validated:
         _validate_argspec(fn)
-        _argspec_validated.add(fid)
+        _argspec_validated.add(fn)
 
 cdef void _validate_argspec(fn: Callable):
     argspec = inspect.getfullargspec(fn)
@@ -972,13 +973,12 @@ class ASyncDecorator(_ModifiedMixin):
             return ASyncFunctionSyncDefault(func, **self.modifiers)
 
 
-cdef set[Py_ssize_t] _is_genfunc_cache = set()
+cdef object _is_genfunc_cache = weakref.WeakSet()
 
 cdef void _check_not_genfunc_cached(func: Callable):
-    cdef Py_ssize_t fid = id(func)
-    if fid not in _is_genfunc_cache:
+    if func not in _is_genfunc_cache:
         _check_not_genfunc(func)
-        _is_genfunc_cache.add(fid)
+        _is_genfunc_cache.add(func)
 
 cdef void _check_not_genfunc(func: Callable):
     """Raises an error if the function is a generator or async generator.
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index d105837..b916edd 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -11,7 +11,6 @@ asynchronously based on various conditions and configurations.
 import functools
 import weakref
 from inspect import isawaitable
-from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
@@ -456,7 +455,8 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         return bound
 
 
-cdef dict[uintptr_t, bint] _is_a_sync_instance_cache = {}
+# NOTE: we can't use the id of a type here, another type can have the same id later
+cdef object _is_a_sync_instance_cache = weakref.WeakKeyDictionary()
 
 cdef bint _is_a_sync_instance(object instance):
     """Checks if an instance is an ASync instance.
@@ -468,12 +468,11 @@ cdef bint _is_a_sync_instance(object instance):
         A boolean indicating if the instance is an ASync instance.
     """
     cdef object instance_type = type(instance)
-    cdef uintptr_t instance_type_uid = id(instance_type)
-    if instance_type_uid in _is_a_sync_instance_cache:
-        return _is_a_sync_instance_cache[instance_type_uid]
+    if instance_type in _is_a_sync_instance_cache:
+        return _is_a_sync_instance_cache[instance_type]
     from a_sync.a_sync.abstract import ASyncABC
     cdef bint is_a_sync = issubclass(instance_type, ASyncABC)
-    _is_a_sync_instance_cache[instance_type_uid] = is_a_sync
+    _is_a_sync_instance_cache[instance_type] = is_a_sync
     return is_a_sync
 
 
-- 
2.43.0


From a735150c9afbbe06cb93b750488ea38367fab926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 22/61] fix: the methods of a copied instance were bound to the
 original

---
 a_sync/a_sync/method.pxd   |  1 +
 a_sync/a_sync/method.pyx   | 19 ++++++++++++++++---
 a_sync/a_sync/property.pyx |  4 ++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index 31f6293..d0425c0 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,3 +1,4 @@
 cdef bint _is_a_sync_instance(object instance)
 cdef void _update_cache_timer(str field_name, object instance, object bound)
 cdef str _get_cache_key(object descriptor, object instance)
+cdef object _get_cached(str cache_key, object instance)
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index b916edd..c31f363 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -126,7 +126,7 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
             return self
         cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[cache_key]
+            bound = _get_cached(cache_key, instance)
         except KeyError:
             from a_sync.a_sync.abstract import ASyncABC
 
@@ -239,6 +239,19 @@ cdef str _get_cache_key(object descriptor, object instance):
     return "{}.{}".format(field_name, id(descriptor))
 
 
+cdef object _get_cached(str cache_key, object instance):
+    """
+    Gets the bound method of `instance` from its bound method cache.
+
+    Raises:
+        KeyError: If there is none. The one in the `__dict__` of a copied instance is bound to the original.
+    """
+    cdef object bound = instance.__dict__[cache_key]
+    if bound.__weakself__() is not instance:
+        raise KeyError(cache_key)
+    return bound
+
+
 cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
     """
     Update the TTL for the cache handle for the instance.
@@ -358,7 +371,7 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
             return self
         cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[cache_key]
+            bound = _get_cached(cache_key, instance)
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
@@ -444,7 +457,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
 
         cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[cache_key]
+            bound = _get_cached(cache_key, instance)
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index e2def68..b34a62b 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -18,7 +18,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _get_cache_key, _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _get_cache_key, _get_cached, _is_a_sync_instance, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -740,7 +740,7 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
         cdef object bound
         cdef str cache_key = _get_cache_key(self, instance)
         try:
-            bound = instance.__dict__[cache_key]
+            bound = _get_cached(cache_key, instance)
         except KeyError:
             bound = HiddenMethod(
                 instance,
-- 
2.43.0


From d083166115ac300aaae9e1fe8e7e88adfb4898b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 23/61] fix: generator methods were mixed up with overridden,
 copied and equally named ones

---
 a_sync/iter.pyx | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 94d9a09..9f717ed 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -466,7 +466,7 @@ class ASyncGeneratorFunction(Generic[P, T]):
         - :class:`ASyncIterable`
     """
 
-    _cache_handle: asyncio.TimerHandle
+    _cache_handle: Optional[asyncio.TimerHandle] = None
     "An asyncio handle used to pop the bound method from `instance.__dict__` 5 minutes after its last use."
 
     __weakself__: "weakref.ref[object]" = None
@@ -490,7 +490,6 @@ class ASyncGeneratorFunction(Generic[P, T]):
         "The actual async generator function."
 
         if instance is not None:
-            self._cache_handle = self.__get_cache_handle(instance)
             self.__weakself__ = weakref.ref(instance, self.__cancel_cache_handle)
         functools.update_wrapper(self, self.__wrapped__)
 
@@ -518,14 +517,16 @@ class ASyncGeneratorFunction(Generic[P, T]):
         if instance is None:
             return self
 
-        cdef object gen_func
-        try:
-            gen_func = instance.__dict__[self.field_name]
-        except KeyError:
+        # NOTE: This can't be found by a normal attribute lookup, and another generator function that was
+        #       defined with the same name (ie the one this one overrides) has another key.
+        cdef str cache_key = "{}.{}".format(self.field_name, id(self))
+        cdef object gen_func = instance.__dict__.get(cache_key)
+        if gen_func is None or gen_func.__weakself__() is not instance:
             gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
-            instance.__dict__[self.field_name] = gen_func
-        gen_func._cache_handle.cancel()
-        gen_func._cache_handle = self.__get_cache_handle(instance)
+            instance.__dict__[cache_key] = gen_func
+        elif gen_func._cache_handle is not None:
+            gen_func._cache_handle.cancel()
+        gen_func._cache_handle = self.__get_cache_handle(instance, cache_key)
         return gen_func
 
     @property
@@ -539,14 +540,22 @@ class ASyncGeneratorFunction(Generic[P, T]):
             raise ReferenceError(self)
         return instance
 
-    def __get_cache_handle(self, instance: object) -> asyncio.TimerHandle:
+    def __get_cache_handle(self, instance: object, cache_key: str) -> Optional[asyncio.TimerHandle]:
         # NOTE: we create a strong reference to instance here. I'm not sure if this is good or not but its necessary for now.
-        return get_event_loop().call_later(
-            300, delattr, instance, self.field_name
-        )
+        try:
+            loop = get_event_loop()
+        except RuntimeError:
+            # there is no event loop in this thread
+            return None
+        return loop.call_later(300, _pop_gen_func, instance, cache_key)
 
     def __cancel_cache_handle(self, instance: object) -> None:
-        self._cache_handle.cancel()
+        if self._cache_handle is not None:
+            self._cache_handle.cancel()
+
+
+def _pop_gen_func(instance: object, cache_key: str) -> None:
+    instance.__dict__.pop(cache_key, None)
 
 
 class _ASyncView(ASyncIterator[T]):
-- 
2.43.0


From 27eb11f275367dbcf057d00ce4676d878e73e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 24/61] fix: iterators and properties could not be used
 synchronously in a thread without an event loop

---
 a_sync/a_sync/property.pyx | 3 +--
 a_sync/iter.pyx            | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index b34a62b..030a031 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -30,7 +30,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
 
 
 class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 9f717ed..30a0404 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -11,7 +11,7 @@ from typing import _GenericAlias, get_args
 from async_property import async_cached_property
 
 from a_sync._typing import *
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop as get_or_create_event_loop
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
@@ -355,7 +355,7 @@ class ASyncIterator(_AwaitableAsyncIterableMixin[T], Iterator[T]):
 
         """
         try:
-            return get_event_loop().run_until_complete(self.__anext__())
+            return get_or_create_event_loop().run_until_complete(self.__anext__())
         except StopAsyncIteration as e:
             raise StopIteration from e
         except RuntimeError as e:
-- 
2.43.0


From 164a1d9f8a1dcbf8994bd4a7e0c3b314320d2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 25/61] fix: debug logging raised TypeError when a singleton
 was built without a flag

---
 a_sync/a_sync/abstract.pyx                 | 3 ++-
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index e4983b4..c427832 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -172,7 +172,8 @@ class ASyncABC(metaclass=ASyncMeta):
         if not flag:
             c_logger._log(
                 DEBUG,
-                "No valid flags found in kwargs, checking class definition for defined default"
+                "No valid flags found in kwargs, checking class definition for defined default",
+                (),
             )
             return cls.__a_sync_default_mode__()  # type: ignore [arg-type]
 
diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 66defa4..71cb7f2 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -230,7 +230,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             if debug_logs:
                 c_logger._log(DEBUG, "waking up next for %s", (manager._c_repr_no_parent_(), ))
                 if not manager._Semaphore__waiters:
-                    c_logger._log(DEBUG, "not manager._Semaphore__waiters")
+                    c_logger._log(DEBUG, "not manager._Semaphore__waiters", ())
 
             while manager._Semaphore__waiters:
                 waiter = manager._Semaphore__waiters.popleft()
-- 
2.43.0


From 3ee3fe2d9996feb5d32e49fadb559813943549d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 26/61] fix: a failed cached property was never computed again
 and late waiters restored replaced values

---
 a_sync/a_sync/property.pyx | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 030a031..290c16b 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -431,7 +431,10 @@ class ASyncCachedPropertyDescriptor(
         """
         instance_state = self.get_instance_state(instance)
         task = instance_state.lock[self.field_name]
-        if isinstance(task, asyncio.Lock):
+        if isinstance(task, asyncio.Lock) or (
+            # a failed or cancelled computation must not be served to later readers
+            task.done() and (task.cancelled() or task.exception() is not None)
+        ):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
             instance_state.lock[self.field_name] = task
@@ -445,6 +448,16 @@ class ASyncCachedPropertyDescriptor(
         """
         self.get_instance_state(instance).lock.pop(self.field_name, None)
 
+    def set_cache_value(self, instance: I, value: T) -> None:
+        """Sets the cached value. A computation that was started before does not replace it.
+
+        Args:
+            instance: The instance for which the value is cached.
+            value: The value to cache.
+        """
+        super().set_cache_value(instance, value)
+        self.pop_lock(instance)
+
     def get_loader(self, instance: I) -> Callable[[], T]:
         """Retrieves the loader function for the property.
 
@@ -457,14 +470,19 @@ class ASyncCachedPropertyDescriptor(
 
         @functools.wraps(self._fget)
         async def load_value():
+            if self.has_cache_value(instance):
+                # the value was loaded after the property was accessed
+                return self.get_cache_value(instance)
             inner_task = self.get_lock(instance)
             try:
                 value = await _smart.shield(inner_task)
             except Exception as e:
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            self.__set__(instance, value)
-            self.pop_lock(instance)
+            if self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+                # NOTE: only the first waiter sets the value, it may have been replaced or deleted since
+                self.__set__(instance, value)
+                self.pop_lock(instance)
             return value
 
         return load_value
-- 
2.43.0


From 7b7838e080cf0462264dea8d5111f578b22c49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 27/61] fix: setters and deleters of cached properties dropped
 the default mode and modifiers

---
 a_sync/a_sync/property.pyx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 290c16b..80317db 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -420,6 +420,28 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def setter(self, method: Callable[[I, T], None]) -> "ASyncCachedPropertyDescriptor[I, T]":
+        """Returns a copy of the descriptor, default mode and modifiers included, with a setter.
+
+        Args:
+            method: A sync method that is called with the instance and each new value.
+        """
+        self._check_method_name(method, "setter")
+        return type(self)(
+            self.__wrapped__, method, self._fdel, self.field_name, **self.modifiers
+        )
+
+    def deleter(self, method: Callable[[I], None]) -> "ASyncCachedPropertyDescriptor[I, T]":
+        """Returns a copy of the descriptor, default mode and modifiers included, with a deleter.
+
+        Args:
+            method: A sync method that is called with the instance whose value is deleted.
+        """
+        self._check_method_name(method, "deleter")
+        return type(self)(
+            self.__wrapped__, self._fset, method, self.field_name, **self.modifiers
+        )
+
     def get_lock(self, instance: I) -> "asyncio.Task[T]":
         """Retrieves the lock for the property.
 
-- 
2.43.0


From ca630890497c1c61bf1211de8fbaaa8731a018dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 28/61] fix: reading an overridden cached property with super()
 never returned

---
 a_sync/a_sync/property.pyx | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 80317db..9211e78 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -1,3 +1,4 @@
+import builtins
 import functools
 from logging import DEBUG, getLogger
 
@@ -394,6 +395,8 @@ class ASyncCachedPropertyDescriptor(
 
     __slots__ = "_fset", "_fdel", "__async_property__"
 
+    _overrides = False
+
     def __init__(
         self,
         _fget: AsyncGetterFunction[I, T],
@@ -420,6 +423,26 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def __set_name__(self, owner: Type[I], name: str) -> None:
+        super().__set_name__(owner, name)
+        for base in owner.__mro__[1:]:
+            if isinstance(base.__dict__.get(name), ASyncCachedPropertyDescriptor):
+                # both this property and the one it overrides (by `super()`) can be loaded for one instance
+                self._overrides = True
+
+    @builtins.property
+    def _cache_key(self) -> Any:
+        return self if self._overrides else self.field_name
+
+    def has_cache_value(self, instance: I) -> bool:
+        return self._cache_key in self.get_cache(instance)
+
+    def get_cache_value(self, instance: I) -> T:
+        return self.get_cache(instance)[self._cache_key]
+
+    def del_cache_value(self, instance: I) -> None:
+        del self.get_cache(instance)[self._cache_key]
+
     def setter(self, method: Callable[[I, T], None]) -> "ASyncCachedPropertyDescriptor[I, T]":
         """Returns a copy of the descriptor, default mode and modifiers included, with a setter.
 
@@ -452,14 +475,14 @@ class ASyncCachedPropertyDescriptor(
             An asyncio Task representing the lock.
         """
         instance_state = self.get_instance_state(instance)
-        task = instance_state.lock[self.field_name]
+        task = instance_state.lock[self._cache_key]
         if isinstance(task, asyncio.Lock) or (
             # a failed or cancelled computation must not be served to later readers
             task.done() and (task.cancelled() or task.exception() is not None)
         ):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
-            instance_state.lock[self.field_name] = task
+            instance_state.lock[self._cache_key] = task
         return task
 
     def pop_lock(self, instance: I) -> None:
@@ -468,7 +491,7 @@ class ASyncCachedPropertyDescriptor(
         Args:
             instance: The instance from which the property is accessed.
         """
-        self.get_instance_state(instance).lock.pop(self.field_name, None)
+        self.get_instance_state(instance).lock.pop(self._cache_key, None)
 
     def set_cache_value(self, instance: I, value: T) -> None:
         """Sets the cached value. A computation that was started before does not replace it.
@@ -477,7 +500,7 @@ class ASyncCachedPropertyDescriptor(
             instance: The instance for which the value is cached.
             value: The value to cache.
         """
-        super().set_cache_value(instance, value)
+        self.get_cache(instance)[self._cache_key] = value
         self.pop_lock(instance)
 
     def get_loader(self, instance: I) -> Callable[[], T]:
@@ -501,7 +524,7 @@ class ASyncCachedPropertyDescriptor(
             except Exception as e:
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            if self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+            if self.get_instance_state(instance).lock.get(self._cache_key) is inner_task:
                 # NOTE: only the first waiter sets the value, it may have been replaced or deleted since
                 self.__set__(instance, value)
                 self.pop_lock(instance)
-- 
2.43.0


From 458e003726a339f7401e309b4e5d9f2f3002dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 29/61] fix: singletons did not find the flag of a base class
 further up

---
 a_sync/a_sync/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 28163b1..64ef268 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -143,7 +143,7 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
         return _parse_flag_name_from_list(cls, cls.__dict__)  # type: ignore [arg-type]
         # idk why __dict__ doesn't type check as a dict
     except exceptions.NoFlagsFound:
-        for base in cls.__bases__:
+        for base in cls.__mro__[1:]:
             with suppress(exceptions.NoFlagsFound):
                 return _parse_flag_name_from_list(cls, base.__dict__)  # type: ignore [arg-type]
                 # idk why __dict__ doesn't type check as a dict
@@ -206,7 +206,7 @@ cdef str _parse_flag_name_from_list(object cls, object items):
 
 cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     cdef object spec
-    for spec in [cls, *cls.__bases__]:
+    for spec in cls.__mro__:
         if flag in spec.__dict__:
             return spec.__dict__[flag]
     raise exceptions.FlagNotDefined(cls, flag)
-- 
2.43.0


From 4167b2c3aeed5e38e3f5068c52207978f149b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 30/61] fix: an ASyncFuture with two awaiters raised
 InvalidStateError and a failed one never finished

---
 a_sync/future.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 91af653..a819013 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -353,8 +353,16 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
 
     async def __await(self) -> T:
         if not self.done():
-            self.set_result(await self.__task__)
-        return self._result
+            try:
+                result = await self.__task__
+            except Exception as e:
+                # NOTE: somebody else might have awaited us at the same time
+                if not self.done():
+                    self.set_exception(e)
+            else:
+                if not self.done():
+                    self.set_result(result)
+        return super().result()
 
     @property
     def __task__(self) -> "asyncio.Task[T]":
-- 
2.43.0


From 987fd06d940175748c122a82f1727d71660f0e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 31/61] fix: using an ASyncFuture in a running event loop
 recursed until RecursionError

---
 a_sync/future.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index a819013..e4000b0 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -32,6 +32,8 @@ from inspect import isawaitable
 
 import a_sync.asyncio
 from a_sync._typing import *
+from a_sync.a_sync._helpers import get_event_loop
+from a_sync.exceptions import SyncModeInAsyncContextError
 
 
 def future(
@@ -116,7 +118,7 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
         meta: The `ASyncFuture` to materialize.
 
     Raises:
-        RuntimeError: If the event loop is running and the result cannot be awaited.
+        SyncModeInAsyncContextError: If the event loop is running and the result cannot be awaited.
 
     Example:
         >>> future = ASyncFuture(asyncio.sleep(1, result=42))
@@ -126,11 +128,16 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
+    if meta.done():
+        return concurrent.futures.Future.result(meta)
     try:
-        return asyncio.get_event_loop().run_until_complete(meta)
+        return get_event_loop().run_until_complete(meta)
     except RuntimeError as e:
-        raise RuntimeError(
-            f"{meta} result is not set and the event loop is running, you will need to await it first"
+        if str(e) != "This event loop is already running":
+            raise
+        # NOTE: `str(meta)` would materialize it again
+        raise SyncModeInAsyncContextError(
+            f"{meta!r} result is not set and the event loop is running, you will need to await it first"
         ) from e
 
 
-- 
2.43.0


From 1f4ccbc2ed993fccc98a3b1b50e7965472b905c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 32/61] fix: future methods accessed on the class were bound to
 None

---
 a_sync/future.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index e4000b0..be40cd3 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -1383,7 +1383,7 @@ class _ASyncFutureWrappedFn(Callable[P, ASyncFuture[T]]):
     def __get__(
         self, instance: I, owner: Type[I]
     ) -> Union[Self, "_ASyncFutureInstanceMethod[I, P, T]"]:
-        return self if owner is None else _ASyncFutureInstanceMethod(self, instance)
+        return self if instance is None else _ASyncFutureInstanceMethod(self, instance)
 
 
 @final
-- 
2.43.0


From 191c0f47506cf8f04b4b960833e9e38b3637ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 33/61] fix: sorting with an async key dropped every item of an
 async iterable and reordered equal items

---
 a_sync/iter.pyx | 46 +++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 30a0404..9536eee 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -12,7 +12,6 @@ from async_property import async_cached_property
 
 from a_sync._typing import *
 from a_sync.a_sync._helpers cimport _await, get_event_loop as get_or_create_event_loop
-from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
 
@@ -742,37 +741,26 @@ class ASyncSorter(_ASyncView[T]):
         Returns:
             An async iterator that will yield the sorted items.
         """
-        cdef list items, sort_tasks
+        cdef list items, keys
         cdef object obj
 
-        if asyncio.iscoroutinefunction(self._function):
-            items = []
-            sort_tasks = []
-            if self.__aiterator__:
-                async for obj in self.__aiterator__:
-                    items.append(obj)
-                    sort_tasks.append(
-                        ccreate_task_simple(self._function(obj))
-                    )
-            elif self.__iterator__:
-                for obj in self.__iterator__:
-                    items.append(obj)
-                    sort_tasks.append(
-                        ccreate_task_simple(self._function(obj))
-                    )
-                for sort_value, obj in sorted(
-                    zip(await asyncio.gather(*sort_tasks), items),
-                    reverse=reverse,
-                ):
-                    yield obj
+        if self.__aiterator__ is not None:
+            items = [obj async for obj in self.__aiterator__]
+        else:
+            items = list(self.__iterator__)
+        if self._function is _key_if_no_key:
+            items.sort(reverse=reverse)
         else:
-            if self.__aiterator__:
-                items = [obj async for obj in self.__aiterator__]
-            else:
-                items = list(self.__iterator__)
-            items.sort(key=self._function, reverse=reverse)
-            for obj in items:
-                yield obj
+            keys = [self._function(obj) for obj in items]
+            if any(map(inspect.isawaitable, keys)):
+                keys = list(await asyncio.gather(*keys))
+            # NOTE: only compare the keys, never the items, so items with equal keys keep their order
+            items = [
+                items[i]
+                for i in sorted(range(len(items)), key=keys.__getitem__, reverse=reverse)
+            ]
+        for obj in items:
+            yield obj
         self._consumed = True
 
 
-- 
2.43.0


From 34ee0503e0f26ebc2607c7bea5a81be6cc07fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 34/61] fix: filtering a sized iterator that is empty raised
 TypeError

---
 a_sync/iter.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 9536eee..5019d45 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -621,11 +621,11 @@ class ASyncFilter(_ASyncView[T]):
 
     async def __anext__(self) -> T:
         cdef object obj
-        if self.__aiterator__:
+        if self.__aiterator__ is not None:
             async for obj in self.__aiterator__:
                 if await self._check(obj):
                     return obj
-        elif self.__iterator__:
+        elif self.__iterator__ is not None:
             try:
                 for obj in self.__iterator__:
                     if await self._check(obj):
-- 
2.43.0


From 1b12417be93d8d79d3d9c2ec1c0ceb34a3b72f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 35/61] fix: gathering a mapping with exclude_if raised
 KeyError when anything was excluded

---
 a_sync/asyncio/gather.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 9e523fb..1e35808 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -197,7 +197,7 @@ async def gather_mapping(
         if exclude_if is None or not exclude_if(v)
     }
     # return data in same order as input mapping
-    return {k: results[k] for k in mapping}
+    return {k: results[k] for k in mapping if k in results}
 
 cdef inline bint _is_mapping(object awaitables):
     return len(awaitables) == 1 and isinstance(awaitables[0], Mapping)
-- 
2.43.0


From ea2f91ca7503302c063ca341e49d049fa8394a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 36/61] fix: as_completed over a mapping cut the timeout down
 to whole seconds

---
 a_sync/asyncio/as_completed.pxd | 2 +-
 a_sync/asyncio/as_completed.pyx | 6 +++---
 a_sync/asyncio/gather.pyx       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7486941..7bb75af 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -1,6 +1,6 @@
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index d183b39..3438e44 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -117,7 +117,7 @@ def as_completed(
     if isinstance(fs, Mapping):
         return as_completed_mapping(
             mapping=fs,
-            timeout=timeout or 0,
+            timeout=timeout,
             return_exceptions=return_exceptions,
             aiter=aiter,
             tqdm=tqdm,
@@ -140,7 +140,7 @@ def as_completed(
 
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
@@ -177,7 +177,7 @@ cdef object as_completed_mapping(
             __mapping_wrap(k, v, return_exceptions=return_exceptions)
             for k, v in mapping.items()
         ],
-        timeout=timeout or None,
+        timeout=timeout,
         aiter=aiter,
         tqdm=tqdm,
         **tqdm_kwargs
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 1e35808..467c85b 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -188,7 +188,7 @@ async def gather_mapping(
         k: v
         async for k, v in as_completed_mapping(
             mapping=mapping,
-            timeout=0,
+            timeout=None,
             return_exceptions=return_exceptions,
             aiter=True,
             tqdm=tqdm,
-- 
2.43.0


From 93d36efd0ab86f0f136e5e5e18cd6ad8374c1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 37/61] fix: a cancelled task that was kept alive broke every
 later create_task and finished ones were never released

---
 a_sync/asyncio/create_task.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 129c0a5..69cde0b 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -134,7 +134,12 @@ cdef void __prune_persisted_tasks():
     cdef object task
     cdef dict context
     for task in tuple(__persisted_tasks):
-        if task.done() and (e := task.exception()):
+        if not task.done():
+            continue
+        __persisted_tasks.discard(task)
+        if task.cancelled():
+            continue
+        if e := task.exception():
             # force exceptions related to this lib to bubble up
             if not isinstance(e, exceptions.PersistedTaskException):
                 c_logger.exception(e)
@@ -149,7 +154,6 @@ cdef void __prune_persisted_tasks():
             if task._source_traceback:
                 context["source_traceback"] = task._source_traceback
             task._loop.call_exception_handler(context)
-            __persisted_tasks.discard(task)
 
 
 async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
-- 
2.43.0


From 08a57b928004aed86a3f32732815bd6e4a671657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 38/61] fix: as_yielded lost the items a slow consumer had not
 reached when an iterator failed

---
 a_sync/utils/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 44e4da5..4f88a4d 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -243,7 +243,7 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not task.done():
+    while not (task.done() and queue.empty()):
         try:
             items = await queue.get_all()
         except asyncio.CancelledError:
-- 
2.43.0


From 866e828882c774404bb4da1671ae5444f20ffbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 39/61] fix: as_yielded kept consuming its iterators after the
 consumer left or was cancelled

---
 a_sync/utils/iterators.py | 41 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 4f88a4d..ab42561 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -243,27 +243,26 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not (task.done() and queue.empty()):
-        try:
-            items = await queue.get_all()
-        except asyncio.CancelledError:
-            # cleanup lingering objects and reraise
-            del task
-            del queue
-            raise
-        for item in items:
-            queue.task_done()
-            if isinstance(item, _Done):
-                assert queue.empty()
-                del task
-                del queue
-                if item._exc:
-                    raise item._exc.with_traceback(item._tb) from item._exc.__cause__
-                return
-            yield item
-
-    # ensure it isn't done due to an internal exception
-    await task
+    try:
+        while not (task.done() and queue.empty()):
+            for item in await queue.get_all():
+                queue.task_done()
+                if isinstance(item, _Done):
+                    assert queue.empty()
+                    if item._exc:
+                        raise item._exc.with_traceback(item._tb) from item._exc.__cause__
+                    return
+                yield item
+
+        # ensure it isn't done due to an internal exception
+        await task
+    except BaseException:
+        # the consumer is done early, there is no use in populating the queue any longer
+        task.cancel()
+        raise
+    finally:
+        # cleanup lingering objects
+        del task
 
 
 class _Done:
-- 
2.43.0


From 43d5a778f891eb11aff68bcf30741225c80482e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 40/61] fix: as_yielded and exhaust_iterators took a
 cancellation inside an iterator for its end

---
 a_sync/utils/iterators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index ab42561..c4dcd48 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -84,7 +84,7 @@ async def exhaust_iterators(
         *[exhaust_iterator(iterator, queue=queue) for iterator in iterators],
         return_exceptions=True,
     ):
-        if isinstance(x, Exception):
+        if isinstance(x, BaseException):
             # raise it with its original traceback instead of from here
             raise x.with_traceback(x.__traceback__)
 
@@ -230,8 +230,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     def _as_yielded_done_callback(t: asyncio.Task) -> None:
         if t.cancelled():
-            return
-        if e := t.exception():
+            queue.put_nowait(_Done(asyncio.CancelledError()))
+        elif e := t.exception():
             traceback.extract_stack
             traceback.clear_frames(e.__traceback__)
             queue.put_nowait(_Done(e))
@@ -276,7 +276,7 @@ class _Done:
         exc (Optional[Exception]): An optional exception to be associated with the completion.
     """
 
-    def __init__(self, exc: Optional[Exception] = None) -> None:
+    def __init__(self, exc: Optional[BaseException] = None) -> None:
         self._exc = exc
 
     @property
-- 
2.43.0


From 11744dd45311a0e907de54e5030916e918779c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 41/61] fix: a task mapping runs its function once for keys its
 iterables repeat or that were already started

---
 a_sync/task.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index da42f3d..12bcbc0 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -544,14 +544,19 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             for iterable in iterables
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
+        started = set()
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self[key]
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # ensure task is running
+                    if key not in started:
+                        started.add(key)
+                        yield key, self[key]  # ensure task is running
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
@@ -568,14 +573,19 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             for iterable in iterables
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
+        started = set()
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self.__start_task(key)
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self.__start_task(key)
+                    if key not in started:
+                        started.add(key)
+                        yield key, self[key]
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
-- 
2.43.0


From dd11a43692290bcb16b1f9a10f03cbcbf6dd689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 42/61] fix: a task mapping no longer takes an async iterable
 of length zero so far for an empty container

---
 a_sync/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 12bcbc0..f43bf5c 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -682,11 +682,12 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
     Yields:
         Keys extracted from the iterable.
     """
-    if not iterable:
-        raise _EmptySequenceError(iterable)
-    elif isinstance(iterable, AsyncIterable):
+    if isinstance(iterable, AsyncIterable):
+        # NOTE: a lazily loaded async iterable can be falsy until it is iterated
         async for key in iterable:
             yield key
+    elif not iterable:
+        raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
-- 
2.43.0


From aa1468a3a071825a2e0bcdfa7e21e169ec6dc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 43/61] fix: one of several iterables given to a task mapping
 may be empty

---
 a_sync/task.py | 50 ++++++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index f43bf5c..445b77f 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -325,12 +325,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         async for key, value in self.yield_completed(pop=pop):
                             yield _yield(key, value, yields)
                 except _EmptySequenceError:
-                    if len(iterables) > 1:
-                        # TODO gotta handle this situation
-                        raise exceptions.EmptySequenceError(
-                            "bob needs to code something so you can do this, go tell him"
-                        ) from None
                     # just pass thru
+                    pass
 
             elif init_loader:
                 # check for exceptions if you passed an iterable(s) into the class init
@@ -545,22 +541,19 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         started = set()
+        # one of several iterables can be empty as long as the others are not
+        allow_empty = len(iterables) > 1
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in _yield_keys(iterable, allow_empty):
                 if key not in started:
                     started.add(key)
                     yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    if key not in started:
-                        started.add(key)
-                        yield key, self[key]  # ensure task is running
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(*[_yield_keys(iterable, allow_empty) for iterable in remaining]):  # type: ignore [attr-defined]
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]  # ensure task is running
 
     @ASyncGeneratorFunction
     async def _start_tasks_for_iterables(
@@ -574,22 +567,19 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         started = set()
+        # one of several iterables can be empty as long as the others are not
+        allow_empty = len(iterables) > 1
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in _yield_keys(iterable, allow_empty):
                 if key not in started:
                     started.add(key)
                     yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    if key not in started:
-                        started.add(key)
-                        yield key, self[key]
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(*[_yield_keys(iterable, allow_empty) for iterable in remaining]):  # type: ignore [attr-defined]
+                if key not in started:
+                    started.add(key)
+                    yield key, self[key]
 
     def _if_pop_check_destroyed(self, pop: bool) -> None:
         if pop:
@@ -672,12 +662,15 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
-async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
+async def _yield_keys(
+    iterable: AnyIterableOrAwaitableIterable[K], allow_empty: bool = False
+) -> AsyncIterator[K]:
     """
     Asynchronously yield keys from the provided iterable.
 
     Args:
         iterable: An iterable that can be either synchronous or asynchronous.
+        allow_empty: Whether an empty container yields nothing instead of raising.
 
     Yields:
         Keys extracted from the iterable.
@@ -687,12 +680,13 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
         async for key in iterable:
             yield key
     elif not iterable:
-        raise _EmptySequenceError(iterable)
+        if not allow_empty:
+            raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
     elif inspect.isawaitable(iterable):
-        async for key in _yield_keys(await iterable):
+        async for key in _yield_keys(await iterable, allow_empty):
             yield key
     else:
         raise TypeError(iterable)
-- 
2.43.0


From 173fb4aed66568fce83b333e6e86a407b684f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 44/61] fix: TaskMapping.map with pop=False yields each key
 once

---
 a_sync/task.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 445b77f..64562c9 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -310,6 +310,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         """
         self._if_pop_check_destroyed(pop)
 
+        yielded = set()
+
         # make sure the init loader is started if needed
         init_loader = self._init_loader
         if iterables and init_loader:
@@ -323,7 +325,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 try:
                     async for _ in self._tasks_for_iterables(*iterables):
                         async for key, value in self.yield_completed(pop=pop):
-                            yield _yield(key, value, yields)
+                            if key not in yielded:
+                                yielded.add(key)
+                                yield _yield(key, value, yields)
                 except _EmptySequenceError:
                     # just pass thru
                     pass
@@ -337,13 +341,13 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     "You must either initialize your TaskMapping with an iterable(s) or provide them during your call to map"
                 )
 
-            if self:
+            if unyielded := {key: task for key, task in dict.items(self) if key not in yielded}:
                 if pop:
-                    async for key, value in as_completed(self, aiter=True):
+                    async for key, value in as_completed(unyielded, aiter=True):
                         self.pop(key)
                         yield _yield(key, value, yields)
                 else:
-                    async for key, value in as_completed(self, aiter=True):
+                    async for key, value in as_completed(unyielded, aiter=True):
                         yield _yield(key, value, yields)
         finally:
             await self._if_pop_clear(pop)
-- 
2.43.0


From 426dee9d748c3b6bd296b3823e8315a1506bb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 45/61] fix: aggregations of a task mapping accept None results
 and do not modify the results

---
 a_sync/task.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 64562c9..4d96a1f 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -378,28 +378,28 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     @ASyncMethodDescriptorSyncDefault
     async def max(self, pop: bool = True) -> V:
-        max = None
+        max = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if max is None or result > max:
+                if max is _NO_RESULT or result > max:
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
-        if max is None:
+        if max is _NO_RESULT:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
     @ASyncMethodDescriptorSyncDefault
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
-        min = None
+        min = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if min is None or result < min:
+                if min is _NO_RESULT or result < min:
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
-        if min is None:
+        if min is _NO_RESULT:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
@@ -409,7 +409,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         retval = 0
         try:
             async for key, result in self.__aiter__(pop=pop):
-                retval += result
+                # not `+=`, which could mutate a result
+                retval = retval + result
         except _EmptySequenceError:
             return 0
         return retval
@@ -635,6 +636,10 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 class _NoRunningLoop(Exception): ...
 
 
+_NO_RESULT = object()
+"A sentinel for aggregations, since None is a valid result."
+
+
 @overload
 def _yield(
     key: K, value: V, yields: Literal["keys"]
-- 
2.43.0


From 1945689025a5c98c86192db70e8ff019ad5d15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 46/61] fix: TaskMapping.pop with cancel=True returns the
 default for a missing key

---
 a_sync/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 4d96a1f..748b368 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -492,8 +492,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             *args: One key to pop.
             cancel: Whether to cancel the task when popping it.
         """
+        found = args[0] in self
         fut_or_task = dict.pop(self, *args)
-        if cancel:
+        if cancel and found:
             fut_or_task.cancel()
         return fut_or_task
 
-- 
2.43.0


From c0260dfa3ccda5c3dbf80fd61c448afbe18f5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 47/61] fix: map methods of instances in sync mode and
 undecorated sync methods

---
 a_sync/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 748b368..5d36934 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -141,9 +141,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self._wrapped_func = wrapped_func
         "The function used to create tasks for each key."
 
-        if isinstance(wrapped_func, ASyncMethodDescriptor) and not _kwargs.get_flag_name_legacy(
-            wrapped_func_kwargs
-        ):
+        if isinstance(
+            wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)
+        ) and not _kwargs.get_flag_name_legacy(wrapped_func_kwargs):
             wrapped_func_kwargs["sync"] = False
         if wrapped_func_kwargs:
             self._wrapped_func_kwargs = wrapped_func_kwargs
-- 
2.43.0


From e373181356197c4c7ca58b214d334c48316075a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 48/61] fix: a task mapping accepts futures and tasks of
 iterables as its iterables

---
 a_sync/task.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 5d36934..c3c7e1a 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -541,11 +541,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
         # if we have any regular containers we can yield their contents right away
-        containers = [
-            iterable
-            for iterable in iterables
-            if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
-        ]
+        containers, remaining = _separate_containers(iterables)
         started = set()
         # one of several iterables can be empty as long as the others are not
         allow_empty = len(iterables) > 1
@@ -555,7 +551,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     started.add(key)
                     yield key, self[key]
 
-        if remaining := [iterable for iterable in iterables if iterable not in containers]:
+        if remaining:
             async for key in as_yielded(*[_yield_keys(iterable, allow_empty) for iterable in remaining]):  # type: ignore [attr-defined]
                 if key not in started:
                     started.add(key)
@@ -567,11 +563,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Start new tasks for each key in the provided iterables."""
         # if we have any regular containers we can yield their contents right away
-        containers = [
-            iterable
-            for iterable in iterables
-            if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
-        ]
+        containers, remaining = _separate_containers(iterables)
         started = set()
         # one of several iterables can be empty as long as the others are not
         allow_empty = len(iterables) > 1
@@ -581,7 +573,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     started.add(key)
                     yield key, self[key]
 
-        if remaining := [iterable for iterable in iterables if iterable not in containers]:
+        if remaining:
             async for key in as_yielded(*[_yield_keys(iterable, allow_empty) for iterable in remaining]):  # type: ignore [attr-defined]
                 if key not in started:
                     started.add(key)
@@ -672,6 +664,23 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
+def _separate_containers(
+    iterables: Tuple[AnyIterableOrAwaitableIterable[K], ...],
+) -> Tuple[List[Iterable[K]], List[AnyIterableOrAwaitableIterable[K]]]:
+    """Separate the regular containers from the iterables whose keys must be waited for."""
+    containers, remaining = [], []
+    for iterable in iterables:
+        if (
+            isinstance(iterable, Iterable)
+            and not isinstance(iterable, AsyncIterable)
+            and not inspect.isawaitable(iterable)
+        ):
+            containers.append(iterable)
+        else:
+            remaining.append(iterable)
+    return containers, remaining
+
+
 async def _yield_keys(
     iterable: AnyIterableOrAwaitableIterable[K], allow_empty: bool = False
 ) -> AsyncIterator[K]:
@@ -689,15 +698,16 @@ async def _yield_keys(
         # NOTE: a lazily loaded async iterable can be falsy until it is iterated
         async for key in iterable:
             yield key
+    elif inspect.isawaitable(iterable):
+        # NOTE: futures and tasks are technically iterable too, so we must check this first
+        async for key in _yield_keys(await iterable, allow_empty):
+            yield key
     elif not iterable:
         if not allow_empty:
             raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
-    elif inspect.isawaitable(iterable):
-        async for key in _yield_keys(await iterable, allow_empty):
-            yield key
     else:
         raise TypeError(iterable)
 
-- 
2.43.0


From 88072b116bfc68b066e63de63ded724e62bb613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 49/61] fix: jobs of a processing queue that were cancelled
 before they started no longer run

---
 a_sync/primitives/queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index bb0cd83..c4fc9ba 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -432,7 +432,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         if self._no_futs:
             return super().put_nowait((args, kwargs))
         fut = self._create_future()
-        super().put_nowait((args, kwargs, weakref.proxy(fut)))
+        super().put_nowait((args, kwargs, fut))
         return fut
 
     def _create_future(self) -> "asyncio.Future[V]":
@@ -504,6 +504,10 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             # the weakref was already cleaned up, we don't need to process this item
                             self.task_done()
                             continue
+                        if fut.cancelled():
+                            # nobody wants the result anymore
+                            self.task_done()
+                            continue
                         result = await self.func(*args, **kwargs)
                     except asyncio.exceptions.CancelledError:
                         if _current_task_is_cancelling():
-- 
2.43.0


From 66da7705ab4374cc80614ba79324b3ca4015c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 50/61] fix: threads of a pruning thread pool that was dropped
 end

---
 a_sync/executor.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 90d687e..6aa2b3d 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -319,15 +319,18 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 # Let's suicide the thread.  # NOTE: NEW
                 executor = executor_reference()  # NOTE: NEW
 
-                with executor._adjusting_lock:  # NOTE: NEW
-                    # NOTE: We keep a minimum of one thread active to prevent locks
-                    if len(executor) > 1:  # NOTE: NEW
-                        t = threading.current_thread()  # NOTE: NEW
-                        executor._threads.remove(t)  # NOTE: NEW
-                        thread._threads_queues.pop(t)  # NOTE: NEW
-                        # Let the executor know we have one less idle thread available
-                        executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
-                        return  # NOTE: NEW
+                if executor is not None:  # NOTE: NEW
+                    with executor._adjusting_lock:  # NOTE: NEW
+                        # NOTE: We keep a minimum of one thread active to prevent locks
+                        if len(executor) > 1:  # NOTE: NEW
+                            t = threading.current_thread()  # NOTE: NEW
+                            executor._threads.remove(t)  # NOTE: NEW
+                            thread._threads_queues.pop(t)  # NOTE: NEW
+                            # Let the executor know we have one less idle thread available
+                            executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
+                            return  # NOTE: NEW
+                # Do not keep the executor alive while we wait
+                del executor  # NOTE: NEW
                 continue
 
             if work_item is not None:
-- 
2.43.0


From 0246084358a8e6eb94afd7ebc600f6842591660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 51/61] fix: a thread of a pruning thread pool does not retire
 when a job was just submitted

---
 a_sync/executor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 6aa2b3d..485ec83 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -320,9 +320,12 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 executor = executor_reference()  # NOTE: NEW
 
                 if executor is not None:  # NOTE: NEW
-                    with executor._adjusting_lock:  # NOTE: NEW
-                        # NOTE: We keep a minimum of one thread active to prevent locks
-                        if len(executor) > 1:  # NOTE: NEW
+                    with executor._shutdown_lock, executor._adjusting_lock:  # NOTE: NEW
+                        # NOTE: We keep a minimum of one thread active to prevent locks,
+                        #       and stay for work items that were submitted just now
+                        if (
+                            len(executor) > 1 and work_queue.empty() and not executor._shutdown
+                        ):  # NOTE: NEW
                             t = threading.current_thread()  # NOTE: NEW
                             executor._threads.remove(t)  # NOTE: NEW
                             thread._threads_queues.pop(t)  # NOTE: NEW
-- 
2.43.0


From 4f09fcfc27348518fb5c3ea146d3c68b277ba370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 52/61] fix: a pruning thread pool only counts threads as idle
 that wait for jobs

---
 a_sync/executor.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 485ec83..8fbf1cc 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -310,15 +310,29 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 executor._initializer_failed()
             return
 
+    # Whether the executor knows that we wait for work items
+    idle = False
     try:
         while True:
             try:  # NOTE: NEW
-                work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
+                work_item = work_queue.get(block=idle, timeout=timeout)  # NOTE: NEW
             except queue.Empty:  # NOTE: NEW
-                # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
-                # Let's suicide the thread.  # NOTE: NEW
                 executor = executor_reference()  # NOTE: NEW
 
+                if not idle:
+                    # Only a thread that finds no more work items is idle
+                    if executor is None:
+                        idle = True
+                    else:
+                        with executor._adjusting_lock:
+                            if work_queue.empty():
+                                executor._idle_semaphore.release()
+                                idle = True
+                    del executor
+                    continue
+
+                # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
+                # Let's suicide the thread.  # NOTE: NEW
                 if executor is not None:  # NOTE: NEW
                     with executor._shutdown_lock, executor._adjusting_lock:  # NOTE: NEW
                         # NOTE: We keep a minimum of one thread active to prevent locks,
@@ -340,12 +354,7 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 work_item.run()
                 # Delete references to object. See issue16284
                 del work_item
-
-                # attempt to increment idle count
-                executor = executor_reference()
-                if executor is not None:
-                    executor._idle_semaphore.release()
-                del executor
+                idle = False
                 continue
 
             executor = executor_reference()
-- 
2.43.0


From f4d52d040b9e4b14d9b751bf2b31af90a824efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 53/61] fix: limits and caches of methods survive the expiry of
 bound methods

---
 a_sync/a_sync/method.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index c31f363..db86ff0 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -262,6 +262,10 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     """
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
+    cdef object modifiers = bound.modifiers
+    if modifiers.use_cache or modifiers.use_semaphore or modifiers.use_limiter:
+        # the cache and the limits of the method live as long as the instance
+        return
     if handle := bound._cache_handle:
         # NOTE: we must not touch the handle itself, the event loop keeps its timers sorted
         bound._cache_expiry = handle._loop.time() + _METHOD_CACHE_TTL
-- 
2.43.0


From ebb5f66170027e50f1510d8a509185f5a777b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 54/61] fix: keyword arguments named like a wrapper's own
 parameters reach the wrapped function

self, fn, fut and instance are positional-only where **kwargs are forwarded, so a
function may have parameters of those names.
---
 a_sync/a_sync/_meta.py       |  2 +-
 a_sync/a_sync/function.pyx   |  6 +++---
 a_sync/a_sync/method.pyx     |  4 ++--
 a_sync/executor.py           |  6 +++---
 a_sync/future.py             |  2 +-
 a_sync/iter.pyx              |  2 +-
 a_sync/primitives/_debug.pyx |  6 +++---
 a_sync/primitives/queue.py   | 16 ++++++++--------
 8 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 113b263..c9a48e3 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -181,7 +181,7 @@ class ASyncSingletonMeta(ASyncMeta):
         """Lock to ensure thread-safe instance creation."""
         super().__init__(name, bases, namespace)
 
-    def __call__(cls, *args: Any, **kwargs: Any):
+    def __call__(cls, /, *args: Any, **kwargs: Any):
         is_sync = cls.__a_sync_instance_will_be_sync__(args, kwargs)  # type: ignore [attr-defined]
         if is_sync not in cls.__instances:
             with cls.__lock:
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 49495be..9dbab17 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -339,7 +339,7 @@ class ASyncFunction(_ModifiedMixin, Generic[P, T]):
             result = func(5)
         """
 
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
         """
         Calls the wrapped function either synchronously or asynchronously.
 
@@ -1053,7 +1053,7 @@ class ASyncFunctionSyncDefault(ASyncFunction[P, T]):
         # TODO write specific docs for this overload
         ...
 
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
         """Calls the wrapped function, defaulting to synchronous execution.
 
         This method overrides the base :meth:`ASyncFunction.__call__` to provide a synchronous
@@ -1128,7 +1128,7 @@ class ASyncFunctionAsyncDefault(ASyncFunction[P, T]):
 
     @overload
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> Coroutine[Any, Any, T]: ...
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
         """Calls the wrapped function, defaulting to asynchronous execution.
 
         This method overrides the base :meth:`ASyncFunction.__call__` to provide an asynchronous
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index db86ff0..e9e4b5b 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -81,7 +81,7 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
     __wrapped__: AnyFn[P, T]
     """The unbound function which will be bound to an instance when :meth:`__get__` is called."""
 
-    async def __call__(self, instance: I, *args: P.args, **kwargs: P.kwargs) -> T:
+    async def __call__(self, instance: I, /, *args: P.args, **kwargs: P.kwargs) -> T:
         """
         Asynchronously call the method.
 
@@ -641,7 +641,7 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
     ) -> Coroutine[Any, Any, T]: ...
     @overload
     def __call__(self, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]: ...
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> MaybeCoro[T]:
         """
         Call the bound method.
 
diff --git a/a_sync/executor.py b/a_sync/executor.py
index 8fbf1cc..87f9929 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -56,7 +56,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
 
     __slots__ = "_max_workers", "_initializer", "_initargs", "_broken", "_shutdown_lock"
 
-    async def run(self, fn: Callable[P, T], *args: P.args, **kwargs: P.kwargs):
+    async def run(self, fn: Callable[P, T], /, *args: P.args, **kwargs: P.kwargs):
         """
         A shorthand way to call `await asyncio.get_event_loop().run_in_executor(this_executor, fn, *args)`.
         Doesn't `await this_executor.run(fn, *args)` look so much better?
@@ -79,7 +79,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         """
         return fn(*args, **kwargs) if self.sync_mode else await self.submit(fn, *args, **kwargs)
 
-    def submit(self, fn: Callable[P, T], *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[T]":  # type: ignore [override]
+    def submit(self, fn: Callable[P, T], /, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[T]":  # type: ignore [override]
         """
         Submits a job to the executor and returns an :class:`asyncio.Future` that can be awaited for the result without blocking.
 
@@ -135,7 +135,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         """
         return len(getattr(self, f"_{self._workers}"))
 
-    async def _debug_daemon(self, fut: asyncio.Future, fn, *args, **kwargs) -> None:
+    async def _debug_daemon(self, fut: asyncio.Future, fn, /, *args, **kwargs) -> None:
         """
         Runs until manually cancelled by the finished work item.
 
diff --git a/a_sync/future.py b/a_sync/future.py
index be40cd3..8f00ecb 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -1374,7 +1374,7 @@ class _ASyncFutureWrappedFn(Callable[P, ASyncFuture[T]]):
         else:
             self.wrapped = partial(_ASyncFutureWrappedFn, **kwargs)
 
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> ASyncFuture[T]:
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> ASyncFuture[T]:
         return self.wrapped(*args, **kwargs)
 
     def __repr__(self) -> str:
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 5019d45..473a8e4 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -499,7 +499,7 @@ class ASyncGeneratorFunction(Generic[P, T]):
             hex(id(self))
         )
 
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> ASyncIterator[T]:
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> ASyncIterator[T]:
         """
         Calls the wrapped async generator function with the given arguments and keyword arguments, returning an :class:`ASyncIterator`.
 
diff --git a/a_sync/primitives/_debug.pyx b/a_sync/primitives/_debug.pyx
index 71213f5..29bfcc9 100644
--- a/a_sync/primitives/_debug.pyx
+++ b/a_sync/primitives/_debug.pyx
@@ -75,7 +75,7 @@ cdef class _DebugDaemonMixin(_LoopBoundMixin):
         :class:`_LoggerMixin` for logging capabilities.
     """
 
-    async def _debug_daemon(self, fut: asyncio.Future, fn, *args, **kwargs) -> None:
+    async def _debug_daemon(self, fut: asyncio.Future, fn, /, *args, **kwargs) -> None:
         """
         Abstract method to define the debug daemon's behavior.
 
@@ -100,7 +100,7 @@ cdef class _DebugDaemonMixin(_LoopBoundMixin):
         """
         raise NotImplementedError
 
-    def _start_debug_daemon(self, *args, **kwargs) -> "asyncio.Future[None]":
+    def _start_debug_daemon(self, /, *args, **kwargs) -> "asyncio.Future[None]":
         """
         Starts the debug daemon task if debug logging is enabled and the event loop is running.
 
@@ -132,7 +132,7 @@ cdef class _DebugDaemonMixin(_LoopBoundMixin):
             return ccreate_task_simple(self._debug_daemon(*args, **kwargs))
         return loop.create_future()
 
-    def _ensure_debug_daemon(self, *args, **kwargs) -> "asyncio.Future[None]":
+    def _ensure_debug_daemon(self, /, *args, **kwargs) -> "asyncio.Future[None]":
         """
         Ensures that the debug daemon task is running.
 
diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index c4fc9ba..282b0f2 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -349,7 +349,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             repr_string += f" pending={self._unfinished_tasks}"
         return f"{repr_string}>"
 
-    def __call__(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
+    def __call__(self, /, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Submits a task to the queue.
 
@@ -390,7 +390,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         """
         self._closed = True
 
-    async def put(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
+    async def put(self, /, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously submits a task to the queue.
 
@@ -413,7 +413,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         super().put_nowait((args, kwargs, fut))
         return fut
 
-    def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
+    def put_nowait(self, /, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Immediately submits a task to the queue without waiting.
 
@@ -662,7 +662,7 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         :class:`~ProcessingQueue`
     """
 
-    async def put(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
+    async def put(self, /, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously adds a task with priority to the queue.
 
@@ -680,7 +680,7 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         """
         return self.put_nowait(priority, *args, **kwargs)
 
-    def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
+    def put_nowait(self, /, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Immediately adds a task with priority to the queue without waiting.
 
@@ -749,7 +749,7 @@ class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
         # take the job with the most waiters
         return heappop(self._queue)
 
-    def _get_key(self, *args, **kwargs) -> _smart._Key:
+    def _get_key(self, /, *args, **kwargs) -> _smart._Key:
         """
         Generates a unique key for task identification based on arguments.
 
@@ -837,7 +837,7 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         super().__init__(func, num_workers, return_data=True, name=name, loop=loop)
         self._futs = weakref.WeakValueDictionary()
 
-    async def put(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
+    async def put(self, /, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
         Asynchronously adds a task with smart future handling to the queue.
 
@@ -862,7 +862,7 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         Queue.put_nowait(self, (_SmartFutureRef(fut), args, kwargs))
         return fut
 
-    def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
+    def put_nowait(self, /, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
         Immediately adds a task with smart future handling to the queue without waiting.
 
-- 
2.43.0


From 7747aede7898165192844dc0f4953710d4a84af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 55/61] fix: an Event can be made in a thread that has no event
 loop

The loop was only needed in the constructor before python 3.10.
---
 a_sync/primitives/locks/event.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 4179b69..52a5f7e 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -50,10 +50,9 @@ cdef class CythonEvent(_DebugDaemonMixin):
             super().__init__()
         else:
             super().__init__(loop=loop)
-
-        # backwards compatability
-        if hasattr(self, "_loop"):
-            self._loop = self._loop or asyncio.get_event_loop()
+            # backwards compatability
+            if hasattr(self, "_loop"):
+                self._loop = self._loop or asyncio.get_event_loop()
         if debug_daemon_interval > 65535:
             raise ValueError(f"'debug_daemon_interval' is stored as a uint16 and must be less than 65535")
         self._debug_daemon_interval = debug_daemon_interval
-- 
2.43.0


From 99ee7e8173fb1fa90dcc313e13152fe29a194a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 56/61] fix: sync functions can run in a process pool

The wrapper around a function without modifiers could not be pickled, so neither
A_SYNC_EXECUTOR_TYPE=processes nor executor=ProcessPoolExecutor() worked.
---
 a_sync/a_sync/modifiers/manager.pyx | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/a_sync/a_sync/modifiers/manager.pyx b/a_sync/a_sync/modifiers/manager.pyx
index 3ee55fa..f815373 100644
--- a/a_sync/a_sync/modifiers/manager.pyx
+++ b/a_sync/a_sync/modifiers/manager.pyx
@@ -1,5 +1,4 @@
 # mypy: disable-error-code=valid-type
-import functools
 from libc.stdint cimport uint8_t
 
 from a_sync._typing import *
@@ -193,12 +192,8 @@ class ModifierManager(Dict[str, Any]):
             >>> manager = ModifierManager(ModifierKwargs())
             >>> modified_function = manager.apply_sync_modifiers(my_function)
         """
-
-        @functools.wraps(function)
-        def sync_modifier_wrap(*args: P.args, **kwargs: P.kwargs) -> T:
-            return function(*args, **kwargs)
-
-        return sync_modifier_wrap
+        # NOTE: a wrapper could not be pickled, and so the function could not run in a process pool
+        return function
 
     # Dictionary-like API
     def keys(self) -> KeysView[str]:  # type: ignore [override]
-- 
2.43.0


From 5259688e8868f459e463b39433f0e9dd14ab7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 57/61] fix: a mapping with fixed arguments in front of the key
 always failed

The keyword of the recursive call was not mangled like the parameter it meant, so it
reached the wrapped function. The error is recognised by the qualified name too, and
the signature is that of the wrapped function of a dual-mode function.
---
 a_sync/task.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index c3c7e1a..ac19391 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -156,7 +156,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
             @functools.wraps(wrapped_func)
             async def _wrapped_set_next(
-                *args: P.args, __a_sync_recursion: int = 0, **kwargs: P.kwargs
+                *args: P.args, _a_sync_recursion: int = 0, **kwargs: P.kwargs
             ) -> V:
                 try:
                     return await wrapped_func(*args, **kwargs)
@@ -164,8 +164,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     e.args = *e.args, f"wrapped:{self.__wrapped__}"
                     raise
                 except TypeError as e:
-                    if __a_sync_recursion > 2 or not (
-                        str(e).startswith(wrapped_func.__name__)
+                    if _a_sync_recursion > 2 or not (
+                        str(e).startswith((wrapped_func.__name__, wrapped_func.__qualname__))
                         and "got multiple values for argument" in str(e)
                     ):
                         raise
@@ -174,7 +174,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     new_args = list(args)
                     new_kwargs = dict(kwargs)
                     try:
-                        for i, arg in enumerate(inspect.getfullargspec(self.__wrapped__).args):
+                        argspec = inspect.getfullargspec(inspect.unwrap(self.__wrapped__))
+                        for i, arg in enumerate(argspec.args):
                             if arg in kwargs:
                                 new_args.insert(i, new_kwargs.pop(arg))
                             else:
@@ -182,7 +183,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         return await _wrapped_set_next(
                             *new_args,
                             **new_kwargs,
-                            __a_sync_recursion=__a_sync_recursion + 1,
+                            # NOTE: a name with two leading underscores would be mangled above but not here
+                            _a_sync_recursion=_a_sync_recursion + 1,
                         )
                     except TypeError as e2:
                         raise (
-- 
2.43.0


From e6f270d219abac9bb62a6c22a86a51cb1f400c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 58/61] fix: a TypeError of a partial or callable object in a
 mapping became an AttributeError

---
 a_sync/task.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index ac19391..fd86ccd 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -154,6 +154,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         if iterables:
             self._next = Event(name=f"{self} `_next`")
 
+            # NOTE: partials and callable objects have no name
+            names = tuple(
+                name
+                for name in (
+                    getattr(wrapped_func, "__name__", None),
+                    getattr(wrapped_func, "__qualname__", None),
+                )
+                if name
+            )
+
             @functools.wraps(wrapped_func)
             async def _wrapped_set_next(
                 *args: P.args, _a_sync_recursion: int = 0, **kwargs: P.kwargs
@@ -165,7 +175,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     raise
                 except TypeError as e:
                     if _a_sync_recursion > 2 or not (
-                        str(e).startswith((wrapped_func.__name__, wrapped_func.__qualname__))
+                        str(e).startswith(names)
                         and "got multiple values for argument" in str(e)
                     ):
                         raise
-- 
2.43.0


From 124bc62d5b972fbca1cc6fad928aa4d11cd54370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 59/61] fix: an awaitable value of a method called with a flag
 or a sync default was awaited too

---
 a_sync/a_sync/method.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index e9e4b5b..4153412 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -664,9 +664,10 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
         # This could either be a coroutine or a return value from an awaited coroutine,
         #   depending on if an overriding flag kwarg was passed into the function call.
         retval = coro = ASyncFunction.__call__(self, self.__self__, *args, **kwargs)
-        if not isawaitable(retval):
+        if not isawaitable(retval) or (self._async_def and (get_flag_name(kwargs) or self.default)):
             # The coroutine was already awaited due to the use of an overriding flag kwarg.
             # We can return the value.
+            # NOTE: the value itself can be an awaitable too, it belongs to the caller.
             pass
         elif _should_await(self, kwargs):
             # The awaitable was not awaited, so now we need to check the flag as defined on 'self' and await if appropriate.
-- 
2.43.0


From e37d73e9350da7b17076766f852d1893ac2f9c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 60/61] fix: a generator method wrapped by ASyncIterator.wrap
 can be part of a dual-use class

---
 a_sync/a_sync/_meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index c9a48e3..c8d7a7a 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -82,7 +82,9 @@ class ASyncMeta(ABCMeta):
                     attr_name,
                 )
                 continue
-            elif isinstance(attr_value, (_ASyncFutureWrappedFn, Semaphore)):
+            elif isinstance(
+                attr_value, (_ASyncFutureWrappedFn, Semaphore, ASyncGeneratorFunction)
+            ):
                 logger.debug(
                     "`%s.%s` is a %s, skipping",
                     new_class_name,
-- 
2.43.0


From f48b91132a4491053609e21f91bd89dd8d748e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 61/61] fix: return_exceptions also returns the cancellation of
 one awaitable

---
 a_sync/asyncio/as_completed.pxd |  4 +++-
 a_sync/asyncio/as_completed.pyx | 18 ++++++++++++++++++
 a_sync/asyncio/gather.pyx       |  7 ++++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7bb75af..643119d 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -5,4 +5,6 @@ cdef object as_completed_mapping(
     bint aiter,
     bint tqdm,
     dict tqdm_kwargs,
-)
\ No newline at end of file
+)
+
+cdef bint c_current_task_is_cancelling()
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index 3438e44..9ee870a 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -3,6 +3,7 @@ This module extends Python's :func:`asyncio.as_completed` with additional functi
 """
 
 import asyncio
+import sys
 
 try:
     from tqdm.asyncio import tqdm_asyncio
@@ -195,10 +196,22 @@ async def _exc_wrap(awaitable: Awaitable[T]) -> Union[T, Exception]:
     """
     try:
         return await awaitable
+    except asyncio.exceptions.CancelledError as e:
+        if c_current_task_is_cancelling():
+            raise
+        # only the awaitable was cancelled
+        return e
     except Exception as e:
         return e
 
 
+cdef bint c_current_task_is_cancelling():
+    """Whether a CancelledError is meant for the current task itself, rather than for what it awaits."""
+    if sys.version_info < (3, 11):
+        return True
+    return asyncio.current_task().cancelling() > 0
+
+
 async def __yield_as_completed(
     futs: Iterable[Awaitable[T]],
     *,
@@ -249,6 +262,11 @@ async def __mapping_wrap(
     """
     try:
         return k, await v
+    except asyncio.exceptions.CancelledError as e:
+        if return_exceptions and not c_current_task_is_cancelling():
+            # only the awaitable was cancelled
+            return k, e
+        raise
     except Exception as e:
         if return_exceptions:
             return k, e
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 467c85b..c9a7bc6 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -5,7 +5,7 @@ This module provides an enhanced version of :func:`asyncio.gather`.
 from typing import Any, Awaitable, Dict, List, Mapping, Union, overload
 
 from a_sync._typing import *
-from a_sync.asyncio.as_completed cimport as_completed_mapping
+from a_sync.asyncio.as_completed cimport as_completed_mapping, c_current_task_is_cancelling
 
 try:
     from tqdm.asyncio import tqdm_asyncio
@@ -214,5 +214,10 @@ async def _exc_wrap(awaitable: Awaitable[T]) -> Union[T, Exception]:
     """
     try:
         return await awaitable
+    except asyncio.exceptions.CancelledError as e:
+        if c_current_task_is_cancelling():
+            raise
+        # only the awaitable was cancelled
+        return e
     except Exception as e:
         return e
\ No newline at end of file
-- 
2.43.0

