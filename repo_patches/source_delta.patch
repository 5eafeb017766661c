From 1ac86da80c207d80e63425eb16168dad07dece96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 01/47] fix: environment variable of a child Option is not
 overwritten by its parent

---
 src/reactpy/_option.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index 9e57c22..b52c434 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -28,9 +28,6 @@ class Option(Generic[_O]):
         self._validator = validator
         self._subscribers: list[Callable[[_O], None]] = []
 
-        if name in os.environ:
-            self._current = validator(os.environ[name])
-
         if parent is not None:
             if not (parent.mutable and self.mutable):
                 raise TypeError("Parent and child options must be mutable")
@@ -41,6 +38,10 @@ class Option(Generic[_O]):
         else:
             raise TypeError("Must specify either a default or a parent option")
 
+        # load the environment last, subscribing to a parent copies its current value
+        if name in os.environ:
+            self._current = validator(os.environ[name])
+
         logger.debug(f"{self._name}={self.current}")
 
     @property
-- 
2.43.0


From b96a5c777c803c34b65394837fa48240f1f8155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 02/47] fix: Option.set_default with the current default no
 longer raises AttributeError

---
 src/reactpy/_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/_option.py b/src/reactpy/_option.py
index b52c434..b18034f 100644
--- a/src/reactpy/_option.py
+++ b/src/reactpy/_option.py
@@ -117,7 +117,7 @@ class Option(Generic[_O]):
         """
         if not self.is_set():
             self.set_current(new)
-        return self._current
+        return self.current
 
     def reload(self) -> None:
         """Reload this option from its environment variable"""
-- 
2.43.0


From b3130861b98da9ad6f5d39de6500ea0970e72a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/47] fix: use_memo does not keep new dependencies when
 computing the value failed

---
 src/reactpy/core/hooks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 5aacbf5..7018cc6 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -508,10 +508,8 @@ def use_memo(
     if memo.empty():
         # we need to initialize on the first run
         changed = True
-        memo.deps = () if dependencies is None else dependencies
     elif dependencies is None:
         changed = True
-        memo.deps = ()
     elif (
         len(memo.deps) != len(dependencies)
         # if deps are same length check identity for each item
@@ -520,7 +518,6 @@ def use_memo(
             for current, new in zip(memo.deps, dependencies, strict=False)
         )
     ):
-        memo.deps = dependencies
         changed = True
     else:
         changed = False
@@ -529,6 +526,8 @@ def use_memo(
 
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
+            # only remember the dependencies once the value was computed from them
+            memo.deps = () if dependencies is None else dependencies
             return current_value
 
     else:
-- 
2.43.0


From a360162b3faa1d465e56dd817bf9c1112647cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 04/47] fix: an effect clean-up that raises is not called again

---
 src/reactpy/core/hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 7018cc6..2c98940 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -645,5 +645,5 @@ def strictly_equal(x: Any, y: Any) -> bool:
 
 def run_effect_cleanup(cleanup_func: Ref[_EffectCleanFunc | None]) -> None:
     if cleanup_func.current:
-        cleanup_func.current()
-        cleanup_func.current = None
+        function, cleanup_func.current = cleanup_func.current, None
+        function()
-- 
2.43.0


From 6d61498142bb06a35f30ca9334831c583f9227dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/47] fix: unmounting waits for every effect even if one of
 them raised

---
 src/reactpy/core/_life_cycle_hook.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index cf77742..b49db43 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -245,9 +245,10 @@ class LifeCycleHook:
             stop.set()
         self._effect_stops.clear()
         try:
-            await gather(*self._effect_tasks)
-        except Exception:
-            logger.exception("Error in effect")
+            results = await gather(*self._effect_tasks, return_exceptions=True)
+            for error in results:
+                if isinstance(error, Exception):
+                    logger.error("Error in effect", exc_info=error)
         finally:
             self._effect_tasks.clear()
 
-- 
2.43.0


From dc4b764258cb9d5af88b895481cfe9d45d69c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 06/47] fix: a component whose first render failed can recover

---
 src/reactpy/core/_life_cycle_hook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index b49db43..509dfe8 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -181,8 +181,8 @@ class LifeCycleHook:
         Otherwise, the state is retrieved from the tuple. This allows state to be
         preserved across renders.
         """
-        if not self._rendered_atleast_once:
-            # since we're not initialized yet we're just appending state
+        if self._current_state_index >= len(self._state):
+            # this state was not reached by any render yet so we append it
             result = function()
             self._state.append(result)
         else:
-- 
2.43.0


From 3bc653d417f52dbccf506a64b96be8dbfb5917c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 07/47] fix: a failed render task does not keep the layout from
 being unmounted on exit

---
 src/reactpy/core/layout.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 18253aa..d83db69 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -103,15 +103,15 @@ class Layout(BaseLayout):
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
 
-        for t in self._render_tasks:
+        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:
             t.cancel()
-            with suppress(CancelledError):
-                await t
-
-        for t in self._event_processing_tasks.values():
-            t.cancel()
-            with suppress(CancelledError):
+            try:
                 await t
+            except CancelledError:
+                pass
+            except Exception:
+                # a failed task must not keep the components from being unmounted
+                logger.exception(f"Task {t} of {self} failed")
 
         await self._unmount_model_states([root_model_state])
         await self._rendering_queue.close()
-- 
2.43.0


From a0f09fe80cd666ccf6df01ccefa5f3d28797e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 08/47] fix: layout updates are delivered in the order in which
 renders completed

---
 src/reactpy/core/layout.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d83db69..7d4de15 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from asyncio import (
-    FIRST_COMPLETED,
     CancelledError,
     Queue,
     Task,
@@ -9,9 +8,8 @@ from asyncio import (
     current_task,
     get_running_loop,
     sleep,
-    wait,
 )
-from collections import Counter
+from collections import Counter, deque
 from collections.abc import Callable
 from contextlib import AsyncExitStack, suppress
 from logging import getLogger
@@ -74,6 +72,9 @@ class Layout(BaseLayout):
             _LifeCycleStateId, Task[LayoutUpdateMessage]
         ] = {}
         self._render_tasks_ready: Semaphore = Semaphore(0)
+        # Render tasks in the order they completed. Updates have to be delivered in
+        # this order, otherwise an older model could replace a newer one.
+        self._completed_render_tasks: deque[Task[LayoutUpdateMessage]] = deque()
         # Maps a running render task back to the component it belongs to.
         # Used by the stale-render detection in `_parallel_render` to drop
         # out-of-order completions when async rendering is enabled and a
@@ -214,12 +215,11 @@ class Layout(BaseLayout):
         while True:
             await self._render_tasks_ready.acquire()
 
-            if not self._render_tasks:  # nocov
-                continue
-
-            done, _ = await wait(self._render_tasks, return_when=FIRST_COMPLETED)
-            update_task: Task[LayoutUpdateMessage] = done.pop()
+            update_task = self._completed_render_tasks.popleft()
             self._render_tasks.discard(update_task)
+            lcs_id = self._render_task_to_lcs_id.pop(update_task, None)
+            if self._render_tasks_by_id.get(lcs_id) is update_task:
+                del self._render_tasks_by_id[lcs_id]
 
             try:
                 return update_task.result()
@@ -315,10 +315,8 @@ class Layout(BaseLayout):
         self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state
 
         # If this component is scheduled to render, we can cancel that task since we
-        # are rendering it now.  We keep the cancelled task in ``_render_tasks`` so
-        # the semaphore token that ``_schedule_render_task`` released is still
-        # paired with an entry the consumer can pick up.  ``asyncio.wait`` returns
-        # cancelled tasks in the done set, and the ``CancelledError`` catch in
+        # are rendering it now.  We keep the cancelled task in ``_render_tasks``, its
+        # completion releases a semaphore token, and the ``CancelledError`` catch in
         # ``_parallel_render`` drains the token naturally.
         if life_cycle_state.id in self._render_tasks_by_id:
             task = self._render_tasks_by_id[life_cycle_state.id]
@@ -593,7 +591,11 @@ class Layout(BaseLayout):
             self._render_task_to_lcs_id[task] = lcs_id
             self._render_tasks.add(task)
             self._render_tasks_by_id[lcs_id] = task
-            self._render_tasks_ready.release()
+            task.add_done_callback(self._render_task_completed)
+
+    def _render_task_completed(self, task: Task[LayoutUpdateMessage]) -> None:
+        self._completed_render_tasks.append(task)
+        self._render_tasks_ready.release()
 
     def __repr__(self) -> str:
         return f"{type(self).__name__}({self.root})"
-- 
2.43.0


From 0570f4da7241349bf0dbac36c455b46d37d989d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 09/47] fix: a render that begins while it is being scheduled
 does not block later renders

---
 src/reactpy/core/_life_cycle_hook.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index 509dfe8..d0a9b8a 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -166,13 +166,15 @@ class LifeCycleHook:
     def schedule_render(self) -> None:
         if self._scheduled_render:
             return None
+        # set this first because, if this is called from another thread, the render may
+        # begin before the callback returns
+        self._scheduled_render = True
         try:
             self._schedule_render_callback()
         except Exception:
+            self._scheduled_render = False
             msg = f"Failed to schedule render via {self._schedule_render_callback}"
             logger.exception(msg)
-        else:
-            self._scheduled_render = True
 
     def use_state(self, function: Callable[[], T]) -> T:
         """Add state to this hook
-- 
2.43.0


From 9d6b8cd039d6d845d5dd068a578de6e23e704877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 10/47] fix: state changed in another thread is rendered if
 async rendering is enabled

---
 src/reactpy/core/layout.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 7d4de15..5b145e9 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from asyncio import (
+    AbstractEventLoop,
     CancelledError,
     Queue,
     Task,
@@ -64,6 +65,7 @@ class Layout(BaseLayout):
 
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
+        self._loop = get_running_loop()
         self._event_handlers: EventHandlerDict = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
@@ -579,6 +581,10 @@ class Layout(BaseLayout):
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
+        if _get_running_loop() is not self._loop:
+            # state was changed in another thread
+            self._loop.call_soon_threadsafe(self._schedule_render_task, lcs_id)
+            return None
         try:
             model_state = self._model_states_by_life_cycle_state_id[lcs_id]
         except KeyError:
@@ -837,6 +843,13 @@ class _LifeCycleState(NamedTuple):
 _Type = TypeVar("_Type")
 
 
+def _get_running_loop() -> AbstractEventLoop | None:
+    try:
+        return get_running_loop()
+    except RuntimeError:
+        return None
+
+
 class _ThreadSafeQueue(Generic[_Type]):
     def __init__(self) -> None:
         self._loop = get_running_loop()
-- 
2.43.0


From 5bb3f8cb5e081658e7f12bc681ebbb8870b89784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 11/47] fix: a new input does not get the event
 acknowledgements of the one it replaced

---
 src/reactpy/core/layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 5b145e9..f88297b 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -482,6 +482,8 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            # the client counts the events of a new element from zero
+            self._last_event_seq_by_target.pop(target, None)
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
         return None
-- 
2.43.0


From 0a8268d5c547be84d686475b560814c1eba33b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 12/47] fix: changing the target of an event handler does not
 leave or remove the wrong handler

---
 src/reactpy/core/layout.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index f88297b..45cd2f3 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -67,6 +67,8 @@ class Layout(BaseLayout):
         # create attributes here to avoid access before entering context manager
         self._loop = get_running_loop()
         self._event_handlers: EventHandlerDict = {}
+        # Maps an event target to the model state which registered its handler
+        self._event_handler_owners: dict[str, _ModelState] = {}
         self._event_queues: dict[str, Queue[LayoutEventMessage | dict[str, Any]]] = {}
         self._event_processing_tasks: dict[str, Task[None]] = {}
         self._render_tasks: set[Task[LayoutUpdateMessage]] = set()
@@ -121,6 +123,7 @@ class Layout(BaseLayout):
 
         # delete attributes here to avoid access after exiting context manager
         del self._event_handlers
+        del self._event_handler_owners
         del self._event_queues
         del self._event_processing_tasks
         del self._rendering_queue
@@ -409,11 +412,8 @@ class Layout(BaseLayout):
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
-        for old_event in set(old_state.targets_by_event).difference(handlers_by_event):
-            old_target = old_state.targets_by_event[old_event]
-            del self._event_handlers[old_target]
-
         if not handlers_by_event:
+            self._remove_event_handlers(old_state)
             self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
             return None
 
@@ -426,11 +426,21 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
 
+        self._remove_event_handlers(old_state)
         self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
         return None
 
+    def _remove_event_handlers(self, model_state: _ModelState) -> None:
+        """Remove the handlers which still belong to the given model state"""
+        for target in model_state.targets_by_event.values():
+            # a target chosen by the user may have been moved to another element
+            if self._event_handler_owners.get(target) is model_state:
+                del self._event_handler_owners[target]
+                del self._event_handlers[target]
+
     def _inject_event_ack_seq(
         self, new_state: _ModelState, tag_name: str | None
     ) -> None:
@@ -482,6 +492,7 @@ class Layout(BaseLayout):
 
             new_state.targets_by_event[event] = target
             self._event_handlers[target] = handler
+            self._event_handler_owners[target] = new_state
             # the client counts the events of a new element from zero
             self._last_event_seq_by_target.pop(target, None)
             model_event_handlers[event] = self._serialize_event_handler(handler, target)
@@ -569,8 +580,7 @@ class Layout(BaseLayout):
         while to_unmount:
             model_state = to_unmount.pop()
 
-            for target in model_state.targets_by_event.values():
-                del self._event_handlers[target]
+            self._remove_event_handlers(model_state)
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-- 
2.43.0


From a29102bbfa20b9ee1f53a94d7d516ac088fc9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 13/47] fix: a component which failed to render unmounts its
 children

---
 src/reactpy/core/_life_cycle_hook.py |  1 +
 src/reactpy/core/layout.py           | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index d0a9b8a..b1661d9 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -243,6 +243,7 @@ class LifeCycleHook:
 
     async def affect_component_will_unmount(self) -> None:
         """The component is about to be removed from the layout"""
+        self._effect_funcs.clear()
         for stop in self._effect_stops:
             stop.set()
         self._effect_stops.clear()
diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 45cd2f3..338c530 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -343,6 +343,14 @@ class Layout(BaseLayout):
             )
         except Exception as error:
             logger.exception(f"Failed to render {component}")
+            # nothing which was rendered below this component is displayed anymore
+            await self._unmount_model_states(
+                [
+                    *new_state.children_by_key.values(),
+                    *(old_state.children_by_key.values() if old_state else ()),
+                ]
+            )
+            new_state.children_by_key.clear()
             new_state.model.current = {
                 "tagName": "",
                 "error": (
@@ -372,6 +380,9 @@ class Layout(BaseLayout):
         else:
             new_state = _update_element_model_state(old_state, parent, index)
 
+        # do this now so that it can be unmounted if it fails to render
+        parent.children_by_key[key] = new_state
+
         try:
             new_state.model.current = {"tagName": raw_model["tagName"]}
         except Exception as e:  # nocov
@@ -584,8 +595,10 @@ class Layout(BaseLayout):
 
             if model_state.is_component_state:
                 life_cycle_state = model_state.life_cycle_state
-                del self._model_states_by_life_cycle_state_id[life_cycle_state.id]
-                await life_cycle_state.hook.affect_component_will_unmount()
+                if self._model_states_by_life_cycle_state_id.pop(
+                    life_cycle_state.id, None
+                ):
+                    await life_cycle_state.hook.affect_component_will_unmount()
 
             to_unmount.extend(model_state.children_by_key.values())
 
-- 
2.43.0


From 4e733faf5415a8d272466d8a0af4442808a63605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 14/47] fix: content-length of the index page counts bytes and
 not characters

---
 src/reactpy/executors/asgi/standalone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index e962707..999dc87 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -215,7 +215,7 @@ class ReactPyApp:
             "last-modified": self._last_modified,
             "access-control-allow-origin": "*",
             "cache-control": "max-age=60, public",
-            "content-length": str(len(self._index_html)),
+            "content-length": str(len(self._index_html.encode())),
             "content-type": "text/html; charset=utf-8",
             **self.parent.extra_headers,
         }
-- 
2.43.0


From f103f9e9145e3db80aeebeaeb2aa77eb824e2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 15/47] fix: PyScript setup does not change the html_head which
 was given by the user

---
 src/reactpy/executors/asgi/standalone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 999dc87..10b40ac 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -80,7 +80,6 @@ class ReactPy(ReactPyMiddleware):
         self.html_lang = html_lang
 
         if pyscript_setup:
-            self.html_head.setdefault("children", [])
             pyscript_options = pyscript_options or {}
             extra_py = pyscript_options.get("extra_py", [])
             extra_js = pyscript_options.get("extra_js", {})
@@ -89,7 +88,9 @@ class ReactPy(ReactPyMiddleware):
                 pyscript_setup_html(extra_py, extra_js, config)
             )
             pyscript_head_vdom["tagName"] = ""
-            self.html_head["children"].append(pyscript_head_vdom)  # type: ignore
+            # copy since the head which was given by the user may be used elsewhere
+            head_children = [*self.html_head.get("children", []), pyscript_head_vdom]
+            self.html_head = VdomDict(**{**self.html_head, "children": head_children})
 
     def match_dispatch_path(self, scope: AsgiWebsocketScope) -> bool:
         """Method override to remove `dotted_path` from the dispatcher URL."""
-- 
2.43.0


From 7261fca75f126d8b4d8caae4fddb2bd7fda49ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 16/47] fix: text which is read as UTF-8 is also written as
 UTF-8

---
 src/reactpy/_console/rewrite_keys.py  | 2 +-
 src/reactpy/_console/rewrite_props.py | 2 +-
 src/reactpy/reactjs/module.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/_console/rewrite_keys.py b/src/reactpy/_console/rewrite_keys.py
index e5ae207..2bf0d88 100644
--- a/src/reactpy/_console/rewrite_keys.py
+++ b/src/reactpy/_console/rewrite_keys.py
@@ -49,7 +49,7 @@ def rewrite_keys(paths: list[str]) -> None:
         for f in [p] if p.is_file() else p.rglob("*.py"):
             result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
             if result is not None:
-                f.write_text(result)
+                f.write_text(result, encoding="utf-8")
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index e66b387..dd50343 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -24,7 +24,7 @@ def rewrite_props(paths: list[str]) -> None:
         for f in [p] if p.is_file() else p.rglob("*.py"):
             result = generate_rewrite(file=f, source=f.read_text(encoding="utf-8"))
             if result is not None:
-                f.write_text(result)
+                f.write_text(result, encoding="utf-8")
 
 
 def generate_rewrite(file: Path, source: str) -> str | None:
diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index 337b1ec..c65d965 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -102,7 +102,7 @@ def string_to_module(
         target_file.unlink()
 
     target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content)
+    target_file.write_text(content, encoding="utf-8")
 
     return JavaScriptModule(
         source=name,
-- 
2.43.0


From 6ecddd5659e0a13a39cf9fd120385e2782e56233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 17/47] fix: the name of a module from a file may contain a
 directory

---
 src/reactpy/reactjs/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index c65d965..c8a48fb 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -53,6 +53,7 @@ def file_to_module(
 
     source_file = Path(file).resolve()
     target_file = get_module_path(name)
+    target_file.parent.mkdir(parents=True, exist_ok=True)
 
     with file_lock(target_file.with_name(f"{target_file.name}.lock")):
         if not source_file.exists():
-- 
2.43.0


From 91c613c2742e3b5556a57e980c2dd8d96f9a85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 18/47] fix: a module from a string is never served while it is
 half written

---
 src/reactpy/reactjs/module.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/reactpy/reactjs/module.py b/src/reactpy/reactjs/module.py
index c8a48fb..ca6ed9d 100644
--- a/src/reactpy/reactjs/module.py
+++ b/src/reactpy/reactjs/module.py
@@ -95,15 +95,18 @@ def string_to_module(
 
     target_file = get_module_path(name)
 
-    if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
-        logger.info(
-            f"Existing web module {name!r} will "
-            f"be replaced with {target_file.resolve()}"
-        )
-        target_file.unlink()
-
     target_file.parent.mkdir(parents=True, exist_ok=True)
-    target_file.write_text(content, encoding="utf-8")
+
+    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
+        if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
+            logger.info(
+                f"Existing web module {name!r} will "
+                f"be replaced with {target_file.resolve()}"
+            )
+
+        temp_file = target_file.with_name(f"{target_file.name}.tmp")
+        temp_file.write_text(content, encoding="utf-8")
+        temp_file.replace(target_file)
 
     return JavaScriptModule(
         source=name,
-- 
2.43.0


From ec2b6d64c1c4070fbbfd4c3bdf442edc9ed95e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 19/47] fix: a cached JavaScript module is not used for other
 content or with another fallback

---
 src/reactpy/reactjs/__init__.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/reactjs/__init__.py b/src/reactpy/reactjs/__init__.py
index d394757..b6965c3 100644
--- a/src/reactpy/reactjs/__init__.py
+++ b/src/reactpy/reactjs/__init__.py
@@ -27,9 +27,9 @@ __all__ = [
     "import_reactjs",
 ]
 
-_URL_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
-_FILE_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
-_STRING_JS_MODULE_CACHE: dict[str, JavaScriptModule] = {}
+_URL_JS_MODULE_CACHE: dict[tuple[Any, ...], JavaScriptModule] = {}
+_FILE_JS_MODULE_CACHE: dict[tuple[Any, ...], JavaScriptModule] = {}
+_STRING_JS_MODULE_CACHE: dict[tuple[Any, ...], JavaScriptModule] = {}
 
 
 @overload
@@ -88,13 +88,12 @@ def component_from_url(
         allow_children:
             Whether or not these components can have children.
     """
-    key = f"{url}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    key = (url, resolve_imports, resolve_imports_depth, unmount_before_update)
     if key in _URL_JS_MODULE_CACHE:
         module = _URL_JS_MODULE_CACHE[key]
     else:
         module = url_to_module(
             url,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -269,14 +268,20 @@ def component_from_file(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    key = (
+        name,
+        str(file),
+        symlink,
+        resolve_imports,
+        resolve_imports_depth,
+        unmount_before_update,
+    )
     if key in _FILE_JS_MODULE_CACHE:
         module = _FILE_JS_MODULE_CACHE[key]
     else:
         module = file_to_module(
             name,
             file,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
@@ -348,14 +353,19 @@ def component_from_string(
             Whether or not these components can have children.
     """
     name = name or hashlib.sha256(content.encode()).hexdigest()[:10]
-    key = f"{name}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"
+    key = (
+        name,
+        content,
+        resolve_imports,
+        resolve_imports_depth,
+        unmount_before_update,
+    )
     if key in _STRING_JS_MODULE_CACHE:
         module = _STRING_JS_MODULE_CACHE[key]
     else:
         module = string_to_module(
             name,
             content,
-            fallback=fallback,
             resolve_imports=resolve_imports,
             resolve_imports_depth=resolve_imports_depth,
             unmount_before_update=unmount_before_update,
-- 
2.43.0


From 2737a00dda98133a75ac12c51bbc2e36e0cf02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 20/47] fix: event handlers may be bound methods and callables
 which are not functions

---
 src/reactpy/core/_event_inspect.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/_event_inspect.py b/src/reactpy/core/_event_inspect.py
index e9adc8c..3996755 100644
--- a/src/reactpy/core/_event_inspect.py
+++ b/src/reactpy/core/_event_inspect.py
@@ -6,6 +6,7 @@ Implementing this syntax necessitates inspecting the bytecode of event handler f
 from __future__ import annotations
 
 import dis
+import inspect
 from collections.abc import Callable, Iterable
 from types import CodeType
 from typing import Any
@@ -42,13 +43,16 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
 
     Returns ``(prevent_default, stop_propagation, debounce)``.
     """
-    code = func.__code__
-
     prevent_default = False
     stop_propagation = False
     debounce: int | None = None
 
-    if code.co_argcount <= 0:
+    # callables which are not functions (e.g. builtins) cannot be inspected
+    code = getattr(func, "__code__", None)
+    # the event is the first argument after the one a method is bound to
+    event_arg_index = 1 if inspect.ismethod(func) else 0
+
+    if code is None or code.co_argcount <= event_arg_index:
         return prevent_default, stop_propagation, debounce
 
     names = code.co_names
@@ -59,7 +63,7 @@ def inspect_event_handler(func: Callable) -> tuple[bool, bool, int | None]:
     if not (check_prevent_default or check_stop_propagation or check_debounce):
         return prevent_default, stop_propagation, debounce
 
-    event_arg_name = code.co_varnames[0]
+    event_arg_name = code.co_varnames[event_arg_index]
     instructions = list(dis.get_instructions(code))
     arg_defaults = _function_arg_defaults(func)
     closure_by_name = _closure_lookup(func)
-- 
2.43.0


From 140bcdf9200fdff3d8a93a5b5ba18d3e7a10253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 21/47] fix: the client does not keep parts of the old root
 model

---
 src/js/packages/@reactpy/client/src/components.tsx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index fe6004b..cc7c902 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -144,6 +144,10 @@ export function Layout(props: { client: ReactPyClient }): JSX.Element {
     () =>
       props.client.onMessage("layout-update", ({ path, model }) => {
         if (path === "") {
+          // drop what is not in the new model (e.g. the error of a failed render)
+          for (const key of Object.keys(currentModel)) {
+            delete (currentModel as Record<string, unknown>)[key];
+          }
           Object.assign(currentModel, model);
         } else {
           setJsonPointer(currentModel, path, model);
-- 
2.43.0


From 23c7870928be3d94a12d65ba32032d36b8963dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 22/47] fix: an input event is sent with the sequence number
 the client waits for

---
 src/js/packages/@reactpy/client/src/components.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index cc7c902..0db10e6 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -370,12 +370,12 @@ function UserInputElement({ model }: { model: ReactPyVdom }): JSX.Element {
         _reactpy_set_seq?: (n: number) => void;
       };
       if (typeof taggedHandler._reactpy_set_seq === "function") {
-        // Push the handler's internal counter past our seq so
+        // Set the handler's internal counter to our seq so
         // the next (possibly debounced) dispatch uses a seq
         // number that matches what the user just typed, not
         // whatever stale value the handler closure happened
         // to have left over.
-        taggedHandler._reactpy_set_seq(seq + 1);
+        taggedHandler._reactpy_set_seq(seq);
       }
 
       // ``onKeyPress`` fires before the DOM has been updated with
-- 
2.43.0


From fbca6b23a05695d4ec816ecd97ef45637b7a72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 23/47] fix: the client respects reconnect options which are
 zero

---
 src/js/packages/@reactpy/client/src/mount.tsx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/packages/@reactpy/client/src/mount.tsx b/src/js/packages/@reactpy/client/src/mount.tsx
index df42881..ddb9194 100644
--- a/src/js/packages/@reactpy/client/src/mount.tsx
+++ b/src/js/packages/@reactpy/client/src/mount.tsx
@@ -24,10 +24,10 @@ export function mountReactPy(props: MountProps) {
       jsModulesPath: `${window.location.origin}${props.pathPrefix}modules/`,
     },
     reconnectOptions: {
-      interval: props.reconnectInterval || 750,
-      maxInterval: props.reconnectMaxInterval || 60000,
-      maxRetries: props.reconnectMaxRetries || 150,
-      backoffMultiplier: props.reconnectBackoffMultiplier || 1.25,
+      interval: props.reconnectInterval ?? 750,
+      maxInterval: props.reconnectMaxInterval ?? 60000,
+      maxRetries: props.reconnectMaxRetries ?? 150,
+      backoffMultiplier: props.reconnectBackoffMultiplier ?? 1.25,
     },
     mountElement: props.mountElement,
   });
-- 
2.43.0


From 1a164b9fcc66292f554d6a3c757c5564e87526ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 24/47] fix: an async effect always waits for the previous one
 and its clean-up

When a third effect started while the second one was still running, the second one
cleared the pending task of its successor as it finished, and the clean-up function of
a shielded effect was lost because the next effect resumed before the result had been
stored.
---
 src/reactpy/core/hooks.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 2c98940..e028321 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -228,17 +228,22 @@ def use_async_effect(
     dependencies = _try_to_infer_closure_values(function, dependencies)
     memoize = use_memo(dependencies=dependencies)
     cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)
-    pending_task: Ref[asyncio.Task[_EffectCleanFunc | None] | None] = use_ref(None)
+    pending_task: Ref[asyncio.Task[None] | None] = use_ref(None)
+
+    async def apply_effect(func: _AsyncEffectFunc) -> None:
+        # Store the clean-up function before the task is done, so that the next effect
+        # finds it if it has been waiting for this one.
+        cleanup_func.current = await func()
 
     def decorator(func: _AsyncEffectFunc) -> None:
         async def effect(stop: asyncio.Event) -> None:
             # Make sure we always clean up the previous effect's resources
-            if pending_task.current:
+            while pending_task.current:
                 previous_task = pending_task.current
                 if not shield:
                     previous_task.cancel()
-                with contextlib.suppress(asyncio.CancelledError):
-                    await previous_task
+                # the effect which the task belongs to deals with its outcome
+                await asyncio.wait([previous_task])
                 if pending_task.current is previous_task:
                     pending_task.current = None
 
@@ -247,7 +252,7 @@ def use_async_effect(
             # Execute the effect and store the clean-up function.
             # We run this in a task so it can be cancelled if the stop signal
             # is set before the effect completes.
-            task = asyncio.create_task(func())
+            task = asyncio.create_task(apply_effect(func))
             pending_task.current = task
 
             # Wait for either the effect to complete or the stop signal
@@ -257,11 +262,12 @@ def use_async_effect(
                 return_when=asyncio.FIRST_COMPLETED,
             )
 
-            # If the effect completed first, store the cleanup function
+            # The effect completed first
             if task in done:
-                pending_task.current = None
+                if pending_task.current is task:
+                    pending_task.current = None
                 with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = task.result()
+                    task.result()
                 # Cancel the stop task since we don't need it anymore
                 stop_task.cancel()
                 with contextlib.suppress(asyncio.CancelledError):
@@ -274,7 +280,7 @@ def use_async_effect(
                 if not shield:
                     task.cancel()
                 with contextlib.suppress(asyncio.CancelledError):
-                    cleanup_func.current = await task
+                    await task
                 if pending_task.current is task:
                     pending_task.current = None
 
-- 
2.43.0


From 9df0872d8d24f7f46d1e2afcff93a11b38834ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 25/47] fix: values whose comparison has no truth value are
 compared by identity

A state or dependency like an array, for which == gives something that has no truth
value, made the state setter and memoized hooks raise an error.
---
 src/reactpy/core/hooks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index e028321..707538f 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -643,7 +643,8 @@ def strictly_equal(x: Any, y: Any) -> bool:
     # Check via the `==` operator if possible
     if hasattr(x, "__eq__"):
         with contextlib.suppress(Exception):
-            return x == y  # type: ignore
+            # the result may have no truth value, for example that of comparing arrays
+            return bool(x == y)
 
     # Fallback to identity check
     return x is y  # nocov
-- 
2.43.0


From 7efd352fa723c87c2619c818966251ae792acfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 26/47] fix: extending the PyScript config does not modify the
 modules passed to it

---
 src/reactpy/executors/pyscript/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 2b72262..4d56126 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -130,6 +130,10 @@ def extend_pyscript_config(
     modules: dict[str, str] | str | None = None,
     reactpy_pkg_string: str | None = None,
 ) -> str:
+    # the modules are extended below, which must not modify the caller's dict
+    if isinstance(modules, dict):
+        modules = modules.copy()
+
     # Extends ReactPy's default PyScript config with user provided values.
     pyscript_config: dict[str, Any] = {
         "packages": [reactpy_pkg_string or _reactpy_pkg_string(), "jsonpointer==3.*"],
-- 
2.43.0


From 9e9c42221c180f64a4c181d517083e81258e64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 27/47] fix: a path prefix is not taken as a pattern

A prefix with characters like '.' also matched the web sockets of other paths, one with
'+' did not match its own.
---
 src/reactpy/executors/asgi/middleware.py | 2 +-
 src/reactpy/executors/asgi/pyscript.py   | 2 +-
 src/reactpy/executors/asgi/standalone.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index d6e81a3..9116926 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -91,7 +91,7 @@ class ReactPyMiddleware:
         self.web_modules_path = f"{self.path_prefix}modules/"
         self.static_path = f"{self.path_prefix}static/"
         self.dispatcher_pattern = re.compile(
-            f"^{self.dispatcher_path}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
+            f"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"
         )
 
         # User defined ASGI apps
diff --git a/src/reactpy/executors/asgi/pyscript.py b/src/reactpy/executors/asgi/pyscript.py
index 9c7bfcf..de0ceac 100644
--- a/src/reactpy/executors/asgi/pyscript.py
+++ b/src/reactpy/executors/asgi/pyscript.py
@@ -81,7 +81,7 @@ class ReactPyCsr(ReactPy):
         self.root_name = root_name
         self.initial = initial
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
diff --git a/src/reactpy/executors/asgi/standalone.py b/src/reactpy/executors/asgi/standalone.py
index 10b40ac..d723e67 100644
--- a/src/reactpy/executors/asgi/standalone.py
+++ b/src/reactpy/executors/asgi/standalone.py
@@ -71,7 +71,7 @@ class ReactPy(ReactPyMiddleware):
         super().__init__(app=ReactPyApp(self), root_components=[], **settings)
         self.root_component = root_component
         self.extra_headers = http_headers or {}
-        self.dispatcher_pattern = re.compile(f"^{self.dispatcher_path}?")
+        self.dispatcher_pattern = re.compile(f"^{re.escape(self.dispatcher_path)}?")
         self.html_head = html_head or html.head()
         if prepend_body is not ...:
             self.prepend_body = prepend_body
-- 
2.43.0


From d59e67545c247ac8153b1f9c445dd372ad933d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 28/47] fix: send nothing on a websocket before it was accepted

The task which renders was started before the connection was accepted, so
that its first update could be sent first when receiving takes a moment,
which servers reject. When accepting failed the task was left running.
---
 src/reactpy/executors/asgi/middleware.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/asgi/middleware.py b/src/reactpy/executors/asgi/middleware.py
index 9116926..370a947 100644
--- a/src/reactpy/executors/asgi/middleware.py
+++ b/src/reactpy/executors/asgi/middleware.py
@@ -201,8 +201,10 @@ class ReactPyWebsocket(ResponseWebSocket):
         self.dispatcher: asyncio.Task[Any] | None = None
 
     async def __aenter__(self) -> ReactPyWebsocket:
+        # Nothing may be sent (by the dispatcher) before the connection was accepted
+        await super().__aenter__()  # type: ignore
         self.dispatcher = asyncio.create_task(self.run_dispatcher())
-        return await super().__aenter__()  # type: ignore
+        return self
 
     async def __aexit__(self, *_: Any) -> None:
         if self.dispatcher:
-- 
2.43.0


From 11b2aa20a51a667d023e720e9cd0b296c7b36c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 29/47] fix: every reference of a JavaScript module is relative
 to that module

---
 src/reactpy/reactjs/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/reactjs/utils.py b/src/reactpy/reactjs/utils.py
index aee317b..5718ed6 100644
--- a/src/reactpy/reactjs/utils.py
+++ b/src/reactpy/reactjs/utils.py
@@ -62,8 +62,10 @@ def resolve_names_from_url(
     names, references = resolve_names_from_source(text, exclude_default=is_regex_import)
 
     for ref in references:
-        url = normalize_url_path(url, ref)
-        names.update(resolve_names_from_url(url, max_depth - 1, is_regex_import=True))
+        ref_url = normalize_url_path(url, ref)
+        names.update(
+            resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)
+        )
 
     return names
 
-- 
2.43.0


From 91aa59b384d73998e91c1d2c4746e6f0af816eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 30/47] fix: the import map points to the static files if the
 path prefix is /

---
 src/reactpy/executors/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/executors/utils.py b/src/reactpy/executors/utils.py
index 291674a..135fb4c 100644
--- a/src/reactpy/executors/utils.py
+++ b/src/reactpy/executors/utils.py
@@ -94,11 +94,12 @@ def server_side_component_html(
 
 def default_import_map() -> str:
     path_prefix = REACTPY_PATH_PREFIX.current.strip("/")
+    static_path = f"/{path_prefix}/static" if path_prefix else "/static"
     return f"""{{
                 "imports": {{
-                    "react": "/{path_prefix}/static/preact.js",
-                    "react-dom": "/{path_prefix}/static/preact-dom.js",
-                    "react-dom/client": "/{path_prefix}/static/preact-dom.js",
-                    "react/jsx-runtime": "/{path_prefix}/static/preact-jsx-runtime.js"
+                    "react": "{static_path}/preact.js",
+                    "react-dom": "{static_path}/preact-dom.js",
+                    "react-dom/client": "{static_path}/preact-dom.js",
+                    "react/jsx-runtime": "{static_path}/preact-jsx-runtime.js"
                 }}
             }}""".replace("\n", "").replace(" ", "")
-- 
2.43.0


From e3db0ad40554fc4a09cba87df5d2f543a868bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 31/47] fix: the PyScript config is escaped where it is an HTML
 attribute

---
 src/reactpy/executors/pyscript/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 4d56126..200b31e 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -5,6 +5,7 @@ import base64
 import csv
 import functools
 import hashlib
+import html
 import importlib.util
 import json
 import os
@@ -113,6 +114,8 @@ def pyscript_setup_html(
     """Renders the PyScript setup code."""
     hide_pyscript_debugger = f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript-hide-debug.css" />'
     pyscript_config = extend_pyscript_config(extra_py, extra_js, config)
+    # The config is within a single-quoted attribute
+    pyscript_config = html.escape(pyscript_config, quote=False).replace("'", "&#x27;")
 
     return (
         f'<link rel="stylesheet" href="{REACTPY_PATH_PREFIX.current}static/pyscript/core.css" />'
-- 
2.43.0


From 684a9aab499c9dccc6c9c8cce119d99d8c245407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 32/47] fix: models are written as the HTML they stand for

className, htmlFor and defaultChecked were written as attributes which
do not exist, false and None as attributes which are set, and children
which are None as the text 'None'. Names of custom and of vendor
specific CSS properties were changed.
---
 src/reactpy/utils.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/utils.py b/src/reactpy/utils.py
index bb0bc5b..7a92d4b 100644
--- a/src/reactpy/utils.py
+++ b/src/reactpy/utils.py
@@ -185,11 +185,14 @@ def _add_vdom_to_etree(parent: etree._Element, vdom: VdomDict | dict[str, Any])
         element.attrib.update(
             _react_attribute_to_html(k, v)
             for k, v in vdom.get("attributes", {}).items()
+            if not _is_absent_attribute(k, v)
         )
     else:
         element = parent
 
     for c in vdom.get("children", []):
+        if c is None:
+            continue
         if hasattr(c, "render"):
             c = component_to_vdom(cast(Component, c))
         if isinstance(c, dict):
@@ -250,6 +253,21 @@ def component_to_vdom(component: Component) -> VdomDict:
     return h.div(result) if isinstance(result, str) else h.div()
 
 
+def _is_absent_attribute(key: str, value: Any) -> bool:
+    """ReactJS does not set attributes that are null or, unless they're `data-*` or `aria-*`, false."""
+    return value is None or (
+        value is False and not key.startswith(("data-", "aria-"))
+    )
+
+
+def _react_style_to_css(key: str) -> str:
+    """Convert the name of a React style to the name of a CSS property."""
+    if key.startswith("--"):  # custom properties (ex. `--my-var`) are case sensitive
+        return key
+    name = CAMEL_CASE_PATTERN.sub("-", key).lower()
+    return f"-{name}" if key[:1].isupper() else name  # ex. WebkitTransition
+
+
 def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     """Convert a React attribute to an HTML attribute string."""
     if callable(value):  # nocov
@@ -258,10 +276,13 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
     if key == "style":
         if isinstance(value, dict):
             value = ";".join(
-                f"{CAMEL_CASE_PATTERN.sub('-', k).lower()}:{v}"
-                for k, v in value.items()
+                f"{_react_style_to_css(k)}:{v}" for k, v in value.items()
             )
 
+    # Convert props that have another name in ReactJS
+    elif key in RENAMED_HTML_ATTRS:
+        key = RENAMED_HTML_ATTRS[key]
+
     # Convert special attributes to kebab-case
     elif key in DASHED_HTML_ATTRS:
         key = CAMEL_CASE_PATTERN.sub("-", key)
@@ -277,6 +298,13 @@ def _react_attribute_to_html(key: str, value: Any) -> tuple[str, str]:
 # https://developer.mozilla.org/en-US/docs/Web/HTML/Attributes#attribute_list
 DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}
 
+# HTML attributes which have a different name in ReactJS
+RENAMED_HTML_ATTRS = {
+    "className": "class",
+    "htmlFor": "for",
+    "defaultChecked": "checked",
+}
+
 # Pattern for delimitting camelCase names (e.g. camelCase to camel-case)
 CAMEL_CASE_PATTERN = re.compile(r"(?<!^)(?=[A-Z])")
 
-- 
2.43.0


From 6343640926aa157c64be8e3dbd8a43c812f809d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 33/47] fix: forms and styles in HTML strings are converted
 without loss

Options without text raised KeyError, radio buttons of a group got the
same key and could not be rendered, names of custom CSS properties were
changed and declarations were split within url(...) and quotes.
---
 src/reactpy/transforms.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/transforms.py b/src/reactpy/transforms.py
index f1896c8..7f7a9f6 100644
--- a/src/reactpy/transforms.py
+++ b/src/reactpy/transforms.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import re
+from collections import Counter
 from typing import Any, cast
 
 from reactpy.core.events import EventHandler, to_event_handler_function
@@ -41,7 +43,9 @@ class RequiredTransforms:
                 self._kebab_to_camel_case(key.strip()): value.strip()
                 for key, value in (
                     part.split(":", 1)
-                    for part in vdom["attributes"]["style"].split(";")
+                    for part in STYLE_DECLARATION_PATTERN.findall(
+                        vdom["attributes"]["style"]
+                    )
                     if ":" in part
                 )
             }
@@ -116,6 +120,19 @@ class RequiredTransforms:
         if key and "key" not in attributes:
             attributes["key"] = key
 
+    @staticmethod
+    def remove_repeated_keys(vdom: VdomDict) -> None:
+        """Siblings may have the same name (ex. radio buttons), but never the same key."""
+        children = [
+            child["attributes"]
+            for child in vdom.get("children", [])
+            if isinstance(child, dict) and "key" in child.get("attributes", {})
+        ]
+        count = Counter(attributes["key"] for attributes in children)
+        for attributes in children:
+            if count[attributes["key"]] > 1:
+                attributes.pop("key")
+
     def intercept_link_clicks(self, vdom: VdomDict) -> None:
         """Intercepts anchor link clicks and prevents the default behavior.
         This allows ReactPy-Router to handle the navigation instead of the browser."""
@@ -141,7 +158,8 @@ class RequiredTransforms:
 
         vdom = vdom_or_any
         if vdom["tagName"] == "option" and "attributes" in vdom:
-            value = vdom["attributes"].setdefault("value", vdom["children"][0])
+            text = [c for c in vdom.get("children", []) if isinstance(c, str)]
+            value = vdom["attributes"].setdefault("value", "".join(text))
 
             if "selected" in vdom["attributes"]:
                 vdom["attributes"].pop("selected")
@@ -155,12 +173,20 @@ class RequiredTransforms:
     @staticmethod
     def _kebab_to_camel_case(kebab_case: str) -> str:
         """Convert kebab-case to camelCase."""
+        if kebab_case.startswith("--"):  # custom properties keep their name
+            return kebab_case
         return "".join(
             part.capitalize() if i else part
             for i, part in enumerate(kebab_case.split("-"))
         )
 
 
+# A semicolon within quotes or parentheses (ex. `url(data:image/png;base64,...)`) does
+# not end a declaration
+STYLE_DECLARATION_PATTERN = re.compile(
+    r"""(?:[^;"'(]|"[^"]*"|'[^']*'|\([^)]*\)|["'(])+"""
+)
+
 KNOWN_REACT_PROPS = {
     "onLoadStart",
     "onTouchStart",
-- 
2.43.0


From f81dc27253ee2592182be683fb02c44797afd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 34/47] fix: minifying and indenting PyScript code does not
 change strings

Everything after a '#' in a string was removed as a comment, blank lines
and triple quoted text were removed from multi-line strings, and their
lines were indented.
---
 src/reactpy/executors/pyscript/utils.py | 78 ++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/reactpy/executors/pyscript/utils.py b/src/reactpy/executors/pyscript/utils.py
index 200b31e..10fe443 100644
--- a/src/reactpy/executors/pyscript/utils.py
+++ b/src/reactpy/executors/pyscript/utils.py
@@ -1,6 +1,7 @@
 # ruff: noqa: S603
 from __future__ import annotations
 
+import ast
 import base64
 import csv
 import functools
@@ -13,7 +14,7 @@ import re
 import shutil
 import subprocess
 import sys
-import textwrap
+import tokenize
 from collections.abc import Callable
 from importlib import metadata
 from io import StringIO
@@ -38,17 +39,67 @@ _WHEEL_FILENAME_PART_COUNT = 5
 
 
 def minify_python(source: str) -> str:
-    """Minify Python source code."""
-    # Remove comments
-    source = re.sub(r"#.*\n", "\n", source)
-    # Remove docstrings
-    source = re.sub(r'\n\s*""".*?"""', "", source, flags=re.DOTALL)
-    # Remove excess newlines
-    source = re.sub(r"\n+", "\n", source)
-    # Remove empty lines
-    source = re.sub(r"\s+\n", "\n", source)
-    # Remove leading and trailing whitespace
-    return source.strip()
+    """Minify Python source code. The content of strings is never changed."""
+    lines = source.split("\n")
+    try:
+        within_string = _lines_within_strings(source)
+        # Remove comments
+        for token in tokenize.generate_tokens(StringIO(source).readline):
+            if token.type == tokenize.COMMENT:
+                row, column = token.start
+                lines[row - 1] = lines[row - 1][:column]
+        # Remove docstrings, unless there's nothing else in the body
+        for node in ast.walk(ast.parse(source)):
+            if isinstance(node, _DOCUMENTED_NODES) and ast.get_docstring(node):
+                docstring, *rest = node.body
+                if rest and rest[0].lineno > (docstring.end_lineno or 0):
+                    for row in range(docstring.lineno, docstring.end_lineno + 1):
+                        lines[row - 1] = ""
+                        within_string.discard(row)
+    except (SyntaxError, tokenize.TokenError):
+        return source.strip()
+
+    # Remove empty lines and trailing whitespace
+    minified = [
+        line if row + 1 in within_string else line.rstrip()
+        for row, line in enumerate(lines, start=1)
+        if row in within_string or line.strip()
+    ]
+    return "\n".join(minified).strip()
+
+
+_DOCUMENTED_NODES = (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
+
+
+def _lines_within_strings(source: str) -> set[int]:
+    """Numbers of the lines which begin within a (multi-line) string."""
+    return {
+        row
+        for token in tokenize.generate_tokens(StringIO(source).readline)
+        if token.type in _STRING_TOKENS
+        for row in range(token.start[0] + 1, token.end[0] + 1)
+    }
+
+
+# Python 3.12+ splits f-strings into several tokens
+_STRING_TOKENS = {tokenize.STRING, getattr(tokenize, "FSTRING_MIDDLE", None)}
+
+
+def _indent_python(source: str) -> str:
+    """Indent Python source code by one level without changing its strings."""
+    try:
+        within_string = _lines_within_strings(source)
+    except (SyntaxError, tokenize.TokenError):
+        within_string = set()
+
+    lines = []
+    for row, line in enumerate(source.split("\n"), start=1):
+        if row not in within_string and line.strip():
+            code = line.lstrip()
+            indent = line[: len(line) - len(code)].replace("\t", "    ")
+            line = f"    {indent}{code}"
+        lines.append(line)
+    return "\n".join(lines)
 
 
 PYSCRIPT_COMPONENT_TEMPLATE = minify_python(
@@ -77,8 +128,7 @@ def pyscript_executor_html(
 
     # Prepare the PyScript code block
     user_code = "\n".join(all_file_contents)  # Combine all user code
-    user_code = user_code.replace("\t", "    ")  # Normalize the text
-    user_code = textwrap.indent(user_code, "    ")  # Add indentation to match template
+    user_code = _indent_python(user_code)  # Add indentation to match template
 
     # Ensure the root component exists
     if f"def {root}():" not in user_code:
-- 
2.43.0


From ea4c533caf9157aa4139c5ce41a8c6094fd2c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 35/47] fix: targets of elements whose keys look alike do not
 coincide

---
 src/reactpy/core/layout.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 338c530..338c64d 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -664,7 +664,7 @@ def _make_component_model_state(
         children_by_key={},
         targets_by_event={},
         life_cycle_state=_make_life_cycle_state(component, schedule_render),
-        key_path=f"{parent.key_path}/{key}" if parent else "",
+        key_path=_child_key_path(parent, key) if parent else "",
     )
 
 
@@ -708,7 +708,7 @@ def _update_component_model_state(
             if old_model_state.is_component_state
             else _make_life_cycle_state(new_component, schedule_render)
         ),
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_child_key_path(new_parent, old_model_state.key),
     )
 
 
@@ -725,7 +725,7 @@ def _make_element_model_state(
         patch_path=f"{parent.patch_path}/children/{index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{parent.key_path}/{key}",
+        key_path=_child_key_path(parent, key),
     )
 
 
@@ -742,10 +742,15 @@ def _update_element_model_state(
         patch_path=f"{new_parent.patch_path}/children/{new_index}",
         children_by_key={},
         targets_by_event={},
-        key_path=f"{new_parent.key_path}/{old_model_state.key}",
+        key_path=_child_key_path(new_parent, old_model_state.key),
     )
 
 
+def _child_key_path(parent: _ModelState, key: Key) -> str:
+    # use the repr of the key so that keys like 1, "1" or "a/b" are not mixed up
+    return f"{parent.key_path}/{key!r}"
+
+
 class _ModelState:
     """State that is bound to a particular element within the layout"""
 
-- 
2.43.0


From c547c9817bfc44ee1de75234da6be4601967e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:36 +0000
Subject: [PATCH 36/47] fix: PyScript leaves out attributes which are None or
 False

---
 src/reactpy/executors/pyscript/layout_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 1a49c75..6542427 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -72,7 +72,10 @@ class ReactPyLayoutHandler:
                         setattr(element.style, style_key, style_value)
                 elif key == "className":
                     element.className = value
-                else:
+                # `None` and `False` mean that the attribute is not there
+                elif value is not None and (
+                    value is not False or key.startswith(("data-", "aria-"))
+                ):
                     element.setAttribute(key, value)
 
             # Add event handlers to the element
-- 
2.43.0


From 5ee1730bdb8bd759e736d5f1395243896c66bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 37/47] fix: PyScript deletes unused workspaces from the
 namespace they are defined in

---
 src/reactpy/executors/pyscript/layout_handler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/reactpy/executors/pyscript/layout_handler.py b/src/reactpy/executors/pyscript/layout_handler.py
index 6542427..24118a2 100644
--- a/src/reactpy/executors/pyscript/layout_handler.py
+++ b/src/reactpy/executors/pyscript/layout_handler.py
@@ -1,4 +1,5 @@
 # type: ignore
+import __main__
 import asyncio
 import logging
 
@@ -125,28 +126,31 @@ class ReactPyLayoutHandler:
         it is no longer in use (removed from the page). To do this, we compare what
         UUIDs exist on the DOM, versus what UUIDs exist within the PyScript global
         interpreter."""
+        # PyScript runs the scripts which define the workspaces in `__main__`
+        namespace = vars(__main__)
+
         # Find all PyScript workspaces that are still on the page
         dom_workspaces = js.document.querySelectorAll(".pyscript")
         dom_uuids = {element.dataset.uuid for element in dom_workspaces}
         python_uuids = {
             value.split("_")[-1]
-            for value in globals()
+            for value in namespace
             if value.startswith("user_workspace_")
         }
 
         # Delete any workspaces that are no longer in use
         for uuid in python_uuids - dom_uuids:
             task_name = f"task_{uuid}"
-            if task_name in globals():
-                task: asyncio.Task = globals()[task_name]
+            if task_name in namespace:
+                task: asyncio.Task = namespace[task_name]
                 task.cancel()
-                del globals()[task_name]
+                del namespace[task_name]
             else:
                 logging.error("Could not auto delete PyScript task %s", task_name)
 
             workspace_name = f"user_workspace_{uuid}"
-            if workspace_name in globals():
-                del globals()[workspace_name]
+            if workspace_name in namespace:
+                del namespace[workspace_name]
             else:
                 logging.error(
                     "Could not auto delete PyScript workspace %s", workspace_name
-- 
2.43.0


From cd7a62c3af9d5fbfa61e885d8e340dd62a161fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:29 +0000
Subject: [PATCH 38/47] fix: a component of a JavaScript module is bound once

The ref's value as a dependency changed once the element was on the page, so
the module was loaded and bound a second time, and the first binding rendered
after it had been unmounted.
---
 src/js/packages/@reactpy/client/src/components.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/packages/@reactpy/client/src/components.tsx b/src/js/packages/@reactpy/client/src/components.tsx
index 0db10e6..17db838 100644
--- a/src/js/packages/@reactpy/client/src/components.tsx
+++ b/src/js/packages/@reactpy/client/src/components.tsx
@@ -514,7 +514,7 @@ function useImportSource(model: ReactPyVdom): MutableRefObject<any> {
         currentBinding.unmount();
       }
     };
-  }, [client, vdomImportSourceJsonString, setBinding, mountPoint.current]);
+  }, [client, vdomImportSourceJsonString, setBinding]);
 
   // this effect must run every time in case the model has changed
   useEffect(() => {
-- 
2.43.0


From c23978f656587d076febbde20710ea697c634304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:41 +0000
Subject: [PATCH 39/47] fix: begin no render while the layout is being closed

State may be changed by the cleanup of effects and by event handlers which are
cancelled. A render task which is created then was never cancelled: it rendered
components, and started their effects, after the layout had been closed.
---
 src/reactpy/core/layout.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 338c64d..d37b45e 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -66,6 +66,7 @@ class Layout(BaseLayout):
     async def __aenter__(self) -> Layout:
         # create attributes here to avoid access before entering context manager
         self._loop = get_running_loop()
+        self._closing = False
         self._event_handlers: EventHandlerDict = {}
         # Maps an event target to the model state which registered its handler
         self._event_handler_owners: dict[str, _ModelState] = {}
@@ -108,6 +109,9 @@ class Layout(BaseLayout):
         root_csid = self._root_life_cycle_state_id
         root_model_state = self._model_states_by_life_cycle_state_id[root_csid]
 
+        # state may be changed while tasks are cancelled and effects are cleaned up
+        self._closing = True
+
         for t in [*self._render_tasks, *self._event_processing_tasks.values()]:
             t.cancel()
             try:
@@ -603,6 +607,8 @@ class Layout(BaseLayout):
             to_unmount.extend(model_state.children_by_key.values())
 
     def _schedule_render_task(self, lcs_id: _LifeCycleStateId) -> None:
+        if self._closing:
+            return None
         if not REACTPY_ASYNC_RENDERING.current:
             self._rendering_queue.put(lcs_id)
             return None
-- 
2.43.0


From 3199146a97b116756a2c2ce7eb194852016136ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:48 +0000
Subject: [PATCH 40/47] fix: unmount what a render which was cancelled leaves
 when the layout is closed

Components which were rendered by a task that is cancelled are not in the tree
of the root, so that their effects were never cleaned up.
---
 src/reactpy/core/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index d37b45e..5bdb351 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -123,6 +123,10 @@ class Layout(BaseLayout):
                 logger.exception(f"Task {t} of {self} failed")
 
         await self._unmount_model_states([root_model_state])
+        # a render which was cancelled leaves components which are not in the tree
+        await self._unmount_model_states(
+            list(self._model_states_by_life_cycle_state_id.values())
+        )
         await self._rendering_queue.close()
 
         # delete attributes here to avoid access after exiting context manager
-- 
2.43.0


From e2bec7caab04d684b4b437209c0e39ea6be59de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:05 +0000
Subject: [PATCH 41/47] fix: clean up effects although the task which unmounts
 their component is cancelled

Cancelling gather cancels what it waits for, so that effects were cancelled before
they could clean up if the layout was closed while a render was unmounting.
---
 src/reactpy/core/_life_cycle_hook.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reactpy/core/_life_cycle_hook.py b/src/reactpy/core/_life_cycle_hook.py
index b1661d9..3ab3ca8 100644
--- a/src/reactpy/core/_life_cycle_hook.py
+++ b/src/reactpy/core/_life_cycle_hook.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Event, Task, create_task, gather
+from asyncio import CancelledError, Event, Task, create_task, gather, shield
 from collections.abc import Callable
 from contextvars import ContextVar, Token
 from typing import Any, Protocol, TypeVar
@@ -248,7 +248,13 @@ class LifeCycleHook:
             stop.set()
         self._effect_stops.clear()
         try:
-            results = await gather(*self._effect_tasks, return_exceptions=True)
+            effects = gather(*self._effect_tasks, return_exceptions=True)
+            try:
+                results = await shield(effects)
+            except CancelledError:
+                # the effects have to be cleaned up nonetheless
+                await effects
+                raise
             for error in results:
                 if isinstance(error, Exception):
                     logger.error("Error in effect", exc_info=error)
-- 
2.43.0


From bbea0f86c738955e0d0c6d9631e06cbfdc72c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:35 +0000
Subject: [PATCH 42/47] fix: go on with the events of a target after a handler
 raised CancelledError

A handler which awaited a task that had been cancelled ended the processing of the
events of its target, without any message, until the layout was closed.
---
 src/reactpy/core/layout.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/core/layout.py b/src/reactpy/core/layout.py
index 5bdb351..60015b9 100644
--- a/src/reactpy/core/layout.py
+++ b/src/reactpy/core/layout.py
@@ -195,7 +195,11 @@ class Layout(BaseLayout):
                         Event(d) if isinstance(d, dict) else d for d in event["data"]
                     ]
                     await handler.function(data)
-                except Exception:
+                except (Exception, CancelledError):
+                    task = current_task()
+                    if task is not None and task.cancelling():
+                        raise
+                    # the handler failed, maybe by awaiting what had been cancelled
                     logger.exception(f"Failed to execute event handler {handler}")
             else:
                 logger.info(
-- 
2.43.0


From f9032eb6c67d3b570a44106f3366e5ab4d8674e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:15 +0000
Subject: [PATCH 43/47] fix: notice dependencies which changed within the list
 which was given before

use_memo kept the list of the caller itself, and compared it with itself if the
component changed it in place, so that nothing was ever computed again.
---
 src/reactpy/core/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactpy/core/hooks.py b/src/reactpy/core/hooks.py
index 707538f..03d3cad 100644
--- a/src/reactpy/core/hooks.py
+++ b/src/reactpy/core/hooks.py
@@ -533,7 +533,7 @@ def use_memo(
         def setup(function: Callable[[], _Type]) -> _Type:
             current_value = memo.value = function()
             # only remember the dependencies once the value was computed from them
-            memo.deps = () if dependencies is None else dependencies
+            memo.deps = () if dependencies is None else tuple(dependencies)
             return current_value
 
     else:
-- 
2.43.0


From 512bf6670402a1d1cb708325b05b73171a63dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:43 +0000
Subject: [PATCH 44/47] fix: rewrite every usage on a line, at the place where
 it is, and nothing around it

---
 src/reactpy/_console/ast_utils.py | 80 ++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c0ce6b2..5d20bd0 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -4,8 +4,8 @@ from __future__ import annotations
 import ast
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
+from io import StringIO
 from pathlib import Path
-from textwrap import indent
 from tokenize import COMMENT as COMMENT_TOKEN
 from tokenize import generate_tokens
 from typing import Any
@@ -24,6 +24,7 @@ def rewrite_changed_nodes(
     ast.fix_missing_locations(tree)
 
     lines = source.split("\n")
+    comments_in_source = _find_comments(source)
 
     # find closest parent nodes that should be re-written
     nodes_to_unparse: list[ast.AST] = []
@@ -34,7 +35,7 @@ def rewrite_changed_nodes(
             if (
                 not hasattr(next_node, "lineno")
                 or next_node.lineno < change.node.lineno
-                or isinstance(next_node, (ast.ClassDef, ast.FunctionDef))
+                or _is_block(next_node)
             ):
                 nodes_to_unparse.append(current_node)
                 break
@@ -43,41 +44,46 @@ def rewrite_changed_nodes(
             raise RuntimeError(msg)
 
     # check if an nodes to rewrite contain each other, pick outermost nodes
-    current_outermost_node, *sorted_nodes_to_unparse = sorted(
-        nodes_to_unparse, key=lambda n: n.lineno
-    )
-    outermost_nodes_to_unparse = [current_outermost_node]
-    for node in sorted_nodes_to_unparse:
-        if (
-            not current_outermost_node.end_lineno
-            or node.lineno > current_outermost_node.end_lineno
-        ):
-            current_outermost_node = node
+    outermost_nodes_to_unparse: list[ast.AST] = []
+    current_end = (0, 0)
+    for node in sorted(
+        nodes_to_unparse,
+        key=lambda n: (n.lineno, n.col_offset, -n.end_lineno, -n.end_col_offset),
+    ):
+        if (node.lineno, node.col_offset) >= current_end:
+            current_end = (node.end_lineno, node.end_col_offset)
             outermost_nodes_to_unparse.append(node)
 
     moved_comment_lines_from_end: list[int] = []
     # now actually rewrite these nodes (in reverse to avoid changes earlier in file)
     for node in reversed(outermost_nodes_to_unparse):
-        # make a best effort to preserve any comments that we're going to overwrite
-        comments = _find_comments(lines[node.lineno - 1 : node.end_lineno])
+        first_line = lines[node.lineno - 1]
+        last_line = lines[node.end_lineno - 1]
+        start = _column(first_line, node.col_offset)
+        end = _column(last_line, node.end_col_offset)
 
         # there may be some content just before and after the content we're re-writing
-        before_replacement = lines[node.lineno - 1][: node.col_offset].lstrip()
+        before_replacement = first_line[:start]
+        after_replacement = last_line[end:]
+        indentation = first_line[: len(first_line) - len(first_line.lstrip())]
 
-        after_replacement = (
-            lines[node.end_lineno - 1][node.end_col_offset :].strip()
-            if node.end_lineno is not None and node.end_col_offset is not None
-            else ""
-        )
-
-        replacement = indent(
-            before_replacement
-            + "\n".join([*comments, ast.unparse(node)])
-            + after_replacement,
-            " " * (node.col_offset - len(before_replacement)),
+        # make a best effort to preserve any comments that we're going to overwrite
+        comments = [
+            comment
+            for position, comment in comments_in_source
+            if (node.lineno, start) <= position < (node.end_lineno, end)
+        ]
+
+        replacement = "\n".join(
+            [
+                *(indentation + comment for comment in comments),
+                before_replacement
+                + ast.unparse(node).replace("\n", "\n" + indentation)
+                + after_replacement,
+            ]
         )
 
-        lines[node.lineno - 1 : node.end_lineno or node.lineno] = [replacement]
+        lines[node.lineno - 1 : node.end_lineno] = [replacement]
 
         if comments:
             moved_comment_lines_from_end.append(len(lines) - node.lineno)
@@ -169,15 +175,25 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
-def _find_comments(lines: list[str]) -> list[str]:
-    iter_lines = iter(lines)
+def _find_comments(source: str) -> list[tuple[tuple[int, int], str]]:
     return [
-        token
-        for token_type, token, _, _, _ in generate_tokens(lambda: next(iter_lines))
-        if token_type == COMMENT_TOKEN
+        (token.start, token.string)
+        for token in generate_tokens(StringIO(source).readline)
+        if token.type == COMMENT_TOKEN
     ]
 
 
+def _is_block(node: ast.AST) -> bool:
+    return isinstance(node, (ast.stmt, ast.excepthandler)) and (
+        hasattr(node, "body") or hasattr(node, "cases")
+    )
+
+
+def _column(line: str, byte_offset: int) -> int:
+    # the offsets of AST nodes count the bytes of a line encoded as UTF-8
+    return len(line.encode("utf-8")[:byte_offset].decode("utf-8"))
+
+
 def _walk_with_parent(
     node: ast.AST, parents: tuple[ast.AST, ...] = ()
 ) -> Iterator[tuple[tuple[ast.AST, ...], ast.AST]]:
-- 
2.43.0


From 255f009581e924583ba0af064b9a7533bb464cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:43 +0000
Subject: [PATCH 45/47] fix: rewrite calls of elements only, not of any
 function

---
 src/reactpy/_console/ast_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 5d20bd0..c2387f7 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 
 import ast
+import builtins
 from collections.abc import Iterator, Sequence
 from dataclasses import dataclass
 from io import StringIO
@@ -114,7 +115,7 @@ def find_element_constructor_usages(
             or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")
         ):
             name = func.attr
-        elif isinstance(func, ast.Name):
+        elif isinstance(func, ast.Name) and _is_element_name(func.id):
             name = func.id
         else:
             continue
@@ -183,6 +184,13 @@ def _find_comments(source: str) -> list[tuple[tuple[int, int], str]]:
     ]
 
 
+def _is_element_name(name: str) -> bool:
+    # "html" has an attribute of any name, so that tells nothing about other names
+    return name == "vdom" or (
+        name in type(html).__annotations__ and not hasattr(builtins, name)
+    )
+
+
 def _is_block(node: ast.AST) -> bool:
     return isinstance(node, (ast.stmt, ast.excepthandler)) and (
         hasattr(node, "body") or hasattr(node, "cases")
-- 
2.43.0


From 8daeac63cc9b0c3bcd770cd713d5e4308f04477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:55 +0000
Subject: [PATCH 46/47] fix: rewrite only dicts of props, and keep keyword
 arguments which would be invalid

---
 src/reactpy/_console/ast_utils.py     | 17 +++++++++++------
 src/reactpy/_console/rewrite_props.py |  7 +++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index c2387f7..60faeab 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -158,12 +158,7 @@ def find_element_constructor_usages(
         if not maybe_attr_dict_node:
             continue
 
-        if isinstance(maybe_attr_dict_node, ast.Dict) or (
-            isinstance(maybe_attr_dict_node, ast.Call)
-            and isinstance(maybe_attr_dict_node.func, ast.Name)
-            and maybe_attr_dict_node.func.id == "dict"
-            and isinstance(maybe_attr_dict_node.func.ctx, ast.Load)
-        ):
+        if is_dict(maybe_attr_dict_node):
             yield ElementConstructorInfo(node, maybe_attr_dict_node, parents)
 
     return changed
@@ -176,6 +171,16 @@ class ElementConstructorInfo:
     parents: Sequence[ast.AST]
 
 
+def is_dict(node: ast.AST) -> bool:
+    """Whether the node is a dict display or a call of ``dict``"""
+    return isinstance(node, ast.Dict) or (
+        isinstance(node, ast.Call)
+        and isinstance(node.func, ast.Name)
+        and node.func.id == "dict"
+        and isinstance(node.func.ctx, ast.Load)
+    )
+
+
 def _find_comments(source: str) -> list[tuple[tuple[int, int], str]]:
     return [
         (token.start, token.string)
diff --git a/src/reactpy/_console/rewrite_props.py b/src/reactpy/_console/rewrite_props.py
index dd50343..218d881 100644
--- a/src/reactpy/_console/rewrite_props.py
+++ b/src/reactpy/_console/rewrite_props.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import ast
 from collections.abc import Callable
 from copy import copy
-from keyword import kwlist
+from keyword import iskeyword, kwlist
 from pathlib import Path
 
 import click
@@ -11,6 +11,7 @@ import click
 from reactpy._console.ast_utils import (
     ChangedNode,
     find_element_constructor_usages,
+    is_dict,
     rewrite_changed_nodes,
 )
 
@@ -72,7 +73,7 @@ def conv_attr_name(name: str) -> str:
 
 def _construct_prop_item(key: str, value: ast.expr) -> tuple[str, ast.expr]:
     """Construct a new prop item with the converted key and possibly modified value"""
-    if key == "style" and isinstance(value, (ast.Dict, ast.Call)):
+    if key == "style" and is_dict(value):
         # Create a copy of the value to avoid modifying the original
         new_value = copy(value)
         if _rewrite_props(
@@ -124,6 +125,8 @@ def _rewrite_props(
             if kw.arg is not None:
                 # Construct the new keyword argument and value
                 kw_arg, kw_value = constructor(kw.arg, kw.value)
+                if iskeyword(kw_arg) or not kw_arg.isidentifier():
+                    kw_arg = kw.arg  # cannot be given as a keyword argument
                 if kw_arg != kw.arg or kw_value is not kw.value:
                     did_change = True
                 kw = ast.keyword(arg=kw_arg, value=kw_value)
-- 
2.43.0


From 421e9dcfc012b23fd4a58922fa674d7e8f291dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:57 +0000
Subject: [PATCH 47/47] fix: add no empty props to elements which have no key

---
 src/reactpy/_console/ast_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reactpy/_console/ast_utils.py b/src/reactpy/_console/ast_utils.py
index 60faeab..dc4e44a 100644
--- a/src/reactpy/_console/ast_utils.py
+++ b/src/reactpy/_console/ast_utils.py
@@ -121,19 +121,20 @@ def find_element_constructor_usages(
             continue
 
         maybe_attr_dict_node: Any | None = None
+        has_key = any(kw.arg == "key" for kw in node.keywords)
 
         if name == "vdom":
             if len(node.args) == 0:
                 continue
             elif len(node.args) == 1:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props and has_key:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[1], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props and has_key:
                     node.args.insert(1, maybe_attr_dict_node)
                 else:
                     continue
@@ -142,13 +143,13 @@ def find_element_constructor_usages(
         elif hasattr(html, name):
             if len(node.args) == 0:
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props and has_key:
                     node.args.append(maybe_attr_dict_node)
                 else:
                     continue
             elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):
                 maybe_attr_dict_node = ast.Dict(keys=[], values=[])
-                if add_props:
+                if add_props and has_key:
                     node.args.insert(0, maybe_attr_dict_node)
                 else:
                     continue
-- 
2.43.0

