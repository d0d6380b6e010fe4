From a3a04932d4353340f85f772b15238e179020d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 01/37] fix: never let a failure of the agent escape trace_call
 into the application

Matching, context creation and callback processing were outside of the guard. Results are now contained when they
raise a BaseException, and the snapshot id no longer consumes the random numbers of the application.
---
 src/deep/api/tracepoint/eventsnapshot.py      |  3 ++-
 src/deep/processor/context/trigger_context.py |  4 ++--
 src/deep/processor/trigger_handler.py         | 20 +++++++++++++++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..4535925 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -36,7 +36,8 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        # use the system source, so we do not consume the random numbers of the application
+        self._id = random.SystemRandom().getrandbits(128)
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..40e5557 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -78,8 +78,8 @@ class TriggerContext:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("failed to process result %s", result)
 
     @property
     def id(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..17d3c50 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -135,6 +135,22 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        try:
+            return self.__process_event(frame, event, arg)
+        except BaseException:
+            # whatever goes wrong in here must never be seen by the application, and must not stop the tracing
+            self.__log_failure("Cannot process event %s", event)
+            return self.trace_call
+
+    @staticmethod
+    def __log_failure(msg, *args):
+        try:
+            logging.exception(msg, *args)
+        except BaseException:
+            # if we cannot log, then there is nothing more we can do
+            pass
+
+    def __process_event(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
@@ -158,9 +174,9 @@ class TriggerHandler:
                             if ctx.can_trigger():
                                 ctx.process()
                     except BaseException:
-                        logging.exception("Cannot process action %s", action)
+                        self.__log_failure("Cannot process action %s", action)
         except BaseException:
-            logging.exception("Cannot trigger at %s#%s %s", file, line, function)
+            self.__log_failure("Cannot trigger at %s#%s %s", file, line, function)
 
         callbacks = trigger_context.callbacks
         if len(callbacks) > 0:
-- 
2.43.0


From 42b7d832ea5900aa7c206b406dbada7b45e7c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 02/37] fix: pending callbacks are no longer shared between
 handlers or inherited by a new thread

ThreadLocal used one store for all instances, keyed by the thread ident, which the OS reuses.
---
 src/deep/thread_local.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..84edc2c 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,7 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,11 +40,10 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
+        get = getattr(self.__store, 'value', None)
         if get is None:
             get = self.__default_provider()
-            self.__store[current_thread.ident] = get
+            self.__store.value = get
         return get
 
     def set(self, val: T):
@@ -54,14 +52,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if self.is_set:
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +66,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From f3018f747ce98322801685282be1334d110379b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 03/37] fix: complete deferred work with the invocation that
 opened it

All pending contexts for the location are completed, not only the newest. A recursive call, or another instance of a
generator, no longer completes the work of its caller, and one failing callback or span does not stop the others.
---
 .../processor/context/callback_context.py     | 37 +++++++++++++++++--
 src/deep/processor/context/span_action.py     |  6 ++-
 src/deep/processor/trigger_handler.py         | 22 +++++------
 3 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..0da7590 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,9 +14,11 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import inspect
 from types import FrameType
-from typing import List
+from typing import List, Optional
 
+import deep.logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
@@ -31,7 +33,8 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: Optional[FrameType] = None):
         """Create new callback context."""
         super().__init__(Location.Position.END)
         self.__event = event
@@ -39,6 +42,7 @@ class CallbackContext(Location, ActionCallback):
         self.__function_name = name
         self.__line = line
         self.__callbacks = callbacks
+        self.__frame = frame
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -55,6 +59,9 @@ class CallbackContext(Location, ActionCallback):
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        if not self.__is_same_invocation(frame):
+            return False
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
@@ -71,7 +78,10 @@ class CallbackContext(Location, ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                deep.logging.exception("Failed to process callback %s", callback)
 
     @property
     def id(self) -> str:
@@ -93,6 +103,27 @@ class CallbackContext(Location, ActionCallback):
         """The function name."""
         return self.__function_name
 
+    def __is_same_invocation(self, frame: FrameType) -> bool:
+        """
+        Check if the frame can be the function invocation that opened this context.
+
+        If the frame that opened this context is still waiting for the passed frame (recursion), or is a suspended
+        generator, then we have been called for another invocation of the same function.
+
+        :param frame: the triggering frame object
+        :return: False, if the frame is known to be another invocation.
+        """
+        if self.__frame is None or frame is None or frame is self.__frame:
+            return True
+        if self.__frame.f_code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR):
+            return False
+        caller = frame.f_back
+        while caller is not None:
+            if caller is self.__frame:
+                return False
+            caller = caller.f_back
+        return True
+
     def __check_at_next_line(self, event: str, file: str, function_name: str) -> bool:
         """
         Check if the new position is the next line after that which triggered this line event.
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..ffc7668 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+import deep.logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                deep.logging.exception("Failed to close span %s", span)
         return False
 
 
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 17d3c50..386d51b 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -182,7 +182,7 @@ class TriggerHandler:
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+                CallbackContext(event, file, line, function, callbacks, frame))
 
         return self.trace_call
 
@@ -195,16 +195,16 @@ class TriggerHandler:
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
-            logging.debug("At callback location %s", context.name)
-            context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
+        pending = self._callbacks.value
+        # look at the newest first, there can be more than one to complete at this location
+        for context in list(reversed(pending)):
+            # if it is for our location remove and process it
+            if context.at_location(event, file, line, function_name, frame):
+                logging.debug("At callback location %s", context.name)
+                pending.remove(context)
+                context.process(ctx, event, frame, arg)
+            else:
+                logging.debug("Not at callback location %s", context.name)
 
         if len(self._callbacks.value) == 0:
             logging.debug("Callbacks cleared.")
-- 
2.43.0


From 83dfae7230d45fea221a29ce5c325dec92e759ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 04/37] fix: check and record the fire limits of an action as
 one step

Threads reaching a location together all passed the check before the first of them recorded the fire.
---
 src/deep/api/tracepoint/trigger.py           | 14 +++++++++++---
 src/deep/processor/context/action_context.py |  6 ++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..20740d0 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -30,6 +30,7 @@
 
 import abc
 import inspect
+import threading
 from enum import Enum
 from types import FrameType
 
@@ -83,6 +84,7 @@ class LocationAction(object):
         self.__config = config
         self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
+        self.__stats_lock = threading.Lock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
 
@@ -180,15 +182,21 @@ class LocationAction(object):
 
         return True
 
-    def record_triggered(self, ts):
+    def record_triggered(self, ts) -> bool:
         """
         Record a fire.
 
-        Call this to record this tracepoint being triggered.
+        Call this to record this tracepoint being triggered. The limits are checked again while recording, as another
+        thread can have fired since they have been checked with 'can_trigger'.
 
         :param ts: the time in nanoseconds
+        :return: True, if the fire is recorded; False, if the limits do not allow it anymore.
         """
-        self.__stats.fire(ts)
+        with self.__stats_lock:
+            if not self.can_trigger(ts):
+                return False
+            self.__stats.fire(ts)
+            return True
 
     def __get_int(self, name: str, default_value: int):
         try:
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..8296e41 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -63,8 +63,7 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
+        pass
 
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -100,6 +99,9 @@ class ActionContext(abc.ABC):
 
     def process(self):
         """Process the action."""
+        # reserve the fire before we collect, so threads cannot exceed the limits together
+        if self.location_action.record_triggered(self.trigger_context.ts) is False:
+            return None
         try:
             return self._process_action()
         finally:
-- 
2.43.0


From 456005999d304ee0549965368979de6bd8145d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 05/37] fix: apply the configured time window of a tracepoint

The window never reached the actions, arrives as text, and is defined in ms while triggers have ns.
---
 src/deep/api/tracepoint/trigger.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 20740d0..ba2a7dc 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -82,7 +82,7 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0), self.__get_int(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
         self.__stats_lock = threading.Lock()
         self.__action_type = action_type
@@ -170,7 +170,8 @@ class LocationAction(object):
             return False
 
         # Are we in the time window?
-        if not self.__window.in_window(ts):
+        # the window is defined in ms
+        if not self.__window.in_window(ts // 1_000_000):
             return False
 
         # Have we fired too quickly?
@@ -201,7 +202,7 @@ class LocationAction(object):
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -555,6 +556,10 @@ class FunctionLocation(Location):
         return False
 
 
+def __window_args(args: Dict[str, str]) -> Dict[str, str]:
+    return {key: args[key] for key in [WINDOW_START, WINDOW_END] if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -575,6 +580,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         STACK_TYPE: args.get(STACK_TYPE, STACK),
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
         LOG_MSG: args.get(LOG_MSG, None),
     }, LocationAction.ActionType.Snapshot)
 
@@ -597,6 +603,7 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
     }, LocationAction.ActionType.Log)
 
 
@@ -617,6 +624,7 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
     }, LocationAction.ActionType.Metric)
 
 
@@ -636,6 +644,7 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
     }, LocationAction.ActionType.Span)
 
 
-- 
2.43.0


From fe2ae63145c674074fbe301a6fb6a321c7e9d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 06/37] fix: search the variables breadth first

The work list was processed from the end, so the contents of one large value crowded out the other locals.
---
 src/deep/processor/bfs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..1542108 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -153,7 +153,7 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     queue = [node]
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.pop(0)
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From 063d4c7acd45e2f38ce561f427d13a90e695ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 07/37] fix: only remove the class prefix from names that
 python has mangled

In a class 'Foo' the attribute '_Foobar' was reported as 'bar'.
---
 src/deep/processor/variable_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..06f8e6c 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -299,8 +299,8 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    prefix = "_" + name.lstrip("_")
+    if val.startswith(prefix + "__"):
         return val[len(prefix):]
     return val
 
-- 
2.43.0


From 76bd92f4c4e70c1be7a3112ab072d1daf1beaf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 08/37] fix: collect every value, whatever its type or
 behaviour

Objects without attributes, dict keys that are not strings and values that fail to convert aborted the snapshot.
---
 src/deep/processor/context/action_context.py |  4 +-
 src/deep/processor/frame_collector.py        |  4 +-
 src/deep/processor/variable_processor.py     | 48 +++++++++++---------
 src/deep/processor/variable_set_processor.py | 14 ++++--
 src/deep/utils.py                            | 13 ++++++
 5 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 8296e41..1fa5d5e 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -36,7 +36,7 @@ from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_set_processor import VariableSetProcessor
-from deep.utils import str2bool
+from deep.utils import str2bool, safe_str
 
 if TYPE_CHECKING:
     from deep.processor.context.trigger_context import TriggerContext
@@ -82,7 +82,7 @@ class ActionContext(abc.ABC):
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
             logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            return WatchResult(source, watch, None, safe_str(e)), {}, safe_str(e)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..171bd26 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -140,8 +140,8 @@ class FrameCollector:
         f_locals = frame.f_locals
         _self = f_locals.get('self', None)
         class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        if _self is not None:
+            class_name = type(_self).__name__
 
         var_ids = []
         # only process vars if we are under the time limit
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 06f8e6c..379af45 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -26,6 +26,7 @@ from typing import List
 
 from deep import logging
 from deep.api.tracepoint import VariableId, Variable
+from deep.utils import safe_str
 from .bfs import Node, ParentNode, NodeValue
 
 NO_CHILD_TYPES = [
@@ -43,10 +44,10 @@ NO_CHILD_TYPES = [
 """A list of types that do not have child nodes, or only have child nodes we do not want to process."""
 
 LIST_LIKE_TYPES = [
-    'frozenset',
-    'set',
-    'list',
-    'tuple',
+    frozenset,
+    set,
+    list,
+    tuple,
 ]
 """A list of types that we should handle like lists."""
 
@@ -191,17 +192,13 @@ def variable_to_string(variable_type, var_value):
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % variable_type
     elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+            or variable_type in LIST_LIKE_TYPES:
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
-        try:
-            # everything else just gets a string value
-            return str(var_value)
-        except Exception:
-            # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+        # everything else just gets a string value, it is possible for str to fail if there is a custom __str__ function
+        return safe_str(var_value)
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -318,17 +315,19 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     """
     if variable_type is dict:
         return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
+    elif variable_type in LIST_LIKE_TYPES:
         return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
+    elif issubclass(variable_type, Exception):
         return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
-    elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
-    else:
-        logging.debug("Unknown type processed %s", variable_type)
+
+    try:
+        # we do not want to run any custom attribute access of the value
+        attributes = object.__getattribute__(value, '__dict__')
+    except AttributeError:
+        # not all values have attributes (e.g. slots, builtin types)
+        logging.debug("Value without attributes processed %s", variable_type.__name__)
         return []
+    return process_dict_breadth_first(parent_node, variable_type.__name__, attributes, correct_names)
 
 
 def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y: y) -> List[Node]:
@@ -346,9 +345,14 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :return (list): the collected child nodes
     """
     # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    nodes = []
+    for key, val in list(value.items()):
+        if isinstance(key, str):
+            node_value = NodeValue(func(type_name, key), val, key)
+        else:
+            node_value = NodeValue(safe_str(key), val)
+        nodes.append(Node(value=node_value, parent=parent_node))
+    return nodes
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..df87910 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -32,8 +32,10 @@ from typing import Tuple, Optional, Dict
 
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
+from deep import logging
 from deep.processor.variable_processor import process_variable, \
     process_child_nodes, Collector
+from deep.utils import safe_str
 
 
 class VariableCacheProvider:
@@ -131,7 +133,7 @@ class VariableSetProcessor(Collector):
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name), safe_str(value)
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -148,7 +150,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name), safe_str(value)
 
     def search_function(self, node: Node) -> bool:
         """
@@ -177,8 +179,12 @@ class VariableSetProcessor(Collector):
         # some variables do not want the children processed (e.g. strings)
         if process_result.process_children:
             # process children and add to node
-            child_nodes = process_child_nodes(self, var_id.vid, node_value.value, node.depth)
-            node.add_children(child_nodes)
+            try:
+                child_nodes = process_child_nodes(self, var_id.vid, node_value.value, node.depth)
+                node.add_children(child_nodes)
+            except BaseException:
+                # if we cannot see the children of a value we still want the value, and all other values
+                logging.exception("Cannot process children of variable %s", node_value.name)
         return True
 
     def check_var_count(self):
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..2c2201e 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -45,6 +45,19 @@ def str2bool(string):
     return string.lower() in ("yes", "true", "t", "1", "y")
 
 
+def safe_str(value):
+    """
+    Convert any value to a string, without ever raising an exception.
+
+    :param value: the value to convert
+    :return: the string for the value, or a placeholder if the value cannot be converted.
+    """
+    try:
+        return str(value)
+    except BaseException:
+        return '<%s>@%s' % (type.__dict__['__name__'].__get__(type(value)), id(value))
+
+
 class RepeatedTimer:
     """Repeat `function` every `interval` seconds."""
 
-- 
2.43.0


From add40ca78b3e7983bb88b20ff9facac139059c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 09/37] fix: each snapshot has its own variables, collected
 with its own limits

Actions on one event shared a variable table, so the second snapshot was empty or had ids without a variable. Watches
ignored the limits of the tracepoint, which never reached the action.
---
 src/deep/api/tracepoint/trigger.py            |  6 +++++
 src/deep/processor/context/action_context.py  | 23 +++++++++++++++---
 src/deep/processor/context/snapshot_action.py | 24 ++++++++++++-------
 src/deep/processor/context/trigger_context.py |  4 ----
 4 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index ba2a7dc..843df94 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -560,6 +560,11 @@ def __window_args(args: Dict[str, str]) -> Dict[str, str]:
     return {key: args[key] for key in [WINDOW_START, WINDOW_END] if key in args}
 
 
+def __limit_args(args: Dict[str, str]) -> Dict[str, str]:
+    return {key: args[key] for key in ['MAX_STRING_LENGTH', 'MAX_COLLECTION_SIZE', 'MAX_VARIABLES', 'MAX_VAR_DEPTH',
+                                       'MAX_TP_PROCESS_TIME'] if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -582,6 +587,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         **__window_args(args),
         LOG_MSG: args.get(LOG_MSG, None),
+        **__limit_args(args),
     }, LocationAction.ActionType.Snapshot)
 
 
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 1fa5d5e..d60c8fc 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -35,7 +35,7 @@ import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, VariableProcessorConfig
 from deep.utils import str2bool, safe_str
 
 if TYPE_CHECKING:
@@ -56,6 +56,9 @@ class ActionContext(abc.ABC):
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
         self._triggered = False
+        # each action has its own variables, so the results of one action do not depend on the others
+        self.var_cache = VariableCacheProvider()
+        self.__limits = VariableProcessorConfig()
 
     def __enter__(self):
         """Enter and open the context."""
@@ -65,6 +68,20 @@ class ActionContext(abc.ABC):
         """Exit and close the context."""
         pass
 
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return self.__limits
+
+    def share_variables(self, other: 'ActionContext'):
+        """
+        Use the variables, and collection limits, of another action.
+
+        :param other: the action that will own the variables collected by this action
+        """
+        self.var_cache = other.var_cache
+        self.__limits = other.collection_config
+
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
         Evaluate an expression in the current frame.
@@ -73,7 +90,7 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
 
         try:
             result = self.trigger_context.evaluate_expression(watch)
@@ -92,7 +109,7 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
 
         return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..3fb2c5c 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -53,20 +53,26 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     @property
     def max_tp_process_time(self) -> int:
         """The max time to spend processing a tracepoint."""
-        return self.location_action.config.get('MAX_TP_PROCESS_TIME', 100)
+        return self.__get_limit('MAX_TP_PROCESS_TIME', 100)
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
         """The variable processing config."""
         config = VariableProcessorConfig()
-        config.max_string_length = self.location_action.config.get('MAX_STRING_LENGTH',
-                                                                   config.DEFAULT_MAX_STRING_LENGTH)
-        config.max_collection_size = self.location_action.config.get('MAX_COLLECTION_SIZE',
-                                                                     config.DEFAULT_MAX_COLLECTION_SIZE)
-        config.max_variables = self.location_action.config.get('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
-        config.max_var_depth = self.location_action.config.get('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
+        config.max_string_length = self.__get_limit('MAX_STRING_LENGTH', config.DEFAULT_MAX_STRING_LENGTH)
+        config.max_collection_size = self.__get_limit('MAX_COLLECTION_SIZE', config.DEFAULT_MAX_COLLECTION_SIZE)
+        config.max_variables = self.__get_limit('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
+        config.max_var_depth = self.__get_limit('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
         return config
 
+    def __get_limit(self, name: str, default_value: int) -> int:
+        try:
+            # the values are text when they come from the tracepoint args
+            limit = int(self.location_action.config.get(name, default_value))
+        except (ValueError, TypeError, OverflowError):
+            return default_value
+        return limit if limit >= 0 else default_value
+
     @property
     def ts(self) -> int:
         """The timestamp in nanoseconds for this trigger."""
@@ -110,7 +116,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -127,6 +133,8 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
             context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
             }, LocationAction.ActionType.Log))
+            # the log watches are part of this snapshot, so they have to use the same variables
+            context.share_variables(self)
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 40e5557..3ac4cf6 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
-- 
2.43.0


From bd6f1844bf414d5eb3d4a3557b8023840769fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 10/37] fix: every variable reference of a snapshot resolves to
 the object it was made for

The removed 'locals' entry could still be referenced, the identity of temporary watch results was reused by later
values, and a watch over the variable limit had an empty reference.
---
 src/deep/processor/context/action_context.py |  7 ++++++
 src/deep/processor/frame_collector.py        | 18 ++++++++++++---
 src/deep/processor/variable_set_processor.py | 23 ++++++++++++++++++--
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index d60c8fc..0a22c83 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -43,6 +43,9 @@ if TYPE_CHECKING:
     from deep.api.tracepoint.trigger import LocationAction
 
 
+LIMIT_REACHED = "value not collected, the variable limit is reached"
+
+
 class ActionContext(abc.ABC):
     """A context for the processing of an action."""
 
@@ -95,6 +98,8 @@ class ActionContext(abc.ABC):
         try:
             result = self.trigger_context.evaluate_expression(watch)
             variable_id, log_str = var_processor.process_variable(watch, result)
+            if variable_id.vid is None:
+                return WatchResult(source, watch, None, LIMIT_REACHED), {}, log_str
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
@@ -111,6 +116,8 @@ class ActionContext(abc.ABC):
         """
         var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
+        if variable_id.vid is None:
+            return WatchResult(WATCH_SOURCE_CAPTURE, name, None, LIMIT_REACHED), {}, log_str
 
         return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
 
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index 171bd26..c9c5bec 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -130,6 +130,14 @@ class FrameCollector:
             current_frame = current_frame.f_back
         return collected_frames, var_lookup
 
+    @staticmethod
+    def __is_referenced(var_lookup: Dict[str, Variable], vid: str) -> bool:
+        for variable in var_lookup.values():
+            for child in variable.children:
+                if child.vid == vid:
+                    return True
+        return False
+
     def _process_frame(self, var_lookup: Dict[str, Variable], var_cache: VariableCacheProvider,
                        frame: FrameType, collect_vars: bool) -> StackFrame:
         # process the current frame info
@@ -148,12 +156,16 @@ class FrameCollector:
         if collect_vars and not self.__time_exceeded():
             processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)
             # we process the vars as a single dict of 'locals'
+            locals_id = str(id(f_locals))
+            is_known = var_cache.check_id(locals_id) is not None
             variable, log_str = processor.process_variable("locals", f_locals)
             # now ee 'unwrap' the locals, so they are on the frame directly.
             if variable.vid in var_lookup:
-                variable_val = var_lookup[variable.vid]
-                del var_lookup[variable.vid]
-                var_ids = variable_val.children
+                var_ids = list(var_lookup[variable.vid].children)
+                # unless the locals are also the value of a variable
+                if not is_known and not self.__is_referenced(var_lookup, variable.vid):
+                    del var_lookup[variable.vid]
+                    var_cache.forget(locals_id)
         short_path, app_frame = self.parse_short_name(filename)
         return StackFrame(filename, short_path, func_name, lineno, var_ids, class_name,
                           app_frame=app_frame)
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index df87910..dda83e0 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -50,6 +50,8 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__last_id = 0
+        self.__values = []
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -74,11 +76,27 @@ class VariableCacheProvider:
         :param identity_hash_id: the hash id to map the new id to.
         :return: the new id
         """
-        var_count = self.size
-        new_id = str(var_count + 1)
+        self.__last_id += 1
+        new_id = str(self.__last_id)
         self.__cache[identity_hash_id] = new_id
         return new_id
 
+    def forget(self, identity_hash_id):
+        """
+        Forget the id of a variable that is not part of the variables anymore.
+
+        :param identity_hash_id: the hash id to forget
+        """
+        self.__cache.pop(identity_hash_id, None)
+
+    def keep(self, value):
+        """
+        Keep a value alive as long as this cache, so the identity of it cannot be reused by another value.
+
+        :param value: the value to keep
+        """
+        self.__values.append(value)
+
 
 class VariableProcessorConfig:
     """Variable process config."""
@@ -171,6 +189,7 @@ class VariableSetProcessor(Collector):
             return True
 
         # process this node variable
+        self.__var_cache.keep(node_value.value)
         process_result = process_variable(self, node_value)
         var_id = process_result.variable_id
         # add the result to the parent - this maintains the hierarchy in the var look up
-- 
2.43.0


From cf553c963fe32d048456b31d14a3d49d437bc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 11/37] fix: evaluate expressions in the scope of the paused
 frame, and contain the ones that fail

The globals of the agent were visible instead of those of the frame. A failing watch was reported as a good result, and
a condition could fire on the text of its own error.
---
 src/deep/processor/context/action_context.py  |  8 ++++++--
 src/deep/processor/context/metric_action.py   |  4 ++--
 src/deep/processor/context/trigger_context.py | 12 +++++++-----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 0a22c83..13cb3eb 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -154,8 +154,12 @@ class ActionContext(abc.ABC):
             return False
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
-        return str2bool(str(result))
+        try:
+            result = self.trigger_context.evaluate_expression(self.location_action.condition)
+            return str2bool(str(result))
+        except BaseException:
+            deep.logging.debug("Cannot evaluate condition %s", self.location_action.condition)
+            return False
 
 
 class NoActionContext(ActionContext):
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..1671a6c 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -58,7 +58,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +68,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 3ac4cf6..838e58f 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -143,13 +143,15 @@ class TriggerContext:
         """
         Evaluate an expression to a value.
 
+        The expression can use the names that are visible in the frame. We use copies, so the expression cannot change
+        the variables of the frame.
+
         :param expression: the expression
-        :return: the result of the expression, or the exception that was raised.
+        :return: the result of the expression
+        :raises: any exception that is raised by the expression
         """
-        try:
-            return eval(expression, None, self.__frame.f_locals)
-        except BaseException as e:
-            return e
+        f_locals = dict(self.__frame.f_locals)
+        return eval(expression, {**getattr(self.__frame, 'f_globals', {}), **f_locals}, f_locals)
 
     def attach_result(self, result: ActionResult):
         """
-- 
2.43.0


From 45d9353d522a3b36786f39cea31a40c8fd9c250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 12/37] fix: log with the deep logger only

The functions of the root logger add a handler to it, which changes the output of the application.
---
 src/deep/config/tracepoint_config.py         | 2 +-
 src/deep/processor/context/action_context.py | 3 +--
 src/deep/push/__init__.py                    | 3 +--
 src/deep/task/__init__.py                    | 3 ++-
 src/deep/utils.py                            | 3 ++-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..3861f65 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,10 +16,10 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
-import logging
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
+from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 13cb3eb..7d2ceda 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -33,7 +33,6 @@ from typing import Tuple, TYPE_CHECKING, Dict
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
-from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, VariableProcessorConfig
 from deep.utils import str2bool, safe_str
@@ -103,7 +102,7 @@ class ActionContext(abc.ABC):
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
-            logging.exception("Error evaluating watch %s", watch)
+            deep.logging.exception("Error evaluating watch %s", watch)
             return WatchResult(source, watch, None, safe_str(e)), {}, safe_str(e)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..07b038b 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,14 +21,13 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-import logging
-
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, TracePointConfig, WatchResult, Variable, \
     VariableID, StackFrame, WatchSource
 
+from deep import logging
 from .push_service import PushService
 
 __all__ = [PushService.__name__]
diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..aa51300 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -15,11 +15,12 @@
 
 """Provides processing options for tasks on background threads."""
 
-import logging
 import threading
 from concurrent.futures import Future
 from concurrent.futures import ThreadPoolExecutor
 
+from deep import logging
+
 
 class IllegalStateException(BaseException):
     """This is raised when we are in an incompatible state."""
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 2c2201e..b403a77 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,10 +15,11 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
-import logging
 import time
 from threading import Event, Thread
 
+from deep import logging
+
 
 def snapshot_id_as_hex_str(snapshot_id):
     """Convert a snapshot if to a hex string."""
-- 
2.43.0


From cd6c52f9170eae8de6097b460900647792b38677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 13/37] fix: the default log config no longer replaces the root
 logger of the application

---
 src/deep/logging/__init__.py  | 17 +++++++++++------
 src/deep/logging/logging.conf | 27 ---------------------------
 2 files changed, 11 insertions(+), 33 deletions(-)
 delete mode 100644 src/deep/logging/logging.conf

diff --git a/src/deep/logging/__init__.py b/src/deep/logging/__init__.py
index 3304150..1fc3dfe 100644
--- a/src/deep/logging/__init__.py
+++ b/src/deep/logging/__init__.py
@@ -17,7 +17,7 @@
 
 import logging
 import logging.config
-import os
+import sys
 
 
 def warning(msg, *args, **kwargs):
@@ -82,9 +82,14 @@ def init(cfg=None):
 
     :param cfg: the config for deep.
     """
-    log_conf = "%s/logging.conf" % os.path.dirname(os.path.realpath(__file__))
-
     if cfg is not None and cfg.LOGGING_CONF:
-        log_conf = cfg.LOGGING_CONF
-
-    logging.config.fileConfig(fname=log_conf, disable_existing_loggers=False)
+        logging.config.fileConfig(fname=cfg.LOGGING_CONF, disable_existing_loggers=False)
+        return
+
+    # only configure our own logger, the other loggers (and root) belong to the application
+    handler = logging.StreamHandler(sys.stdout)
+    handler.setFormatter(logging.Formatter("%(asctime)s - %(name)s - %(levelname)s - %(message)s"))
+    logger = logging.getLogger("deep")
+    logger.handlers = [handler]
+    logger.setLevel(logging.DEBUG)
+    logger.propagate = False
diff --git a/src/deep/logging/logging.conf b/src/deep/logging/logging.conf
deleted file mode 100644
index bf7c1c5..0000000
--- a/src/deep/logging/logging.conf
+++ /dev/null
@@ -1,27 +0,0 @@
-[loggers]
-keys=root,deep
-
-[handlers]
-keys=consoleHandler
-
-[formatters]
-keys=deepFormatter
-
-[logger_root]
-level=DEBUG
-handlers=consoleHandler
-
-[logger_deep]
-level=DEBUG
-handlers=consoleHandler
-qualname=deep
-propagate=0
-
-[handler_consoleHandler]
-class=StreamHandler
-level=DEBUG
-formatter=deepFormatter
-args=(sys.stdout,)
-
-[formatter_deepFormatter]
-format=%(asctime)s - %(name)s - %(levelname)s - %(message)s
\ No newline at end of file
-- 
2.43.0


From ac4f5224a1bbcc493bd8c38cef2f36e0d893c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 14/37] fix: a snapshot names the tracepoint with the arguments
 and line it is configured with

---
 src/deep/api/tracepoint/trigger.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 843df94..c92e21d 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -87,6 +87,7 @@ class LocationAction(object):
         self.__stats_lock = threading.Lock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -146,6 +147,8 @@ class LocationAction(object):
     @property
     def tracepoint(self) -> TracePointConfig:
         """Get the tracepoint config for this trigger."""
+        if self.__tracepoint is not None:
+            return self.__tracepoint
         args = dict(self.__config)
         if WATCHES in args:
             del args[WATCHES]
@@ -224,6 +227,16 @@ class LocationAction(object):
             return True
         return False
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint, as it is configured, to this action.
+
+        :param tracepoint: the tracepoint that created this action
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
     def with_location(self, location: 'Location') -> 'LocationAction':
         """
         Attach the location to this action.
@@ -688,7 +701,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     metric_action = build_metric_action(tp_id, args, metrics)
     span_action = build_span_action(tp_id, args)
 
-    actions = [action for action in [snap_action, log_action, metric_action, span_action] if
+    tracepoint = TracePointConfig(tp_id, path, line_no, args, watches, metrics)
+    actions = [action.with_tracepoint(tracepoint) for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
     return Trigger(location, actions)
-- 
2.43.0


From eb066c223fbaf36b98972af777f60f9d2a955d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 15/37] fix: a method tracepoint without a name only acts when
 the function around its line is entered

---
 src/deep/api/tracepoint/trigger.py | 37 +++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index c92e21d..ea63219 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,10 +29,10 @@
 """Handlers for triggers and action configs."""
 
 import abc
-import inspect
+import dis
 import threading
 from enum import Enum
-from types import FrameType
+from types import CodeType, FrameType
 
 from typing import Optional, Dict, List
 
@@ -488,17 +488,21 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position,
+                 inside_line: Optional[int] = None):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param inside_line: the line that is in the function, used when there is no function name
         """
         super().__init__(position)
         self.__function_name = function_name
         self.__path = path
+        self.__inside_line = inside_line
+        self.__found_name = None
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType):
         """
@@ -514,25 +518,30 @@ class FunctionLocation(Location):
         if file != self.path:
             return False
 
+        if event != "call":
+            return False
+
         # if method_name is not set then we need to discover it from the frame.
         if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
-                # set the method to this name (so we do not need to look it up again)
-                self.__function_name = function_name
+            if self.__is_inside(frame.f_code):
+                self.__found_name = function_name
                 return True
             return False
 
-        if event == "call" and function_name == self.__function_name:
+        return function_name == self.__function_name
+
+    def __is_inside(self, code: CodeType) -> bool:
+        if self.__inside_line is None:
+            return False
+        if code.co_firstlineno == self.__inside_line:
             return True
-        return False
+        return any(line == self.__inside_line for _, line in dis.findlinestarts(code))
 
     @property
     def id(self):
         """The location id."""
+        if self.__function_name is None:
+            return "%s#method of %s" % (self.path, self.__inside_line)
         return "%s#%s" % (self.path, self.__function_name)
 
     @property
@@ -552,6 +561,8 @@ class FunctionLocation(Location):
 
         For Method locations should be method name.
         """
+        if self.__function_name is None:
+            return self.__found_name
         return self.__function_name
 
     def __str__(self):
@@ -692,7 +703,7 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        location = FunctionLocation(path, args.get(METHOD_NAME, None), position, line_no)
     else:
         return None
 
-- 
2.43.0


From 39430e7887e51d6ba5694d610ced57cc0ae51703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 16/37] fix: label log messages correctly, and emit the ones
 that cannot be fully formatted

---
 src/deep/processor/context/log_action.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..93ece34 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -30,6 +30,7 @@
 
 from typing import TYPE_CHECKING, List, Dict, Optional
 
+import deep.logging
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
 from ...api.tracepoint.constants import LOG_MSG
@@ -91,8 +92,25 @@ class LogActionContext(ActionContext):
 
                 return log_str, field_name
 
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
-        return log_msg, watch_results, _var_lookup
+            def convert_field(self, value, conversion):
+                try:
+                    return super().convert_field(value, conversion)
+                except ValueError:
+                    return value
+
+            def format_field(self, value, format_spec):
+                # the value is already a string, so not all format specifications are possible
+                try:
+                    return super().format_field(value, format_spec)
+                except ValueError:
+                    return value
+
+        try:
+            message = FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
+        except ValueError:
+            deep.logging.exception("Cannot process log message %s", log_msg)
+            message = log_msg
+        return "[deep] %s" % message, watch_results, _var_lookup
 
 
 class LogActionResult(ActionResult):
@@ -118,5 +136,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
-- 
2.43.0


From 1a0c6b7abe0dcdf6bb30107b4fdf24a478d29b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 17/37] fix: a tracepoint that cannot be converted does not
 affect the other tracepoints

---
 src/deep/grpc/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..fa248ec 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -29,6 +29,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
+from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
@@ -120,8 +121,15 @@ def convert_response(response) -> List[Trigger]:
     all_triggers: Dict[str, Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
+        try:
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            logging.exception("Cannot convert tracepoint %s", r.ID)
+            continue
+        if trigger is None:
+            logging.warning("Cannot interpret tracepoint %s", r.ID)
+            continue
         location_id = trigger.id
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
-- 
2.43.0


From abf40ba91cda24f55f35e2ef1cc2bf7f531be419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 18/37] fix: capture stages defer the snapshot until the result
 is known

---
 src/deep/api/tracepoint/trigger.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index ea63219..03c9abb 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -584,6 +584,10 @@ def __window_args(args: Dict[str, str]) -> Dict[str, str]:
     return {key: args[key] for key in [WINDOW_START, WINDOW_END] if key in args}
 
 
+def __stage_args(args: Dict[str, str]) -> Dict[str, str]:
+    return {STAGE: args[STAGE]} if STAGE in args else {}
+
+
 def __limit_args(args: Dict[str, str]) -> Dict[str, str]:
     return {key: args[key] for key in ['MAX_STRING_LENGTH', 'MAX_COLLECTION_SIZE', 'MAX_VARIABLES', 'MAX_VAR_DEPTH',
                                        'MAX_TP_PROCESS_TIME'] if key in args}
@@ -611,6 +615,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         **__window_args(args),
         LOG_MSG: args.get(LOG_MSG, None),
+        **__stage_args(args),
         **__limit_args(args),
     }, LocationAction.ActionType.Snapshot)
 
-- 
2.43.0


From 7c325863d06a3c5079702b50d7e38d85135e0a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 19/37] fix: values that cannot be represented in the message
 do not drop the snapshot

---
 src/deep/api/tracepoint/eventsnapshot.py |  3 +-
 src/deep/grpc/__init__.py                | 15 ++++++---
 src/deep/push/__init__.py                | 39 +++++++++++++++---------
 src/deep/utils.py                        | 14 +++++++++
 4 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 4535925..56262b3 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -50,7 +50,8 @@ class EventSnapshot:
 
     def complete(self):
         """Close and complete the snapshot."""
-        self._duration_nanos = time_ns() - self._ts_nanos
+        # the clock can be changed while we collect, but there are no negative durations
+        self._duration_nanos = max(0, time_ns() - self._ts_nanos)
 
     def add_watch_result(self, watch_result: 'WatchResult'):
         """
diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index fa248ec..7d1d050 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -33,6 +33,7 @@ from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
+from ..utils import safe_str, utf8_str
 
 
 def convert_value(value):
@@ -46,8 +47,11 @@ def convert_value(value):
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=utf8_str(value))
     if isinstance(value, int):
+        # the message can only have 64bit values
+        if not -2 ** 63 <= value < 2 ** 63:
+            return AnyValue(string_value=safe_str(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -55,18 +59,19 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
     return None
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=[KeyValue(key=utf8_str(k), value=convert_value(v)) for k, v in value.items()])
 
 
 def __value_as_list(value):
-    return ArrayValue(values=[convert_value(val) for val in value])
+    # there is no None in the message, so use the empty value to keep the positions
+    return ArrayValue(values=[AnyValue() if val is None else convert_value(val) for val in value])
 
 
 def convert_resource(resource):
@@ -81,7 +86,7 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=[KeyValue(key=utf8_str(k), value=convert_value(v)) for k, v in attributes.items()])
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 07b038b..098ca0a 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -35,20 +35,30 @@ __all__ = [PushService.__name__]
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
 from ..grpc import convert_value
+from ..utils import utf8_str
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=utf8_str(tracepoint.id), path=utf8_str(tracepoint.path),
+                            line_number=__convert_line(tracepoint.line_no),
+                            args={utf8_str(k): utf8_str(v) for k, v in tracepoint.args.items() if v is not None},
+                            watches=[utf8_str(w) for w in tracepoint.watches])
+
+
+def __convert_line(line):
+    # there are no negative line numbers in the message
+    if line is None or line < 0:
+        return 0
+    return line
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
+    return StackFrame(file_name=utf8_str(frame.file_name), short_path=utf8_str(frame.short_path),
+                      method_name=utf8_str(frame.method_name), line_number=__convert_line(frame.line_number),
+                      class_name=utf8_str(frame.class_name), is_async=frame.is_async,
                       column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
-                      transpiled_file_name=frame.transpiled_file_name,
+                      transpiled_file_name=utf8_str(frame.transpiled_file_name),
                       transpiled_line_number=frame.transpiled_line_number,
                       transpiled_column_number=frame.transpiled_column_number,
                       )
@@ -59,20 +69,20 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    return WatchResult(expression=utf8_str(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=utf8_str(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=utf8_str(variable.type), value=utf8_str(variable.value), hash=variable.hash,
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=variable.vid, name=utf8_str(variable.name), modifiers=variable.modifiers,
+                      original_name=utf8_str(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
@@ -94,11 +104,12 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
+                        attributes=[KeyValue(key=utf8_str(k), value=convert_value(v)) for k, v in
+                                    snapshot.attributes.items()],
                         duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
+                        resource=[KeyValue(key=utf8_str(k), value=convert_value(v)) for k, v in
                                   snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        log_msg=utf8_str(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
diff --git a/src/deep/utils.py b/src/deep/utils.py
index b403a77..6fbf73e 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -59,6 +59,20 @@ def safe_str(value):
         return '<%s>@%s' % (type.__dict__['__name__'].__get__(type(value)), id(value))
 
 
+def utf8_str(value):
+    """
+    Convert any value to a string that can be encoded as utf-8.
+
+    Python strings can have characters (lone surrogates) that cannot be encoded, these are escaped.
+
+    :param value: the value to convert
+    :return: the string, or None if the value is None
+    """
+    if value is None:
+        return None
+    return safe_str(value).encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 class RepeatedTimer:
     """Repeat `function` every `interval` seconds."""
 
-- 
2.43.0


From 69c74d71b5c80b405b5f8fa655dfd94cf71f16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 20/37] fix: the handle of a registered tracepoint removes only
 that tracepoint

---
 src/deep/config/tracepoint_config.py | 29 +++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 3861f65..611e222 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,6 +16,7 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
+import threading
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
@@ -52,6 +53,8 @@ class TracepointConfigService:
     def __init__(self) -> None:
         """Create new tracepoint config service."""
         self._custom: List['Trigger'] = []
+        self._custom_ids: Dict[str, 'Trigger'] = {}
+        self._lock = threading.RLock()
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
@@ -159,12 +162,18 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
-        """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
+        :return: the id of the new tracepoint
+        """
+        tp_id = str(uuid.uuid4())
+        config = build_trigger(tp_id, path, line, args, watches, metrics)
+        if config is None:
+            logging.warning("Cannot interpret tracepoint %s#%s: %s", path, line, args)
+            return tp_id
+        with self._lock:
+            self._custom.append(config)
+            self._custom_ids[tp_id] = config
         self.__trigger_update(None, None)
-        return config.id
+        return tp_id
 
     def remove_custom(self, _id: str):
         """
@@ -172,8 +181,10 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
-                self.__trigger_update(None, None)
+        with self._lock:
+            removed = self._custom_ids.pop(_id, None)
+            if removed is None:
                 return
+            # there can be other tracepoints at the same location, these are equal to each other
+            self._custom = [cfg for cfg in self._custom if cfg is not removed]
+        self.__trigger_update(None, None)
-- 
2.43.0


From 5e89943a3c172105a25ecac13b70d5ce13cc3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 21/37] fix: the listeners always get the current
 configuration, and unknown poll responses are ignored

---
 src/deep/config/tracepoint_config.py | 13 ++++++++-----
 src/deep/poll/poll.py                |  4 +++-
 src/deep/utils.py                    |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 611e222..6d354db 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -117,11 +117,14 @@ class TracepointConfigService:
         :param new_config: the new config
         """
         listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        # the tasks can run in any order, so only ever send the config that is the current one now
+        with self._lock:
+            config = self._tracepoint_config + self._custom
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(ts, old_hash, self._current_hash, old_config, config)
+                except Exception:
+                    logging.exception("Error updating listener %s", listeners)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..3944fe1 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -67,9 +67,11 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
-        else:
+        elif response.response_type == ResponseType.UPDATE:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
+        else:
+            logging.warning("Unknown response to poll: %s", response.response_type)
 
     def shutdown(self):
         """Shutdown the timer."""
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 6fbf73e..1b218ee 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -109,7 +109,7 @@ class RepeatedTimer:
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
+            except BaseException:
                 logging.exception(
                     "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
 
-- 
2.43.0


From 610f11f0caf74ca6407a6714a4e995cddfcb3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 22/37] fix: each config has its own tracepoints

---
 src/deep/config/config_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..e682b29 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -29,12 +29,15 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: TracepointConfigService = None):
         """
         Create a new config object.
 
         :param custom: any custom values that are passed to DEEP
+        :param tracepoints: the tracepoint config service to use
         """
+        if tracepoints is None:
+            tracepoints = TracepointConfigService()
         if custom is None:
             custom = {}
         self._plugins = []
-- 
2.43.0


From 2521b87a1949906f05fa3a13d07f08bad9f9ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 23/37] fix: flush waits for all accepted tasks, and does not
 raise the errors of the tasks

---
 src/deep/task/__init__.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index aa51300..36443e2 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -17,7 +17,7 @@
 
 import threading
 from concurrent.futures import Future
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import ThreadPoolExecutor, wait
 
 from deep import logging
 
@@ -36,7 +36,8 @@ class TaskHandler:
         self._pool = ThreadPoolExecutor(max_workers=2)
         self._pending = {}
         self._job_id = 0
-        self._lock = threading.Lock()
+        # the worker threads are traced as well, so a task can be submitted while we are submitting one
+        self._lock = threading.RLock()
         self._open = True
 
     def _next_id(self):
@@ -57,27 +58,28 @@ class TaskHandler:
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        # once we are closed there must be no new tasks, so check and submit as one step
+        with self._lock:
+            self.__check_open()
+            next_id = self._next_id()
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._pending[next_id] = future
 
         # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
-            if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+            self._pending.pop(next_id, None)
+            if not _future.cancelled() and _future.exception() is not None:
+                logging.error("Submitted task failed %s", task, exc_info=_future.exception())
 
         future.add_done_callback(callback)
         return future
 
     def flush(self):
         """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        with self._lock:
+            self._open = False
+            # the tasks remove themselves when they complete, so use a copy
+            pending = list(self._pending.values())
+        # this does not raise the errors of the tasks, these are logged by the task callback
+        wait(pending)
-- 
2.43.0


From f938d3561bcc4566bf9a91ff8774c116e0c2fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 24/37] fix: metrics with the same name in different namespaces
 are different metrics

---
 src/deep/api/plugin/metric/otel_metrics.py       | 12 ++++++------
 src/deep/api/plugin/metric/prometheus_metrics.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index a3d42a4..e1b2172 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -40,8 +40,8 @@ class OTelMetrics(MetricProcessor):
         self.__cache = {}
         self.__lock = threading.Lock()
 
-    def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+    def __check_cache(self, namespace, name, type_name, from_default):
+        cache_key = f'{namespace}_{name}_{type_name}'
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -62,7 +62,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 counter: Counter
-                counter = self.__check_cache(name, 'counter',
+                counter = self.__check_cache(namespace, name, 'counter',
                                              lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit,
                                                                                       help_string))
                 counter.add(value, labels)
@@ -83,7 +83,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 gauge: UpDownCounter
-                gauge = self.__check_cache(name, 'gauge',
+                gauge = self.__check_cache(namespace, name, 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
                                                                                             unit, help_string))
                 gauge.add(value, labels)
@@ -104,7 +104,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'histogram',
+                histogram = self.__check_cache(namespace, name, 'histogram',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
@@ -125,7 +125,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'summary',
+                histogram = self.__check_cache(namespace, name, 'summary',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
diff --git a/src/deep/api/plugin/metric/prometheus_metrics.py b/src/deep/api/plugin/metric/prometheus_metrics.py
index 14cc1c5..d981fea 100644
--- a/src/deep/api/plugin/metric/prometheus_metrics.py
+++ b/src/deep/api/plugin/metric/prometheus_metrics.py
@@ -37,8 +37,8 @@ class PrometheusPlugin(MetricProcessor):
         self.__cache = {}
         self.__lock = threading.Lock()
 
-    def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+    def __check_cache(self, namespace, name, type_name, from_default):
+        cache_key = f'{namespace}_{name}_{type_name}'
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -59,7 +59,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                counter: Counter = self.__check_cache(name, "counter",
+                counter: Counter = self.__check_cache(namespace, name, "counter",
                                                       lambda: Counter(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
@@ -83,7 +83,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                gauge: Gauge = self.__check_cache(name, "gauge",
+                gauge: Gauge = self.__check_cache(namespace, name, "gauge",
                                                   lambda: Gauge(name=name, documentation=help_string or "",
                                                                 labelnames=label_keys,
                                                                 namespace=namespace, unit=unit))
@@ -108,7 +108,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                histogram: Histogram = self.__check_cache(name, "histogram",
+                histogram: Histogram = self.__check_cache(namespace, name, "histogram",
                                                           lambda: Histogram(name=name, documentation=help_string or "",
                                                                             labelnames=label_keys,
                                                                             namespace=namespace, unit=unit))
@@ -133,7 +133,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                summary: Summary = self.__check_cache(name, "summary",
+                summary: Summary = self.__check_cache(namespace, name, "summary",
                                                       lambda: Summary(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
-- 
2.43.0


From 923177c65d2e7b2b9b8ed6a31fe4a1da21aa789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 25/37] fix: a failing plugin only affects its own contribution

---
 src/deep/api/plugin/__init__.py               | 12 ++++++++++--
 src/deep/processor/context/metric_action.py   |  7 +++++--
 src/deep/processor/context/snapshot_action.py |  2 +-
 src/deep/processor/context/span_action.py     |  9 ++++++---
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..cb3f44e 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -71,10 +71,18 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
         except Exception as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
-    loaded.sort(key=lambda pl: pl.order() or 0)
+    loaded.sort(key=__plugin_order)
     return loaded
 
 
+def __plugin_order(plugin):
+    try:
+        return int(plugin.order() or 0)
+    except Exception as e:
+        logging.debug("Could not get order of plugin %s: %s", plugin, e)
+        return 0
+
+
 class Plugin(abc.ABC):
     """
     A deep Plugin.
@@ -111,7 +119,7 @@ class Plugin(abc.ABC):
         attr = getattr(self.config, f'plugin_{self.name}'.upper(), 'True')
         if attr is None:
             return True
-        return str2bool(attr)
+        return str2bool(str(attr))
 
     def shutdown(self):
         """Clean up and shutdown the plugin."""
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 1671a6c..b3a6444 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -41,8 +41,11 @@ class MetricActionContext(ActionContext):
         for metric in metrics:
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                try:
+                    getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
+                                                                        metric.help, metric.unit, value)
+                except BaseException:
+                    deep.logging.exception("Cannot report metric %s", metric.name)
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 3fb2c5c..d13296b 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -193,7 +193,7 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index ffc7668..a0f633e 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -90,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span is not None:
+                    spans.append(span)
+            except BaseException:
+                deep.logging.exception("Failed to create span %s", name)
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
-- 
2.43.0


From a451f6a5b85b9213cf9bb375778368e50584f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 26/37] fix: shutdown completes all steps and only restores
 hooks that have been installed

---
 src/deep/api/deep.py                  | 19 +++++++++++++------
 src/deep/processor/trigger_handler.py | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..454e127 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -64,7 +64,7 @@ class Deep:
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
             except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+                deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
         self.config.resource = default_resource
         self.trigger_handler.start()
@@ -76,13 +76,20 @@ class Deep:
         """Shutdown deep."""
         if not self.started:
             return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
+        self.__shutdown_step(self.trigger_handler.shutdown)
+        self.__shutdown_step(self.poll.shutdown)
+        self.__shutdown_step(self.task_handler.flush)
         for plugin in self.config.plugins:
-            plugin.shutdown()
-        deep.logging.info("Deep is shutdown.")
+            self.__shutdown_step(plugin.shutdown)
         self.started = False
+        deep.logging.info("Deep is shutdown.")
+
+    @staticmethod
+    def __shutdown_step(step):
+        try:
+            step()
+        except BaseException:
+            deep.logging.exception("Failed to shutdown %s", step)
 
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 386d51b..9415f54 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -88,6 +88,8 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__installed = False
+        self.__stopped = False
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -98,12 +100,14 @@ class TriggerHandler:
         """Start the trigger handler."""
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        self.__stopped = False
+        if self._config.NO_TRACE or self.__installed:
             return
         self.__old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
         # noinspection PyUnresolvedReferences,PyProtectedMember
         self.__old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
+        self.__installed = True
         sys.settrace(self.trace_call)
         threading.settrace(self.trace_call)
 
@@ -135,6 +139,9 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        # threads that are still running keep calling us after we are shutdown
+        if self.__stopped:
+            return None
         try:
             return self.__process_event(frame, event, arg)
         except BaseException:
@@ -237,7 +244,11 @@ class TriggerHandler:
         """
         Shutdown this handler.
 
-        Reset the settrace to the previous values.
+        Reset the settrace to the previous values, if we have changed them.
         """
+        self.__stopped = True
+        if not self.__installed:
+            return
+        self.__installed = False
         sys.settrace(self.__old_sys_trace)
         threading.settrace(self.__old_thread_trace)
-- 
2.43.0


From 97c3a4e65269d21fa793e240375134654699debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 27/37] fix: settings behave the same when set in code or in
 the environment

---
 src/deep/__init__.py              |  4 ++--
 src/deep/config/__init__.py       | 13 +++----------
 src/deep/config/config_service.py |  9 +++++++--
 src/deep/grpc/grpc_service.py     |  2 +-
 src/deep/poll/poll.py             | 17 ++++++++++++++++-
 src/deep/utils.py                 | 14 ++++++++++++++
 6 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/deep/__init__.py b/src/deep/__init__.py
index bc346fb..0e9ee49 100644
--- a/src/deep/__init__.py
+++ b/src/deep/__init__.py
@@ -29,8 +29,8 @@ def start(config=None) -> 'Deep':
     :param config: a custom config
     :return: the created Deep instance
     """
-    if config is None:
-        config = {}
+    # we add to the config, so do not use the object of the caller
+    config = {} if config is None else dict(config)
 
     # we use the app root to shorten file paths for display
     if 'APP_ROOT' not in config:
diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..4777a5b 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -24,6 +24,7 @@ import os
 import sys
 
 from .config_service import ConfigService  # noqa: F401
+from ..utils import as_list
 
 LOGGING_CONF = os.getenv('DEEP_LOGGING_CONF', None)
 '''The path to the logging config file to use'''
@@ -57,9 +58,7 @@ def IN_APP_INCLUDE():
     user_defined = os.getenv('DEEP_IN_APP_INCLUDE', None)
     if user_defined is None:
         return []
-    if ',' in user_defined:
-        return user_defined.split(',')
-    return [user_defined]
+    return as_list(user_defined)
 
 
 # noinspection PyPep8Naming
@@ -69,13 +68,7 @@ def IN_APP_EXCLUDE():
 
     The packages to mark as NOT in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_EXCLUDE', None)
-    if user_defined is None:
-        user_defined = []
-    else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
+    user_defined = as_list(os.getenv('DEEP_IN_APP_EXCLUDE', None))
 
     prefix = sys.exec_prefix
     user_defined.append(prefix)
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index e682b29..c42bf6b 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -16,6 +16,7 @@
 """Service for handling deep config."""
 
 import os
+import sys
 from typing import Any, List, Dict, Tuple, Optional, Generator
 
 from deep import logging
@@ -24,6 +25,7 @@ from deep.api.plugin.metric import MetricProcessor
 from deep.api.plugin.span import SpanProcessor
 from deep.api.resource import Resource
 from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateListener
+from deep.utils import as_list
 
 
 class ConfigService:
@@ -173,8 +175,11 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        # the values can be set in code, as a list or as a string
+        in_app_include = as_list(self.IN_APP_INCLUDE)
+        in_app_exclude = as_list(self.IN_APP_EXCLUDE)
+        if sys.exec_prefix not in in_app_exclude:
+            in_app_exclude.append(sys.exec_prefix)
 
         for path in in_app_exclude:
             if filename.startswith(path):
diff --git a/src/deep/grpc/grpc_service.py b/src/deep/grpc/grpc_service.py
index f1608d4..b8453c1 100644
--- a/src/deep/grpc/grpc_service.py
+++ b/src/deep/grpc/grpc_service.py
@@ -40,7 +40,7 @@ class GRPCService:
 
     def start(self):
         """Start and connect the GRPC channel."""
-        if str2bool(self._secure):
+        if str2bool(str(self._secure)):
             logging.info("Connecting securely")
             logging.debug("Connecting securely to: %s", self._service_url)
             self.channel = grpc.secure_channel(self._service_url, grpc.ssl_channel_credentials())
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 3944fe1..ce7781b 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -30,6 +30,10 @@ from deep.grpc import convert_resource, convert_response, GRPCService
 from deep.utils import time_ns, RepeatedTimer
 
 
+DEFAULT_POLL_INTERVAL = 10
+"""The interval (in seconds) to use if the configured interval cannot be used."""
+
+
 class LongPoll(object):
     """This service deals with polling the remote service to get the tracepoint configs."""
 
@@ -47,10 +51,21 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", self.__poll_interval(), self.poll)
         self.__initial_poll()
         self.timer.start()
 
+    def __poll_interval(self):
+        try:
+            # the value is text when it is set from the environment
+            interval = float(self.config.POLL_TIMER)
+            if interval > 0:
+                return interval
+        except (ValueError, TypeError, OverflowError):
+            pass
+        logging.warning("Invalid poll interval, using default: %s", DEFAULT_POLL_INTERVAL)
+        return DEFAULT_POLL_INTERVAL
+
     def __initial_poll(self):
         try:
             self.poll()
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 1b218ee..42e1be5 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -46,6 +46,20 @@ def str2bool(string):
     return string.lower() in ("yes", "true", "t", "1", "y")
 
 
+def as_list(value):
+    """
+    Convert a setting that is a list, or a comma separated string, to a list.
+
+    :param value: the value to convert
+    :return: the list of values, without the empty ones
+    """
+    if value is None:
+        return []
+    if isinstance(value, str):
+        value = [item.strip() for item in value.split(',')]
+    return [item for item in value if item]
+
+
 def safe_str(value):
     """
     Convert any value to a string, without ever raising an exception.
-- 
2.43.0


From 6295a61cc71286c2062134112410a725b56fe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 28/37] fix: the executable name of the resource can be any
 attribute value

---
 src/deep/api/resource/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/api/resource/__init__.py b/src/deep/api/resource/__init__.py
index 3c41a08..737d45e 100644
--- a/src/deep/api/resource/__init__.py
+++ b/src/deep/api/resource/__init__.py
@@ -147,7 +147,7 @@ class Resource:
                 PROCESS_EXECUTABLE_NAME, None
             )
             if process_executable_name:
-                default_service_name += ":" + process_executable_name
+                default_service_name += ":" + str(process_executable_name)
             else:
                 default_service_name += ":python"
             resource = resource.merge(
-- 
2.43.0


From e5807ae280b6ec991ccfa7be58048a6f4c5d4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 29/37] fix: a hit that is overtaken by a later one of another
 thread is not too early

---
 src/deep/api/tracepoint/tracepoint_config.py | 2 +-
 src/deep/api/tracepoint/trigger.py           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/tracepoint/tracepoint_config.py b/src/deep/api/tracepoint/tracepoint_config.py
index 1ea190c..5743964 100644
--- a/src/deep/api/tracepoint/tracepoint_config.py
+++ b/src/deep/api/tracepoint/tracepoint_config.py
@@ -304,7 +304,7 @@ class TracepointExecutionStats:
         :param ts: the time in nanoseconds
         """
         self._fire_count += 1
-        self._last_fire = ts
+        self._last_fire = max(self._last_fire, ts)
 
     @property
     def fire_count(self):
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 03c9abb..c711a77 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -180,7 +180,8 @@ class LocationAction(object):
         # Have we fired too quickly?
         last_fire = self.__stats.last_fire
         if last_fire != 0:
-            time_since_last = ts - last_fire
+            # a hit in another thread can be later than this one, but already be recorded
+            time_since_last = max(0, ts - last_fire)
             if time_since_last < self.__fire_period_ns():
                 return False
 
-- 
2.43.0


From 846768fdbfac36e7d63ea403559700ab303150fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 30/37] fix: collect values with a custom metaclass, and keys
 derived from str

---
 src/deep/processor/frame_collector.py    |  4 +--
 src/deep/processor/variable_processor.py | 35 ++++++++++++++++--------
 src/deep/utils.py                        | 15 ++++++++--
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index c9c5bec..7d697f7 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -20,7 +20,7 @@ from types import FrameType
 from typing import Tuple, Dict, List
 
 from deep.api.tracepoint import StackFrame, Variable
-from deep.utils import time_ns
+from deep.utils import time_ns, type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -149,7 +149,7 @@ class FrameCollector:
         _self = f_locals.get('self', None)
         class_name = None
         if _self is not None:
-            class_name = type(_self).__name__
+            class_name = type_name(type(_self))
 
         var_ids = []
         # only process vars if we are under the time limit
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 379af45..5c99894 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -26,7 +26,7 @@ from typing import List
 
 from deep import logging
 from deep.api.tracepoint import VariableId, Variable
-from deep.utils import safe_str
+from deep.utils import safe_str, type_name
 from .bfs import Node, ParentNode, NodeValue
 
 NO_CHILD_TYPES = [
@@ -180,6 +180,17 @@ def var_modifiers(var_name: str) -> List[str]:
     return []
 
 
+def is_list_like(variable_type):
+    """
+    Check if values of a type are handled like lists.
+
+    :param variable_type: the type to check
+    :return: True, if this is one of the list like types
+    """
+    # compare the identity, as a type can have a metaclass that changes how it is compared
+    return any(variable_type is list_type for list_type in LIST_LIKE_TYPES)
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -188,11 +199,11 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if type_name(variable_type) in ITER_LIKE_TYPES:
         # if interator like then make a custom string - we do not want to mess with iterators
-        return 'Iterator of type: %s' % variable_type
+        return 'Iterator of type: %s' % safe_str(variable_type)
     elif variable_type is dict \
-            or variable_type in LIST_LIKE_TYPES:
+            or is_list_like(variable_type):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
@@ -234,7 +245,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -271,7 +282,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if type_name(variable_type) in NO_CHILD_TYPES:
         return []
 
     # if the depth is more than we are configured - return empty
@@ -314,8 +325,8 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :return: list of child nodes
     """
     if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type in LIST_LIKE_TYPES:
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value)
+    elif is_list_like(variable_type):
         return process_list_breadth_first(var_collector, parent_node, value)
     elif issubclass(variable_type, Exception):
         return process_list_breadth_first(var_collector, parent_node, value.args)
@@ -325,9 +336,9 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
         attributes = object.__getattribute__(value, '__dict__')
     except AttributeError:
         # not all values have attributes (e.g. slots, builtin types)
-        logging.debug("Value without attributes processed %s", variable_type.__name__)
+        logging.debug("Value without attributes processed %s", type_name(variable_type))
         return []
-    return process_dict_breadth_first(parent_node, variable_type.__name__, attributes, correct_names)
+    return process_dict_breadth_first(parent_node, type_name(variable_type), attributes, correct_names)
 
 
 def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y: y) -> List[Node]:
@@ -347,7 +358,9 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     # we wrap the keys() in a call to list to prevent concurrent changes
     nodes = []
     for key, val in list(value.items()):
-        if isinstance(key, str):
+        if issubclass(type(key), str):
+            # keys can be of a type derived from str, that has its own behaviour
+            key = str.__str__(key)
             node_value = NodeValue(func(type_name, key), val, key)
         else:
             node_value = NodeValue(safe_str(key), val)
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 42e1be5..5012997 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -68,9 +68,20 @@ def safe_str(value):
     :return: the string for the value, or a placeholder if the value cannot be converted.
     """
     try:
-        return str(value)
+        # the result can be of a type derived from str, that has its own behaviour
+        return str.__str__(str(value))
     except BaseException:
-        return '<%s>@%s' % (type.__dict__['__name__'].__get__(type(value)), id(value))
+        return '<%s>@%s' % (type_name(type(value)), id(value))
+
+
+def type_name(value_type):
+    """
+    Get the name of a type, without using the behaviour of a custom metaclass.
+
+    :param value_type: the type
+    :return: the name of the type
+    """
+    return type.__dict__['__name__'].__get__(value_type)
 
 
 def utf8_str(value):
-- 
2.43.0


From 0d37235782e3cb64f1b9c393d3483a34c88ff292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 31/37] fix: give each task its own id when submitting is
 re-entered on the same thread

---
 src/deep/task/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 36443e2..629ea25 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -42,8 +42,8 @@ class TaskHandler:
 
     def _next_id(self):
         with self._lock:
-            self._job_id += 1
-            next_id = self._job_id
+            # one step, as we can be called again (on this thread) between two lines
+            self._job_id = next_id = self._job_id + 1
         return next_id
 
     def __check_open(self):
-- 
2.43.0


From ba5eb41be58548bd1aba8889f06bacaf321d5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 32/37] fix: a tracepoint registered in code does not share its
 lists with the caller

---
 src/deep/config/tracepoint_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 6d354db..ddbac24 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -168,7 +168,8 @@ class TracepointConfigService:
         :return: the id of the new tracepoint
         """
         tp_id = str(uuid.uuid4())
-        config = build_trigger(tp_id, path, line, args, watches, metrics)
+        # what we are given can be changed by the caller later, this must not change the tracepoint
+        config = build_trigger(tp_id, path, line, dict(args), list(watches), list(metrics))
         if config is None:
             logging.warning("Cannot interpret tracepoint %s#%s: %s", path, line, args)
             return tp_id
-- 
2.43.0


From 97643484bd201e9e758cda38faf9da66e725c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 33/37] fix: any expression can be a field of a log message

A field with '!', ':' or '}' in its expression (e.g. {a != b}, {f('a: b')} or {d.get('k', {})}) was split as a
format specification or was refused, and an empty field was replaced with a number.
---
 src/deep/processor/context/log_action.py | 73 +++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 93ece34..f65a4bd 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -28,6 +28,7 @@
 
 """Handling for log actions."""
 
+import string
 from typing import TYPE_CHECKING, List, Dict, Optional
 
 import deep.logging
@@ -44,6 +45,73 @@ if TYPE_CHECKING:
     from .trigger_context import TriggerContext
 
 
+def _is_expression(text: str) -> bool:
+    try:
+        compile(text.strip(), '<field>', 'eval')
+        return True
+    except Exception:
+        return False
+
+
+def _parse_field(template: str, start: int) -> Tuple[int, str, str, Optional[str]]:
+    """
+    Find the end of a field, and split it into the expression, the format specification and the conversion.
+
+    :param template: the log message template
+    :param start: the position after the '{' of the field
+    :return: the position of the '}' of the field, the expression, the format specification and the conversion
+    """
+    # characters with a meaning in a format string (e.g. '!' or '}') can be a part of the expression
+    end = template.find('}', start)
+    while end != -1:
+        if _is_expression(template[start:end]):
+            return end, template[start:end], '', None
+        end = template.find('}', end + 1)
+
+    # not an expression, so it has a conversion or format specification, or it is not valid
+    depth, end = 1, start
+    while end < len(template):
+        depth += {'{': 1, '}': -1}.get(template[end], 0)
+        if depth == 0:
+            break
+        end += 1
+    else:
+        raise ValueError("expected '}' before end of string")
+    field = template[start:end]
+    try:
+        _, name, spec, conversion = next(iter(string.Formatter().parse('{%s}' % field)))
+    except ValueError:
+        name, spec, conversion = field, '', None
+    # an empty name would be replaced with a number
+    return end, name or ' ', spec, conversion
+
+
+def _parse_template(template: str):
+    """
+    Split a template as string.Formatter.parse does, but allow any expression as a field.
+
+    :param template: the log message template
+    :return: tuples of literal text, field name, format specification and conversion
+    """
+    literal, pos = '', 0
+    while pos < len(template):
+        char = template[pos]
+        if char in '{}' and template[pos + 1:pos + 2] == char:
+            literal += char
+            pos += 2
+        elif char == '{':
+            end, name, spec, conversion = _parse_field(template, pos + 1)
+            yield literal, name, spec, conversion
+            literal, pos = '', end + 1
+        elif char == '}':
+            raise ValueError("Single '}' encountered in format string")
+        else:
+            literal += char
+            pos += 1
+    if literal:
+        yield literal, None, None, None
+
+
 class LogActionContext(ActionContext):
     """The context for processing a log action."""
 
@@ -73,8 +141,6 @@ class LogActionContext(ActionContext):
             def __missing__(self, key):
                 return "{%s}" % key
 
-        import string
-
         class FormatExtractor(string.Formatter):
             """
             Allows logs to be formatted correctly.
@@ -83,6 +149,9 @@ class LogActionContext(ActionContext):
             as well as interpolate the values.
             """
 
+            def parse(self, format_string):
+                return _parse_template(format_string)
+
             def get_field(self, field_name, args, kwargs):
                 # evaluate watch
                 watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-- 
2.43.0


From 18f0d48d4a4d3b098dd5e5564a33ebc4f500fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 34/37] fix: each metric processor gets its own labels

---
 src/deep/processor/context/metric_action.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index b3a6444..c7e2bcc 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -42,8 +42,10 @@ class MetricActionContext(ActionContext):
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
                 try:
-                    getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                        metric.help, metric.unit, value)
+                    # each processor gets its own labels, a processor can change the ones it is given
+                    getattr(processor, self._convert_type(metric.type))(metric.name, dict(labels),
+                                                                        metric.namespace or "deep", metric.help,
+                                                                        metric.unit, value)
                 except BaseException:
                     deep.logging.exception("Cannot report metric %s", metric.name)
 
-- 
2.43.0


From 3cb3585351d2f8e9fe8e62750e5b2323a170e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:37 +0000
Subject: [PATCH 35/37] fix: keep a service name when a plugin resource clears
 it

---
 src/deep/api/deep.py              |  2 +-
 src/deep/api/resource/__init__.py | 34 +++++++++++++++++++------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 454e127..a703568 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -66,7 +66,7 @@ class Deep:
             except Exception:
                 deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
-        self.config.resource = default_resource
+        self.config.resource = default_resource.ensure_service_name()
         self.trigger_handler.start()
         self.grpc.start()
         self.poll.start()
diff --git a/src/deep/api/resource/__init__.py b/src/deep/api/resource/__init__.py
index 737d45e..45b2c4b 100644
--- a/src/deep/api/resource/__init__.py
+++ b/src/deep/api/resource/__init__.py
@@ -141,19 +141,7 @@ class Resource:
         resource = _DEFAULT_RESOURCE.merge(
             DeepResourceDetector().detect()
         ).merge(Resource(attributes, schema_url))
-        if not resource.attributes.get(SERVICE_NAME, None):
-            default_service_name = "unknown_service"
-            process_executable_name = resource.attributes.get(
-                PROCESS_EXECUTABLE_NAME, None
-            )
-            if process_executable_name:
-                default_service_name += ":" + str(process_executable_name)
-            else:
-                default_service_name += ":python"
-            resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
-            )
-        return resource
+        return resource.ensure_service_name()
 
     @staticmethod
     def get_empty() -> "Resource":
@@ -209,6 +197,26 @@ class Resource:
 
         return Resource(merged_attributes, schema_url)
 
+    def ensure_service_name(self) -> "Resource":
+        """
+        Get this resource with a service name.
+
+        :return: this resource, or if it has no service name, a new resource with the default service name
+        """
+        if self.attributes.get(SERVICE_NAME, None):
+            return self
+        default_service_name = "unknown_service"
+        process_executable_name = self.attributes.get(
+            PROCESS_EXECUTABLE_NAME, None
+        )
+        if process_executable_name:
+            default_service_name += ":" + str(process_executable_name)
+        else:
+            default_service_name += ":python"
+        return self.merge(
+            Resource({SERVICE_NAME: default_service_name}, self.schema_url)
+        )
+
     def __eq__(self, other: object) -> bool:
         """Check if other object is equals to this one."""
         if not isinstance(other, Resource):
-- 
2.43.0


From 52ae70d8b6ea7595086916733461a1d498a7aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 36/37] fix: read the app root from the environment like the
 other settings

---
 src/deep/config/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index 4777a5b..47057c6 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -41,7 +41,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
-- 
2.43.0


From 23f55777e55592a3d02c58718fc8e8b4a0601299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 37/37] fix: a plugin that exits while it is loaded or started
 only affects itself

---
 src/deep/api/deep.py            |  6 ++++--
 src/deep/api/plugin/__init__.py | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index a703568..a235852 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -63,7 +63,9 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
+            except KeyboardInterrupt:
+                raise
+            except BaseException:
                 deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
         self.config.resource = default_resource.ensure_service_name()
@@ -80,7 +82,7 @@ class Deep:
         self.__shutdown_step(self.poll.shutdown)
         self.__shutdown_step(self.task_handler.flush)
         for plugin in self.config.plugins:
-            self.__shutdown_step(plugin.shutdown)
+            self.__shutdown_step(lambda p=plugin: p.shutdown())
         self.started = False
         deep.logging.info("Deep is shutdown.")
 
diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index cb3f44e..ca0e202 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -42,12 +42,16 @@ def __plugin_generator(configured):
     for plugin in configured:
         try:
             module, cls = plugin.rsplit(".", 1)
-            yield getattr(import_module(module), cls)
+            plugin_class = getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
             logging.debug(
                 "Did not import integration %s: %s", plugin, e
             )
+            continue
+        yield plugin_class
 
 
 def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
@@ -68,7 +72,9 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
             loaded.append(plugin_instance)
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
     loaded.sort(key=__plugin_order)
@@ -78,7 +84,9 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
 def __plugin_order(plugin):
     try:
         return int(plugin.order() or 0)
-    except Exception as e:
+    except KeyboardInterrupt:
+        raise
+    except BaseException as e:
         logging.debug("Could not get order of plugin %s: %s", plugin, e)
         return 0
 
-- 
2.43.0

