From cbaaa4ed43f5723fc0ac2c2d9e50851b706510e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 01/36] fix: search variables breadth first (take nodes from
 the front of the queue)

---
 src/deep/processor/bfs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..1542108 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -153,7 +153,7 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     queue = [node]
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.pop(0)
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From 5798875b1df1635514de6812b0ee80cd28cc3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 02/36] fix: apply the configured collection limits to the
 whole snapshot

The MAX_* tracepoint args were dropped when building the snapshot action, were
never parsed as numbers, and did not apply to watches, captures and log fields.
---
 src/deep/api/tracepoint/constants.py          | 18 +++++++++++++
 src/deep/api/tracepoint/trigger.py            |  8 +++++-
 src/deep/processor/context/action_context.py  | 18 +++++++++----
 src/deep/processor/context/snapshot_action.py | 25 ++++++++++++-------
 4 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/deep/api/tracepoint/constants.py b/src/deep/api/tracepoint/constants.py
index 471825c..bbe26e9 100644
--- a/src/deep/api/tracepoint/constants.py
+++ b/src/deep/api/tracepoint/constants.py
@@ -102,3 +102,21 @@ METHOD_STAGES = [METHOD_START, METHOD_CAPTURE, METHOD_END]
 
 WATCHES = "watches"
 """Key for watch config"""
+
+MAX_VAR_DEPTH = "MAX_VAR_DEPTH"
+"""The max depth of variables to collect"""
+
+MAX_VARIABLES = "MAX_VARIABLES"
+"""The max number of variables to collect"""
+
+MAX_COLLECTION_SIZE = "MAX_COLLECTION_SIZE"
+"""The max number of elements to collect from a collection"""
+
+MAX_STRING_LENGTH = "MAX_STRING_LENGTH"
+"""The max length of a collected string value"""
+
+MAX_TP_PROCESS_TIME = "MAX_TP_PROCESS_TIME"
+"""The max time (in ms) to spend processing a tracepoint"""
+
+COLLECTION_LIMITS = [MAX_VAR_DEPTH, MAX_VARIABLES, MAX_COLLECTION_SIZE, MAX_STRING_LENGTH, MAX_TP_PROCESS_TIME]
+"""All the args that limit the data collected by a snapshot."""
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..5e25567 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -37,7 +37,8 @@ from typing import Optional, Dict, List
 
 from deep.api.tracepoint.constants import WINDOW_START, WINDOW_END, FIRE_COUNT, FIRE_PERIOD, LOG_MSG, WATCHES, \
     LINE_START, METHOD_START, METHOD_END, LINE_END, LINE_CAPTURE, METHOD_CAPTURE, NO_COLLECT, SNAPSHOT, CONDITION, \
-    FRAME_TYPE, STACK_TYPE, SINGLE_FRAME_TYPE, STACK, SPAN, STAGE, METHOD_NAME, LINE_STAGES, METHOD_STAGES, METHOD
+    FRAME_TYPE, STACK_TYPE, SINGLE_FRAME_TYPE, STACK, SPAN, STAGE, METHOD_NAME, LINE_STAGES, METHOD_STAGES, METHOD, \
+    COLLECTION_LIMITS
 from deep.api.tracepoint.tracepoint_config import TracepointWindow, TracepointExecutionStats, MetricDefinition, \
     TracePointConfig
 
@@ -547,6 +548,10 @@ class FunctionLocation(Location):
         return False
 
 
+def __optional_args(args: Dict[str, str], *names: str) -> Dict[str, str]:
+    return {name: args[name] for name in names if name in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -568,6 +573,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
+        **__optional_args(args, *COLLECTION_LIMITS),
     }, LocationAction.ActionType.Snapshot)
 
 
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..511c952 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -29,13 +29,13 @@
 """Handling for action context."""
 
 import abc
-from typing import Tuple, TYPE_CHECKING, Dict
+from typing import Tuple, TYPE_CHECKING, Dict, Optional
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableProcessorConfig
 from deep.utils import str2bool
 
 if TYPE_CHECKING:
@@ -46,15 +46,18 @@ if TYPE_CHECKING:
 class ActionContext(abc.ABC):
     """A context for the processing of an action."""
 
-    def __init__(self, parent: 'TriggerContext', action: 'LocationAction'):
+    def __init__(self, parent: 'TriggerContext', action: 'LocationAction',
+                 collection_config: Optional[VariableProcessorConfig] = None):
         """
         Create a new action context.
 
         :param parent: the parent trigger
         :param action: the action config
+        :param collection_config: the limits to apply to collected data, or None to use the default
         """
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
+        self.__collection_config = collection_config
         self._triggered = False
 
     def __enter__(self):
@@ -66,6 +69,11 @@ class ActionContext(abc.ABC):
         if self.has_triggered():
             self.location_action.record_triggered(self.trigger_context.ts)
 
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return self.__collection_config or VariableProcessorConfig()
+
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
         Evaluate an expression in the current frame.
@@ -74,7 +82,7 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache, self.collection_config)
 
         try:
             result = self.trigger_context.evaluate_expression(watch)
@@ -93,7 +101,7 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
 
         return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..058f31f 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -34,7 +34,8 @@ import deep.logging
 from deep.api.attributes import BoundedAttributes
 from deep.api.tracepoint import EventSnapshot
 from deep.api.tracepoint.constants import FRAME_TYPE, SINGLE_FRAME_TYPE, NO_FRAME_TYPE, ALL_FRAME_TYPE, STAGE, \
-    LINE_CAPTURE, METHOD_CAPTURE
+    LINE_CAPTURE, METHOD_CAPTURE, MAX_TP_PROCESS_TIME, MAX_STRING_LENGTH, MAX_COLLECTION_SIZE, MAX_VARIABLES, \
+    MAX_VAR_DEPTH
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_WATCH
 from deep.api.tracepoint.trigger import LocationAction
 from deep.processor.context.action_context import ActionContext
@@ -53,20 +54,26 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     @property
     def max_tp_process_time(self) -> int:
         """The max time to spend processing a tracepoint."""
-        return self.location_action.config.get('MAX_TP_PROCESS_TIME', 100)
+        return self.__get_limit(MAX_TP_PROCESS_TIME, 100)
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
         """The variable processing config."""
         config = VariableProcessorConfig()
-        config.max_string_length = self.location_action.config.get('MAX_STRING_LENGTH',
-                                                                   config.DEFAULT_MAX_STRING_LENGTH)
-        config.max_collection_size = self.location_action.config.get('MAX_COLLECTION_SIZE',
-                                                                     config.DEFAULT_MAX_COLLECTION_SIZE)
-        config.max_variables = self.location_action.config.get('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
-        config.max_var_depth = self.location_action.config.get('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
+        config.max_string_length = self.__get_limit(MAX_STRING_LENGTH, config.DEFAULT_MAX_STRING_LENGTH)
+        config.max_collection_size = self.__get_limit(MAX_COLLECTION_SIZE, config.DEFAULT_MAX_COLLECTION_SIZE)
+        config.max_variables = self.__get_limit(MAX_VARIABLES, config.DEFAULT_MAX_VARIABLES)
+        config.max_var_depth = self.__get_limit(MAX_VAR_DEPTH, config.DEFAULT_MAX_VAR_DEPTH)
         return config
 
+    def __get_limit(self, name: str, default_value: int) -> int:
+        # the args are text when they come from the service, and can be anything when they come from code
+        try:
+            limit = int(self.location_action.config.get(name, default_value))
+        except (ValueError, TypeError, OverflowError):
+            return default_value
+        return limit if limit >= 0 else default_value
+
     @property
     def ts(self) -> int:
         """The timestamp in nanoseconds for this trigger."""
@@ -126,7 +133,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
             # create and process the log message
             context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
-            }, LocationAction.ActionType.Log))
+            }, LocationAction.ActionType.Log), self.collection_config)
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
-- 
2.43.0


From 22ef50402bfe862be4c848d42566b8c3eb17558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 03/36] fix: only demangle attribute names that python has
 mangled

Any attribute starting with an underscore and the class name was renamed, e.g. _Foo_size on Foo became _size.
---
 src/deep/processor/variable_processor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..eb24911 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -299,8 +299,10 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    # python only does this for names with two leading, and not two trailing, underscores
+    class_name = name.lstrip("_")
+    prefix = "_" + class_name
+    if len(class_name) > 0 and val.startswith(prefix + "__") and not val.endswith("__"):
         return val[len(prefix):]
     return val
 
-- 
2.43.0


From 4db2134b6b2fa91274ee9e2940aaa7cb80202178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 04/36] fix: collect data from any type of value

Objects without a __dict__, dicts with non text keys, and objects that fail when
converted to a string or when accessing attributes caused the snapshot to be lost.
---
 src/deep/processor/frame_collector.py        | 28 ++++++-
 src/deep/processor/variable_processor.py     | 80 +++++++++++++-------
 src/deep/processor/variable_set_processor.py |  6 +-
 3 files changed, 80 insertions(+), 34 deletions(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..f5188be 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -19,8 +19,10 @@ import abc
 from types import FrameType
 from typing import Tuple, Dict, List
 
+from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
+from .variable_processor import type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -130,6 +132,26 @@ class FrameCollector:
             current_frame = current_frame.f_back
         return collected_frames, var_lookup
 
+    @staticmethod
+    def __frame_locals(frame: FrameType) -> Dict[str, any]:
+        try:
+            # this can be any mapping if this is the frame of a class body
+            return dict(frame.f_locals)
+        except BaseException:
+            logging.exception("Cannot read frame locals.")
+            return {}
+
+    @staticmethod
+    def __class_name(value: any) -> str:
+        try:
+            # mocks and proxies can report any class here
+            name = value.__class__.__name__
+            if type(name) is str:
+                return name
+        except BaseException:
+            logging.debug("Cannot get class name of self.")
+        return type_name(type(value))
+
     def _process_frame(self, var_lookup: Dict[str, Variable], var_cache: VariableCacheProvider,
                        frame: FrameType, collect_vars: bool) -> StackFrame:
         # process the current frame info
@@ -137,11 +159,11 @@ class FrameCollector:
         filename = frame.f_code.co_filename
         func_name = frame.f_code.co_name
 
-        f_locals = frame.f_locals
+        f_locals = self.__frame_locals(frame)
         _self = f_locals.get('self', None)
         class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        if _self is not None:
+            class_name = self.__class_name(_self)
 
         var_ids = []
         # only process vars if we are under the time limit
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index eb24911..47793df 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -50,6 +50,9 @@ LIST_LIKE_TYPES = [
 ]
 """A list of types that we should handle like lists."""
 
+BUILTIN_LIST_LIKE_TYPES = (frozenset, set, list, tuple)
+"""The types for the list like names, other types with these names can behave in any way."""
+
 ITER_LIKE_TYPES = [
     'list_iterator',
     'listiterator',
@@ -179,6 +182,33 @@ def var_modifiers(var_name: str) -> List[str]:
     return []
 
 
+def type_name(type_: type) -> str:
+    """
+    Get the name of a type.
+
+    The name can be hidden by a metaclass, so we do not look it up on the type.
+
+    :param type_: the type to get the name of
+    :return: the name of the type
+    """
+    return type.__dict__['__name__'].__get__(type_)
+
+
+def value_to_string(value: any) -> str:
+    """
+    Convert any value to a string.
+
+    It is possible for str to fail (or return other types) if there is a custom __str__/__repr__ function.
+
+    :param value: the value to convert
+    :return: the string of the value, or a placeholder if there is no string for this value
+    """
+    try:
+        return str.__str__(str(value))
+    except BaseException:
+        return f'{type.__repr__(type(value))}@{id(value)}'
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -187,21 +217,16 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if type_name(variable_type) in ITER_LIKE_TYPES:
         # if interator like then make a custom string - we do not want to mess with iterators
-        return 'Iterator of type: %s' % variable_type
-    elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+        return 'Iterator of type: %s' % value_to_string(variable_type)
+    elif variable_type is dict or variable_type in BUILTIN_LIST_LIKE_TYPES:
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
-        try:
-            # everything else just gets a string value
-            return str(var_value)
-        except Exception:
-            # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+        # everything else just gets a string value
+        return value_to_string(var_value)
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -237,7 +262,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -274,7 +299,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if type_name(variable_type) in NO_CHILD_TYPES:
         return []
 
     # if the depth is more than we are configured - return empty
@@ -318,18 +343,18 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :param variable_type: the type of the variable
     :return: list of child nodes
     """
-    if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
-        return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
-        return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
-    elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
-    else:
-        logging.debug("Unknown type processed %s", variable_type)
+    try:
+        if variable_type is dict:
+            return process_dict_breadth_first(parent_node, type_name(variable_type), value)
+        elif variable_type in BUILTIN_LIST_LIKE_TYPES:
+            return process_list_breadth_first(var_collector, parent_node, value)
+        elif issubclass(variable_type, BaseException):
+            # 'args' can be replaced in the sub types
+            return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))
+        # there are lots of types that do not have a __dict__, and it can be replaced with anything
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value.__dict__, correct_names)
+    except BaseException:
+        logging.debug("Cannot find children of type %s", type_name(variable_type))
         return []
 
 
@@ -347,10 +372,9 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :param func:
     :return (list): the collected child nodes
     """
-    # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    # we wrap the items() in a call to list to prevent concurrent changes, the keys can be of any type
+    return [Node(value=NodeValue(func(type_name, key), val_, key), parent=parent_node) for key, val_ in
+            [(value_to_string(key), val_) for key, val_ in list(value.items())]]
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..f4446e7 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -33,7 +33,7 @@ from typing import Tuple, Optional, Dict
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
-    process_child_nodes, Collector
+    process_child_nodes, value_to_string, Collector
 
 
 class VariableCacheProvider:
@@ -131,7 +131,7 @@ class VariableSetProcessor(Collector):
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name), value_to_string(value)
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -148,7 +148,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name), value_to_string(value)
 
     def search_function(self, node: Node) -> bool:
         """
-- 
2.43.0


From 31993e33b248fd65cb6ec44d028bfb64ce5df842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 05/36] fix: each snapshot has its own complete variable table

The variable table and identity cache were shared by all the actions of an event, so
one action could remove or hide the variables of another. The locals dict was recorded
and then removed, leaving dangling references, and the ids of released values could be
reused by other values.
---
 src/deep/processor/context/action_context.py  | 37 ++++++++++++++-----
 src/deep/processor/context/snapshot_action.py |  4 +-
 src/deep/processor/context/trigger_context.py |  4 --
 src/deep/processor/frame_collector.py         | 13 ++-----
 src/deep/processor/variable_set_processor.py  | 33 ++++++++++++++---
 5 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 511c952..12c3ad8 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -34,8 +34,10 @@ from typing import Tuple, TYPE_CHECKING, Dict, Optional
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.logging import logging
-from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor, VariableProcessorConfig
+from deep.api.tracepoint import WatchResult, Variable, VariableId
+from deep.processor.variable_processor import value_to_string
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableProcessorConfig, \
+    VariableCacheProvider
 from deep.utils import str2bool
 
 if TYPE_CHECKING:
@@ -47,17 +49,21 @@ class ActionContext(abc.ABC):
     """A context for the processing of an action."""
 
     def __init__(self, parent: 'TriggerContext', action: 'LocationAction',
-                 collection_config: Optional[VariableProcessorConfig] = None):
+                 collection_config: Optional[VariableProcessorConfig] = None,
+                 var_cache: Optional[VariableCacheProvider] = None):
         """
         Create a new action context.
 
         :param parent: the parent trigger
         :param action: the action config
         :param collection_config: the limits to apply to collected data, or None to use the default
+        :param var_cache: the cache of the variable table to add to, or None to create a new table
         """
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
         self.__collection_config = collection_config
+        # each action has its own variable table, so what is sent for one does not depend on the others
+        self.var_cache = var_cache or VariableCacheProvider()
         self._triggered = False
 
     def __enter__(self):
@@ -82,16 +88,24 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache, self.collection_config)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
 
         try:
             result = self.trigger_context.evaluate_expression(watch)
             variable_id, log_str = var_processor.process_variable(watch, result)
 
-            return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
+            return self.__watch_result(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
             logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            error = value_to_string(e)
+            return WatchResult(source, watch, None, error), var_processor.var_lookup, error
+
+    @staticmethod
+    def __watch_result(source: str, watch: str, variable_id: VariableId) -> WatchResult:
+        if variable_id.vid is None:
+            # the value was not recorded, so there is nothing we can refer to
+            return WatchResult(source, watch, None, 'Not collected: max number of variables reached')
+        return WatchResult(source, watch, variable_id)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -101,10 +115,15 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache, self.collection_config)
-        variable_id, log_str = var_processor.process_variable(name, variable)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
+        try:
+            variable_id, log_str = var_processor.process_variable(name, variable)
+        except BaseException as e:
+            logging.exception("Error processing captured variable %s", name)
+            error = value_to_string(e)
+            return WatchResult(WATCH_SOURCE_CAPTURE, name, None, error), var_processor.var_lookup, error
 
-        return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
+        return self.__watch_result(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
 
     def process(self):
         """Process the action."""
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 058f31f..5627f5e 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -117,7 +117,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -133,7 +133,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
             # create and process the log message
             context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
-            }, LocationAction.ActionType.Log), self.collection_config)
+            }, LocationAction.ActionType.Log), self.collection_config, self.var_cache)
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..00fe677 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index f5188be..556140c 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -22,7 +22,7 @@ from typing import Tuple, Dict, List
 from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
-from .variable_processor import type_name
+from .variable_processor import type_name, value_to_string
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -136,7 +136,7 @@ class FrameCollector:
     def __frame_locals(frame: FrameType) -> Dict[str, any]:
         try:
             # this can be any mapping if this is the frame of a class body
-            return dict(frame.f_locals)
+            return {value_to_string(name): value for name, value in dict(frame.f_locals).items()}
         except BaseException:
             logging.exception("Cannot read frame locals.")
             return {}
@@ -169,13 +169,8 @@ class FrameCollector:
         # only process vars if we are under the time limit
         if collect_vars and not self.__time_exceeded():
             processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)
-            # we process the vars as a single dict of 'locals'
-            variable, log_str = processor.process_variable("locals", f_locals)
-            # now ee 'unwrap' the locals, so they are on the frame directly.
-            if variable.vid in var_lookup:
-                variable_val = var_lookup[variable.vid]
-                del var_lookup[variable.vid]
-                var_ids = variable_val.children
+            # we process the locals directly, so they are on the frame, and the dict that holds them is not recorded.
+            var_ids = processor.process_variables(f_locals)
         short_path, app_frame = self.parse_short_name(filename)
         return StackFrame(filename, short_path, func_name, lineno, var_ids, class_name,
                           app_frame=app_frame)
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index f4446e7..cb8e0df 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -28,7 +28,7 @@
 
 """Handle the processing of variables sets."""
 
-from typing import Tuple, Optional, Dict
+from typing import Tuple, Optional, Dict, List
 
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
@@ -48,6 +48,7 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__values = {}
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -60,6 +61,16 @@ class VariableCacheProvider:
             return self.__cache[identity_hash_id]
         return None
 
+    def keep_value(self, value: any):
+        """
+        Keep a recorded value alive for the life of this cache.
+
+        The identity of a value can be reused as soon as it is released, which would make different values share an id.
+
+        :param value: the value that has been recorded
+        """
+        self.__values[id(value)] = value
+
     @property
     def size(self):
         """The number of variables we have cached."""
@@ -134,6 +145,19 @@ class VariableSetProcessor(Collector):
             return VariableId(check_id, name), value_to_string(value)
 
         # else this is an unknown value so process breadth first
+        self.process_variables({name: value})
+
+        var_id = self.__var_cache.check_id(identity_hash_id)
+
+        return VariableId(var_id, name), value_to_string(value)
+
+    def process_variables(self, variables: Dict[str, any]) -> List[VariableId]:
+        """
+        Process a set of named variables, and all the data they reference.
+
+        :param variables: the variables to process
+        :return: the ids of the processed variables
+        """
         var_ids = []
 
         class FrameParent(ParentNode):
@@ -143,12 +167,10 @@ class VariableSetProcessor(Collector):
 
         root_parent = FrameParent()
 
-        initial_nodes = [Node(NodeValue(name, value), parent=root_parent)]
+        initial_nodes = [Node(NodeValue(name, value), parent=root_parent) for name, value in variables.items()]
         breadth_first_search(Node(None, initial_nodes, root_parent), self.search_function)
 
-        var_id = self.__var_cache.check_id(identity_hash_id)
-
-        return VariableId(var_id, name), value_to_string(value)
+        return var_ids
 
     def search_function(self, node: Node) -> bool:
         """
@@ -171,6 +193,7 @@ class VariableSetProcessor(Collector):
         # process this node variable
         process_result = process_variable(self, node_value)
         var_id = process_result.variable_id
+        self.__var_cache.keep_value(node_value.value)
         # add the result to the parent - this maintains the hierarchy in the var look up
         node.parent.add_child(var_id)
 
-- 
2.43.0


From 0515ebeb53355254c6c5f500ecc5be3479472d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 06/36] fix: check and record the rate limits in a single step

The fire count and period were checked before, and recorded after, the action was processed, so
threads hitting a tracepoint at the same time could exceed the limits. The time window was never
passed to the action, bad values were not handled, and a config update reset the limits of all tracepoints.
---
 src/deep/api/tracepoint/tracepoint_config.py |  6 ++-
 src/deep/api/tracepoint/trigger.py           | 45 +++++++++++++++-----
 src/deep/processor/context/action_context.py | 12 ++++--
 src/deep/processor/trigger_handler.py        | 12 ++++++
 4 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/src/deep/api/tracepoint/tracepoint_config.py b/src/deep/api/tracepoint/tracepoint_config.py
index 1ea190c..6633209 100644
--- a/src/deep/api/tracepoint/tracepoint_config.py
+++ b/src/deep/api/tracepoint/tracepoint_config.py
@@ -15,6 +15,7 @@
 
 """Internal type for configured tracepoints."""
 
+import threading
 from typing import List, Optional
 
 from deep.api.tracepoint.constants import SINGLE_FRAME_TYPE, ALL_FRAME_TYPE, NO_FRAME_TYPE, FRAME_TYPE, STACK_TYPE, \
@@ -57,7 +58,7 @@ class TracepointWindow:
         """
         Is the provided time in the configured window.
 
-        :param ts: time in ms
+        :param ts: the time, in the same unit as the window
         :return: true, if the time is within the configured window, else false
         """
         # no window configured - return True
@@ -292,6 +293,7 @@ class TracepointExecutionStats:
 
     def __init__(self):
         """Create a new stats object."""
+        self.lock = threading.Lock()
         self._fire_count = 0
         self._last_fire = 0
 
@@ -304,7 +306,7 @@ class TracepointExecutionStats:
         :param ts: the time in nanoseconds
         """
         self._fire_count += 1
-        self._last_fire = ts
+        self._last_fire = max(self._last_fire, ts)
 
     @property
     def fire_count(self):
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 5e25567..07e4401 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -82,7 +82,7 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        self.__window = TracepointWindow(self.__window_ns(WINDOW_START), self.__window_ns(WINDOW_END))
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
@@ -156,6 +156,10 @@ class LocationAction(object):
     def __fire_period_ns(self):
         return self.fire_period * 1_000_000
 
+    def __window_ns(self, name):
+        # the window is configured in ms, but the triggers are in ns
+        return max(0, self.__get_int(name, 0)) * 1_000_000
+
     def can_trigger(self, ts):
         """
         Check if the tracepoint can trigger.
@@ -173,28 +177,43 @@ class LocationAction(object):
             return False
 
         # Have we fired too quickly?
-        last_fire = self.__stats.last_fire
-        if last_fire != 0:
-            time_since_last = ts - last_fire
+        if self.__stats.fire_count > 0 and self.__fire_period_ns() > 0:
+            time_since_last = ts - self.__stats.last_fire
             if time_since_last < self.__fire_period_ns():
                 return False
 
         return True
 
-    def record_triggered(self, ts):
+    def record_triggered(self, ts) -> bool:
         """
-        Record a fire.
+        Record a fire, if it is (still) allowed.
 
-        Call this to record this tracepoint being triggered.
+        Call this to record this tracepoint being triggered. As many threads can be at the same location the limits
+        have to be checked in the same step as the fire is recorded.
 
         :param ts: the time in nanoseconds
+        :return: True, if the fire is recorded, or False if there is no fire allowed at this time
+        """
+        with self.__stats.lock:
+            if not self.can_trigger(ts):
+                return False
+            self.__stats.fire(ts)
+            return True
+
+    def continue_from(self, other: 'LocationAction'):
+        """
+        Continue with the limits as they are used by another action.
+
+        When a config is updated the tracepoints that have not changed have to respect the triggers that already occurred.
+
+        :param other: the action to continue from
         """
-        self.__stats.fire(ts)
+        self.__stats = other.__stats
 
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -212,7 +231,8 @@ class LocationAction(object):
 
     def __eq__(self, __value):
         """Check if this is equal to another."""
-        if self.__id == __value.__id and self.__condition == __value.__condition and self.__config == __value.__config:
+        if self.__id == __value.__id and self.__condition == __value.__condition \
+                and self.__config == __value.__config and self.__action_type == __value.__action_type:
             return True
         return False
 
@@ -573,7 +593,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
-        **__optional_args(args, *COLLECTION_LIMITS),
+        **__optional_args(args, WINDOW_START, WINDOW_END, *COLLECTION_LIMITS),
     }, LocationAction.ActionType.Snapshot)
 
 
@@ -595,6 +615,7 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__optional_args(args, WINDOW_START, WINDOW_END),
     }, LocationAction.ActionType.Log)
 
 
@@ -615,6 +636,7 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__optional_args(args, WINDOW_START, WINDOW_END),
     }, LocationAction.ActionType.Metric)
 
 
@@ -634,6 +656,7 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__optional_args(args, WINDOW_START, WINDOW_END),
     }, LocationAction.ActionType.Span)
 
 
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 12c3ad8..21e90e9 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -72,8 +72,7 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
+        pass
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
@@ -148,11 +147,18 @@ class ActionContext(abc.ABC):
         """
         Check if the action can trigger.
 
-        Combine checks for rate limits, windows and condition.
+        Combine checks for rate limits, windows and condition. If the action can trigger then this is recorded, so
+        no other thread can use the same trigger.
+
         :return: True, if the trigger can be triggered.
         """
         if not self.location_action.can_trigger(self.trigger_context.ts):
             return False
+        if not self.__check_condition():
+            return False
+        return self.location_action.record_triggered(self.trigger_context.ts) is not False
+
+    def __check_condition(self) -> bool:
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
         result = self.trigger_context.evaluate_expression(self.location_action.condition)
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..710c291 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -115,8 +115,20 @@ class TriggerHandler:
 
         :param new_config: the new config to use
         """
+        for trigger in new_config:
+            self.__continue_actions(trigger)
         self._tp_config = new_config
 
+    def __continue_actions(self, new_trigger: 'Trigger'):
+        # the tracepoints that are still installed have to continue with the limits they have already used
+        for old_trigger in self._tp_config:
+            if old_trigger is new_trigger or old_trigger.id != new_trigger.id:
+                continue
+            for old_action in old_trigger.actions:
+                for new_action in new_trigger.actions:
+                    if new_action == old_action:
+                        new_action.continue_from(old_action)
+
     def trace_call(self, frame: FrameType, event: str, arg):
         """
         Process the data for a trace call.
-- 
2.43.0


From 5a81318ab411c4f61f091d90fc98ffe11049187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 07/36] fix: evaluate expressions in the scope of the frame

Expressions could not see the globals of the frame (but the globals of the agent), and a failed expression
was treated as a value: as a result of a watch or log field, and as the text of the error for conditions.
---
 src/deep/processor/context/action_context.py  |  8 +++++---
 src/deep/processor/context/metric_action.py   |  4 ++--
 src/deep/processor/context/trigger_context.py | 13 ++++++++-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 21e90e9..1a91606 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -38,7 +38,6 @@ from deep.api.tracepoint import WatchResult, Variable, VariableId
 from deep.processor.variable_processor import value_to_string
 from deep.processor.variable_set_processor import VariableSetProcessor, VariableProcessorConfig, \
     VariableCacheProvider
-from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.trigger_context import TriggerContext
@@ -161,8 +160,11 @@ class ActionContext(abc.ABC):
     def __check_condition(self) -> bool:
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
-        return str2bool(str(result))
+        try:
+            return bool(self.trigger_context.evaluate_expression(self.location_action.condition))
+        except BaseException:
+            deep.logging.exception("Cannot evaluate condition %s", self.location_action.condition)
+            return False
 
 
 class NoActionContext(ActionContext):
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..1671a6c 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -58,7 +58,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +68,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 00fe677..43748ba 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -143,13 +143,16 @@ class TriggerContext:
         """
         Evaluate an expression to a value.
 
+        The expression can see the globals and the locals of the frame. They are copied into a single scope so the
+        expression cannot change the frame, and nested scopes (e.g. comprehensions) can see the locals.
+
         :param expression: the expression
-        :return: the result of the expression, or the exception that was raised.
+        :return: the result of the expression
+        :raises BaseException: whatever is raised by the expression
         """
-        try:
-            return eval(expression, None, self.__frame.f_locals)
-        except BaseException as e:
-            return e
+        scope = dict(getattr(self.__frame, 'f_globals', {}))
+        scope.update(self.__frame.f_locals)
+        return eval(expression, scope)
 
     def attach_result(self, result: ActionResult):
         """
-- 
2.43.0


From 0d10ab09e08fbacf331b2079864379a896f91262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 08/36] fix: render log templates with any expression

A field using a format or conversion character (e.g. {a != b} or {x[1:2]}), or a template that is not a valid
format string, failed the whole log action (and snapshot) instead of the one field.
---
 src/deep/processor/context/log_action.py | 126 ++++++++++++++++++-----
 1 file changed, 99 insertions(+), 27 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..6f3966d 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -28,7 +28,8 @@
 
 """Handling for log actions."""
 
-from typing import TYPE_CHECKING, List, Dict, Optional
+import string
+from typing import TYPE_CHECKING, List, Dict, Optional, Callable
 
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
@@ -43,6 +44,95 @@ if TYPE_CHECKING:
     from .trigger_context import TriggerContext
 
 
+def render_template(template: str, evaluate: Callable[[str], str]) -> str:
+    """
+    Render a log template.
+
+    The '{expression}' fields are replaced with the result of evaluating the expression, and '{{' and '}}' with a single
+    brace. Text that is not a valid field (e.g. an unmatched brace) is kept as it is.
+
+    :param template: the template to render
+    :param evaluate: the function to call to get the text for an expression
+    :return: the rendered text
+    """
+    result = []
+    pos = 0
+    while pos < len(template):
+        char = template[pos]
+        if char in '{}' and template[pos:pos + 2] == char * 2:
+            result.append(char)
+            pos += 2
+            continue
+        end = _find_field_end(template, pos) if char == '{' else -1
+        if end == -1:
+            result.append(char)
+            pos += 1
+            continue
+        result.append(_render_field(template[pos + 1:end], evaluate))
+        pos = end + 1
+    return ''.join(result)
+
+
+def _scan(text: str, start: int, with_quotes: bool):
+    # scan the text for the characters (and how deep in brackets they are) that are not inside quotes
+    depth = 0
+    quote = None
+    pos = start
+    while pos < len(text):
+        char = text[pos]
+        if quote is not None:
+            if char == '\\':
+                pos += 1
+            elif char == quote:
+                quote = None
+        elif with_quotes and char in '"\'':
+            quote = char
+        else:
+            if char in '([{':
+                depth += 1
+            elif char in ')]}':
+                depth -= 1
+            yield pos, char, depth
+        pos += 1
+
+
+def _find_field_end(template: str, start: int) -> int:
+    for with_quotes in (True, False):
+        for pos, char, depth in _scan(template, start, with_quotes):
+            if char == '}' and depth == 0:
+                return pos
+    # the brackets are not balanced, so this is not an expression that can be evaluated
+    return template.find('}', start)
+
+
+def _is_expression(expression: str) -> bool:
+    try:
+        compile(expression.strip(), '<log>', 'eval')
+        return True
+    except BaseException:
+        return False
+
+
+def _render_field(field: str, evaluate: Callable[[str], str]) -> str:
+    # an expression can contain the characters we use to find the conversion and format
+    if not _is_expression(field):
+        for pos, char, depth in _scan(field, 0, True):
+            if depth == 0 and char in '!:' and _is_expression(field[:pos]):
+                return _format_field(evaluate(field[:pos]), field[pos:], evaluate)
+    return evaluate(field)
+
+
+def _format_field(value: str, format_: str, evaluate: Callable[[str], str]) -> str:
+    try:
+        conversion, separator, spec = format_.partition(':')
+        if len(conversion) > 0:
+            value = string.Formatter().convert_field(value, conversion[1:])
+        return format(value, render_template(spec, evaluate))
+    except Exception:
+        # we have the value, so if we cannot format it we use it as it is
+        return value
+
+
 class LogActionContext(ActionContext):
     """The context for processing a log action."""
 
@@ -62,36 +152,18 @@ class LogActionContext(ActionContext):
             (list) watch: the watch results from the expressions
             (dic) vars: the collected variables
         """
-        ctx_self = self
         watch_results = []
         _var_lookup = {}
 
-        class FormatDict(dict):
-            """This type is used in the log process to ensure that missing values are formatted don't error."""
-
-            def __missing__(self, key):
-                return "{%s}" % key
-
-        import string
-
-        class FormatExtractor(string.Formatter):
-            """
-            Allows logs to be formatted correctly.
-
-            This type allows us to use watches within log strings and collect the watch
-            as well as interpolate the values.
-            """
-
-            def get_field(self, field_name, args, kwargs):
-                # evaluate watch
-                watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-                # collect data
-                watch_results.append(watch)
-                _var_lookup.update(var_lookup)
-
-                return log_str, field_name
+        def evaluate(expression: str) -> str:
+            # evaluate watch
+            watch, var_lookup, log_str = self.eval_watch(expression, WATCH_SOURCE_LOG)
+            # collect data
+            watch_results.append(watch)
+            _var_lookup.update(var_lookup)
+            return log_str
 
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
+        log_msg = "[deep] %s" % render_template(log_msg, evaluate)
         return log_msg, watch_results, _var_lookup
 
 
-- 
2.43.0


From 6c60dc5783ecd59af22bf91764ad5312caaf10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 09/36] fix: label log messages with the tracepoint and context
 ids in the right place

---
 src/deep/processor/context/log_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 6f3966d..877435e 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -190,5 +190,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
-- 
2.43.0


From 297b526433c2297365307c8ba2b101f6c7464cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 10/36] fix: a failing plugin does not affect the other plugins

Metric processors, span processors and spans were called without containing failures, so
the plugins that follow a failing plugin were not called.
---
 src/deep/processor/context/metric_action.py   | 10 ++++++++--
 src/deep/processor/context/snapshot_action.py |  4 ++--
 src/deep/processor/context/span_action.py     | 15 +++++++++++----
 src/deep/processor/context/trigger_context.py |  4 ++--
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 1671a6c..3ad2d1b 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -41,8 +41,14 @@ class MetricActionContext(ActionContext):
         for metric in metrics:
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                try:
+                    # each processor gets its own labels, so they cannot affect each other
+                    getattr(processor, self._convert_type(metric.type))(metric.name, dict(labels),
+                                                                        metric.namespace or "deep",
+                                                                        metric.help, metric.unit, value)
+                except BaseException:
+                    deep.logging.exception("Cannot process metric %s with %s", metric.name,
+                                           type(processor).__name__)
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 5627f5e..8ad8536 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -192,8 +192,8 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
-                deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
+            except BaseException:
+                deep.logging.exception("Failed to decorate snapshot: %s ", type(decorator).__name__)
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
 
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..d1ef7f9 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+import deep.logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                deep.logging.exception("Cannot close span")
         return False
 
 
@@ -86,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span is not None:
+                    spans.append(span)
+            except BaseException:
+                deep.logging.exception("Cannot create span %s with %s", name, type(span_processor).__name__)
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 43748ba..462aef3 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -74,8 +74,8 @@ class TriggerContext:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("failed to process result %s", result)
 
     @property
     def id(self):
-- 
2.43.0


From 0227baf9cbfb53af82c2b8721591a0a0c4398645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 11/36] fix: skip plugins that fail in any way while loading

A plugin with a failing (or not numeric) order, or that was switched on using a boolean, failed or was skipped.
---
 src/deep/api/plugin/__init__.py | 37 +++++++++++++++++++++------------
 src/deep/utils.py               |  2 +-
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..3fdda1b 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -42,12 +42,12 @@ def __plugin_generator(configured):
     for plugin in configured:
         try:
             module, cls = plugin.rsplit(".", 1)
-            yield getattr(import_module(module), cls)
+            plugin_type = getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
-            logging.debug(
-                "Did not import integration %s: %s", plugin, e
-            )
+        except BaseException:
+            logging.debug("Did not import integration %s", plugin, exc_info=True)
+            continue
+        yield plugin_type
 
 
 def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
@@ -61,18 +61,29 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
     if custom is None:
         custom = []
     loaded = []
-    for plugin in __plugin_generator(DEEP_PLUGINS + custom):
+    for plugin in __plugin_generator(DEEP_PLUGINS + list(custom)):
         try:
             plugin_instance = plugin(config=config)
             if not plugin_instance.is_active():
-                logging.debug("Plugin %s is not active.", plugin_instance.name)
+                logging.debug("Plugin %s is not active.", plugin)
                 continue
-            loaded.append(plugin_instance)
-        except Exception as e:
-            logging.debug("Could not load plugin %s: %s", plugin, e)
-
-    loaded.sort(key=lambda pl: pl.order() or 0)
-    return loaded
+            loaded.append((__plugin_order(plugin_instance), plugin_instance))
+        except BaseException:
+            logging.debug("Could not load plugin %s", plugin, exc_info=True)
+
+    loaded.sort(key=lambda ordered: ordered[0])
+    return [plugin_instance for _, plugin_instance in loaded]
+
+
+def __plugin_order(plugin: 'Plugin') -> float:
+    try:
+        order = plugin.order()
+        # NaN cannot be ordered
+        if isinstance(order, (int, float)) and order == order:
+            return order
+    except BaseException:
+        logging.exception("Cannot get order of plugin %s", type(plugin).__name__)
+    return 0
 
 
 class Plugin(abc.ABC):
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..5a70c27 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -42,7 +42,7 @@ def str2bool(string):
     :param string: the string to convert
     :return: True, if string is yes, true, t or 1. (case-insensitive)
     """
-    return string.lower() in ("yes", "true", "t", "1", "y")
+    return str(string).lower() in ("yes", "true", "t", "1", "y")
 
 
 class RepeatedTimer:
-- 
2.43.0


From e788d87ee4814c8c813d16eed25f0540f1ac1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 12/36] fix: snapshots name the tracepoint as it was configured

The tracepoint on a snapshot was created from the config of the action, so was missing args, and the line of method tracepoints.
---
 src/deep/api/tracepoint/trigger.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 07e4401..b04fc5e 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -86,6 +86,7 @@ class LocationAction(object):
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -145,6 +146,8 @@ class LocationAction(object):
     @property
     def tracepoint(self) -> TracePointConfig:
         """Get the tracepoint config for this trigger."""
+        if self.__tracepoint is not None:
+            return self.__tracepoint
         args = dict(self.__config)
         if WATCHES in args:
             del args[WATCHES]
@@ -248,6 +251,16 @@ class LocationAction(object):
         self.__location = location
         return self
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint that was used to create this action.
+
+        :param tracepoint: the tracepoint config, as it was received.
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
 
 class Location(abc.ABC):
     """A location is the line or method at which actions should be performed."""
@@ -694,7 +707,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     metric_action = build_metric_action(tp_id, args, metrics)
     span_action = build_span_action(tp_id, args)
 
-    actions = [action for action in [snap_action, log_action, metric_action, span_action] if
+    tracepoint = TracePointConfig(tp_id, path, line_no, dict(args), list(watches or []), list(metrics or []))
+    actions = [action.with_tracepoint(tracepoint) for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
     return Trigger(location, actions)
-- 
2.43.0


From 381ab4f0dc57ae247d48d2caeef0a131badcb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 13/36] fix: contain tracepoints that cannot be interpreted

A tracepoint with an unknown stage (or any other problem) caused the whole response to be rejected.
---
 src/deep/grpc/__init__.py             | 12 ++++++++++--
 src/deep/processor/trigger_handler.py |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..1eec300 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -29,6 +29,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
+from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
@@ -120,8 +121,15 @@ def convert_response(response) -> List[Trigger]:
     all_triggers: Dict[str, Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
+        try:
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            logging.exception("Cannot process tracepoint %s", r.ID)
+            continue
+        if trigger is None:
+            logging.warning("Unsupported tracepoint %s", r.ID)
+            continue
         location_id = trigger.id
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 710c291..d9a4b0f 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -185,8 +185,11 @@ class TriggerHandler:
     def __actions_for_location(self, event, file, line, function, frame):
         actions = []
         for trigger in self._tp_config:
-            if trigger.at_location(event, file, line, function, frame):
-                actions += trigger.actions
+            try:
+                if trigger.at_location(event, file, line, function, frame):
+                    actions += trigger.actions
+            except BaseException:
+                logging.exception("Cannot check location %s", trigger)
         return actions
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
-- 
2.43.0


From ab800101b944f55df3236d3007cac16b760c56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 14/36] fix: place method tracepoints on function entry

Resuming a generator was seen as entering it, methods identified by a line failed on source lookup and were
acting on any event, the stage was not available to the snapshot action, and a method could share the location
of a line.
---
 src/deep/api/tracepoint/trigger.py        | 41 ++++++++++++-----------
 src/deep/processor/context/span_action.py |  3 +-
 src/deep/utils.py                         | 20 +++++++++++
 3 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index b04fc5e..668335b 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,7 +29,7 @@
 """Handlers for triggers and action configs."""
 
 import abc
-import inspect
+import dis
 from enum import Enum
 from types import FrameType
 
@@ -41,6 +41,7 @@ from deep.api.tracepoint.constants import WINDOW_START, WINDOW_END, FIRE_COUNT,
     COLLECTION_LIMITS
 from deep.api.tracepoint.tracepoint_config import TracepointWindow, TracepointExecutionStats, MetricDefinition, \
     TracePointConfig
+from deep.utils import is_function_entry
 
 
 class LocationAction(object):
@@ -207,7 +208,7 @@ class LocationAction(object):
         """
         Continue with the limits as they are used by another action.
 
-        When a config is updated the tracepoints that have not changed have to respect the triggers that already occurred.
+        When a config is updated the tracepoints that have not changed have to respect the triggers that occurred.
 
         :param other: the action to continue from
         """
@@ -500,16 +501,19 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position,
+                 function_line: Optional[int] = None):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param function_line: a line in the function, used to find the function if there is no name
         """
         super().__init__(position)
         self.__function_name = function_name
+        self.__function_line = function_line
         self.__path = path
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType):
@@ -523,29 +527,27 @@ class FunctionLocation(Location):
         :param frame: the triggering frame object
         :return: True, if we are at this location we expect, else False.
         """
-        if file != self.path:
+        if event != "call" or file != self.path or not is_function_entry(frame):
             return False
 
         # if method_name is not set then we need to discover it from the frame.
         if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
-                # set the method to this name (so we do not need to look it up again)
-                self.__function_name = function_name
-                return True
-            return False
+            return self.__is_in_function(function_name, frame)
 
-        if event == "call" and function_name == self.__function_name:
-            return True
-        return False
+        return function_name == self.__function_name
+
+    def __is_in_function(self, function_name: str, frame: FrameType):
+        # names like <module> and <lambda> are not functions
+        if self.__function_line is None or function_name.startswith('<'):
+            return False
+        return any(line == self.__function_line for _, line in dis.findlinestarts(frame.f_code))
 
     @property
     def id(self):
         """The location id."""
-        return "%s#%s" % (self.path, self.__function_name)
+        if self.__function_name is None:
+            return "%s#(%s)" % (self.path, self.__function_line)
+        return "%s#%s()" % (self.path, self.__function_name)
 
     @property
     def path(self):
@@ -606,7 +608,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
-        **__optional_args(args, WINDOW_START, WINDOW_END, *COLLECTION_LIMITS),
+        **__optional_args(args, STAGE, WINDOW_START, WINDOW_END, *COLLECTION_LIMITS),
     }, LocationAction.ActionType.Snapshot)
 
 
@@ -698,7 +700,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        method_name = args.get(METHOD_NAME, None)
+        location = FunctionLocation(path, method_name, position, line_no if method_name is None else None)
     else:
         return None
 
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index d1ef7f9..7b72d2e 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -104,4 +104,5 @@ class SpanActionContext(ActionContext):
     def _span_name(self):
         location = self.location_action.location
         if location:
-            return location.name
+            # the location does not have a name if the method is found using the line
+            return location.name or self.trigger_context.frame.f_code.co_name
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 5a70c27..57f3ddc 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,9 +15,12 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
+import dis
+import inspect
 import logging
 import time
 from threading import Event, Thread
+from types import FrameType
 
 
 def snapshot_id_as_hex_str(snapshot_id):
@@ -45,6 +48,23 @@ def str2bool(string):
     return str(string).lower() in ("yes", "true", "t", "1", "y")
 
 
+def is_function_entry(frame: FrameType) -> bool:
+    """
+    Check if a 'call' event is for a function that is starting, or for a generator (or coroutine) that is resuming.
+
+    :param frame: the frame of the 'call' event
+    :return: True, if the function is starting
+    """
+    code = frame.f_code
+    if not code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR):
+        return True
+    if frame.f_lasti < 0:
+        return True
+    # since 3.11 this is at the instruction used to start or resume the frame, the arg is 0 when starting
+    op_code, arg = code.co_code[frame.f_lasti:frame.f_lasti + 2]
+    return dis.opname[op_code] == 'RESUME' and arg & 3 == 0
+
+
 class RepeatedTimer:
     """Repeat `function` every `interval` seconds."""
 
-- 
2.43.0


From ad814a2960fb8f807beeae25a43662f7c2207b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 15/36] fix: pending callbacks are not inherited by other
 threads

The values were stored in a shared dict using the thread ident, that is reused by new threads.
---
 src/deep/thread_local.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..b1918bc 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,8 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        # thread idents are reused, so use a store that is released with the thread
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,11 +41,10 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
+        get = getattr(self.__store, 'value', None)
         if get is None:
             get = self.__default_provider()
-            self.__store[current_thread.ident] = get
+            self.__store.value = get
         return get
 
     def set(self, val: T):
@@ -54,14 +53,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if self.is_set:
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +67,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From de9175c9e157f3c45bf6d532d75fd19c2440ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 16/36] fix: never raise from the trace function, and only
 restore hooks that were installed

A failure while matching or running callbacks was raised in the application (and python stopped tracing the thread).
Shutdown removed trace hooks that were not installed by us when tracing is disabled, and other threads continued
to process tracepoints after shutdown.
---
 src/deep/processor/trigger_handler.py | 33 ++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index d9a4b0f..79cf4c9 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -37,6 +37,7 @@ from deep.processor.context.callback_context import CallbackContext
 from deep.processor.context.trigger_context import TriggerContext
 from deep.push import PushService
 from deep.thread_local import ThreadLocal
+from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.action_context import ActionContext
@@ -88,6 +89,8 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__is_tracing = False
+        self.__is_shutdown = False
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -98,12 +101,14 @@ class TriggerHandler:
         """Start the trigger handler."""
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        self.__is_shutdown = False
+        if self.__is_tracing or str2bool(self._config.NO_TRACE):
             return
         self.__old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
         # noinspection PyUnresolvedReferences,PyProtectedMember
         self.__old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
+        self.__is_tracing = True
         sys.settrace(self.trace_call)
         threading.settrace(self.trace_call)
 
@@ -147,6 +152,25 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        try:
+            return self.__process_event(frame, event, arg)
+        except BaseException:
+            # anything raised from here is raised in the application, and python will stop tracing the thread
+            self.__log_failure(event)
+        return self.trace_call
+
+    @staticmethod
+    def __log_failure(event: str):
+        try:
+            logging.exception("Cannot process event %s", event)
+        except BaseException:
+            # we cannot log, so there is nothing more we can do
+            pass
+
+    def __process_event(self, frame: FrameType, event: str, arg):
+        if self.__is_shutdown:
+            return None
+
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
@@ -238,5 +262,12 @@ class TriggerHandler:
 
         Reset the settrace to the previous values.
         """
+        # the settrace functions only affect new frames in this thread, so the other threads can still call us
+        self.__is_shutdown = True
+        if not self.__is_tracing:
+            return
+        self.__is_tracing = False
         sys.settrace(self.__old_sys_trace)
         threading.settrace(self.__old_thread_trace)
+        self.__old_sys_trace = None
+        self.__old_thread_trace = None
-- 
2.43.0


From fab98a866195f64eef67d99aa18151482f71982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 17/36] fix: complete deferred work with the invocation that
 opened it

---
 .../processor/context/callback_context.py     | 192 +++++++++++++++++-
 src/deep/processor/context/trigger_context.py |   2 +
 src/deep/processor/trigger_handler.py         |  53 +++--
 3 files changed, 225 insertions(+), 22 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..6873731 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,14 +14,127 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import dis
+import inspect
+import sys
+import weakref
 from types import FrameType
-from typing import List
+from typing import Callable, Dict, List, Optional, Tuple
 
+from deep import logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
 from deep.processor.context.trigger_context import TriggerContext
 
+GENERATOR_FLAGS = inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR
+"""The flags of code that can be suspended."""
+
+
+class FrameTracer:
+    """
+    Trace function for a single frame.
+
+    A generator that is closed, or garbage collected, while suspended can end without an event. As this is only
+    referenced by the frame, it is released with the frame.
+    """
+
+    def __init__(self, trace_function: Callable):
+        """
+        Create new frame tracer.
+
+        :param trace_function: the function to process the events
+        """
+        self.__trace_function = trace_function
+
+    def __call__(self, frame: FrameType, event: str, arg: any):
+        """
+        Process the event.
+
+        :param frame: the current frame
+        :param event: the event
+        :param arg: the event arg
+        :return: the trace function to use for the next events of the frame
+        """
+        return self if self.__trace_function(frame, event, arg) is not None else None
+
+    @staticmethod
+    def is_required(frame: FrameType) -> bool:
+        """
+        Check if the frame can be suspended.
+
+        :param frame: the frame to check
+        :return: True, if the frame can end without an event
+        """
+        return bool(frame.f_code.co_flags & GENERATOR_FLAGS)
+
+
+class FrameExit:
+    """
+    Find out how a frame ends.
+
+    The 'return' event is used when a value is returned, when a generator (or coroutine) is suspended, and when a frame
+    is left due to an exception.
+    """
+
+    def __init__(self):
+        """Create new frame exit."""
+        # the exceptions raised in this frame, by instruction
+        self.__raised: Dict[int, Tuple] = {}
+        # the exception that is being raised, or handled, by this frame
+        self.__active: Optional[Tuple] = self.__handled_exception()
+        self.result: Optional[Tuple[str, any]] = None
+        """The event and arg the frame ended with, or None if it has not ended."""
+
+    def track_event(self, frame: FrameType, event: str, arg: any):
+        """
+        Track an event for the frame.
+
+        :param frame: the frame
+        :param event: the event
+        :param arg: the event arg
+        """
+        if event == 'exception':
+            self.__raised[frame.f_lasti] = arg
+            self.__active = arg
+        elif event == 'line':
+            if self.__instruction(frame) != 'PUSH_EXC_INFO':
+                self.__active = self.__handled_exception()
+        elif event == 'return':
+            self.result = self.__get_result(frame, arg)
+            # the tracebacks reference the frame, so do not keep them while it is suspended
+            self.__raised.clear()
+            self.__active = None
+
+    def __get_result(self, frame: FrameType, arg: any) -> Optional[Tuple[str, any]]:
+        instruction = self.__instruction(frame)
+        if instruction.startswith('RETURN'):
+            return 'return', arg
+        raised = self.__raised.get(frame.f_lasti, None)
+        if instruction.startswith('YIELD') and not (arg is None and self.__is_leaving(raised)):
+            # the frame is only suspended
+            return None
+        return 'exception', raised or self.__active
+
+    def __is_leaving(self, raised: Optional[Tuple]) -> bool:
+        # there is no difference in yielding None, and leaving the frame due to an exception raised while suspended
+        if raised is None:
+            return False
+        if self.__active is not None and self.__active[1] is raised[1]:
+            return True
+        # a generator cannot continue after this
+        return issubclass(raised[0], GeneratorExit)
+
+    @staticmethod
+    def __handled_exception() -> Optional[Tuple]:
+        handled = sys.exc_info()
+        return None if handled[1] is None else handled
+
+    @staticmethod
+    def __instruction(frame: FrameType) -> str:
+        lasti = frame.f_lasti
+        return '' if lasti < 0 else dis.opname[frame.f_code.co_code[lasti]]
+
 
 class CallbackContext(Location, ActionCallback):
     """
@@ -31,10 +144,25 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
-        """Create new callback context."""
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: Optional[FrameType] = None, tracer: Optional[FrameTracer] = None):
+        """
+        Create new callback context.
+
+        :param event: the event that created the callbacks
+        :param filename: the file name of the event
+        :param line: the line of the event
+        :param name: the function name of the event
+        :param callbacks: the callbacks to run
+        :param frame: the frame of the event, i.e. the invocation that has to end
+        :param tracer: the tracer of the frame, if the frame can be suspended
+        """
         super().__init__(Location.Position.END)
         self.__event = event
+        # do not keep the frames that can be suspended, as that would change when they are closed
+        self.__frame = frame if tracer is None else None
+        self.__tracer = None if tracer is None else weakref.ref(tracer)
+        self.__frame_exit = FrameExit()
         self.__filename = filename
         self.__function_name = name
         self.__line = line
@@ -51,10 +179,23 @@ class CallbackContext(Location, ActionCallback):
         :param frame: the triggering frame object
         :return: True, if we are at this location we expect, else False.
         """
+        if self.__is_abandoned:
+            return True
+
         # if either the file or function name are different, then we are not in the correct place.
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        if self.__is_our_frame(frame):
+            # wait for the frame to move to another line or to end, exceptions can still be handled by the frame
+            if event == 'line':
+                return self.__event == 'line'
+            return event == 'return' and self.__frame_exit.result is not None
+
+        # we must only complete the invocation we are from
+        if self.__is_frame_running(frame):
+            return False
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
@@ -70,8 +211,51 @@ class CallbackContext(Location, ActionCallback):
         :param arg: the arg from settrace
         :return: True, to keep this callback until next match.
         """
+        if self.__is_abandoned:
+            # there is nothing returned, or raised
+            event, arg = 'return', None
+        elif self.__is_our_frame(frame) and self.__frame_exit.result is not None:
+            event, arg = self.__frame_exit.result
         for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                logging.exception("Cannot process callback for %s", self.name)
+
+    def track_event(self, event: str, frame: FrameType, arg: any):
+        """
+        Track the events of the frame, so we know how it ends.
+
+        This has to be called with each event, before checking if we are at the location.
+
+        :param event: the event
+        :param frame: the frame data
+        :param arg: the arg from settrace
+        """
+        if self.__is_our_frame(frame):
+            self.__frame_exit.track_event(frame, event, arg)
+
+    def __is_our_frame(self, frame: FrameType) -> bool:
+        if self.__tracer is not None:
+            tracer = self.__tracer()
+            return tracer is not None and frame.f_trace is tracer
+        return frame is self.__frame
+
+    @property
+    def __is_abandoned(self) -> bool:
+        return self.__tracer is not None and self.__tracer() is None
+
+    def __is_frame_running(self, frame: FrameType) -> bool:
+        if self.__tracer is not None:
+            # suspended frames are not on the stack
+            return True
+        if self.__frame is None:
+            return False
+        while frame is not None:
+            if frame is self.__frame:
+                return True
+            frame = frame.f_back
+        return False
 
     @property
     def id(self) -> str:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 462aef3..0bf354e 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -76,6 +76,8 @@ class TriggerContext:
                     self.callbacks.append(new_callback)
             except BaseException:
                 deep.logging.exception("failed to process result %s", result)
+        # callbacks can keep this context, and the frame must not outlive the invocation
+        self.__frame = None
 
     @property
     def id(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 79cf4c9..b2138c0 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -33,7 +33,7 @@ from deep import logging
 from deep.api.tracepoint.trigger import Trigger
 from deep.config import ConfigService
 from deep.config.tracepoint_config import ConfigUpdateListener
-from deep.processor.context.callback_context import CallbackContext
+from deep.processor.context.callback_context import CallbackContext, FrameTracer
 from deep.processor.context.trigger_context import TriggerContext
 from deep.push import PushService
 from deep.thread_local import ThreadLocal
@@ -157,7 +157,7 @@ class TriggerHandler:
         except BaseException:
             # anything raised from here is raised in the application, and python will stop tracing the thread
             self.__log_failure(event)
-        return self.trace_call
+        return self.__local_trace(frame)
 
     @staticmethod
     def __log_failure(event: str):
@@ -174,7 +174,7 @@ class TriggerHandler:
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
-        if event in ["line", "return", "exception"] and self._callbacks.is_set:
+        if self._callbacks.is_set:
             self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
 
         # return if we do not have any tracepoints
@@ -183,7 +183,7 @@ class TriggerHandler:
 
         actions = self.__actions_for_location(event, file, line, function, frame)
         if len(actions) == 0:
-            return self.trace_call
+            return self.__local_trace(frame)
 
         try:
             with trigger_context:
@@ -201,10 +201,23 @@ class TriggerHandler:
         callbacks = trigger_context.callbacks
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
+            tracer = self.__get_frame_tracer(frame)
             self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+                CallbackContext(event, file, line, function, callbacks, frame, tracer))
 
-        return self.trace_call
+        return self.__local_trace(frame)
+
+    def __local_trace(self, frame: FrameType):
+        # python replaces the trace function of the frame with this
+        tracer = getattr(frame, 'f_trace', None)
+        return tracer if isinstance(tracer, FrameTracer) else self.trace_call
+
+    def __get_frame_tracer(self, frame: FrameType) -> Optional[FrameTracer]:
+        if not FrameTracer.is_required(frame):
+            return None
+        if not isinstance(frame.f_trace, FrameTracer):
+            frame.f_trace = FrameTracer(self.trace_call)
+        return frame.f_trace
 
     def __actions_for_location(self, event, file, line, function, frame):
         actions = []
@@ -218,18 +231,22 @@ class TriggerHandler:
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
-            logging.debug("At callback location %s", context.name)
-            context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
-
-        if len(self._callbacks.value) == 0:
+        pending = self._callbacks.value
+        # check all the contexts (last first), as generators do not have to complete in the order they are started
+        for context in reversed(list(pending)):
+            try:
+                context.track_event(event, frame, arg)
+                # if it is for our location process it
+                if not context.at_location(event, file, line, function_name, frame):
+                    continue
+                logging.debug("At callback location %s", context.name)
+                # remove it first, so it cannot be processed again
+                pending.remove(context)
+                context.process(ctx, event, frame, arg)
+            except BaseException:
+                logging.exception("Cannot process callback %s", context.name)
+
+        if len(pending) == 0:
             logging.debug("Callbacks cleared.")
             self._callbacks.clear()
 
-- 
2.43.0


From a5a59be45b52f83d6ac9d257eabfd68bd4c58c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 18/36] fix: flush waits for every accepted task, even if tasks
 fail

---
 src/deep/task/__init__.py | 51 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..5646588 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -15,13 +15,15 @@
 
 """Provides processing options for tasks on background threads."""
 
-import logging
 import threading
 from concurrent.futures import Future
 from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import wait
 
+from deep import logging
 
-class IllegalStateException(BaseException):
+
+class IllegalStateException(Exception):
     """This is raised when we are in an incompatible state."""
 
     pass
@@ -38,15 +40,14 @@ class TaskHandler:
         self._lock = threading.Lock()
         self._open = True
 
-    def _next_id(self):
+    def open(self):
+        """Allow tasks to be submitted, this can be used to re-open the handler after it is flushed."""
         with self._lock:
-            self._job_id += 1
-            next_id = self._job_id
-        return next_id
+            self._open = True
 
     def __check_open(self):
         if not self._open:
-            raise IllegalStateException
+            raise IllegalStateException("The task handler is closed.")
 
     def submit_task(self, task, *args) -> Future:
         """
@@ -55,28 +56,30 @@ class TaskHandler:
         :param task: the task function to process
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
+        :raises IllegalStateException: if the handler has been flushed
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        # a task has to be either refused, or seen by flush
+        with self._lock:
+            self.__check_open()
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._job_id += 1
+            next_id = self._job_id
+            self._pending[next_id] = future
 
-        # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
-            if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+            with self._lock:
+                self._pending.pop(next_id, None)
+            if not _future.cancelled() and _future.exception() is not None:
+                logging.exception("Submitted task failed %s", task, exc_info=_future.exception())
 
         future.add_done_callback(callback)
         return future
 
     def flush(self):
-        """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        """Await completion of all pending tasks, no more tasks are accepted after this."""
+        with self._lock:
+            self._open = False
+            pending = list(self._pending.values())
+        # the failure of a task is handled when the task completes
+        wait(pending)
-- 
2.43.0


From 10c0bf7cdad5181487af5b11909ae2d2e1f7dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 19/36] fix: always install the latest tracepoint config

---
 src/deep/config/config_service.py    |  5 +++--
 src/deep/config/tracepoint_config.py | 32 ++++++++++++++++++++--------
 src/deep/poll/poll.py                |  4 +++-
 src/deep/push/__init__.py            |  3 +--
 src/deep/utils.py                    |  8 +++----
 5 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..5afa75c 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -29,18 +29,19 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: Optional[TracepointConfigService] = None):
         """
         Create a new config object.
 
         :param custom: any custom values that are passed to DEEP
+        :param tracepoints: the tracepoint config service to use, defaults to a new service
         """
         if custom is None:
             custom = {}
         self._plugins = []
         self.__custom = custom
         self._resource = None
-        self._tracepoint_config = tracepoints
+        self._tracepoint_config = TracepointConfigService() if tracepoints is None else tracepoints
 
     def __getattribute__(self, name: str) -> Any:
         """
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..04831bf 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,10 +16,11 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
-import logging
+import threading
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
+from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
@@ -57,6 +58,7 @@ class TracepointConfigService:
         self._last_update = 0
         self._task_handler = None
         self._listeners: List[ConfigUpdateListener] = []
+        self._update_lock = threading.RLock()
 
     def update_no_change(self, ts):
         """
@@ -80,10 +82,18 @@ class TracepointConfigService:
         """
         old_hash = self._current_hash
         old_config = self._tracepoint_config
+        old_update = self._last_update
         self._last_update = ts
-        self._current_hash = new_hash
         self._tracepoint_config = new_config
-        self.__trigger_update(old_hash, old_config)
+        self._current_hash = new_hash
+        try:
+            self.__trigger_update(old_hash, old_config)
+        except BaseException:
+            # the config will not be installed, so do not report it as our current config
+            self._last_update = old_update
+            self._tracepoint_config = old_config
+            self._current_hash = old_hash
+            raise
 
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
@@ -113,12 +123,16 @@ class TracepointConfigService:
         :param old_config: the old config
         :param new_config: the new config
         """
-        listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        # updates are processed in parallel, so can be processed out of order. To ensure we do not go back to an older
+        # config each update has to install the latest config.
+        with self._update_lock:
+            ts, current_hash, new_config = self._last_update, self._current_hash, self._tracepoint_config
+            listeners_copy = self._listeners.copy()
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
+                except BaseException:
+                    logging.exception("Error updating listener %s", listeners)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..b845018 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -54,7 +54,7 @@ class LongPoll(object):
     def __initial_poll(self):
         try:
             self.poll()
-        except Exception:
+        except BaseException:
             logging.exception("Initial poll failed. Will continue with interval.")
 
     def poll(self):
@@ -67,6 +67,8 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
+        elif response.response_type != ResponseType.UPDATE:
+            logging.warning("Unknown response type: %s", response.response_type)
         else:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..f782458 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,8 +21,6 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-import logging
-
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
@@ -35,6 +33,7 @@ __all__ = [PushService.__name__]
 
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
+from .. import logging
 from ..grpc import convert_value
 
 
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 57f3ddc..bc4aa53 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -17,11 +17,12 @@
 
 import dis
 import inspect
-import logging
 import time
 from threading import Event, Thread
 from types import FrameType
 
+from deep import logging
+
 
 def snapshot_id_as_hex_str(snapshot_id):
     """Convert a snapshot if to a hex string."""
@@ -101,9 +102,8 @@ class RepeatedTimer:
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
-                logging.exception(
-                    "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
+            except BaseException:
+                logging.exception("Repeated function (%s) failed, will retry in %s seconds.", self.name, self.interval)
 
     @property
     def _time(self):
-- 
2.43.0


From 6ec0a021dff31c4232f61fd8b1532f99a194e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 20/36] fix: each tracepoint registered in code can be removed
 on its own

---
 src/deep/config/tracepoint_config.py | 43 +++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 04831bf..4e101a3 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -52,7 +52,8 @@ class TracepointConfigService:
 
     def __init__(self) -> None:
         """Create new tracepoint config service."""
-        self._custom: List['Trigger'] = []
+        # the id of a trigger is the location, which can be shared, so use the id we create for the tracepoint
+        self._custom: Dict[str, 'Trigger'] = {}
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
@@ -130,7 +131,7 @@ class TracepointConfigService:
             listeners_copy = self._listeners.copy()
             for listeners in listeners_copy:
                 try:
-                    listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
+                    listeners.config_change(ts, old_hash, current_hash, old_config, new_config + list(self._custom.values()))
                 except BaseException:
                     logging.exception("Error updating listener %s", listeners)
 
@@ -173,12 +174,27 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
+        :return: the id of the new tracepoint
         """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
-        self.__trigger_update(None, None)
-        return config.id
+        _id = str(uuid.uuid4())
+        try:
+            trigger = build_trigger(_id, path, line, dict(args), list(watches), list(metrics))
+        except Exception:
+            logging.exception("Cannot process tracepoint %s#%s", path, line)
+            return _id
+        if trigger is None:
+            logging.warning("Unsupported tracepoint %s#%s", path, line)
+            return _id
+        with self._update_lock:
+            self._custom[_id] = trigger
+        try:
+            self.__trigger_update(None, None)
+        except BaseException:
+            # the tracepoint will not be installed, and cannot be removed without the id
+            with self._update_lock:
+                self._custom.pop(_id, None)
+            raise
+        return _id
 
     def remove_custom(self, _id: str):
         """
@@ -186,8 +202,13 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
-                self.__trigger_update(None, None)
+        with self._update_lock:
+            if self._custom.pop(_id, None) is None:
                 return
+        try:
+            self.__trigger_update(None, None)
+        except Exception:
+            # we are shutdown, so there is no task handler to process the update
+            logging.debug("Cannot submit update, removing %s now.", _id)
+            self.update_listeners(self._last_update, None, self._current_hash, self._tracepoint_config,
+                                  self._tracepoint_config)
-- 
2.43.0


From 1a7dfacf7db1d7c4c2a0279f392124f6e8ab7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 21/36] fix: always complete the shutdown of every service and
 plugin

---
 src/deep/api/deep.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..ee53d67 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -63,26 +63,38 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+            except BaseException:
+                deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
         self.config.resource = default_resource
-        self.trigger_handler.start()
-        self.grpc.start()
-        self.poll.start()
+        self.task_handler.open()
+        try:
+            self.trigger_handler.start()
+            self.grpc.start()
+            self.poll.start()
+        except BaseException:
+            # do not leave a partially started agent behind
+            self.__shutdown_services()
+            raise
         self.started = True
 
     def shutdown(self):
         """Shutdown deep."""
         if not self.started:
             return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
-        for plugin in self.config.plugins:
-            plugin.shutdown()
-        deep.logging.info("Deep is shutdown.")
+        self.__shutdown_services()
         self.started = False
+        deep.logging.info("Deep is shutdown.")
+
+    def __shutdown_services(self):
+        steps = [self.trigger_handler.shutdown, self.task_handler.flush, self.poll.shutdown]
+        steps += [plugin.shutdown for plugin in self.config.plugins]
+        for step in steps:
+            try:
+                step()
+            except BaseException:
+                # we have to complete all the steps, so the failure of one must not affect the next
+                deep.logging.exception("Failed to shutdown %s", type(getattr(step, '__self__', step)))
 
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
-- 
2.43.0


From b62c063f89784582a14c61ac40307e8b37b36f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 22/36] fix: send all snapshots, with all the data that can be
 represented

---
 src/deep/api/tracepoint/eventsnapshot.py |  3 +-
 src/deep/grpc/__init__.py                | 43 ++++++++++++++++++----
 src/deep/push/__init__.py                | 46 ++++++++++++++----------
 3 files changed, 66 insertions(+), 26 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..c2af488 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -49,7 +49,8 @@ class EventSnapshot:
 
     def complete(self):
         """Close and complete the snapshot."""
-        self._duration_nanos = time_ns() - self._ts_nanos
+        # the clock can be changed, so make sure we do not go backwards
+        self._duration_nanos = max(0, time_ns() - self._ts_nanos)
 
     def add_watch_result(self, watch_result: 'WatchResult'):
         """
diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 1eec300..965ea1a 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -20,7 +20,7 @@ We do not use the protobuf types throughout the project as they do not autocompl
 have type definitions that work in IDE. It also makes it easier to deal with agent functionality by
 having local types we can modify.
 """
-from typing import List, Dict
+from typing import List, Dict, Optional
 
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue, ArrayValue, KeyValueList
@@ -35,6 +35,24 @@ from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
 
+INT64_MIN = -2 ** 63
+INT64_MAX = 2 ** 63 - 1
+
+
+def convert_text(value) -> Optional[str]:
+    """
+    Convert a value to text that can be sent.
+
+    Not all strings can be encoded as UTF-8 (e.g. file names can have surrogates), these characters are escaped.
+
+    :param value: the value to convert
+    :return: the text or None if there is no value
+    """
+    if value is None:
+        return None
+    return str(value).encode('utf-8', 'backslashreplace').decode('utf-8')
+
+
 def convert_value(value):
     """
     Convert a value from the python type.
@@ -46,8 +64,10 @@ def convert_value(value):
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=convert_text(value))
     if isinstance(value, int):
+        if not INT64_MIN <= value <= INT64_MAX:
+            return AnyValue(string_value=str(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -55,18 +75,29 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
     return None
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=convert_key_values(value))
 
 
 def __value_as_list(value):
-    return ArrayValue(values=[convert_value(val) for val in value])
+    # an element cannot be None, so use an empty value to keep the position of the others
+    return ArrayValue(values=[convert_value(val) or AnyValue() for val in value])
+
+
+def convert_key_values(values) -> List[KeyValue]:
+    """
+    Convert a set of key value pairs.
+
+    :param values: the mapping to convert
+    :return: the converted pairs
+    """
+    return [KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in values.items()]
 
 
 def convert_resource(resource):
@@ -81,7 +112,7 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=convert_key_values(attributes))
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index f782458..a61b289 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,8 +21,6 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-# noinspection PyUnresolvedReferences
-from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, TracePointConfig, WatchResult, Variable, \
     VariableID, StackFrame, WatchSource
@@ -34,21 +32,30 @@ __all__ = [PushService.__name__]
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
 from .. import logging
-from ..grpc import convert_value
+from ..grpc import convert_key_values, convert_text
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=convert_text(tracepoint.id), path=convert_text(tracepoint.path),
+                            line_number=__convert_line_number(tracepoint.line_no),
+                            args={convert_text(k): convert_text(v) for k, v in tracepoint.args.items()},
+                            watches=[convert_text(w) for w in tracepoint.watches])
+
+
+def __convert_line_number(line_number):
+    # method tracepoints do not need a line, so can use a line that does not exist (e.g. -1)
+    if line_number is None or not 0 <= line_number < 2 ** 32:
+        return None
+    return line_number
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
+    return StackFrame(file_name=convert_text(frame.file_name), short_path=convert_text(frame.short_path),
+                      method_name=convert_text(frame.method_name), line_number=frame.line_number,
+                      class_name=convert_text(frame.class_name), is_async=frame.is_async,
                       column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
-                      transpiled_file_name=frame.transpiled_file_name,
+                      transpiled_file_name=convert_text(frame.transpiled_file_name),
                       transpiled_line_number=frame.transpiled_line_number,
                       transpiled_column_number=frame.transpiled_column_number,
                       )
@@ -59,26 +66,28 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    return WatchResult(expression=convert_text(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=convert_text(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=convert_text(variable.type), value=convert_text(variable.value),
+                    hash=convert_text(variable.hash),
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=convert_text(variable.vid), name=convert_text(variable.name),
+                      modifiers=[convert_text(m) for m in variable.modifiers],
+                      original_name=convert_text(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
     converted = {}
     for k, v in var_lookup.items():
-        converted[k] = __convert_variable(v)
+        converted[convert_text(k)] = __convert_variable(v)
     return converted
 
 
@@ -94,11 +103,10 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
+                        attributes=convert_key_values(snapshot.attributes),
                         duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
-                                  snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        resource=convert_key_values(snapshot.resource.attributes),
+                        log_msg=convert_text(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
-- 
2.43.0


From e8ee47bcd4d0c2f5b2099f8da3abb667f60b05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 23/36] fix: settings work the same from the environment as in
 code

---
 src/deep/config/__init__.py       | 23 ++++-------------------
 src/deep/config/config_service.py | 10 ++++++----
 src/deep/poll/poll.py             |  4 ++--
 src/deep/utils.py                 | 30 +++++++++++++++++++++++++++++-
 4 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..c95f17d 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -23,6 +23,7 @@ Here we have the initial values for the config, there can be set as either stati
 import os
 import sys
 
+from deep.utils import str2list
 from .config_service import ConfigService  # noqa: F401
 
 LOGGING_CONF = os.getenv('DEEP_LOGGING_CONF', None)
@@ -40,7 +41,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
@@ -54,12 +55,7 @@ def IN_APP_INCLUDE():
 
     The packages to mark as in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_INCLUDE', None)
-    if user_defined is None:
-        return []
-    if ',' in user_defined:
-        return user_defined.split(',')
-    return [user_defined]
+    return str2list(os.getenv('DEEP_IN_APP_INCLUDE', None))
 
 
 # noinspection PyPep8Naming
@@ -69,15 +65,4 @@ def IN_APP_EXCLUDE():
 
     The packages to mark as NOT in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_EXCLUDE', None)
-    if user_defined is None:
-        user_defined = []
-    else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
-
-    prefix = sys.exec_prefix
-    user_defined.append(prefix)
-
-    return user_defined
+    return str2list(os.getenv('DEEP_IN_APP_EXCLUDE', None)) + [sys.exec_prefix]
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index 5afa75c..ba0306b 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -24,6 +24,7 @@ from deep.api.plugin.metric import MetricProcessor
 from deep.api.plugin.span import SpanProcessor
 from deep.api.resource import Resource
 from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateListener
+from deep.utils import str2list
 
 
 class ConfigService:
@@ -171,8 +172,8 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        in_app_include = str2list(self.IN_APP_INCLUDE)
+        in_app_exclude = str2list(self.IN_APP_EXCLUDE)
 
         for path in in_app_exclude:
             if filename.startswith(path):
@@ -182,8 +183,9 @@ class ConfigService:
             if filename.startswith(path):
                 return True, path
 
-        if filename.startswith(self.APP_ROOT):
-            return True, self.APP_ROOT
+        app_root = self.APP_ROOT or ""
+        if filename.startswith(app_root):
+            return True, app_root
 
         return False, None
 
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index b845018..1ed30ff 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -27,7 +27,7 @@ from deepproto.proto.poll.v1.poll_pb2_grpc import PollConfigStub
 from deep import logging
 from deep.config import ConfigService
 from deep.grpc import convert_resource, convert_response, GRPCService
-from deep.utils import time_ns, RepeatedTimer
+from deep.utils import time_ns, str2interval, RepeatedTimer
 
 
 class LongPoll(object):
@@ -47,7 +47,7 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", str2interval(self.config.POLL_TIMER, 10), self.poll)
         self.__initial_poll()
         self.timer.start()
 
diff --git a/src/deep/utils.py b/src/deep/utils.py
index bc4aa53..4969ee2 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -18,7 +18,7 @@
 import dis
 import inspect
 import time
-from threading import Event, Thread
+from threading import Event, Thread, TIMEOUT_MAX
 from types import FrameType
 
 from deep import logging
@@ -49,6 +49,34 @@ def str2bool(string):
     return str(string).lower() in ("yes", "true", "t", "1", "y")
 
 
+def str2list(value):
+    """
+    Convert a comma (,) separated string to a list.
+
+    :param value: the string, or list of strings, to convert
+    :return: the list of the values that are not empty
+    """
+    if value is None:
+        return []
+    values = value.split(',') if isinstance(value, str) else value
+    return [val.strip() for val in values if val.strip()]
+
+
+def str2interval(value, default):
+    """
+    Convert a value to an interval in seconds.
+
+    :param value: the value to convert, this can be a number or the text of a number
+    :param default: the value to use if the value is not a positive number
+    :return: the interval as a number
+    """
+    try:
+        interval = float(value)
+    except (TypeError, ValueError, OverflowError):
+        return default
+    return interval if 0 < interval <= TIMEOUT_MAX else default
+
+
 def is_function_entry(frame: FrameType) -> bool:
     """
     Check if a 'call' event is for a function that is starting, or for a generator (or coroutine) that is resuming.
-- 
2.43.0


From 0193a8e823b1ca075312dfb0a237a99ea5291ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 24/36] fix: report metrics without a unit or help text to
 OpenTelemetry

---
 src/deep/api/plugin/metric/otel_metrics.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index a3d42a4..e346d31 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -63,8 +63,9 @@ class OTelMetrics(MetricProcessor):
             with self.__lock:
                 counter: Counter
                 counter = self.__check_cache(name, 'counter',
-                                             lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit,
-                                                                                      help_string))
+                                             lambda: get_meter('deep').create_counter(f'{namespace}_{name}',
+                                                                                      unit or '',
+                                                                                      help_string or ''))
                 counter.add(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric counter {namespace}_{name}")
@@ -85,7 +86,8 @@ class OTelMetrics(MetricProcessor):
                 gauge: UpDownCounter
                 gauge = self.__check_cache(name, 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
-                                                                                            unit, help_string))
+                                                                                            unit or '',
+                                                                                            help_string or ''))
                 gauge.add(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric histogram {namespace}_{name}")
@@ -105,8 +107,9 @@ class OTelMetrics(MetricProcessor):
             with self.__lock:
                 histogram: Histogram
                 histogram = self.__check_cache(name, 'histogram',
-                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
-                                                                                          help_string))
+                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}',
+                                                                                          unit or '',
+                                                                                          help_string or ''))
                 histogram.record(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric histogram {namespace}_{name}")
@@ -126,8 +129,9 @@ class OTelMetrics(MetricProcessor):
             with self.__lock:
                 histogram: Histogram
                 histogram = self.__check_cache(name, 'summary',
-                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
-                                                                                          help_string))
+                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}',
+                                                                                          unit or '',
+                                                                                          help_string or ''))
                 histogram.record(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric summary {namespace}_{name}")
-- 
2.43.0


From 3cca8c101ff99854f555551ae24cd4339a5afd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 25/36] fix: capture the exception that leaves an inlined
 comprehension

---
 src/deep/processor/context/callback_context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 6873731..b594370 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -30,6 +30,9 @@ from deep.processor.context.trigger_context import TriggerContext
 GENERATOR_FLAGS = inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR
 """The flags of code that can be suspended."""
 
+HANDLER_INSTRUCTIONS = ('PUSH_EXC_INFO', 'SWAP')
+"""The instructions that start handling an exception, the last one is from an inlined comprehension."""
+
 
 class FrameTracer:
     """
@@ -98,7 +101,7 @@ class FrameExit:
             self.__raised[frame.f_lasti] = arg
             self.__active = arg
         elif event == 'line':
-            if self.__instruction(frame) != 'PUSH_EXC_INFO':
+            if self.__instruction(frame) not in HANDLER_INSTRUCTIONS:
                 self.__active = self.__handled_exception()
         elif event == 'return':
             self.result = self.__get_result(frame, arg)
-- 
2.43.0


From 94565be860f9084ee2e0a97ac68d065e50c540b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 26/36] fix: reading the locals of a frame changed variables of
 the program

---
 src/deep/processor/context/trigger_context.py |  6 ++---
 src/deep/processor/frame_collector.py         |  4 +--
 src/deep/utils.py                             | 26 +++++++++++++++++++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 0bf354e..74b92ef 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -31,7 +31,7 @@ from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
 from deep.push import PushService
-from deep.utils import time_ns
+from deep.utils import read_locals, time_ns
 
 
 class TriggerContext:
@@ -92,7 +92,7 @@ class TriggerContext:
     @property
     def locals(self) -> Dict[str, any]:
         """The local frame variables."""
-        return self.__frame.f_locals
+        return read_locals(self.__frame)
 
     @property
     def ts(self):
@@ -153,7 +153,7 @@ class TriggerContext:
         :raises BaseException: whatever is raised by the expression
         """
         scope = dict(getattr(self.__frame, 'f_globals', {}))
-        scope.update(self.__frame.f_locals)
+        scope.update(read_locals(self.__frame))
         return eval(expression, scope)
 
     def attach_result(self, result: ActionResult):
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index 556140c..e035a58 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -21,7 +21,7 @@ from typing import Tuple, Dict, List
 
 from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
-from deep.utils import time_ns
+from deep.utils import read_locals, time_ns
 from .variable_processor import type_name, value_to_string
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
@@ -136,7 +136,7 @@ class FrameCollector:
     def __frame_locals(frame: FrameType) -> Dict[str, any]:
         try:
             # this can be any mapping if this is the frame of a class body
-            return {value_to_string(name): value for name, value in dict(frame.f_locals).items()}
+            return {value_to_string(name): value for name, value in dict(read_locals(frame)).items()}
         except BaseException:
             logging.exception("Cannot read frame locals.")
             return {}
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 4969ee2..0e1920b 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -17,9 +17,11 @@
 
 import dis
 import inspect
+import sys
 import time
 from threading import Event, Thread, TIMEOUT_MAX
 from types import FrameType
+from typing import Mapping
 
 from deep import logging
 
@@ -77,6 +79,30 @@ def str2interval(value, default):
     return interval if 0 < interval <= TIMEOUT_MAX else default
 
 
+def read_locals(frame: FrameType) -> Mapping:
+    """
+    Read the local variables of a frame.
+
+    Before python 3.13 the values that are read from 'f_locals' are written back to the frame when the trace function
+    returns. This would revert the changes that other threads made to the variables of closures, and set the variables
+    of comprehensions in modules and classes to None. So we let python write them back while they are unchanged.
+
+    :param frame: the frame to read
+    :return: the local variables
+    """
+    if sys.version_info >= (3, 13) or not isinstance(frame, FrameType):
+        return frame.f_locals
+    try:
+        import ctypes
+        write_back, args = ctypes.pythonapi.PyFrame_LocalsToFast, (ctypes.py_object(frame), ctypes.c_int(0))
+    except (ImportError, AttributeError):
+        # not available in all implementations
+        return frame.f_locals
+    f_locals = frame.f_locals
+    write_back(*args)
+    return f_locals
+
+
 def is_function_entry(frame: FrameType) -> bool:
     """
     Check if a 'call' event is for a function that is starting, or for a generator (or coroutine) that is resuming.
-- 
2.43.0


From 7d211c5d5b4083026bad98ab1fe304923d8d55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 27/36] fix: a value whose metaclass redefines equality lost
 the snapshot

---
 src/deep/processor/variable_processor.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 47793df..6a4331f 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -191,7 +191,19 @@ def type_name(type_: type) -> str:
     :param type_: the type to get the name of
     :return: the name of the type
     """
-    return type.__dict__['__name__'].__get__(type_)
+    return str.__str__(type.__dict__['__name__'].__get__(type_))
+
+
+def is_list_like(type_: type) -> bool:
+    """
+    Check if a type is one of the built in list like types.
+
+    A metaclass can define what a type is equal to, so the types are compared by identity.
+
+    :param type_: the type to check
+    :return: True, if the type is one of the list like types
+    """
+    return any(type_ is list_like for list_like in BUILTIN_LIST_LIKE_TYPES)
 
 
 def value_to_string(value: any) -> str:
@@ -220,7 +232,7 @@ def variable_to_string(variable_type, var_value):
     if type_name(variable_type) in ITER_LIKE_TYPES:
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % value_to_string(variable_type)
-    elif variable_type is dict or variable_type in BUILTIN_LIST_LIKE_TYPES:
+    elif variable_type is dict or is_list_like(variable_type):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
@@ -346,7 +358,7 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     try:
         if variable_type is dict:
             return process_dict_breadth_first(parent_node, type_name(variable_type), value)
-        elif variable_type in BUILTIN_LIST_LIKE_TYPES:
+        elif is_list_like(variable_type):
             return process_list_breadth_first(var_collector, parent_node, value)
         elif issubclass(variable_type, BaseException):
             # 'args' can be replaced in the sub types
-- 
2.43.0


From 10189b77236dceebe1a7723959cd5760df35b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 28/36] fix: collecting a snapshot changed the random numbers
 of the program

---
 src/deep/api/tracepoint/eventsnapshot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index c2af488..de949e7 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -15,7 +15,7 @@
 
 """Types for the captured data."""
 
-import random
+import uuid
 from typing import Optional, Dict, List
 
 from deep.api.attributes import BoundedAttributes
@@ -36,7 +36,8 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        # do not use the generator of the application, that would change the numbers it gets
+        self._id = uuid.uuid4().int
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
-- 
2.43.0


From 75505d7ab24c6b1789e3a9dbe10ac3b13ed702a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 29/36] fix: collecting an object called the attribute hooks of
 its type

---
 src/deep/processor/frame_collector.py    | 4 ++--
 src/deep/processor/variable_processor.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e035a58..d206630 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -144,8 +144,8 @@ class FrameCollector:
     @staticmethod
     def __class_name(value: any) -> str:
         try:
-            # mocks and proxies can report any class here
-            name = value.__class__.__name__
+            # mocks and proxies can report any class here, but do not use the attribute hooks of the type
+            name = object.__getattribute__(value, '__class__').__name__
             if type(name) is str:
                 return name
         except BaseException:
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 6a4331f..9aea27b 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -363,8 +363,10 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
         elif issubclass(variable_type, BaseException):
             # 'args' can be replaced in the sub types
             return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))
-        # there are lots of types that do not have a __dict__, and it can be replaced with anything
-        return process_dict_breadth_first(parent_node, type_name(variable_type), value.__dict__, correct_names)
+        # there are lots of types that do not have a __dict__, and it can be replaced with anything. The lookup must not
+        # use the hooks of the type (__getattr__ and __getattribute__), as they can do anything.
+        attributes = object.__getattribute__(value, '__dict__')
+        return process_dict_breadth_first(parent_node, type_name(variable_type), attributes, correct_names)
     except BaseException:
         logging.debug("Cannot find children of type %s", type_name(variable_type))
         return []
-- 
2.43.0


From fdef5fb7a4e03b48b10ba0dae45b55424f35b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 30/36] fix: a failing watch configured and used the root
 logger of the program

---
 src/deep/processor/context/action_context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 1a91606..7eb22c2 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -33,7 +33,6 @@ from typing import Tuple, TYPE_CHECKING, Dict, Optional
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
-from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable, VariableId
 from deep.processor.variable_processor import value_to_string
 from deep.processor.variable_set_processor import VariableSetProcessor, VariableProcessorConfig, \
@@ -94,7 +93,7 @@ class ActionContext(abc.ABC):
 
             return self.__watch_result(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
-            logging.exception("Error evaluating watch %s", watch)
+            deep.logging.exception("Error evaluating watch %s", watch)
             error = value_to_string(e)
             return WatchResult(source, watch, None, error), var_processor.var_lookup, error
 
@@ -117,7 +116,7 @@ class ActionContext(abc.ABC):
         try:
             variable_id, log_str = var_processor.process_variable(name, variable)
         except BaseException as e:
-            logging.exception("Error processing captured variable %s", name)
+            deep.logging.exception("Error processing captured variable %s", name)
             error = value_to_string(e)
             return WatchResult(WATCH_SOURCE_CAPTURE, name, None, error), var_processor.var_lookup, error
 
-- 
2.43.0


From 1947fa669358aced67fd68166e3618a898160afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 31/36] fix: values of the program were not released until the
 next garbage collection

---
 src/deep/processor/context/trigger_context.py |  4 ++-
 src/deep/processor/trigger_handler.py         |  3 +-
 src/deep/processor/variable_processor.py      | 32 +++++++++++++++----
 src/deep/processor/variable_set_processor.py  | 27 ++++++++++++----
 src/deep/utils.py                             | 25 ++++++++++++---
 5 files changed, 72 insertions(+), 19 deletions(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 74b92ef..a3fa225 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -69,7 +69,9 @@ class TriggerContext:
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Complete the 'with' statement, and close this context."""
-        for result in self.__results:
+        # the results refer to this context, so they would keep the values that are recorded until the next gc
+        results, self.__results = self.__results, []
+        for result in results:
             try:
                 new_callback = result.process(self)
                 if new_callback is not None:
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index b2138c0..f7461ab 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -198,7 +198,8 @@ class TriggerHandler:
         except BaseException:
             logging.exception("Cannot trigger at %s#%s %s", file, line, function)
 
-        callbacks = trigger_context.callbacks
+        # the callbacks refer to the context, so they would keep the values that are recorded until the next gc
+        callbacks, trigger_context.callbacks = trigger_context.callbacks, []
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             tracer = self.__get_frame_tracer(frame)
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 9aea27b..2566a98 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -292,6 +292,29 @@ def truncate_string(string, max_length):
     return string[:max_length], len(string) > max_length
 
 
+class VariableParent(ParentNode):
+    """The parent of the children of a variable."""
+
+    def __init__(self, var_collector: Collector, variable_id: str):
+        """
+        Create a new parent.
+
+        :param var_collector: the collector we are using
+        :param variable_id: the variable id to attach children to
+        """
+        self.__var_collector = var_collector
+        self.__variable_id = variable_id
+
+    def add_child(self, child: VariableId):
+        """
+        Add a child to this parent.
+
+        :param child: the child to add.
+        """
+        # look for the child in the lookup and add this id to it
+        self.__var_collector.append_child(self.__variable_id, child)
+
+
 def process_child_nodes(
         var_collector: Collector,
         variable_id: str,
@@ -318,14 +341,9 @@ def process_child_nodes(
     if frame_depth + 1 >= var_collector.max_var_depth:
         return []
 
-    class VariableParent(ParentNode):
-
-        def add_child(self, child: VariableId):
-            # look for the child in the lookup and add this id to it
-            var_collector.append_child(variable_id, child)
-
     # scan the child based on type
-    return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    parent = VariableParent(var_collector, variable_id)
+    return find_children_for_parent(var_collector, parent, var_value, variable_type)
 
 
 def correct_names(name, val):
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index cb8e0df..7236236 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -114,6 +114,26 @@ class VariableProcessorConfig:
         self.max_string_length = max_string_length
 
 
+class FrameParent(ParentNode):
+    """The parent of a set of named variables."""
+
+    def __init__(self, var_ids: List[VariableId]):
+        """
+        Create a new parent.
+
+        :param var_ids: the list to attach the children to
+        """
+        self.__var_ids = var_ids
+
+    def add_child(self, child: VariableId):
+        """
+        Add a child to this parent.
+
+        :param child: the child to add.
+        """
+        self.__var_ids.append(child)
+
+
 class VariableSetProcessor(Collector):
     """Handle the processing of variables."""
 
@@ -160,12 +180,7 @@ class VariableSetProcessor(Collector):
         """
         var_ids = []
 
-        class FrameParent(ParentNode):
-
-            def add_child(self, child):
-                var_ids.append(child)
-
-        root_parent = FrameParent()
+        root_parent = FrameParent(var_ids)
 
         initial_nodes = [Node(NodeValue(name, value), parent=root_parent) for name, value in variables.items()]
         breadth_first_search(Node(None, initial_nodes, root_parent), self.search_function)
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 0e1920b..2136af0 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -21,7 +21,7 @@ import sys
 import time
 from threading import Event, Thread, TIMEOUT_MAX
 from types import FrameType
-from typing import Mapping
+from typing import Callable, Dict, Mapping
 
 from deep import logging
 
@@ -83,9 +83,11 @@ def read_locals(frame: FrameType) -> Mapping:
     """
     Read the local variables of a frame.
 
-    Before python 3.13 the values that are read from 'f_locals' are written back to the frame when the trace function
-    returns. This would revert the changes that other threads made to the variables of closures, and set the variables
-    of comprehensions in modules and classes to None. So we let python write them back while they are unchanged.
+    Before python 3.13 'f_locals' of a function is kept by the frame. The values would then not be released when the
+    program deletes the variables, and the result of 'locals()' in the program would be changed. The values are also
+    written back to the frame when the trace function returns. This would revert the changes that other threads made to
+    the variables of closures, and set the variables of comprehensions in modules and classes to None. So we read the
+    variables one by one where we can, or let python write them back while they are unchanged.
 
     :param frame: the frame to read
     :return: the local variables
@@ -94,6 +96,9 @@ def read_locals(frame: FrameType) -> Mapping:
         return frame.f_locals
     try:
         import ctypes
+        if sys.version_info >= (3, 12) and frame.f_code.co_flags & inspect.CO_OPTIMIZED:
+            get_var = ctypes.PYFUNCTYPE(*[ctypes.py_object] * 3)(('PyFrame_GetVar', ctypes.pythonapi))
+            return _read_variables(frame, get_var)
         write_back, args = ctypes.pythonapi.PyFrame_LocalsToFast, (ctypes.py_object(frame), ctypes.c_int(0))
     except (ImportError, AttributeError):
         # not available in all implementations
@@ -103,6 +108,18 @@ def read_locals(frame: FrameType) -> Mapping:
     return f_locals
 
 
+def _read_variables(frame: FrameType, get_var: Callable[[FrameType, str], any]) -> Dict[str, any]:
+    code = frame.f_code
+    variables = {}
+    for name in code.co_varnames + code.co_cellvars + code.co_freevars:
+        try:
+            variables[name] = get_var(frame, name)
+        except NameError:
+            # the variable has no value at the moment
+            continue
+    return variables
+
+
 def is_function_entry(frame: FrameType) -> bool:
     """
     Check if a 'call' event is for a function that is starting, or for a generator (or coroutine) that is resuming.
-- 
2.43.0


From 5c5b62436d234ccfe053a890632d869d3103a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 32/36] fix: a capture kept the exceptions that were handled by
 the program

---
 src/deep/processor/context/callback_context.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index b594370..8a718cc 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -103,12 +103,23 @@ class FrameExit:
         elif event == 'line':
             if self.__instruction(frame) not in HANDLER_INSTRUCTIONS:
                 self.__active = self.__handled_exception()
+                self.__release_handled()
         elif event == 'return':
             self.result = self.__get_result(frame, arg)
             # the tracebacks reference the frame, so do not keep them while it is suspended
             self.__raised.clear()
             self.__active = None
 
+    def __release_handled(self):
+        # the exceptions that are done would be kept, with the values they refer to, until the frame ends
+        if len(self.__raised) == 0:
+            return
+        handled, exception = set(), None if self.__active is None else self.__active[1]
+        while exception is not None and id(exception) not in handled:
+            handled.add(id(exception))
+            exception = exception.__context__
+        self.__raised = {lasti: raised for lasti, raised in self.__raised.items() if id(raised[1]) in handled}
+
     def __get_result(self, frame: FrameType, arg: any) -> Optional[Tuple[str, any]]:
         instruction = self.__instruction(frame)
         if instruction.startswith('RETURN'):
-- 
2.43.0


From af5dd85eaf2795fb18e5e1fae21b0cf7b37d3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 33/36] fix: collect the attributes of user types that have the
 name of a built in type

---
 src/deep/processor/variable_processor.py | 70 +++++++++++-------------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 2566a98..9a0ba43 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,48 +22,42 @@ and many options to consider when collecting.
 """
 
 import abc
+from types import ModuleType, TracebackType
 from typing import List
 
 from deep import logging
 from deep.api.tracepoint import VariableId, Variable
 from .bfs import Node, ParentNode, NodeValue
 
+ITER_LIKE_TYPES = [
+    type(iter([])),
+    type(reversed([])),
+]
+"""A list of types that we should handle like iterators."""
+
 NO_CHILD_TYPES = [
-    'str',
-    'int',
-    'float',
-    'bool',
-    'type',
-    'module',
-    'unicode',
-    'long',
-    'NoneType',
-    'traceback'
+    str,
+    int,
+    float,
+    bool,
+    type,
+    ModuleType,
+    type(None),
+    TracebackType
 ]
 """A list of types that do not have child nodes, or only have child nodes we do not want to process."""
 
+# We cannot process child nodes of iterators so add the iterator types to the no child types.
+NO_CHILD_TYPES += ITER_LIKE_TYPES
+
 LIST_LIKE_TYPES = [
-    'frozenset',
-    'set',
-    'list',
-    'tuple',
+    frozenset,
+    set,
+    list,
+    tuple,
 ]
 """A list of types that we should handle like lists."""
 
-BUILTIN_LIST_LIKE_TYPES = (frozenset, set, list, tuple)
-"""The types for the list like names, other types with these names can behave in any way."""
-
-ITER_LIKE_TYPES = [
-    'list_iterator',
-    'listiterator',
-    'list_reverseiterator',
-    'listreverseiterator',
-]
-"""A list of types that we should handle like iterators."""
-
-# We cannot process child nodes of iterators so add the iterator types to the no child types.
-NO_CHILD_TYPES += ITER_LIKE_TYPES
-
 
 class Collector(abc.ABC):
     """A type that is used to manage variable collection."""
@@ -194,16 +188,18 @@ def type_name(type_: type) -> str:
     return str.__str__(type.__dict__['__name__'].__get__(type_))
 
 
-def is_list_like(type_: type) -> bool:
+def is_one_of(type_: type, types: List[type]) -> bool:
     """
-    Check if a type is one of the built in list like types.
+    Check if a type is one of the types.
 
-    A metaclass can define what a type is equal to, so the types are compared by identity.
+    Any type can have the name of one of these types, and a metaclass can define what a type is equal to, so the types
+    are compared by identity.
 
     :param type_: the type to check
-    :return: True, if the type is one of the list like types
+    :param types: the types to look for
+    :return: True, if the type is one of the types
     """
-    return any(type_ is list_like for list_like in BUILTIN_LIST_LIKE_TYPES)
+    return any(type_ is other for other in types)
 
 
 def value_to_string(value: any) -> str:
@@ -229,10 +225,10 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if type_name(variable_type) in ITER_LIKE_TYPES:
+    if is_one_of(variable_type, ITER_LIKE_TYPES):
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % value_to_string(variable_type)
-    elif variable_type is dict or is_list_like(variable_type):
+    elif variable_type is dict or is_one_of(variable_type, LIST_LIKE_TYPES):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
@@ -334,7 +330,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if type_name(variable_type) in NO_CHILD_TYPES:
+    if is_one_of(variable_type, NO_CHILD_TYPES):
         return []
 
     # if the depth is more than we are configured - return empty
@@ -376,7 +372,7 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     try:
         if variable_type is dict:
             return process_dict_breadth_first(parent_node, type_name(variable_type), value)
-        elif is_list_like(variable_type):
+        elif is_one_of(variable_type, LIST_LIKE_TYPES):
             return process_list_breadth_first(var_collector, parent_node, value)
         elif issubclass(variable_type, BaseException):
             # 'args' can be replaced in the sub types
-- 
2.43.0


From f511a8eb2a90fda25758960859e25d66074f7847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:50 +0000
Subject: [PATCH 34/36] fix: report metrics which share a name to the metric of
 their own namespace and unit

---
 src/deep/api/plugin/metric/otel_metrics.py       | 13 +++++++------
 src/deep/api/plugin/metric/prometheus_metrics.py | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index e346d31..9b5c64a 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -40,8 +40,9 @@ class OTelMetrics(MetricProcessor):
         self.__cache = {}
         self.__lock = threading.Lock()
 
-    def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+    def __check_cache(self, name, namespace, unit, type_name, from_default):
+        # metrics can share a name if they have different namespaces (or units)
+        cache_key = (namespace or '', name, unit or '', type_name)
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -62,7 +63,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 counter: Counter
-                counter = self.__check_cache(name, 'counter',
+                counter = self.__check_cache(name, namespace, unit, 'counter',
                                              lambda: get_meter('deep').create_counter(f'{namespace}_{name}',
                                                                                       unit or '',
                                                                                       help_string or ''))
@@ -84,7 +85,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 gauge: UpDownCounter
-                gauge = self.__check_cache(name, 'gauge',
+                gauge = self.__check_cache(name, namespace, unit, 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
                                                                                             unit or '',
                                                                                             help_string or ''))
@@ -106,7 +107,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'histogram',
+                histogram = self.__check_cache(name, namespace, unit, 'histogram',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}',
                                                                                           unit or '',
                                                                                           help_string or ''))
@@ -128,7 +129,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'summary',
+                histogram = self.__check_cache(name, namespace, unit, 'summary',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}',
                                                                                           unit or '',
                                                                                           help_string or ''))
diff --git a/src/deep/api/plugin/metric/prometheus_metrics.py b/src/deep/api/plugin/metric/prometheus_metrics.py
index 14cc1c5..147160c 100644
--- a/src/deep/api/plugin/metric/prometheus_metrics.py
+++ b/src/deep/api/plugin/metric/prometheus_metrics.py
@@ -37,8 +37,9 @@ class PrometheusPlugin(MetricProcessor):
         self.__cache = {}
         self.__lock = threading.Lock()
 
-    def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+    def __check_cache(self, name, namespace, unit, type_name, from_default):
+        # metrics can share a name if they have different namespaces (or units)
+        cache_key = (namespace or '', name, unit or '', type_name)
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -59,7 +60,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                counter: Counter = self.__check_cache(name, "counter",
+                counter: Counter = self.__check_cache(name, namespace, unit, "counter",
                                                       lambda: Counter(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
@@ -83,7 +84,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                gauge: Gauge = self.__check_cache(name, "gauge",
+                gauge: Gauge = self.__check_cache(name, namespace, unit, "gauge",
                                                   lambda: Gauge(name=name, documentation=help_string or "",
                                                                 labelnames=label_keys,
                                                                 namespace=namespace, unit=unit))
@@ -108,7 +109,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                histogram: Histogram = self.__check_cache(name, "histogram",
+                histogram: Histogram = self.__check_cache(name, namespace, unit, "histogram",
                                                           lambda: Histogram(name=name, documentation=help_string or "",
                                                                             labelnames=label_keys,
                                                                             namespace=namespace, unit=unit))
@@ -133,7 +134,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                summary: Summary = self.__check_cache(name, "summary",
+                summary: Summary = self.__check_cache(name, namespace, unit, "summary",
                                                       lambda: Summary(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
-- 
2.43.0


From d431769c4f9796e721432d71e040ac36763fa56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 35/36] fix: find the end of a log field that has a triple
 quoted text with braces

---
 src/deep/processor/context/log_action.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 877435e..13aaed6 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -83,10 +83,12 @@ def _scan(text: str, start: int, with_quotes: bool):
         if quote is not None:
             if char == '\\':
                 pos += 1
-            elif char == quote:
+            elif text.startswith(quote, pos):
+                pos += len(quote) - 1
                 quote = None
         elif with_quotes and char in '"\'':
-            quote = char
+            quote = char * 3 if text.startswith(char * 3, pos) else char
+            pos += len(quote) - 1
         else:
             if char in '([{':
                 depth += 1
-- 
2.43.0


From 774cc2d9b03188dde8f8723fe05b69bfa0737c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 36/36] fix: complete a capture with the exception that a
 generator is left with, when it raises StopIteration

---
 .../processor/context/callback_context.py     | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 8a718cc..3344a02 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -128,7 +128,27 @@ class FrameExit:
         if instruction.startswith('YIELD') and not (arg is None and self.__is_leaving(raised)):
             # the frame is only suspended
             return None
-        return 'exception', raised or self.__active
+        return 'exception', self.__as_left(frame, raised or self.__active)
+
+    @staticmethod
+    def __as_left(frame: FrameType, raised: Optional[Tuple]) -> Optional[Tuple]:
+        # python replaces the exceptions that end an iteration, when they leave a generator, there is no event for this
+        flags = frame.f_code.co_flags
+        ends = (StopIteration, StopAsyncIteration) if flags & inspect.CO_ASYNC_GENERATOR else (StopIteration,)
+        if raised is None or not issubclass(raised[0], ends):
+            return raised
+        if flags & inspect.CO_ASYNC_GENERATOR:
+            kind = 'async generator'
+        elif flags & inspect.CO_COROUTINE:
+            kind = 'coroutine'
+        elif flags & inspect.CO_GENERATOR:
+            kind = 'generator'
+        else:
+            return raised
+        name = 'StopIteration' if issubclass(raised[0], StopIteration) else 'StopAsyncIteration'
+        error = RuntimeError('%s raised %s' % (kind, name))
+        error.__cause__ = raised[1]
+        return RuntimeError, error, raised[2]
 
     def __is_leaving(self, raised: Optional[Tuple]) -> bool:
         # there is no difference in yielding None, and leaving the frame due to an exception raised while suspended
-- 
2.43.0

