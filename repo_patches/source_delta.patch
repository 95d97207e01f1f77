From 62e61c428079dd279488fd483dfc6fb94ab88fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 01/54] fix: reject unsupported equation syntax instead of
 dropping it

---
 numerous/engine/model/ast_parser/ast_visitor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 4a63abe..3d4a722 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -46,6 +46,11 @@ class AstVisitor(ast.NodeVisitor):
     def visit(self, node: ast.AST):
         self.traverse(node)
 
+    def generic_visit(self, node: ast.AST):
+        if isinstance(node, (ast.Expr, ast.Pass)):
+            return super().generic_visit(node)
+        raise NotImplementedError(f'{type(node).__name__} is not supported in equation {self.eq_key}')
+
     def visit_Module(self, node: ast.Module):
         self.traverse(node.body)
 
@@ -53,6 +58,8 @@ class AstVisitor(ast.NodeVisitor):
         self.traverse(node.body)
 
     def visit_Call(self, node: ast.Call) -> Any:
+        if node.keywords:
+            raise NotImplementedError(f'Keyword arguments are not supported in equation {self.eq_key}')
         self._process_named_node(node.func, ast_type=ast.Call, node_type=NodeTypes.OP, func=node.func)
         self.mapped_stack.pop()
         en = self.node_number_stack.pop()
@@ -128,6 +135,8 @@ class AstVisitor(ast.NodeVisitor):
         self.visit_Assign(new_assign)
 
     def visit_Assign(self, node: ast.Assign):
+        if len(node.targets) > 1:
+            raise NotImplementedError(f'Chained assignment is not supported in equation {self.eq_key}')
         for target in node.targets:
             if self._is_assign_target_supported(target):
                 self.traverse(target)
@@ -264,6 +273,8 @@ class AstVisitor(ast.NodeVisitor):
         self.node_number_stack.append([en])
 
     def visit_If(self, node: ast.If) -> Any:
+        if node.orelse:
+            raise NotImplementedError(f'else/elif is not supported in equation {self.eq_key}')
         subgraph_body = ast_to_graph(node.body, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
         subgraph_test = ast_to_graph(node.test, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
         node = Node(ao=node, file=self.eq_file, name=self.eq_key,
-- 
2.43.0


From 756364da3e754b5eb4e0d4305031a308b61d0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 02/54] fix: give every event its own closure variables

Only the closure variables of the last event were passed to the compiled
event functions, so other events saw undefined or foreign values.
---
 numerous/engine/model/events.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 50612b8..8a4e4ce 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -1,4 +1,5 @@
 import ast
+import copy
 import inspect
 
 import numpy.typing as npt
@@ -7,7 +8,21 @@ from numba.core.registry import CPUDispatcher
 from typing import Union, Tuple
 
 from numerous.engine.model.utils import njit_and_compile_function
-from numerous.engine.numerous_event import NumerousEvent, StateEvent, TimestampEvent
+from numerous.engine.numerous_event import NumerousEvent, ParsedEventFunction, StateEvent, TimestampEvent
+
+
+def _bind_closure_variables(event_function: ParsedEventFunction, idx: int, closurevariables: dict) -> ast.FunctionDef:
+    """
+    Adds the closure variables of an event function to closurevariables under names that are unique to the event, and
+    returns the function using these names. Events share one namespace, but may have captured different values.
+    """
+    names = {name: f'_closure_{idx}_{name}' for name in event_function.closure_variables or {}}
+    closurevariables.update({names[name]: event_function.closure_variables[name] for name in names})
+    func = copy.deepcopy(event_function.ast_func)
+    for node in ast.walk(func):
+        if isinstance(node, ast.Name):
+            node.id = names.get(node.id, node.id)
+    return func
 
 
 def generate_event_condition_ast(event_functions: list[Union[StateEvent, TimestampEvent]],
@@ -17,12 +32,11 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
     compiled_functions = {}
-    closurevariables = None
-    for event in event_functions:
+    closurevariables = {}
+    for idx, event in enumerate(event_functions):
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
-        condition = event.condition.ast_func
-        closurevariables = event.condition.closure_variables
+        condition = _bind_closure_variables(event.condition, idx, closurevariables)
 
         directions_array.append(event.direction)
         body.append(condition)
@@ -149,15 +163,14 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
     compiled_functions = {}
-    closurevariables = None
+    closurevariables = {}
 
     for idx, event in enumerate(event_functions):
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
         if event.is_external:
             continue
-        action = event.action.ast_func
-        closurevariables = event.action.closure_variables
+        action = _bind_closure_variables(event.action, idx, closurevariables)
 
         body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
-- 
2.43.0


From 88d75c9945fc1ae66265c57a3f6e13bf4e736f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 03/54] fix: allow event functions to assign a constant to a
 variable

---
 numerous/engine/model/events.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 8a4e4ce..e57dba0 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -114,6 +114,10 @@ class VariablesVisitor(ast.NodeVisitor):
         ast.NodeVisitor.generic_visit(self, node)
 
     def visit_Assign(self, node: ast.Assign):
+        if not isinstance(node.targets[0], ast.Name):
+            self.generic_visit(node)
+            return
+
         evaluated = None
         if isinstance(node.value, ast.BinOp):
             operator = node.value.op
-- 
2.43.0


From b91f34fa9f38bdcfda04e17e1313988a5d54ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 04/54] fix: write back the variables an event modified, not
 their neighbours

The indices of the modified variables were computed after the states had been
removed from the array, but used to index the full array.
---
 numerous/engine/simulation/solver_interface.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 638899a..1b9e9dd 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -217,9 +217,7 @@ class EventFactory:
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
-                variables = np.delete(modified_variables, interface.model.numba_model.state_idx)
-                original_variables = np.delete(interface._get_variables(), interface.model.numba_model.state_idx)
-                modified_mask = (variables != original_variables)
+                modified_mask = (modified_variables != interface._get_variables())
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From c130033fe7bfe3a020af9d410a02110e63c505d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 05/54] fix: resolve variables of external event actions when
 other items exist

The item path was removed from and prepended to the names of all model
variables, which raised KeyError as soon as a variable of another item existed.
---
 numerous/engine/simulation/solver_interface.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 1b9e9dd..d1096b3 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -228,14 +228,14 @@ class EventFactory:
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
                 model.update_local_variables()
-                variables = {tag: var.value for tag, var in model.path_to_variable.items()}
-                path_ = ""
-                if parent_path:
-                    path_ = ".".join(parent_path) + "."
-                    variables = {tag.replace(path_, ""): value for tag, value in variables.items()}
+                path_ = ".".join(parent_path) + "." if parent_path else ""
+                # variables of the item are known to the action by the path relative to the item
+                model_variables = {tag[len(path_):] if tag.startswith(path_) else tag: var
+                                   for tag, var in model.path_to_variable.items()}
+                variables = {tag: var.value for tag, var in model_variables.items()}
                 external_action_function(t, variables)
                 for tag, value in variables.items():
-                    model.path_to_variable[path_ + tag].value = value
+                    model_variables[tag].value = value
                 model.update_all_variables()
                 states = interface.get_states()
                 return states
-- 
2.43.0


From 5f19d37b5bc712fa1bf1c776c80253e0203378db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 06/54] fix: give every solver event an id of its own

The solver looks external events up by id. With the key as id, events of
different items (or a state and a time event) with the same key were lost.
---
 numerous/engine/simulation/solver_interface.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index d1096b3..426bc79 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -274,19 +274,21 @@ class EventFactory:
         :return:
 
         """
-        if type(event_) == TimestampEvent:
-            event_type = 'time'
+        event_type = 'time' if type(event_) == TimestampEvent else 'state'
+        # the solver finds events by id, but keys of events of different items may be equal
+        event_id = f'{event_type}.{ix}.{event_.key}'
+
+        if event_type == 'time':
             if event_.periodicity:
                 baseclass = SolverPeriodicTimeEvent
-                kwargs = dict(id=event_.key, period=event_.periodicity, is_external=event_.is_external)
+                kwargs = dict(id=event_id, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = SolverTimestampedEvent
-                kwargs = dict(id=event_.key, timestamps=event_.timestamps, is_external=event_.is_external)
+                kwargs = dict(id=event_id, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
-            event_type = 'state'
             baseclass = self._wrap_state_event(ix)
-            kwargs = dict(id=event_.key, is_external=event_.is_external)
+            kwargs = dict(id=event_id, is_external=event_.is_external)
 
         new_event: type = self._new_event(ix, model, baseclass,
                                           is_external=event_.is_external,
-- 
2.43.0


From b644a0721210743d9b7c0606caf7fffa8b4f8348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 07/54] fix: use the final path of an item for its external
 events

Events added before the item was registered in a subsystem kept the old path.
---
 numerous/engine/model/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6b97b0b..9580f7e 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -407,6 +407,7 @@ class Model:
         for item in self.model_items.values():
             if item.events:
                 for event in item.events:
+                    event.parent_path = item.path  # the item may have been moved since the event was added
                     if not event.compiled:
                         condition_ast, condition_closurevariables = replace_path_strings(self, event.condition.func, "var",
                                                                                          item.path)
@@ -419,6 +420,7 @@ class Model:
                     self.events.append(event)
             if item.timestamp_events:
                 for event in item.timestamp_events:
+                    event.parent_path = item.path
                     if not event.is_external:
                         action_ast, action_closurevariables = replace_path_strings(self, event.action.func, "var", item.path)
                         event.action = Action(event.action.func, action_ast, action_closurevariables)
-- 
2.43.0


From 8088a0a1a827014be86eafe45098270c0d55ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 08/54] fix: raise the errors that were only constructed

Binding to an unknown binding name and adding a namespace to a second set
were silently accepted.
---
 numerous/engine/system/connector_item.py | 2 +-
 numerous/engine/system/subsystem.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index da3fd85..ca17022 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -57,7 +57,7 @@ class ConnectorItem(Item, Connector):
                 self.bindings[key].add_binding(value)
                 self.__bind_mappings(self.bindings[key], value)
             else:
-                ValueError("Binding {} is not exist in item {}".format(key, self.tag))
+                raise ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
 
 class ConnectorTwoWay(ConnectorItem):
diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index 2e08ce9..f3824aa 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -267,7 +267,7 @@ class ItemSet(Subsystem, EquationBase):
                 if not ns.part_of_set:
                     ns.part_of_set = sns
                 else:
-                    ValueError(f'namespace {ns} already in set {ns.part_of_set}')
+                    raise ValueError(f'namespace {ns} already in set {ns.part_of_set}')
                 tag_count += 1
         for ns in self.registered_namespaces.values():
             ns.items = self.items
-- 
2.43.0


From 110fc00206435c543109db371dac01c7d5ed9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 09/54] fix: connect all variables of a connector that are
 mapped to a binding

Variables with summed mappings were not connected, and the namespace of the
connector variable was used to look up the variable of the binded item.
---
 numerous/engine/system/connector_item.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index ca17022..28ed0cf 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -33,12 +33,18 @@ class ConnectorItem(Item, Connector):
         for ns in self.registered_namespaces:
             for f_var in ns.variables:
                 if f_var.mapping:
-                    b_fvar=f_var.mapping
-                    if isinstance(b_fvar, _BindingVariable):
-                        if b_fvar.namespace.binding.name == binding.name:
-                            bv = binded_item.registered_namespaces[ns.tag].get_variable(
-                                b_fvar.detailed_description.tag)
-                            f_var.mapping = bv
+                    f_var.mapping = self.__binded_variable(f_var.mapping, binding, binded_item)
+                f_var.sum_mapping = [self.__binded_variable(b_fvar, binding, binded_item)
+                                     for b_fvar in f_var.sum_mapping]
+
+    @staticmethod
+    def __binded_variable(variable, binding, binded_item):
+        """
+        Variable of the binded item, if the given variable is its placeholder in the binding, else the variable itself.
+        """
+        if isinstance(variable, _BindingVariable) and variable.namespace.binding is binding:
+            return binded_item.registered_namespaces[variable.namespace.tag].variables[variable.tag]
+        return variable
 
     def bind(self, **kwargs):
         """
-- 
2.43.0


From 98360bc96e215eb7575873dd6c2e9889a03fa979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 10/54] fix: binding an item by assignment does the same as
 bind()

The variables of the connector were not connected, and a second assignment to
an occupied binding was silently accepted.
---
 numerous/engine/system/connector.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/system/connector.py b/numerous/engine/system/connector.py
index a06153a..93221cf 100644
--- a/numerous/engine/system/connector.py
+++ b/numerous/engine/system/connector.py
@@ -96,8 +96,6 @@ class Connector(Node):
         return Binding(binding_name)
 
     def __setattr__(self, key, value):
-        if key in self.__dict__:
-            if isinstance(self.__dict__[key], Binding):
-                if isinstance(value, Node):
-                    self.__dict__[key].add_binding(value)
+        if isinstance(value, Node) and 'bindings' in self.__dict__ and key in self.bindings.keys():
+            self.bind(**{key: value})
         object.__setattr__(self, key, value)
-- 
2.43.0


From 619c23781a38b0e15cdcbc092f3cb7fd62efe62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 11/54] fix: a mapping after a summation through a local name
 was ignored

---
 numerous/engine/variables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 8e3d885..519a4f8 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -63,10 +63,10 @@ class MappedValue(object):
         self.llvm_idx = None
 
     def add_mapping(self, variable):
-        if not self.special_mapping:
-            if variable.id == self.id:
-                raise RecursionError("Variable {0} cannot be mapped to itself", self.id)
+        if variable.id != self.id:
             self.mapping = variable
+        elif not self.special_mapping:
+            raise RecursionError("Variable {0} cannot be mapped to itself", self.id)
         self.special_mapping = False
 
     def add_sum_mapping(self, variable):
-- 
2.43.0


From 97f98d6fba0692c50367ed7aab608ad1e85f0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 12/54] fix: register the alias a user gives to a variable

---
 numerous/engine/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 519a4f8..9c12fdd 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -185,7 +185,7 @@ class Variable(MappedValue):
         self.paths = []
         self.global_var = detailed_variable_description.global_var
         self.global_var_idx = detailed_variable_description.global_var_idx
-        self.alias = None
+        self.alias = detailed_variable_description.alias
         self.set_var = None
         self.set_var_ix = None
         self.set_namespace = None
-- 
2.43.0


From c93955f4b8851c982623695426096f53090940c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 13/54] fix: overwriting a variable in a namespace raised
 AttributeError

---
 numerous/engine/system/namespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index 65d46e1..c1a4ec5 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -127,8 +127,8 @@ class VariableNamespaceBase:
             # we overwrite constant < parameters < state
             if self.variables[variable.tag].value < variable.value:
                 self.variables[variable.tag] = variable
-                variable.extend_path(self.tag)
-                variable.extend_path(self.item.tag)
+                variable.path.extend_path(variable.id, self.id, self.tag)
+                variable.path.extend_path(self.id, self.item.id, self.item.tag)
 
     def update_set_var(self):
         pass
-- 
2.43.0


From dc47188c44bcd1be457d5cc03a685f1e7c3724bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 14/54] fix: do not store the kernel of a model on the class
 shared by all models

A model assembled later replaced the kernel of a model that was not simulated yet.
---
 numerous/engine/model/model.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 9580f7e..f9ada7c 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -476,9 +476,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.compiled_model_methods = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         self.compiled_compute, self.var_func, self.var_write = compiled_compute, var_func, var_write
         self.init_values = np.ascontiguousarray(
@@ -742,7 +740,8 @@ class Model:
 
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
-        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
+        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
+                   dict(CompiledModel.__dict__, **self.compiled_model_methods))
         if self.use_llvm:
             @jitclass(numba_model_spec)
             class CompiledModel_instance(tmp):
@@ -825,9 +824,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.compiled_model_methods = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         for varname, ix in self.vars_ordered_values.items():
             var = self.variables[varname]
-- 
2.43.0


From d6df6925c3135203bd94d47c85d273283df7f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 15/54] fix: do not add fields of one model to the layout of
 all later models

---
 numerous/engine/model/model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index f9ada7c..c8706d8 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -734,16 +734,15 @@ class Model:
 
     # Method that generates numba_model
     def _generate_compiled_model(self, start_time, number_of_timesteps):
-        for spec_dict in self.numba_callbacks_variables:
-            for item in spec_dict.items():
-                numba_model_spec.append(item)
+        model_spec = numba_model_spec + [item for spec_dict in self.numba_callbacks_variables
+                                         for item in spec_dict.items()]
 
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
         tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
                    dict(CompiledModel.__dict__, **self.compiled_model_methods))
         if self.use_llvm:
-            @jitclass(numba_model_spec)
+            @jitclass(model_spec)
             class CompiledModel_instance(tmp):
                 pass
         else:
-- 
2.43.0


From 8285343985f42c2cbfd03aba6c4b9a6b59db301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 16/54] fix: inline equations shared one namespace

---
 numerous/multiphysics/equation_decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/multiphysics/equation_decorators.py b/numerous/multiphysics/equation_decorators.py
index 3e96719..a0a7459 100644
--- a/numerous/multiphysics/equation_decorators.py
+++ b/numerous/multiphysics/equation_decorators.py
@@ -68,7 +68,8 @@ def dedent_code(code):
 
 class InlineEquation(Equation):
 
-    def __call__(self, func_name, func_source, namespace={}):
+    def __call__(self, func_name, func_source, namespace=None):
+        namespace = {} if namespace is None else namespace
         self.name = func_name
         tries = 0
         while tries < 10:
-- 
2.43.0


From 8a233dd11bc52e7f7fc2d14e364ecb929f2d3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 17/54] fix: apply external data that equals the previously
 applied data or zero

After a reset, with new mappings, or with zeros as first values, variables kept
their initial values because the data were believed to be applied already.
---
 numerous/engine/model/compiled_model.py  | 5 ++++-
 numerous/engine/model/model.py           | 1 +
 numerous/engine/simulation/simulation.py | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 0818809..8e9c129 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -76,7 +76,7 @@ class CompiledModel:
         self.historian_data = np.empty(
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
-        self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
+        self.external_mappings_reinit()
 
     def vectorized_full_jacobian(self, t, y, dt):
         h = 1e-8
@@ -120,6 +120,9 @@ class CompiledModel:
 
         self.func(t, self.get_states())
 
+    def external_mappings_reinit(self):
+        self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
+
     def run_post_step(self):
         for post_step_ in self.post_step:
             post_step_()
diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index c8706d8..86b0c55 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -905,6 +905,7 @@ class Model:
         self.numba_model.max_external_t = self.external_mappings.t_max
         self.numba_model.min_external_t = self.external_mappings.t_min
 
+        self.numba_model.external_mappings_reinit()
         self.numba_model.map_external_data(0)
 
         # if self.numba_model.is_external_data_update_needed(0):
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 6ba5cfc..1e421b5 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -92,6 +92,7 @@ class Simulation:
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
 
+        self.model.numba_model.external_mappings_reinit()
         self.model.numba_model.map_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
-- 
2.43.0


From 446260f88231db4c8797ac1973feb1b35db6076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 18/54] fix: keep recorded rows in which a variable is NaN

---
 numerous/engine/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 86b0c55..90a2290 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -855,7 +855,7 @@ class Model:
         return data
 
     def generate_not_nan_history_array(self):
-        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data).any(axis=0)]
+        return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
 
     def create_historian_df(self):
         if self.historian_df is not None:
-- 
2.43.0


From 2571e55809be1222fb4217ef7952bbf8e556f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 19/54] fix: a file-backed historian stores every block of
 results once and completely

Storing raised AttributeError, and every call would have stored all earlier
blocks again and dropped rows with NaN.
---
 numerous/engine/model/model.py | 10 +++++-----
 numerous/utils/historian.py    | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 90a2290..71d6a00 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -858,17 +858,17 @@ class Model:
         return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
 
     def create_historian_df(self):
+        history_df = self._generate_history_df(self.generate_not_nan_history_array())
+        self.historian.store(history_df)
+
         if self.historian_df is not None:
             import pandas as pd
-            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df,
-                                                            self._generate_history_df(
-                                                                self.generate_not_nan_history_array()).df],
+            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df, history_df.df],
                                                            axis=0, sort=False, ignore_index=True),
                                                  aliases=self.aliases, rename_columns=True)
 
         else:
-            self.historian_df = self._generate_history_df(self.generate_not_nan_history_array())
-        self.historian.store(self.historian_df)
+            self.historian_df = history_df
 
     def _generate_history_df(self, historian_data):
         data = self.create_historian_dict(historian_data)
diff --git a/numerous/utils/historian.py b/numerous/utils/historian.py
index 31faca1..87f86fe 100644
--- a/numerous/utils/historian.py
+++ b/numerous/utils/historian.py
@@ -1,5 +1,10 @@
+from __future__ import annotations
+
 import os
-import pandas
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from numerous.engine.model.aliased_dataframe import AliasedDataFrame
 
 
 class Historian:
@@ -28,12 +33,12 @@ class Historian:
         else:
             return self.max_size
 
-    def store(self, df: pandas.DataFrame):
+    def store(self, df: AliasedDataFrame):
         """
           Stores the simulation results of the historian.
 
           Parameters:
-          df (pandas.DataFrame): The simulation results to be stored in the historian.
+          df (AliasedDataFrame): The simulation results to be stored in the historian.
           """
         pass
 
@@ -60,16 +65,17 @@ class LocalHistorian(Historian):
         super().__init__(max_size)
         self.filename = filename
 
-    def store(self, df: pandas.DataFrame):
+    def store(self, df: AliasedDataFrame):
         """
 
         Stores the simulation results of the historian, into  csv file.
 
         Parameters:
-        df (pandas.DataFrame): The dataframe holding all the simulation results.
+        df (AliasedDataFrame): The dataframe holding the simulation results recorded since the last call.
 
         """
+        df = df.df.rename(columns={column: alias for alias, column in df.aliases.items()})
         if os.path.isfile(self.filename):
-            df.dropna().to_csv(self.filename, mode='a', header=False)
+            df.to_csv(self.filename, mode='a', header=False)
         else:
-            df.dropna().to_csv(self.filename)
\ No newline at end of file
+            df.to_csv(self.filename)
-- 
2.43.0


From d8bf097f669c87b5379871c4167c67d20fb6ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 20/54] fix: do not save recorded rows again when solving once
 more

---
 numerous/engine/simulation/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 1e421b5..8dab282 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -109,6 +109,7 @@ class Simulation:
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
                                                           self.model.path_variables), self.model.callbacks))
         self.model.create_historian_df()
+        self.model.numba_model.historian_reinit()
         self._run_after()
 
     def _run_after(self):
-- 
2.43.0


From bbfd1cd8b5f28b7951fe8116477347224ea49afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 21/54] fix: load further batches of CSV data whose time is in
 the first column

The column index 0 was taken for a missing index. Loading a file that is not
read in chunks more than once failed, too.
---
 numerous/utils/data_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index bbee08c..7edccf9 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -30,7 +30,7 @@ class CSVDataLoader(DataLoader):
 
     def _valid(self, chunks, t):
         for i, chunk in enumerate(chunks):
-            if not self.t_ix:
+            if self.t_ix is None:
                 self.t_ix = np.where(chunk.columns == 'time')[0][0]
             mask = chunk.iloc[:, self.t_ix] <= t
 
@@ -42,7 +42,7 @@ class CSVDataLoader(DataLoader):
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if not self.df.empty and t < min(self.df.iloc[:, self.t_ix]):
+        if self.t_ix is not None and t < min(self.df.iloc[:, self.t_ix]):
             self._skiprows = 0
 
         if self.is_chunks:
-- 
2.43.0


From 140aa9c1aa06e85627b910c4cd404ef1c0c13416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 22/54] fix: use the column and interpolation of the mapping
 that names the variable

Columns whose name is part of another variable's path were taken for that
variable, and with several data frames the interpolation of the first was used.
---
 .../engine/system/external_mappings/external_mappings.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 193e801..82ab635 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -32,7 +32,6 @@ class ExternalMapping:
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -73,10 +72,11 @@ class ExternalMapping:
         for i, external_column in enumerate(self.external_columns):
             for path in variables[var_id].path.path[system_id]:
                 for index, column in enumerate(external_column):
-                    if column in path:
+                    if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
-                            self.interpolation_type[index].value == InterpolationType.LINEAR.value)
+                            self.interpolation_type[i][index].value == InterpolationType.LINEAR.value)
+                        return
 
     def is_mapped_var(self, variables, var_id, system_id):
         if not variables[var_id].global_var:
-- 
2.43.0


From ce079262416316b37e8d408f63cd838d94fe40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 23/54] fix: consider all data frames when deciding whether
 external data must be loaded

---
 .../system/external_mappings/external_mappings.py   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 82ab635..47d6783 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -26,15 +26,18 @@ class ExternalMapping:
                 self.external_mappings_time.append(
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                # TODO extend for multiple dataframes
-                self.t_max = np.max(self.external_mappings_time[0])
-                self.t_min = np.min(self.external_mappings_time[0])
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
+        self._update_time_window()
         self.external_df_idx = []
         self.interpolation_info = []
 
+    def _update_time_window(self):
+        # the time window in which all data frames have data
+        self.t_max = np.min([np.max(time) for time in self.external_mappings_time])
+        self.t_min = np.max([np.min(time) for time in self.external_mappings_time])
+
     def load_new_external_data_batch(self, t):
         self.external_mappings_numpy = []
         self.external_mappings_time = []
@@ -59,9 +62,7 @@ class ExternalMapping:
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        # TODO extend for multiple dataframes
-        self.t_max = np.max(self.external_mappings_time[0])
-        self.t_min = np.min(self.external_mappings_time[0])
+        self._update_time_window()
         return True
 
     def store_mappings(self):
-- 
2.43.0


From 74bac4f5d9ae3567981725a627adee4e8165230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 24/54] fix: piecewise external data started with the last
 value of the window

---
 numerous/engine/model/compiled_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 8e9c129..f44b145 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -46,7 +46,7 @@ def closest_time_idx(t, time_array):
 @njit
 def step_approximation(t, time_array, data_array):
     idx = closest_time_idx(t, time_array)
-    return data_array[idx]
+    return data_array[max(idx, 0)]
 
 
 class CompiledModel:
-- 
2.43.0


From dff6fa077ba6eb335d12e39fc6c37e430ced477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 25/54] fix: reject external mappings to variables that do not
 exist

Paths that are not relative to the system were accepted, and mappings set on
the model were not checked at all; such data was silently ignored.
---
 numerous/engine/model/model.py      |  1 +
 numerous/engine/system/subsystem.py | 23 ++++++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 71d6a00..bcd9046 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -877,6 +877,7 @@ class Model:
     def set_external_mappings(self, external_mappings, data_loader):
 
         external_mappings_unpacked = [ExternalMappingUnpacked(external_mappings, data_loader)]
+        self.system.check_external_mappings(external_mappings_unpacked)
         external_mappings_unpacked = self.system_external_mappings + external_mappings_unpacked
         self.is_external_data = True if len(external_mappings_unpacked) else False
         self.external_mappings = ExternalMapping(external_mappings_unpacked) if len(
diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index f3824aa..461d528 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -159,18 +159,21 @@ class Subsystem(ConnectorItem):
     def _find_variable(self, item, varname):
         variables = item.get_variables()
         for variable in variables:
-            for path in variable[0].path.path.values():
-                if path[0] == varname:
-                    return True
+            if varname in variable[0].path.path.get(self.id, []):
+                return True
         return False
 
-    def find_variable(self, varname):
-        if self._find_variable(self, varname):
+    def find_variable(self, varname, subsystem=None):
+        """
+        Checks if there is a variable with the given path, starting with the tag of this subsystem.
+        """
+        subsystem = self if subsystem is None else subsystem
+        if self._find_variable(subsystem, varname):
             return True
 
-        for item in self.registered_items.values():
+        for item in subsystem.registered_items.values():
             if isinstance(item, Subsystem):
-                if item.find_variable(varname):
+                if self.find_variable(varname, item):
                     return True
             if self._find_variable(item, varname):
                 return True
@@ -210,6 +213,10 @@ class Subsystem(ConnectorItem):
     def get_external_mappings(self):
         external_mappings = self._get_external_mappings()
 
+        self.check_external_mappings(external_mappings)
+        return external_mappings
+
+    def check_external_mappings(self, external_mappings):
         for external_mapping in external_mappings:
             for mapping in external_mapping.external_mappings:
                 for alias in mapping.dataframe_aliases:
@@ -217,8 +224,6 @@ class Subsystem(ConnectorItem):
                         raise ValueError(f"No variable named '{alias}' in system '{self.tag}' "
                                          f"(could not map external data")
 
-        return external_mappings
-
 
 class ItemSet(Subsystem, EquationBase):
 
-- 
2.43.0


From f1e85157aff61565ad5abce6143c1958fae2466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 26/54] fix: keep the position in every CSV file separately and
 restart for earlier times

Files loaded by the same loader shifted each other's position, and a request for
an earlier time inside the last delivered frames was answered with later rows.
---
 numerous/utils/data_loader.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index 7edccf9..60d4dbc 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -22,36 +22,36 @@ class CSVDataLoader(DataLoader):
         super(CSVDataLoader, self).__init__()
         self.chunksize = chunksize
         self.is_chunks = False
-        self._skiprows = 0
-        self.df = pd.DataFrame()
-        self.t_ix = None
+        self._skiprows = {}
+        self.t_last = {}
+        self.t_ix = {}
         if self.chunksize:
             self.is_chunks = True
 
-    def _valid(self, chunks, t):
+    def _valid(self, df_id, chunks, t):
         for i, chunk in enumerate(chunks):
-            if self.t_ix is None:
-                self.t_ix = np.where(chunk.columns == 'time')[0][0]
-            mask = chunk.iloc[:, self.t_ix] <= t
+            if df_id not in self.t_ix:
+                self.t_ix[df_id] = np.where(chunk.columns == 'time')[0][0]
+            mask = chunk.iloc[:, self.t_ix[df_id]] <= t
 
             if mask.all():
                 yield chunk
             else:
-                self._skiprows += i * self.chunksize
+                self._skiprows[df_id] += i * self.chunksize
                 yield chunk
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if self.t_ix is not None and t < min(self.df.iloc[:, self.t_ix]):
-            self._skiprows = 0
-
         if self.is_chunks:
-            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-            df = pd.concat(self._valid(chunks, t))
+            if df_id not in self._skiprows or t < self.t_last[df_id]:
+                self._skiprows[df_id] = 0
+
+            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows[df_id], chunksize=self.chunksize)
+            df = pd.concat(self._valid(df_id, chunks, t))
+            self.t_last[df_id] = t
         else:
             df = pd.read_csv(df_id, header=0)
 
-        self.df = df
         return df
 
 
-- 
2.43.0


From 2081735b88ae7998c56644f505bc25cbaf11d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 27/54] fix: ask the data loader for times in the unit of the
 data

---
 numerous/engine/system/external_mappings/external_mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 47d6783..b181a1d 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -45,7 +45,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t)
+                df = external_mapping.data_loader.load(element.data_frame_id, t / element.time_multiplier)
 
                 if df.empty:
                     return False
-- 
2.43.0


From 3e593bf881411a0c8f02645f5d792eb176af014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 28/54] fix: apply external data after a reset from the data
 loaded for the start time

---
 numerous/engine/simulation/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 8dab282..4730ccd 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -93,9 +93,6 @@ class Simulation:
         self.model.numba_model.historian_reinit()
 
         self.model.numba_model.external_mappings_reinit()
-        self.model.numba_model.map_external_data(t_start)
-        self.model.numba_model.func(t_start, self.model.numba_model.get_states())
-
         if self.model.numba_model.is_external_data_update_needed(t_start):
             self.model.numba_model.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
         if self.model.numba_model.is_external_data:
@@ -104,6 +101,9 @@ class Simulation:
                                                         self.model.external_mappings.t_max,
                                                         self.model.external_mappings.t_min)
 
+        self.model.numba_model.map_external_data(t_start)
+        self.model.numba_model.func(t_start, self.model.numba_model.get_states())
+
     def _complete(self):
 
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
-- 
2.43.0


From 7e9d075225dabb3e4bd746a7d1482a1976ef5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 29/54] fix: a placeholder variable of a binding was replaced
 when an equation declared it again

---
 numerous/engine/system/namespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index c1a4ec5..2d2f9f8 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -224,6 +224,6 @@ class _ShadowVariableNamespace(VariableNamespaceBase):
         self.binding = binding
 
     def register_variable(self, variable):
-        if variable.tag not in self.variables:
+        if variable.tag not in self.variables.keys():
             self.variables[variable.tag] = _BindingVariable(variable)
             self.variables[variable.tag].path.extend_path(variable.id, self.id, self.tag)
-- 
2.43.0


From 9d07015abe73d3e4a52063c3fbb0fa42becfabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 30/54] fix: clones and loaded models lacked initial values,
 global variables and item events

---
 numerous/engine/model/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index bcd9046..d02342d 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -931,6 +931,10 @@ class Model:
         model.derivatives_idx = derivatives_idx
         model.init_values = init_values
         model.aliases = aliases
+        model.global_variables = {v.tag: v for v in sorted((v for v in variables.values() if v.global_var),
+                                                           key=lambda v: v.global_var_idx)}
+        model._initial_variables_dict = {k: v.value for k, v in variables.items() if not v.global_var}
+        model.__add_item(system_)
 
         model._set_functions(equations_llvm_opt, n_deriv, max_var)
         return model
@@ -951,6 +955,9 @@ class Model:
         model.derivatives_idx = self.derivatives_idx
         model.init_values = self.init_values
         model.aliases = self.aliases
+        model.global_variables = self.global_variables
+        model._initial_variables_dict = self._initial_variables_dict
+        model.model_items = self.model_items
 
         model._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
 
-- 
2.43.0


From 940618b3664c456b6f00d3634d5ca73f627e001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 31/54] fix: reading the variables of a model with temporary
 variables raised KeyError

---
 numerous/engine/model/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index d02342d..44f5eef 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -494,7 +494,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
@@ -839,7 +840,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
-- 
2.43.0


From 4c1589f16ee2b61a9cac8cb6e1e5585cfb45c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 32/54] fix: a set with a variable that no equation uses could
 not be assembled

---
 numerous/engine/variables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 9c12fdd..3b0b9c0 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -144,6 +144,7 @@ class SetOfVariables:
         self.global_var = False
         self.global_var_idx = False
         self.eq_used = []
+        self.used_in_equation_graph = False
 
     def get_size(self):
         return self.size
-- 
2.43.0


From f8f7574b1f75fba5145dabdfa20c435ca3ba3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 33/54] fix: keep the temporaries of several summing equations
 on one variable apart

---
 numerous/engine/model/graph_representation/mappings_graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/graph_representation/mappings_graph.py b/numerous/engine/model/graph_representation/mappings_graph.py
index 43d3eed..50015c2 100644
--- a/numerous/engine/model/graph_representation/mappings_graph.py
+++ b/numerous/engine/model/graph_representation/mappings_graph.py
@@ -106,8 +106,9 @@ class MappingsGraph(Graph):
                 if va in self.vars_assignments and len(self.vars_assignments[va]) > 1:
                     # Make new temp var
                     sv = self.nodes[e[1]].scope_var
-                    tmp_key = sv.tag + str(self.key_map[va]) + '_tmp'
-                    tmp_label = sv.tag + str(self.key_map[va]) + '_label' + '_tmp'
+                    # one temporary per equation and target variable
+                    tmp_key = sv.tag + str(self.key_map[va]) + '_' + str(n) + '_tmp'
+                    tmp_label = sv.tag + str(self.key_map[va]) + '_' + str(n) + '_label' + '_tmp'
                     # Create fake scope variables for tmp setvar
                     fake_sv = {}
                     svf = None
-- 
2.43.0


From 1022d7fc54d39bb45da205094c9e90ca5c0738c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 34/54] fix: store the states before the set calls of the
 kernel read them

---
 numerous/engine/model/lowering/llvm_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/lowering/llvm_builder.py b/numerous/engine/model/lowering/llvm_builder.py
index 2772bf4..261caf1 100644
--- a/numerous/engine/model/lowering/llvm_builder.py
+++ b/numerous/engine/model/lowering/llvm_builder.py
@@ -95,9 +95,13 @@ class LLVMBuilder:
         for idx, g_var in enumerate(self.global_names.keys()):
             self.load_global_arguments(idx, g_var, 1)
 
+        # the set calls read the states from the model variables
+        for state in self.states:
+            self.store_variable(state, self.bb_entry)
+
         # go through all states to put them in store block
         for state in self.states:
-            self.store_variable(state)
+            self.store_variable(state, self.bb_store)
 
         self.builder.position_at_end(self.bb_entry)
         self.builder.branch(self.bb_loop)
@@ -252,9 +256,9 @@ class LLVMBuilder:
 
         self.builder.store(self.builder.load(self.values[global_arg_name]), eptr)
 
-    def store_variable(self, variable_name: str):
+    def store_variable(self, variable_name: str, bb_target):
         _block = self.builder.block
-        self.builder.position_at_end(self.bb_store)
+        self.builder.position_at_end(bb_target)
         index = ll.IntType(64)(self.variable_names[variable_name])
         ptr = self.model_variables
         indices = [self.index0, index]
-- 
2.43.0


From c365f6eaa00277ac4feeab1875031dc66556f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 35/54] fix: let set equations use temporaries, other variables
 of the set and non-contiguous slots

---
 .../graph_representation/mappings_graph.py    |  2 +-
 .../model/lowering/equations_generator.py     | 39 ++++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/graph_representation/mappings_graph.py b/numerous/engine/model/graph_representation/mappings_graph.py
index 50015c2..53fe1c0 100644
--- a/numerous/engine/model/graph_representation/mappings_graph.py
+++ b/numerous/engine/model/graph_representation/mappings_graph.py
@@ -117,7 +117,7 @@ class MappingsGraph(Graph):
                         tsv = TemporarySetVar(tmp_key, sv)
                         for svi in sv.variables.values():
                             tmp_var_counter += 1
-                            svf = TemporaryVar('tmp_var_' + str(tmp_var_counter), svi,
+                            svf = TemporaryVar(d_u(tmp_key) + '_' + str(tmp_var_counter), svi,
                                                svi.tag + '_' + str(sv.id), svi.set_var, svi.set_var_ix)
                             tsv.tmp_vars.append(svf)
                         fake_sv[tsv.id] = tsv
diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 1aec9da..06f67a9 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -174,6 +174,25 @@ class EquationGenerator:
                 return var_id
         raise ValueError("No variable found for id {}", var_id)
 
+    def is_contiguous(self, set_args):
+        # a set call walks over the slots of its arguments item by item
+        slots = [self.values_order[a] for item_args in set_args for a in item_args]
+        return slots == list(range(slots[0], slots[0] + len(slots)))
+
+    def search_in_set_scope(self, set_var_id, scope_vars):
+        tag = self.set_variables[set_var_id].tag
+        used = self.set_variables[next(iter(scope_vars.values()))]
+        if used.id in self.temporary_variables:
+            used = used.set_var
+        used = used.get_var_by_idx(0)
+        for k, v in self.set_variables.items():
+            if k in self.temporary_variables:
+                continue
+            var = v.get_var_by_idx(0)
+            if v.tag == tag and var.item is used.item and var.namespace is used.namespace:
+                return k
+        raise ValueError(f"No set variable found for {tag}")
+
     def _process_equation_node(self, n):
         eq_name = self.equation_graph.nodes[n].name
 
@@ -230,14 +249,21 @@ class EquationGenerator:
             for t in vardef.args_order:
                 if not t.is_global_var:
                     llvm_args_ = []
-                    set_var = self.set_variables[scope_vars[t[0]]]
+                    set_var = self.set_variables[scope_vars[t[0]] if t[0] in scope_vars else
+                                                 self.search_in_set_scope(t[0], scope_vars)]
                     for i in range(set_var.get_size()):
                         llvm_args_.append(set_var.get_var_by_idx(i).id)
                     llvm_args.append(llvm_args_)
             # reshape to correct format
             llvm_args = [list(x) for x in zip(*llvm_args)]
-            self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
-                                                vardef.llvm_target_ids)
+            if self.is_contiguous(llvm_args):
+                self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
+                                                    vardef.llvm_target_ids)
+            else:
+                for item_args in llvm_args:
+                    self.generated_program.add_call(self.get_external_function_name(ext_func),
+                                                    [VariableArgument(a, False) for a in item_args],
+                                                    vardef.llvm_target_ids)
         else:
             # Generate llvm arguments
             args = []
@@ -313,7 +339,9 @@ class EquationGenerator:
                 for set_variable in mappings[':']:
                     for k in range(self.set_variables[set_variable].size):
                         target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
-                        mappings_llvm[target_var_name] = [self.set_variables[set_variable].get_var_by_idx(k).id]
+                        if target_var_name not in mappings_llvm.keys():
+                            mappings_llvm[target_var_name] = []
+                        mappings_llvm[target_var_name].append(self.set_variables[set_variable].get_var_by_idx(k).id)
             for m_ix in mappings['ix']:
                 for k, v in m_ix[1].items():
                     target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
@@ -328,7 +356,8 @@ class EquationGenerator:
                             else:
                                 raise ValueError(f'Variable  {m_ix[0]} mapping not found')
             for k, v in mappings_llvm.items():
-                self.generated_program.add_mapping(v, [k])
+                self.generated_program.add_mapping([VariableArgument(a, False) for a in v],
+                                                   [VariableArgument(k, False)])
         else:
             # Register targeted variables
             is_set_var = self.equation_graph.nodes[t].is_set_var
-- 
2.43.0


From ddacdc044cde89627b475ab1b2454c6c234ea2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 36/54] fix: keep all sources when several item variables are
 summed into one variable

---
 numerous/engine/model/lowering/equations_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 06f67a9..d78de60 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -394,7 +394,7 @@ class EquationGenerator:
                             mapping_dict[target_var] = [VariableArgument(var_name, False)]
                     else:
                         if var_name in self.set_variables:
-                            if var_name in mapping_dict:
+                            if target_var in mapping_dict:
                                 mapping_dict[target_var].append(
                                     VariableArgument(self.set_variables[var_name].get_var_by_idx(v[1]).id, False))
                             else:
-- 
2.43.0


From e3e86f7f91aeae93d53eb22c027556433d0e3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 37/54] fix: give each namespace of an item set its own path

---
 numerous/engine/model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 44f5eef..81774c5 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -720,8 +720,8 @@ class Model:
                     equations.append(equation)
                 for vardesc in eq.variables_descriptions:
                     if set_namespace:
-                        for item in namespace.items:
-                            variable = item.registered_namespaces[namespace.tag].get_variable(vardesc.tag)
+                        for set_item in namespace.items:
+                            variable = set_item.registered_namespaces[namespace.tag].get_variable(vardesc.tag)
                             ids.append(variable.id)
                     else:
                         variable = namespace.get_variable(vardesc.tag)
-- 
2.43.0


From 31833e76e0c77d68ded26af8183d1d4255fef9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 38/54] fix: let the derivatives follow the order of the states

---
 .../model/lowering/equations_generator.py     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index d78de60..683dd4c 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -34,6 +34,7 @@ class EquationGenerator:
                 self.states.append(full_tag)
             elif sv.type == VariableType.DERIVATIVE:
                 self.deriv.append(full_tag)
+        self._sort_derivatives()
 
         for k, var in temporary_variables.items():
             if var.type == VariableType.TMP_PARAMETER_SET:
@@ -98,6 +99,17 @@ class EquationGenerator:
                 used_eq[eq_key] = eq
         self._parse_equations(used_eq)
 
+    def _sort_derivatives(self):
+        # the derivatives follow the order of their states, whatever the order they are declared in
+        order = {}
+        derivatives = {}
+        for sv in self.scope_variables.values():
+            if sv.type == VariableType.STATE:
+                order[(id(sv.item), id(sv.namespace), sv.tag + '_dot')] = len(order)
+            elif sv.type == VariableType.DERIVATIVE:
+                derivatives[d_u(sv.id)] = (id(sv.item), id(sv.namespace), sv.tag)
+        self.deriv.sort(key=lambda tag: order.get(derivatives[tag], len(order)))
+
     def _parse_variable(self, full_tag, sv):
         # If a scope_variable is part of a set it should be referenced alone
         if sv.set_var:
@@ -421,14 +433,9 @@ class EquationGenerator:
             else:
                 raise ValueError('Unused node: ', self.equation_graph.key_map[n])
 
-        deriv_idx = []
-        state_idx = []
+        deriv_idx = [self.values_order[k] for k in self.deriv]
+        state_idx = [self.values_order[k] for k in self.states]
         save_to_file = export_model or clonable
-        for k, v in self.values_order.items():
-            if k in self.deriv:
-                deriv_idx.append(v)
-            if k in self.states:
-                state_idx.append(v)
         if self.llvm:
             log.info('Generating llvm')
             diff, var_func, var_write = self.generated_program.generate(imports=self.imports,
-- 
2.43.0


From 38766cdced8d0f1dac072deaa4b5333906cb4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 39/54] fix: take a mapped variable itself as the source, not
 the variable it is mapped to

---
 numerous/engine/model/model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 81774c5..6fbacf4 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -216,12 +216,6 @@ class Model:
                 model_namespaces.update(self.__add_item(registered_item))
         return model_namespaces
 
-    def __get_mapping__variable(self, variable, depth):
-        if variable.mapping and depth > 0:
-            return self.__get_mapping__variable(variable.mapping, depth - 1)
-        else:
-            return variable
-
     def _add_global_var(self, name: str, initial_value: float):
         if name in self.global_variables:
             return self.global_variables[name]
@@ -279,12 +273,12 @@ class Model:
 
         for scope_var_idx, var in enumerate(self.variables.values()):
             if var.mapping:
-                _from = self.__get_mapping__variable(self.variables[var.mapping.id], depth=1)
+                _from = self.variables[var.mapping.id]
                 mappings.append((var.id, [_from.id]))
             if not var.mapping and var.sum_mapping:
                 sum_mapping = []
                 for mapping_id in var.sum_mapping:
-                    _from = self.__get_mapping__variable(self.variables[mapping_id.id], depth=1)
+                    _from = self.variables[mapping_id.id]
                     sum_mapping.append(_from.id)
                 mappings.append((var.id, sum_mapping))
 
-- 
2.43.0


From 78b011da43cc915715e25c54d18516e80c8e317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 40/54] fix: find edges from and to the first node of a graph

---
 numerous/engine/model/graph_representation/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 4572eb5..fd48f8a 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -206,14 +206,14 @@ class Graph:
 
     def has_edge_for_nodes(self, start_node=None, end_node=None):
 
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             return np.where(
                 (self.edges[:self.edge_counter, 0] == start_node) & (self.edges[:self.edge_counter, 1] == end_node))[0]
 
-        if start_node:
+        if start_node is not None:
             return start_node in self.edges[:, 0]
 
-        if end_node:
+        if end_node is not None:
             return end_node in self.edges[:, 1]
 
     def clone(self):
-- 
2.43.0


From 428717fd3704044a69f0ac1a78ba91bd5136f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 41/54] fix: translate tuples and parallel assignments of
 equations as they are written

---
 .../engine/model/ast_parser/ast_visitor.py    | 56 ++++++++-----------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 3d4a722..673cf15 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -1,5 +1,4 @@
 import ast
-from itertools import chain, zip_longest
 from typing import Any
 
 from numerous.engine.model.graph_representation.graph import Node, Edge, Graph
@@ -78,16 +77,8 @@ class AstVisitor(ast.NodeVisitor):
     def visit_Set(self, node: ast.Set) -> Any:
         self._visit_iterable(node=node, ast_type=ast.Set)
 
-# TODO rewrite tuple as set and list
     def visit_Tuple(self, node: ast.Tuple):
-        en = []
-        mapped = []
-        for el in node.elts:
-            self.traverse(el)
-            en.append(self.node_number_stack.pop())
-            mapped.append(self.mapped_stack.pop())
-        self.mapped_stack.append(list(chain.from_iterable(mapped)))
-        self.node_number_stack.append(list(chain.from_iterable(en)))
+        self._visit_iterable(node=node, ast_type=ast.Tuple, ctx=node.ctx)
 
     def _visit_iterable(self, node, ast_type, ctx=None):
         en = self.graph.add_node(Node(ao=Node, file=self.eq_file,
@@ -98,6 +89,7 @@ class AstVisitor(ast.NodeVisitor):
         for el in node.elts:
             self.traverse(el)
             start = self.node_number_stack.pop()
+            self.mapped_stack.pop()
             self.graph.add_edge(Edge(start=start[0], end=en, e_type=EdgeType.ELEMENT, branches=self.branches.copy()))
         self.mapped_stack.append([None])
         self.node_number_stack.append([en])
@@ -137,32 +129,28 @@ class AstVisitor(ast.NodeVisitor):
     def visit_Assign(self, node: ast.Assign):
         if len(node.targets) > 1:
             raise NotImplementedError(f'Chained assignment is not supported in equation {self.eq_key}')
-        for target in node.targets:
-            if self._is_assign_target_supported(target):
-                self.traverse(target)
-            else:
-                raise AttributeError('Unknown type of assign target in Equation: ', type(target))
+        target = node.targets[0]
+        if not self._is_assign_target_supported(target):
+            raise AttributeError('Unknown type of assign target in Equation: ', type(target))
+        if isinstance(target, ast.Tuple):
+            targets = target.elts
+            if len(targets) < 2 or not all(isinstance(el, (ast.Attribute, ast.Name)) for el in targets):
+                raise NotImplementedError(f'Nested assign targets are not supported in equation {self.eq_key}')
+        else:
+            targets = [target]
+        end = []
+        for el in targets:
+            self.traverse(el)
+            end += self.node_number_stack.pop()
+            self.mapped_stack.pop()
         self.traverse(node.value)
-        self.mapped_stack.pop()
-        mapped = self.mapped_stack.pop()
         start = self.node_number_stack.pop()
-        end = self.node_number_stack.pop()
-        en = 0
-        for s, e, m in zip_longest(start, end, mapped):
-            if e is not None and s is not None:
-                en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
-                                              label='+=' if m else '=',
-                                              ast_type=ast.AugAssign if m else ast.Assign, node_type=NodeTypes.ASSIGN,
-                                              ast_op=ast.Add() if m else None))
-                self.graph.add_edge(Edge(start=en, end=e, e_type=EdgeType.TARGET, branches=self.branches.copy()))
-                self.graph.add_edge(Edge(start=s, end=en, e_type=EdgeType.VALUE, branches=self.branches.copy()))
-            else:
-                if e is not None:
-                    self.graph.add_edge(Edge(start=en, end=e, e_type=EdgeType.TARGET, branches=self.branches.copy()))
-                if s is not None:
-                    self.graph.add_edge(Edge(start=s, end=en, e_type=EdgeType.VALUE, branches=self.branches.copy()))
-        self.node_number_stack.append([en])
-        self.mapped_stack.append(mapped)
+        self.mapped_stack.pop()
+        en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno, label='=',
+                                      ast_type=ast.Assign, node_type=NodeTypes.ASSIGN))
+        for e in end:
+            self.graph.add_edge(Edge(start=en, end=e, e_type=EdgeType.TARGET, branches=self.branches.copy()))
+        self.graph.add_edge(Edge(start=start[0], end=en, e_type=EdgeType.VALUE, branches=self.branches.copy()))
 
     def visit_Attribute(self, node: ast.Attribute):
         self._process_named_node(node, ast_type=ast.Attribute, static_key=True, node_type=NodeTypes.VAR)
-- 
2.43.0


From 967f8d9ec863008bced5891b11e6a90c1876c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 42/54] fix: one edge per equation and variable, also if the
 variable is used inside and outside an if

---
 .../engine/model/ast_parser/ast_visitor.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 673cf15..d249a75 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -276,6 +276,7 @@ class AstVisitor(ast.NodeVisitor):
 
 def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_local=False):
     eq_node_idx = mappings_graph.add_node(node)
+    targeted_nodes, read_nodes = {}, {}
     for n in range(equation_graph.node_counter):
         if equation_graph.nodes[n].node_type == NodeTypes.VAR:
             if equation_graph.nodes[n].scope_var:
@@ -284,24 +285,17 @@ def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_
                                                    is_set_var=is_set, label=sv.get_path_dot()),
                                               ignore_existing=True)
 
-                targeted = False
-                read = False
-
+                # several nodes may stand for the same variable, e.g. outside and inside an if
                 end_edges = equation_graph.get_edges_for_node(end_node=n)
 
                 try:
                     next(end_edges)
-                    mappings_graph.add_edge(
-                        Edge(start=eq_node_idx, end=neq, e_type=EdgeType.TARGET, arg_local=sv.id))
-                    targeted = True
+                    targeted_nodes[neq] = sv.id
                 except StopIteration:
-                    pass
-
-                if not targeted and not read:
                     start_edges = equation_graph.get_edges_for_node(start_node=n)
                     try:
                         next(start_edges)
-                        mappings_graph.add_edge(Edge(neq, eq_node_idx, e_type=EdgeType.ARGUMENT, arg_local=sv.id))
+                        read_nodes[neq] = sv.id
                     except StopIteration:
                         pass
 
@@ -322,4 +316,10 @@ def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_
                 except StopIteration:
                     pass
 
+    for neq, sv_id in targeted_nodes.items():
+        mappings_graph.add_edge(Edge(start=eq_node_idx, end=neq, e_type=EdgeType.TARGET, arg_local=sv_id))
+    for neq, sv_id in read_nodes.items():
+        if neq not in targeted_nodes:
+            mappings_graph.add_edge(Edge(neq, eq_node_idx, e_type=EdgeType.ARGUMENT, arg_local=sv_id))
+
     return eq_node_idx
-- 
2.43.0


From f5a676ce5036a293bec450902ffbd018f4f03788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 43/54] fix: take the whole test of an if, not only its
 comparisons

---
 .../model/ast_parser/equation_from_graph.py   | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index f2dabee..3b41448 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -170,15 +170,13 @@ def function_from_graph_generic(g: MappingsGraph, var_def_, arg_metadata, replac
     return func_result, var_def_.get_order_args(), target_ids
 
 
-def compare_expresion_from_graph(g, var_def_, lineno_count=1):
-    top_nodes = g.topological_nodes()
-    var_def = var_def_.var_def
-    body = []
-    for n in top_nodes:
-        lineno_count += 1
-        if g.nodes[n].ast_type == ast.Compare:
-            body.append(node_to_ast(n, g, var_def, ctxread=True))
-    return body
+def test_expresion_from_graph(g, var_def_):
+    # the whole test is the only expression that no other expression uses
+    roots = [n for n in range(len(g.nodes))
+             if not any(g.edges[e][0] == n for e in range(g.edge_counter))]
+    if len(roots) != 1:
+        raise NotImplementedError(f'This test of an if is not supported in equation {g.label}')
+    return node_to_ast(roots[0], g, var_def_.var_def, ctxread=True)
 
 
 def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
@@ -199,8 +197,7 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
         if g.nodes[n].ast_type == ast.If:
             func_body = function_body_from_graph(g.nodes[n].subgraph_body, var_def_,
                                                  lineno_count=lineno_count, level=level + 1)
-            func_test = compare_expresion_from_graph(g.nodes[n].subgraph_test, var_def_,
-                                                     lineno_count=lineno_count)
+            func_test = test_expresion_from_graph(g.nodes[n].subgraph_test, var_def_)
             body.append(process_if_node(func_body, func_test))
     return body
 
-- 
2.43.0


From 0b32167fdcba4bfcf8034f0cabc22f6e33761e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 44/54] fix: name graph nodes of intermediate values apart from
 the variables of equations

---
 numerous/engine/model/graph_representation/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/graph_representation/utils.py b/numerous/engine/model/graph_representation/utils.py
index 9cda352..049da73 100644
--- a/numerous/engine/model/graph_representation/utils.py
+++ b/numerous/engine/model/graph_representation/utils.py
@@ -8,7 +8,8 @@ class TemporaryKeyGenerator:
 
     def generate(self):
         self.tmp_ += 1
-        return f'tmp{self.tmp_}'
+        # not a name that an equation can use for a variable
+        return f'<tmp{self.tmp_}>'
 
 
 class Vardef:
-- 
2.43.0


From 025f0a67476aef5690a1a98d83ef31f923e83a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 45/54] fix: refuse a local variable that would share the name
 of a scope variable

---
 numerous/engine/model/ast_parser/ast_visitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index d249a75..e269252 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -100,6 +100,8 @@ class AstVisitor(ast.NodeVisitor):
 
     def _process_named_node(self, node: ast.expr, ast_type: type, node_type: NodeTypes, static_key=False, func=None):
         source_id = recurse_Attribute(node)
+        if source_id[:2] == 's_' and source_id[2:] in self.scope_variables:
+            raise ValueError(f'Name {source_id} is reserved for {self.SCOPE_LABEL}{source_id[2:]} in equation {self.eq_key}')
         scope_var, is_mapped = self._select_scope_var(source_id)
         en = self.graph.add_node(
             Node(key=source_id if static_key else None, ao=node, file=self.eq_file, name=self.eq_key,
-- 
2.43.0


From c09ec60fb5f0b4eab04a38eace006c1ba81652c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 46/54] fix: let the equations of a set read global variables

---
 .../model/lowering/equations_generator.py     | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 683dd4c..aba90b4 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -146,7 +146,7 @@ class EquationGenerator:
         log.info('Making equations for compilation')
 
         for eq_key, eq in equations.items():
-            vardef = Vardef(eq_key, llvm=self.llvm, exclude_global_var=eq.is_set)
+            vardef = Vardef(eq_key, llvm=self.llvm)
 
             eq.graph.lower_graph = None
             if self.llvm:
@@ -188,12 +188,14 @@ class EquationGenerator:
 
     def is_contiguous(self, set_args):
         # a set call walks over the slots of its arguments item by item
-        slots = [self.values_order[a] for item_args in set_args for a in item_args]
+        if any(a.is_global_var for item_args in set_args for a in item_args):
+            return False
+        slots = [self.values_order[a.name] for item_args in set_args for a in item_args]
         return slots == list(range(slots[0], slots[0] + len(slots)))
 
     def search_in_set_scope(self, set_var_id, scope_vars):
         tag = self.set_variables[set_var_id].tag
-        used = self.set_variables[next(iter(scope_vars.values()))]
+        used = next(self.set_variables[v] for v in scope_vars.values() if v in self.set_variables)
         if used.id in self.temporary_variables:
             used = used.set_var
         used = used.get_var_by_idx(0)
@@ -238,7 +240,8 @@ class EquationGenerator:
         if self.equation_graph.nodes[n].vectorized:
 
             # Map of scope.?? vars and set variable names
-            scope_vars = {'scope.' + self.set_variables[k].tag: v for k, v in
+            scope_vars = {'scope.' + (self.set_variables if k in self.set_variables else self.scope_variables)[k].tag: v
+                          for k, v in
                           zip(args_scope_var + targets_scope_var, args_local + targets_local)}
 
             # Put the information of args and targets in the scope_var attr of the graph node for those equation
@@ -257,24 +260,27 @@ class EquationGenerator:
         # Generate ast for this equation callcompiled_function_from_graph_generic_llvm
         if self.equation_graph.nodes[n].vectorized:
 
+            size = next(self.set_variables[v] for v in scope_vars.values() if v in self.set_variables).get_size()
             llvm_args = []
             for t in vardef.args_order:
-                if not t.is_global_var:
+                if t.is_global_var:
+                    llvm_args.append([VariableArgument(d_u(scope_vars.get(t.name, t.name)), True)] * size)
+                else:
                     llvm_args_ = []
                     set_var = self.set_variables[scope_vars[t[0]] if t[0] in scope_vars else
                                                  self.search_in_set_scope(t[0], scope_vars)]
                     for i in range(set_var.get_size()):
-                        llvm_args_.append(set_var.get_var_by_idx(i).id)
+                        llvm_args_.append(VariableArgument(set_var.get_var_by_idx(i).id, False))
                     llvm_args.append(llvm_args_)
             # reshape to correct format
             llvm_args = [list(x) for x in zip(*llvm_args)]
             if self.is_contiguous(llvm_args):
-                self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
+                self.generated_program.add_set_call(self.get_external_function_name(ext_func),
+                                                    [[a.name for a in item_args] for item_args in llvm_args],
                                                     vardef.llvm_target_ids)
             else:
                 for item_args in llvm_args:
-                    self.generated_program.add_call(self.get_external_function_name(ext_func),
-                                                    [VariableArgument(a, False) for a in item_args],
+                    self.generated_program.add_call(self.get_external_function_name(ext_func), item_args,
                                                     vardef.llvm_target_ids)
         else:
             # Generate llvm arguments
-- 
2.43.0


From 0ed913f3dc080ad35eae2b80bb0c0e457a9c7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:07 +0000
Subject: [PATCH 47/54] fix: let a namespace hold several equations with
 variables of their own

---
 numerous/engine/model/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6fbacf4..dbdde56 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -77,13 +77,11 @@ class ModelNamespace:
 
         variables__ = [list(x) for x in zip(*variables__)]
         variables__ = list(itertools.chain(*variables__))
-        variables_ordered = [None] * len(variables__)
         if self.is_set:
             for i, v in enumerate(variables__):
                 v.detailed_description.variable_idx = i
-        for variable in variables__:
-            variables_ordered[variable.detailed_description.variable_idx] = variable
-        return variables_ordered
+        # the equations of a namespace number their variables independently of each other
+        return sorted(variables__, key=lambda variable: variable.detailed_description.variable_idx)
 
 
 class ModelAssembler:
-- 
2.43.0


From 5f6a4386ff96e9d31f867f494c236930e65fbd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 48/54] fix: an FMU with one derivative and further results
 assigns all of them

---
 .../engine/system/fmu_system_generator/fmu_ast_generator.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/fmu_system_generator/fmu_ast_generator.py b/numerous/engine/system/fmu_system_generator/fmu_ast_generator.py
index a4737e5..1c50f76 100644
--- a/numerous/engine/system/fmu_system_generator/fmu_ast_generator.py
+++ b/numerous/engine/system/fmu_system_generator/fmu_ast_generator.py
@@ -574,7 +574,7 @@ def generate_eq_call(deriv_names, var_names, input_var_names_ordered, output_var
         if d_name not in input_var_names_ordered:
             elts.append(ast.Attribute(value=ast.Name(id='scope', ctx=ast.Load()), attr=d_name, ctx=ast.Store()))
 
-    if len(deriv_names) > 1:
+    if len(elts) > 1:
         trg = [ast.Tuple(elts=elts, ctx=ast.Store())]
     else:
         trg = [elts[0]]
-- 
2.43.0


From 66c93d959f2b2967261725255b7ce2ef31a75553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 49/54] fix: record every row from an evaluation at its own
 time and states

---
 numerous/engine/simulation/solver_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 426bc79..05db3c3 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -93,6 +93,8 @@ class NumerousEngineModelInterface(Interface):
         return self.model.numba_model.map_external_data(t)
 
     def historian_update(self, t: float, y: np.array) -> SolveEvent:
+        # the last evaluation may have been for other states, another time or before an event changed the variables
+        self.get_deriv(t, self.get_states())
         self.model.numba_model.historian_update(t)
         if self._is_store_required():
             return SolveEvent.Historian
-- 
2.43.0


From 4087d864afec7a721f63912720772a20a67764d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 50/54] fix: keep the delimiter of an item path below its first
 part

---
 numerous/engine/system/item_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/item_path.py b/numerous/engine/system/item_path.py
index b03bd74..62bbdeb 100644
--- a/numerous/engine/system/item_path.py
+++ b/numerous/engine/system/item_path.py
@@ -36,7 +36,7 @@ class ItemPath:
         """
         next_part = self.path_parsed[1:]
         if next_part:
-            return ItemPath(self.delimiter.join(next_part))
+            return ItemPath(self.delimiter.join(next_part), self.delimiter)
 
     def __str__(self):
         return self.path
-- 
2.43.0


From 7f10372de002d9900ddc1e0983d7c1989d14daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:11 +0000
Subject: [PATCH 51/54] fix: check the bindings of connectors only, other items
 have none

---
 numerous/engine/model/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index dbdde56..f9a7cfa 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -564,6 +564,8 @@ class Model:
         """
         valid = True
         for item in self.model_items.values():
+            if not isinstance(item, Connector):
+                continue
             for binding in item.bindings:
                 if binding.is_bindend():
                     pass
-- 
2.43.0


From 19c025ee06c84e06bb439fcaaedc59f621c39327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 52/54] fix: accept several timestamps given as an array

A time event accepts its timestamps as a list or an array, but tested the truth
value of what it was given, which an array with several elements does not have.
---
 numerous/engine/numerous_event.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/numerous_event.py b/numerous/engine/numerous_event.py
index 2cbf3b0..7b00076 100644
--- a/numerous/engine/numerous_event.py
+++ b/numerous/engine/numerous_event.py
@@ -83,11 +83,13 @@ class TimestampEvent(NumerousEvent):
         self.action = action
         self.compiled_functions = compiled_functions
 
-        assert not (periodicity and timestamps), "you cannot specify both timestamps and periodicity for a " \
+        # the truth value of an array with several elements is not defined
+        given = timestamps.size > 0 if isinstance(timestamps, np.ndarray) else bool(timestamps)
+        assert not (periodicity and given), "you cannot specify both timestamps and periodicity for a " \
                                                  "time-stamp event"
 
-        assert not (not timestamps and not periodicity), "you must specify at least timestamps or periodicity"
-        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not timestamps, \
+        assert not (not given and not periodicity), "you must specify at least timestamps or periodicity"
+        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not given, \
             "timestamps must be list or np array"
 
         self.timestamps = np.array(timestamps) if isinstance(timestamps, list) else timestamps
-- 
2.43.0


From 1fd3d28c08c60d61736f828e133b4d884367558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:36 +0000
Subject: [PATCH 53/54] fix: bilinear interpolation takes the upper corners of
 a cell on its upper sides

---
 numerous/utils/interpolation/bilinear_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/numerous/utils/interpolation/bilinear_interpolation.py b/numerous/utils/interpolation/bilinear_interpolation.py
index dcabae8..becc7b6 100644
--- a/numerous/utils/interpolation/bilinear_interpolation.py
+++ b/numerous/utils/interpolation/bilinear_interpolation.py
@@ -101,6 +101,15 @@ def bilinear_interpolation(ix, x, y, data_def, data):
     # if not x1 <= x <= x2 or not y1 <= y <= y2:
     #     raise ValueError('(x, y) not within the rectangle')
 
+    # on the upper side of the cell the value is that of the upper corners
+    if x == x2:
+        q11 = q21
+        q12 = q22
+
+    if y == y2:
+        q11 = q12
+        q21 = q22
+
     if x == x2 or x == x1 or x1 == x2:
         if y == y1 or y == y2 or y1 == y2:
             return q11
-- 
2.43.0


From 4d4e0407e1e57e6657b8c64d6b52cfde81f73abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:03 +0000
Subject: [PATCH 54/54] fix: initial values of models with temporary variables
 can be read

---
 numerous/engine/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index f9a7cfa..0bf4d0d 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -436,7 +436,8 @@ class Model:
             self.var_write(v, self.vars_ordered_values[var_id])
 
     def get_variables_initial_values(self):
-        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()}
+        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()
+                if k in self.inverse_aliases}
 
     def lower_model_codegen(self, tmp_vars):
 
-- 
2.43.0

