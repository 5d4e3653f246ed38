From 007dbe18282a60b21b326635299591d08cd36a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 01/62] fix: variable assigned under if and read in the same
 equation is one graph node

A scope variable assigned in the body of an if statement and read elsewhere in the
equation got two nodes in the equation graph, which gave a false cyclic dependency and
an arbitrary evaluation order of the whole model.
---
 numerous/engine/model/ast_parser/ast_visitor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 4a63abe..baca432 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -281,7 +281,13 @@ def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_
         if equation_graph.nodes[n].node_type == NodeTypes.VAR:
             if equation_graph.nodes[n].scope_var:
                 sv = equation_graph.nodes[n].scope_var
-                neq = mappings_graph.add_node(Node(key=sv.id, node_type=NodeTypes.VAR, scope_var=sv,
+                if include_local:
+                    # Share the node with the rest of the equation, it refers to the variable by its local key
+                    key, ast_type = equation_graph.nodes[n].key, equation_graph.nodes[n].ast_type
+                else:
+                    key, ast_type = sv.id, None
+                neq = mappings_graph.add_node(Node(key=key, node_type=NodeTypes.VAR, scope_var=sv,
+                                                   ast_type=ast_type,
                                                    is_set_var=is_set, label=sv.get_path_dot()),
                                               ignore_existing=True)
 
-- 
2.43.0


From 3c4d500a6aef83256866baf2d7abec2ac435eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/62] fix: keys of temporary graph nodes cannot collide with
 local variables of equations

---
 numerous/engine/model/graph_representation/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/graph_representation/utils.py b/numerous/engine/model/graph_representation/utils.py
index 9cda352..ae81d0f 100644
--- a/numerous/engine/model/graph_representation/utils.py
+++ b/numerous/engine/model/graph_representation/utils.py
@@ -8,7 +8,8 @@ class TemporaryKeyGenerator:
 
     def generate(self):
         self.tmp_ += 1
-        return f'tmp{self.tmp_}'
+        # Not a valid identifier, so that it cannot be the key of a variable used in an equation
+        return f'%tmp{self.tmp_}'
 
 
 class Vardef:
-- 
2.43.0


From 623a2204a41e5cb0d2d0d4c9685adfc40f2fddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 03/62] fix: functions called through self can be used inside
 if statements of equations

---
 numerous/engine/model/ast_parser/parser_ast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 267076c..6e4bfac 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -67,6 +67,14 @@ def qualify(s, prefix):
     return prefix + '.' + s.replace('scope.', '')
 
 
+def nodes_with_subgraphs(g):
+    for n in g.nodes:
+        yield n
+        for subgraph in (n.subgraph_test, n.subgraph_body):
+            if subgraph is not None:
+                yield from nodes_with_subgraphs(subgraph)
+
+
 def qualify_equation(prefix, g, tag_vars, eq_class, eq_current):
     def q(s):
         return qualify(s, prefix)
@@ -92,7 +100,7 @@ def qualify_equation(prefix, g, tag_vars, eq_class, eq_current):
     closure_vars_func = inspect.getclosurevars(func_)
     replacements.update(closure_vars_func.globals)
 
-    for n in g.nodes:
+    for n in nodes_with_subgraphs(g):
 
         if (f := n.func) is not None and hasattr(f, 'value'):
             if f.value.id == 'self':
-- 
2.43.0


From 2cea9df7cab6b0c8b62a2a572ce0b91f782f7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 04/62] fix: values of a tuple assignment in an equation are
 evaluated before its targets are assigned

Also drops the mapping flags of the elements of lists, which were left on the stack
and taken for those of the assigned target.
---
 numerous/engine/model/ast_parser/ast_visitor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index baca432..1e1919c 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -91,6 +91,7 @@ class AstVisitor(ast.NodeVisitor):
         for el in node.elts:
             self.traverse(el)
             start = self.node_number_stack.pop()
+            self.mapped_stack.pop()
             self.graph.add_edge(Edge(start=start[0], end=en, e_type=EdgeType.ELEMENT, branches=self.branches.copy()))
         self.mapped_stack.append([None])
         self.node_number_stack.append([en])
@@ -133,7 +134,11 @@ class AstVisitor(ast.NodeVisitor):
                 self.traverse(target)
             else:
                 raise AttributeError('Unknown type of assign target in Equation: ', type(target))
-        self.traverse(node.value)
+        if isinstance(node.value, ast.Tuple):
+            # All the values are evaluated before any of the targets is assigned
+            self._visit_iterable(node=node.value, ast_type=ast.Tuple, ctx=node.value.ctx)
+        else:
+            self.traverse(node.value)
         self.mapped_stack.pop()
         mapped = self.mapped_stack.pop()
         start = self.node_number_stack.pop()
-- 
2.43.0


From 6c9a496cb30af6df2855c128070f66015f7df463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 05/62] fix: repeated assignment of a variable in an equation
 replaces its value

A variable that is also the target of a sum was added to instead, although what is
mapped to it is summed outside the equation.
---
 numerous/engine/model/ast_parser/equation_from_graph.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index f2dabee..7cd8692 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -129,12 +129,8 @@ def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
         target_node = target_nodes[0][1]
         target_ast = node_to_ast(target_node, g, var_def, read=False)
         if value_ast and target_ast:
-            if na == ast.Assign or target_node not in targets:
-                targets.append(target_node)
-                ast_assign = ast.Assign(targets=[target_ast], value=value_ast, lineno=0, col_offset=0)
-            else:
-                ast_assign = ast.AugAssign(target=target_ast, value=value_ast, lineno=0, col_offset=0, op=ast.Add())
-            return ast_assign
+            targets.append(target_node)
+            return ast.Assign(targets=[target_ast], value=value_ast, lineno=0, col_offset=0)
 
 
 def generate_return_statement(var_def_, g):
-- 
2.43.0


From fb64a9a6694588a544c391b4c6feb9809f8d443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 06/62] fix: else and elif branches of equations are no longer
 dropped

---
 numerous/engine/model/ast_parser/ast_visitor.py        |  8 +++++++-
 .../engine/model/ast_parser/equation_from_graph.py     | 10 +++++++---
 numerous/engine/model/ast_parser/parser_ast.py         |  2 +-
 numerous/engine/model/graph_representation/graph.py    |  3 ++-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 1e1919c..c1d9db8 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -270,11 +270,17 @@ class AstVisitor(ast.NodeVisitor):
 
     def visit_If(self, node: ast.If) -> Any:
         subgraph_body = ast_to_graph(node.body, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
+        subgraph_orelse = None
+        if node.orelse:
+            subgraph_orelse = ast_to_graph(node.orelse, self.eq_key, self.eq_file, self.eq_lineno,
+                                           self.scope_variables)
         subgraph_test = ast_to_graph(node.test, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
         node = Node(ao=node, file=self.eq_file, name=self.eq_key,
                     ln=self.eq_lineno, label="IF", ast_type=ast.If, node_type=NodeTypes.IF, subgraph_body=subgraph_body,
-                    subgraph_test=subgraph_test)
+                    subgraph_test=subgraph_test, subgraph_orelse=subgraph_orelse)
         subgraph_node_idx = connect_equation_node(subgraph_body, self.graph, node, is_set=False, include_local=True)
+        if subgraph_orelse is not None:
+            connect_equation_node(subgraph_orelse, self.graph, node, is_set=False, include_local=True)
         connect_equation_node(subgraph_test, self.graph, node, is_set=False, include_local=True)
         self.mapped_stack.append([None])
         self.node_number_stack.append(subgraph_node_idx)
diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 7cd8692..0e4868c 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -112,8 +112,8 @@ def node_to_ast(n: int, g: MappingsGraph, var_def, ctxread=False, read=True):
         raise
 
 
-def process_if_node(func_body, func_test):
-    return ast.If(body=func_body, test=func_test, orelse=[], lineno=0, col_offset=0)
+def process_if_node(func_body, func_test, func_orelse):
+    return ast.If(body=func_body, test=func_test, orelse=func_orelse, lineno=0, col_offset=0)
 
 
 def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
@@ -197,7 +197,11 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
                                                  lineno_count=lineno_count, level=level + 1)
             func_test = compare_expresion_from_graph(g.nodes[n].subgraph_test, var_def_,
                                                      lineno_count=lineno_count)
-            body.append(process_if_node(func_body, func_test))
+            func_orelse = []
+            if g.nodes[n].subgraph_orelse is not None:
+                func_orelse = function_body_from_graph(g.nodes[n].subgraph_orelse, var_def_,
+                                                       lineno_count=lineno_count, level=level + 1)
+            body.append(process_if_node(func_body, func_test, func_orelse))
     return body
 
 
diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 6e4bfac..c82efd8 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -70,7 +70,7 @@ def qualify(s, prefix):
 def nodes_with_subgraphs(g):
     for n in g.nodes:
         yield n
-        for subgraph in (n.subgraph_test, n.subgraph_body):
+        for subgraph in (n.subgraph_test, n.subgraph_body, n.subgraph_orelse):
             if subgraph is not None:
                 yield from nodes_with_subgraphs(subgraph)
 
diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 4572eb5..dee3bd0 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -15,7 +15,7 @@ class Node:
                  label=None, ast_type=None, vectorized=None, item_id=None, node_type=None, ops=None, func=None,
                  id=None, local_id=None, scope_var=None,
                  ast_op=None, value=None, is_set_var=None, set_var_ix=None, subgraph_test=None,
-                 subgraph_body=None, ctx=None):
+                 subgraph_body=None, subgraph_orelse=None, ctx=None):
         self.key = key
         self.ao = ao
         self.file = file
@@ -38,6 +38,7 @@ class Node:
         self.deleted = False
         self.subgraph_test = subgraph_test
         self.subgraph_body = subgraph_body
+        self.subgraph_orelse = subgraph_orelse
         self.node_n = -1
         self.ctx = ctx
 
-- 
2.43.0


From 329cb9ceb90e409c9b5a187c2f4e0ab9682e9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 07/62] fix: reject statements and arguments of equations that
 were silently not translated

---
 numerous/engine/model/ast_parser/ast_visitor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index c1d9db8..406b248 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -52,7 +52,15 @@ class AstVisitor(ast.NodeVisitor):
     def visit_FunctionDef(self, node: ast.FunctionDef):
         self.traverse(node.body)
 
+    def _visit_unsupported(self, node: ast.AST):
+        raise NotImplementedError(f'{type(node).__name__} is not supported in equations: {self.eq_file}, '
+                                  f'line {self.eq_lineno}')
+
+    visit_For = visit_While = visit_With = visit_Try = visit_AnnAssign = visit_BoolOp = _visit_unsupported
+
     def visit_Call(self, node: ast.Call) -> Any:
+        if node.keywords:
+            self._visit_unsupported(node.keywords[0])
         self._process_named_node(node.func, ast_type=ast.Call, node_type=NodeTypes.OP, func=node.func)
         self.mapped_stack.pop()
         en = self.node_number_stack.pop()
-- 
2.43.0


From 804e352de5a9fc3325339809fe4ed261c22f3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 08/62] fix: LLVM equations can read a variable before they
 assign it

---
 .../engine/model/ast_parser/equation_from_graph.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 0e4868c..7ae412c 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -266,12 +266,24 @@ def compiled_function_from_graph_generic_llvm(g: Graph, var_def_, imports,
     return compiled_func, signature, r_args, r_targets
 
 
+def register_targets(g: Graph, var_def_):
+    for n, node in enumerate(g.nodes):
+        if node.ast_type in (ast.Assign, ast.AugAssign):
+            for _, target in g.get_edges_type_for_node_filter(start_node=n, val=EdgeType.TARGET)[1]:
+                var_def_.var_def(g.key_map[target], ctxread=False, read=False)
+        for subgraph in (node.subgraph_body, node.subgraph_orelse):
+            if subgraph is not None:
+                register_targets(subgraph, var_def_)
+
+
 def function_from_graph_generic_llvm(g: Graph, var_def_, replace_name=None):
     if replace_name is None:
         fname = g.label + '_llvm'
     else:
         fname = replace_name + '_llvm'
 
+    # Targets are passed by reference, also where they are read before they are assigned
+    register_targets(g, var_def_)
     body = function_body_from_graph(g, var_def_)
     var_def_.order_variables(g.arg_metadata)
     args = ast.arguments(posonlyargs=[], args=var_def_.get_formatted_order_args(), vararg=None, defaults=[],
-- 
2.43.0


From 138008a77c259a165bbd3526775503fc4008b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 09/62] fix: get_variables of models that sum mapped values
 into variables assigned by equations

---
 numerous/engine/model/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6b97b0b..17f933e 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -442,7 +442,8 @@ class Model:
             self.var_write(v, self.vars_ordered_values[var_id])
 
     def get_variables_initial_values(self):
-        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()}
+        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()
+                if k in self.inverse_aliases}
 
     def lower_model_codegen(self, tmp_vars):
 
@@ -494,7 +495,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
@@ -841,7 +843,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
-- 
2.43.0


From f1e335c4cf0c097efb5aa6cff1e6e6cf059b0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 10/62] fix: models keep their own compiled functions

The compiled functions of a model were set on the shared CompiledModel class,
so a simulation created after another model was assembled ran the equations
of that other model.
---
 numerous/engine/model/model.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 17f933e..10434c9 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -475,9 +475,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.compiled_model_functions = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         self.compiled_compute, self.var_func, self.var_write = compiled_compute, var_func, var_write
         self.init_values = np.ascontiguousarray(
@@ -742,7 +740,8 @@ class Model:
 
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
-        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
+        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
+                   dict(CompiledModel.__dict__, **self.compiled_model_functions))
         if self.use_llvm:
             @jitclass(numba_model_spec)
             class CompiledModel_instance(tmp):
@@ -825,9 +824,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.compiled_model_functions = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         for varname, ix in self.vars_ordered_values.items():
             var = self.variables[varname]
-- 
2.43.0


From 4087e4b71a0a774b02e6307cd1b6cfb5c4fcabcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 11/62] fix: recorded rows are evaluated at their own time and
 states

The historian stored whatever the last evaluation of the equations left behind:
a perturbed initial state in the first row, the state before the step with the
Euler method, and time 0 for models without states.
---
 numerous/engine/simulation/solver_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 638899a..aa9e63c 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -93,6 +93,8 @@ class NumerousEngineModelInterface(Interface):
         return self.model.numba_model.map_external_data(t)
 
     def historian_update(self, t: float, y: np.array) -> SolveEvent:
+        # the last evaluation of the equations may have been for other states (solver stages) or another time
+        self.model.numba_model.func(t, self.get_states())
         self.model.numba_model.historian_update(t)
         if self._is_store_required():
             return SolveEvent.Historian
-- 
2.43.0


From 58b13532658b66443b5561464eb7f63697110e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 12/62] fix: move every recorded row to the history exactly
 once, rows with NaN included

---
 numerous/engine/model/model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 10434c9..e35ce37 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -857,20 +857,23 @@ class Model:
         return data
 
     def generate_not_nan_history_array(self):
-        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data).any(axis=0)]
+        return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
 
     def create_historian_df(self):
+        """
+        Moves the rows recorded since the last call to the history of the model and to the historian.
+        """
+        new_rows = self._generate_history_df(self.generate_not_nan_history_array())
+        self.numba_model.historian_reinit()
         if self.historian_df is not None:
             import pandas as pd
-            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df,
-                                                            self._generate_history_df(
-                                                                self.generate_not_nan_history_array()).df],
+            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df, new_rows.df],
                                                            axis=0, sort=False, ignore_index=True),
                                                  aliases=self.aliases, rename_columns=True)
 
         else:
-            self.historian_df = self._generate_history_df(self.generate_not_nan_history_array())
-        self.historian.store(self.historian_df)
+            self.historian_df = new_rows
+        self.historian.store(new_rows)
 
     def _generate_history_df(self, historian_data):
         data = self.create_historian_dict(historian_data)
-- 
2.43.0


From a8d074361f56264c958edc09fb4c4306ffebfbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 13/62] fix: LocalHistorian stores the recorded rows, columns
 named by variable path

---
 numerous/utils/historian.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/numerous/utils/historian.py b/numerous/utils/historian.py
index 31faca1..32445c7 100644
--- a/numerous/utils/historian.py
+++ b/numerous/utils/historian.py
@@ -60,16 +60,19 @@ class LocalHistorian(Historian):
         super().__init__(max_size)
         self.filename = filename
 
-    def store(self, df: pandas.DataFrame):
+    def store(self, df):
         """
 
         Stores the simulation results of the historian, into  csv file.
 
         Parameters:
-        df (pandas.DataFrame): The dataframe holding all the simulation results.
+        df (AliasedDataFrame): The rows recorded since the last call; the columns of the file are named by the paths of
+        the variables.
 
         """
+        paths = {variable_id: path for path, variable_id in df.aliases.items()}
+        rows = df.df.rename(columns=paths)
         if os.path.isfile(self.filename):
-            df.dropna().to_csv(self.filename, mode='a', header=False)
+            rows.to_csv(self.filename, mode='a', header=False)
         else:
-            df.dropna().to_csv(self.filename)
\ No newline at end of file
+            rows.to_csv(self.filename)
-- 
2.43.0


From 6aa77030b6850abdc91a362bdf9319ba2353d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 14/62] fix: event actions write the variables they changed

---
 numerous/engine/simulation/solver_interface.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index aa9e63c..2e28a92 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -213,15 +213,13 @@ class EventFactory:
 
         class BaseInternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
-                vars = interface._get_variables()
+                vars = interface._get_variables().copy()
                 if event_type == 'state':
                     modified_variables = interface.model.state_event_actions(t, vars, ix)
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
-                variables = np.delete(modified_variables, interface.model.numba_model.state_idx)
-                original_variables = np.delete(interface._get_variables(), interface.model.numba_model.state_idx)
-                modified_mask = (variables != original_variables)
+                modified_mask = (modified_variables != interface._get_variables())
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From 256a7bccc0e759a107a41fef370615436c643ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 15/62] fix: event actions may assign constants to variables

---
 numerous/engine/model/events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 50612b8..45a3a88 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -100,6 +100,9 @@ class VariablesVisitor(ast.NodeVisitor):
         ast.NodeVisitor.generic_visit(self, node)
 
     def visit_Assign(self, node: ast.Assign):
+        if len(node.targets) != 1 or not isinstance(node.targets[0], ast.Name):
+            self.generic_visit(node)
+            return
         evaluated = None
         if isinstance(node.value, ast.BinOp):
             operator = node.value.op
-- 
2.43.0


From 16fbf2da285cda22e911ddfbb3a7b5430fb73fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 16/62] fix: states modified by an internal time event are kept

---
 numerous/engine/model/compiled_model.py        |  2 ++
 numerous/engine/simulation/solver_interface.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 0818809..aa3e7e2 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -34,6 +34,7 @@ numba_model_spec = [
     ('min_external_t', float64),
     ('external_idx', int64[:]),
     ('previous_external_mappings', float64[:]),
+    ('states_modified', boolean),
     ('post_step', types.ListType(types.FunctionType(types.void())))
 ]
 
@@ -77,6 +78,7 @@ class CompiledModel:
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
         self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
+        self.states_modified = False
 
     def vectorized_full_jacobian(self, t, y, dt):
         h = 1e-8
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 2e28a92..67b46c0 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -142,17 +142,21 @@ class NumerousEngineModelInterface(Interface):
 
     def post_time_event(self, t: float, y: np.array) -> SolveEvent:
         """
-        For numerous-engine, this method saves the solution after a time-event, and continues the solver internal loop
+        For numerous-engine, this method saves the solution after a time-event. The solver internal loop goes on with the
+        states it had before the event, so it is left if the event modified them.
 
         :param t: time
         :type t: float
         :param y: states
         :type y: :class:`np.ndarray`
-        :return: a NoneEvent to continue the solver
+        :return: a NoneEvent to continue the solver, or a TimeEvent to resume it with the modified states
         :rtype: :class:`~numerous.solver.interface.SolveEvent`
         """
 
-        self.historian_update(t, y)
+        solve_event_id = self.historian_update(t, y)
+        if self.model.numba_model.states_modified:
+            self.model.numba_model.states_modified = False
+            return solve_event_id if solve_event_id != SolveEvent.NoneEvent else SolveEvent.TimeEvent
         return SolveEvent.NoneEvent
 
 
@@ -219,6 +223,8 @@ class EventFactory:
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
+                if event_type == 'time' and np.any(states != interface.get_states()):
+                    interface.model.numba_model.states_modified = True
                 modified_mask = (modified_variables != interface._get_variables())
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
-- 
2.43.0


From 8dfebfd0bb4c98b0da8cc9dfc1c2d1f7a193c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 17/62] fix: external events of items see the variables of
 their item and write back only what they change

---
 numerous/engine/model/model.py                 |  2 ++
 numerous/engine/simulation/solver_interface.py | 15 ++++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index e35ce37..138e919 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -407,6 +407,7 @@ class Model:
         for item in self.model_items.values():
             if item.events:
                 for event in item.events:
+                    event.parent_path = item.path
                     if not event.compiled:
                         condition_ast, condition_closurevariables = replace_path_strings(self, event.condition.func, "var",
                                                                                          item.path)
@@ -419,6 +420,7 @@ class Model:
                     self.events.append(event)
             if item.timestamp_events:
                 for event in item.timestamp_events:
+                    event.parent_path = item.path
                     if not event.is_external:
                         action_ast, action_closurevariables = replace_path_strings(self, event.action.func, "var", item.path)
                         event.action = Action(event.action.func, action_ast, action_closurevariables)
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 67b46c0..423d81b 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -236,14 +236,15 @@ class EventFactory:
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
                 model.update_local_variables()
-                variables = {tag: var.value for tag, var in model.path_to_variable.items()}
-                path_ = ""
-                if parent_path:
-                    path_ = ".".join(parent_path) + "."
-                    variables = {tag.replace(path_, ""): value for tag, value in variables.items()}
+                path_ = ".".join(parent_path) + "." if parent_path else ""
+                # variables of the item are named relative to it, like in internal events
+                tags = {tag[len(path_):] if tag.startswith(path_) else tag: tag for tag in model.path_to_variable}
+                values = {name: model.path_to_variable[tag].value for name, tag in tags.items()}
+                variables = dict(values)
                 external_action_function(t, variables)
-                for tag, value in variables.items():
-                    model.path_to_variable[path_ + tag].value = value
+                for name, value in variables.items():
+                    if value != values[name]:
+                        model.path_to_variable[tags[name]].value = value
                 model.update_all_variables()
                 states = interface.get_states()
                 return states
-- 
2.43.0


From c73012b6d65d6520433ac46005ac1a719979357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 18/62] fix: events with the same key are told apart

---
 numerous/engine/simulation/solver_interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 423d81b..e3c8975 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -283,19 +283,22 @@ class EventFactory:
         :return:
 
         """
+        # events of different items may have the same key, the solver needs unique ids
+        event_id = f"{'time' if type(event_) == TimestampEvent else 'state'}_{ix}_{event_.key}"
+
         if type(event_) == TimestampEvent:
             event_type = 'time'
             if event_.periodicity:
                 baseclass = SolverPeriodicTimeEvent
-                kwargs = dict(id=event_.key, period=event_.periodicity, is_external=event_.is_external)
+                kwargs = dict(id=event_id, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = SolverTimestampedEvent
-                kwargs = dict(id=event_.key, timestamps=event_.timestamps, is_external=event_.is_external)
+                kwargs = dict(id=event_id, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
             event_type = 'state'
             baseclass = self._wrap_state_event(ix)
-            kwargs = dict(id=event_.key, is_external=event_.is_external)
+            kwargs = dict(id=event_id, is_external=event_.is_external)
 
         new_event: type = self._new_event(ix, model, baseclass,
                                           is_external=event_.is_external,
-- 
2.43.0


From 50fbc057dfdd728605d1f4ed101010bbda206c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 19/62] fix: every event uses its own closure variables

---
 numerous/engine/model/events.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 45a3a88..881e546 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -1,4 +1,5 @@
 import ast
+import copy
 import inspect
 
 import numpy.typing as npt
@@ -10,6 +11,18 @@ from numerous.engine.model.utils import njit_and_compile_function
 from numerous.engine.numerous_event import NumerousEvent, StateEvent, TimestampEvent
 
 
+def own_closure_variables(func: ast.FunctionDef, closurevariables: dict, prefix: str) -> tuple[ast.FunctionDef, dict]:
+    """
+    Renames the closure variables of an event function, as all event functions are compiled into one namespace
+    """
+    names = {name: f'{prefix}_{name}' for name in closurevariables or {}}
+    func = copy.deepcopy(func)
+    for node in ast.walk(func):
+        if isinstance(node, ast.Name) and node.id in names:
+            node.id = names[node.id]
+    return func, {names[name]: value for name, value in (closurevariables or {}).items()}
+
+
 def generate_event_condition_ast(event_functions: list[Union[StateEvent, TimestampEvent]],
                                  from_imports: list[tuple[str, str]]) -> tuple[CPUDispatcher, npt.ArrayLike]:
     array_label = "result"
@@ -17,12 +30,13 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
     compiled_functions = {}
-    closurevariables = None
-    for event in event_functions:
+    closurevariables = {}
+    for idx, event in enumerate(event_functions):
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
-        condition = event.condition.ast_func
-        closurevariables = event.condition.closure_variables
+        condition, closure = own_closure_variables(event.condition.ast_func, event.condition.closure_variables,
+                                                   f'closure_{idx}')
+        closurevariables.update(closure)
 
         directions_array.append(event.direction)
         body.append(condition)
@@ -152,15 +166,16 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
     compiled_functions = {}
-    closurevariables = None
+    closurevariables = {}
 
     for idx, event in enumerate(event_functions):
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
         if event.is_external:
             continue
-        action = event.action.ast_func
-        closurevariables = event.action.closure_variables
+        action, closure = own_closure_variables(event.action.ast_func, event.action.closure_variables,
+                                                f'closure_{idx}')
+        closurevariables.update(closure)
 
         body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
-- 
2.43.0


From 3f6d9ab6bb8a34e08eba9061a14e0d27c971ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 20/62] fix: reset also resets the events and the solver step

---
 numerous/engine/simulation/simulation.py       |  4 ++++
 numerous/engine/simulation/solver_interface.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 6ba5cfc..4af49e7 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -91,6 +91,10 @@ class Simulation:
 
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
+        if hasattr(self, 'solver'):
+            self.solver.info = None
+            for event in self.solver.events.values():
+                event.reset()
 
         self.model.numba_model.map_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index e3c8975..1b7d320 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -206,6 +206,15 @@ def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel,
     return numerous_engine_model, numerous_event_handler
 
 
+class TimestampedEvent(SolverTimestampedEvent):
+    def reset(self):
+        """
+        All timestamps trigger again after a reset
+        """
+        self._last_ix = 0
+        self.clear()
+
+
 class EventFactory:
     """
     Factory class for creating Numerous Solver events from :class:`~engine.numerous_events.NumerousEvent`
@@ -292,7 +301,7 @@ class EventFactory:
                 baseclass = SolverPeriodicTimeEvent
                 kwargs = dict(id=event_id, period=event_.periodicity, is_external=event_.is_external)
             else:
-                baseclass = SolverTimestampedEvent
+                baseclass = TimestampedEvent
                 kwargs = dict(id=event_id, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
-- 
2.43.0


From 02065e7e85c7423d88d0a93e14bb2d1187c08ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 21/62] fix: periodic events of a simulation that does not
 start at time 0

---
 numerous/engine/simulation/solver_interface.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 1b7d320..41d0ec8 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -215,6 +215,16 @@ class TimestampedEvent(SolverTimestampedEvent):
         self.clear()
 
 
+class PeriodicTimeEvent(SolverPeriodicTimeEvent):
+    def get_next_event_time(self, interface: Interface, t: float) -> float:
+        """
+        Multiples of the period that lie before the start of the simulation do not trigger
+        """
+        if self.t_next_event < t - 1e-6:
+            self.t_next_event = np.ceil((t - 1e-6) / self.period) * self.period
+        return self.t_next_event
+
+
 class EventFactory:
     """
     Factory class for creating Numerous Solver events from :class:`~engine.numerous_events.NumerousEvent`
@@ -298,7 +308,7 @@ class EventFactory:
         if type(event_) == TimestampEvent:
             event_type = 'time'
             if event_.periodicity:
-                baseclass = SolverPeriodicTimeEvent
+                baseclass = PeriodicTimeEvent
                 kwargs = dict(id=event_id, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = TimestampedEvent
-- 
2.43.0


From 47c1c70a090f360505a18cd5aa7a43eccb2ebbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 22/62] fix: every externally mapped variable uses its own
 column and interpolation type

---
 .../engine/system/external_mappings/external_mappings.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 193e801..48513d3 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -32,7 +32,6 @@ class ExternalMapping:
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -73,10 +72,10 @@ class ExternalMapping:
         for i, external_column in enumerate(self.external_columns):
             for path in variables[var_id].path.path[system_id]:
                 for index, column in enumerate(external_column):
-                    if column in path:
+                    if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
-                            self.interpolation_type[index].value == InterpolationType.LINEAR.value)
+                            self.interpolation_type[i][index].value == InterpolationType.LINEAR.value)
 
     def is_mapped_var(self, variables, var_id, system_id):
         if not variables[var_id].global_var:
-- 
2.43.0


From b71c83b0b8676f32668711d4ea7881a209f0b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 23/62] fix: external values are written at the start and after
 a reset even if they equal the previous ones

---
 numerous/engine/model/compiled_model.py  | 2 +-
 numerous/engine/simulation/simulation.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index aa3e7e2..9ba1923 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -77,7 +77,7 @@ class CompiledModel:
         self.historian_data = np.empty(
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
-        self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
+        self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
         self.states_modified = False
 
     def vectorized_full_jacobian(self, t, y, dt):
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 4af49e7..d03c5bb 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -96,6 +96,7 @@ class Simulation:
             for event in self.solver.events.values():
                 event.reset()
 
+        self.model.numba_model.previous_external_mappings.fill(np.nan)
         self.model.numba_model.map_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
-- 
2.43.0


From e7ef81b2845fb64b15c2576f7b6562dd81f53b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 24/62] fix: new external data is loaded when any of the data
 frames is exhausted

---
 .../system/external_mappings/external_mappings.py  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 48513d3..410224a 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -26,9 +26,7 @@ class ExternalMapping:
                 self.external_mappings_time.append(
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                # TODO extend for multiple dataframes
-                self.t_max = np.max(self.external_mappings_time[0])
-                self.t_min = np.min(self.external_mappings_time[0])
+        self._set_time_limits()
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
@@ -57,13 +55,17 @@ class ExternalMapping:
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
 
+        self._set_time_limits()
+
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        # TODO extend for multiple dataframes
-        self.t_max = np.max(self.external_mappings_time[0])
-        self.t_min = np.min(self.external_mappings_time[0])
         return True
 
+    def _set_time_limits(self):
+        # the span of time which all the data frames cover
+        self.t_max = min(np.max(time) for time in self.external_mappings_time)
+        self.t_min = max(np.min(time) for time in self.external_mappings_time)
+
     def store_mappings(self):
         self.external_df_idx = np.array(self.external_df_idx, dtype=np.int64)
         self.interpolation_info = np.array(self.interpolation_info, dtype=np.bool)
-- 
2.43.0


From f55299eae6d767c13a00dc5fffd303e1b9cacf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 25/62] fix: external data for the time a simulation or step
 starts at are loaded before it

---
 numerous/engine/model/compiled_model.py  |  2 +-
 numerous/engine/model/model.py           | 17 ++++++++++++++++-
 numerous/engine/simulation/simulation.py | 11 +++--------
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 9ba1923..5948349 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -47,7 +47,7 @@ def closest_time_idx(t, time_array):
 @njit
 def step_approximation(t, time_array, data_array):
     idx = closest_time_idx(t, time_array)
-    return data_array[idx]
+    return data_array[max(idx, 0)]
 
 
 class CompiledModel:
diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 138e919..93d924b 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -774,10 +774,11 @@ class Model:
                                              )
 
         # NM_instance.run_init_callbacks(start_time)
+        self.numba_model = NM_instance
+        self.update_external_data(start_time)
         NM_instance.map_external_data(start_time)
 
         # NM_instance.historian_update(start_time)
-        self.numba_model = NM_instance
         return self.numba_model
 
     def _set_functions(self, equations_llvm_opt, n_deriv, max_var):
@@ -881,6 +882,20 @@ class Model:
         data = self.create_historian_dict(historian_data)
         return AliasedDataFrame(data, aliases=self.aliases, rename_columns=True)
 
+    def update_external_data(self, t):
+        """
+        Loads the external data for time t, if the data which are loaded do not cover it
+
+        :param t: time
+        """
+        if self.numba_model.is_external_data_update_needed(t):
+            self.numba_model.is_external_data = self.external_mappings.load_new_external_data_batch(t)
+            if self.numba_model.is_external_data:
+                self.numba_model.update_external_data(self.external_mappings.external_mappings_numpy,
+                                                      self.external_mappings.external_mappings_time,
+                                                      self.external_mappings.t_max,
+                                                      self.external_mappings.t_min)
+
     def set_external_mappings(self, external_mappings, data_loader):
 
         external_mappings_unpacked = [ExternalMappingUnpacked(external_mappings, data_loader)]
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index d03c5bb..8306f1f 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -76,6 +76,7 @@ class Simulation:
 
     def solve(self):
 
+        self.model.update_external_data(self.time[0])
         self.solver.solve(self.time)
         self._complete()
 
@@ -97,17 +98,10 @@ class Simulation:
                 event.reset()
 
         self.model.numba_model.previous_external_mappings.fill(np.nan)
+        self.model.update_external_data(t_start)
         self.model.numba_model.map_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
-        if self.model.numba_model.is_external_data_update_needed(t_start):
-            self.model.numba_model.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
-        if self.model.numba_model.is_external_data:
-            self.model.numba_model.update_external_data(self.model.external_mappings.external_mappings_numpy,
-                                                        self.model.external_mappings.external_mappings_time,
-                                                        self.model.external_mappings.t_max,
-                                                        self.model.external_mappings.t_min)
-
     def _complete(self):
 
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
@@ -133,6 +127,7 @@ class Simulation:
         """
 
         try:
+            self.model.update_external_data(t_start)
             t, results_status = self.solver.solver_step(t_start, step_size)
 
             return t, results_status
-- 
2.43.0


From c1dff17a102d786f8179426027f57174a020d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 26/62] fix: a CSV loader keeps the position and the time
 column of every file

---
 numerous/utils/data_loader.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index bbee08c..f09449a 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -22,32 +22,36 @@ class CSVDataLoader(DataLoader):
         super(CSVDataLoader, self).__init__()
         self.chunksize = chunksize
         self.is_chunks = False
-        self._skiprows = 0
         self.df = pd.DataFrame()
-        self.t_ix = None
+        # for every file: the rows to skip, the time of the first row after them and the column which has the time
+        self._skiprows = {}
+        self._t_first = {}
+        self._t_ix = {}
         if self.chunksize:
             self.is_chunks = True
 
-    def _valid(self, chunks, t):
+    def _valid(self, df_id, chunks, t):
         for i, chunk in enumerate(chunks):
-            if not self.t_ix:
-                self.t_ix = np.where(chunk.columns == 'time')[0][0]
-            mask = chunk.iloc[:, self.t_ix] <= t
+            if df_id not in self._t_ix:
+                self._t_ix[df_id] = np.where(chunk.columns == 'time')[0][0]
+            chunk_time = chunk.iloc[:, self._t_ix[df_id]]
+            mask = chunk_time <= t
 
             if mask.all():
                 yield chunk
             else:
-                self._skiprows += i * self.chunksize
+                self._skiprows[df_id] += i * self.chunksize
+                self._t_first[df_id] = chunk_time.min()
                 yield chunk
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if not self.df.empty and t < min(self.df.iloc[:, self.t_ix]):
-            self._skiprows = 0
+        if t < self._t_first.get(df_id, np.inf):
+            self._skiprows[df_id] = 0
 
         if self.is_chunks:
-            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-            df = pd.concat(self._valid(chunks, t))
+            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows[df_id], chunksize=self.chunksize)
+            df = pd.concat(self._valid(df_id, chunks, t))
         else:
             df = pd.read_csv(df_id, header=0)
 
@@ -55,7 +59,6 @@ class CSVDataLoader(DataLoader):
         return df
 
 
-
 class InMemoryDataLoader(DataLoader):
 
     def __init__(self, df):
-- 
2.43.0


From c242231a1bd46ab8f0544bcae011a1ae35cbe086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 27/62] fix: the time multiplier applies to the time for which
 external data are loaded

---
 numerous/engine/system/external_mappings/external_mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 410224a..7188d0a 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -40,7 +40,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t)
+                df = external_mapping.data_loader.load(element.data_frame_id, t / element.time_multiplier)
 
                 if df.empty:
                     return False
-- 
2.43.0


From 76f47c8c88a76a437c6c6d343ac3a6d7a33471cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 28/62] fix: the rows before the start of the external data are
 skipped once, not in every batch

---
 .../external_mappings/external_mappings.py    | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 7188d0a..3d895db 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -11,6 +11,7 @@ class ExternalMapping:
         self.external_mappings_time = []
         self.external_columns = []
         self.interpolation_type = []
+        self.start_times = []
         self.t_max = 0
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
@@ -20,12 +21,10 @@ class ExternalMapping:
             for element in external_mapping.external_mappings:
                 self.external_columns.append(list(element.dataframe_aliases.keys()))
                 self.interpolation_type.append([a_tuple[1] for a_tuple in list(element.dataframe_aliases.values())])
-                self.external_mappings_numpy.append(
-                    element.df[[a_tuple[0] for a_tuple in list(element.dataframe_aliases.values())]]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                self.external_mappings_time.append(
-                    element.time_multiplier * element.df[element.index_to_timestep_mapping]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
+                self.start_times.append(
+                    element.df[element.index_to_timestep_mapping].to_numpy(dtype=np.float64)
+                    [element.index_to_timestep_mapping_start])
+                self._append_data(element, self.start_times[-1])
         self._set_time_limits()
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
@@ -46,14 +45,10 @@ class ExternalMapping:
                     return False
 
                 element.add_df(df)
+        start_times = iter(self.start_times)
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
-                self.external_mappings_numpy.append(
-                    element.df[[a_tuple[0] for a_tuple in list(element.dataframe_aliases.values())]]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                self.external_mappings_time.append(
-                    element.time_multiplier * element.df[element.index_to_timestep_mapping]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
+                self._append_data(element, next(start_times))
 
         self._set_time_limits()
 
@@ -61,6 +56,15 @@ class ExternalMapping:
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
         return True
 
+    def _append_data(self, element, start_time):
+        # the rows before the start are skipped in every batch
+        time = element.df[element.index_to_timestep_mapping].to_numpy(dtype=np.float64)
+        rows = time >= start_time
+        self.external_mappings_numpy.append(
+            element.df[[a_tuple[0] for a_tuple in list(element.dataframe_aliases.values())]]
+            .to_numpy(dtype=np.float64)[rows])
+        self.external_mappings_time.append(element.time_multiplier * time[rows])
+
     def _set_time_limits(self):
         # the span of time which all the data frames cover
         self.t_max = min(np.max(time) for time in self.external_mappings_time)
-- 
2.43.0


From 2a2f7703851c2cdfe9e7fe763d4999497e9d99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 29/62] fix: several mappings may use the same external data
 frame in batches

---
 .../engine/system/external_mappings/external_mappings.py  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 3d895db..574e958 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -35,11 +35,17 @@ class ExternalMapping:
     def load_new_external_data_batch(self, t):
         self.external_mappings_numpy = []
         self.external_mappings_time = []
+        loaded = {}
 
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t / element.time_multiplier)
+                batch = (id(external_mapping.data_loader), element.data_frame_id, element.time_multiplier)
+                if batch not in loaded:
+                    # a loader is asked once for what several elements use
+                    loaded[batch] = external_mapping.data_loader.load(element.data_frame_id,
+                                                                      t / element.time_multiplier)
+                df = loaded[batch]
 
                 if df.empty:
                     return False
-- 
2.43.0


From 6fe1d8ec9ee6b68987bd8a24c2372716792f4302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 30/62] fix: external data frames (and batches of them) may
 have different numbers of rows and columns

---
 .../system/external_mappings/external_mappings.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 574e958..e8bf23a 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -27,8 +27,8 @@ class ExternalMapping:
                 self._append_data(element, self.start_times[-1])
         self._set_time_limits()
 
-        self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
-        self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
+        self.external_mappings_numpy = self._stack(self.external_mappings_numpy)
+        self.external_mappings_time = self._stack(self.external_mappings_time)
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -58,8 +58,8 @@ class ExternalMapping:
 
         self._set_time_limits()
 
-        self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
-        self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
+        self.external_mappings_numpy = self._stack(self.external_mappings_numpy)
+        self.external_mappings_time = self._stack(self.external_mappings_time)
         return True
 
     def _append_data(self, element, start_time):
@@ -71,6 +71,13 @@ class ExternalMapping:
             .to_numpy(dtype=np.float64)[rows])
         self.external_mappings_time.append(element.time_multiplier * time[rows])
 
+    @staticmethod
+    def _stack(data):
+        # data frames with less rows or columns than the others are filled up with their last row and column
+        shape = np.max([array.shape for array in data], axis=0)
+        return np.array([np.pad(array, [(0, size - own) for size, own in zip(shape, array.shape)], mode='edge')
+                         for array in data], dtype=np.float64)
+
     def _set_time_limits(self):
         # the span of time which all the data frames cover
         self.t_max = min(np.max(time) for time in self.external_mappings_time)
-- 
2.43.0


From 79ce5590cee23f5bf375fae9d28d554eca4e7792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 31/62] fix: several mappings may use the same external data
 frame from the start

---
 .../external_mappings/external_mappings.py    | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index e8bf23a..ac40c05 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -13,10 +13,11 @@ class ExternalMapping:
         self.interpolation_type = []
         self.start_times = []
         self.t_max = 0
+        loaded = {}
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
-                df = external_mapping.data_loader.load(element.data_frame_id, element.index_to_timestep_mapping_start)
-                element.add_df(df)
+                element.add_df(self._load(external_mapping.data_loader, element,
+                                          element.index_to_timestep_mapping_start, loaded))
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 self.external_columns.append(list(element.dataframe_aliases.keys()))
@@ -40,12 +41,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                batch = (id(external_mapping.data_loader), element.data_frame_id, element.time_multiplier)
-                if batch not in loaded:
-                    # a loader is asked once for what several elements use
-                    loaded[batch] = external_mapping.data_loader.load(element.data_frame_id,
-                                                                      t / element.time_multiplier)
-                df = loaded[batch]
+                df = self._load(external_mapping.data_loader, element, t / element.time_multiplier, loaded)
 
                 if df.empty:
                     return False
@@ -62,6 +58,14 @@ class ExternalMapping:
         self.external_mappings_time = self._stack(self.external_mappings_time)
         return True
 
+    @staticmethod
+    def _load(data_loader, element, t, loaded):
+        # a loader is asked once for what several elements use
+        batch = (id(data_loader), element.data_frame_id, t)
+        if batch not in loaded:
+            loaded[batch] = data_loader.load(element.data_frame_id, t)
+        return loaded[batch]
+
     def _append_data(self, element, start_time):
         # the rows before the start are skipped in every batch
         time = element.df[element.index_to_timestep_mapping].to_numpy(dtype=np.float64)
-- 
2.43.0


From db85a3e9a20a9bfb490f01614bb0bcbe6ae1e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 32/62] fix: conditions of state events see the variables
 calculated at the states they are evaluated for

---
 numerous/engine/simulation/solver_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 41d0ec8..d73c572 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -282,6 +282,8 @@ class EventFactory:
             def _get_variables_modified(self, interface: NumerousEngineModelInterface, t, y_) -> np.array:
                 old_states = interface.get_states()
                 interface.set_states(y_)
+                # conditions may depend on variables which the equations calculate from the states
+                interface.model.numba_model.func(t, interface.get_states())
 
                 vars = interface.model.numba_model.read_variables().copy()
                 interface.set_states(old_states)
-- 
2.43.0


From 18ef8ad32c109ad34e7de1fab06a97a64d95c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 33/62] fix: timestamp events accept numpy arrays of timestamps

---
 numerous/engine/numerous_event.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/numerous_event.py b/numerous/engine/numerous_event.py
index 2cbf3b0..70849c7 100644
--- a/numerous/engine/numerous_event.py
+++ b/numerous/engine/numerous_event.py
@@ -83,11 +83,13 @@ class TimestampEvent(NumerousEvent):
         self.action = action
         self.compiled_functions = compiled_functions
 
-        assert not (periodicity and timestamps), "you cannot specify both timestamps and periodicity for a " \
-                                                 "time-stamp event"
+        has_timestamps = timestamps is not None and len(timestamps) > 0
 
-        assert not (not timestamps and not periodicity), "you must specify at least timestamps or periodicity"
-        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not timestamps, \
+        assert not (periodicity and has_timestamps), "you cannot specify both timestamps and periodicity for a " \
+                                                     "time-stamp event"
+
+        assert has_timestamps or periodicity, "you must specify at least timestamps or periodicity"
+        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not has_timestamps, \
             "timestamps must be list or np array"
 
         self.timestamps = np.array(timestamps) if isinstance(timestamps, list) else timestamps
-- 
2.43.0


From 2e2306d2ddc6b905c1bd5fafa1f89152105f74b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 34/62] fix: timestamps of an event may be given in any order

---
 numerous/engine/numerous_event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/numerous_event.py b/numerous/engine/numerous_event.py
index 70849c7..7bcd81b 100644
--- a/numerous/engine/numerous_event.py
+++ b/numerous/engine/numerous_event.py
@@ -92,7 +92,8 @@ class TimestampEvent(NumerousEvent):
         assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not has_timestamps, \
             "timestamps must be list or np array"
 
-        self.timestamps = np.array(timestamps) if isinstance(timestamps, list) else timestamps
+        # the solver goes through the timestamps in order
+        self.timestamps = np.sort(timestamps) if has_timestamps else None
         self.periodicity = periodicity
         self.is_external = is_external
         self.parent_path = parent_path
-- 
2.43.0


From eb4c4ce2cc9c94f60fd41b89254c7beca6441b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 35/62] fix: external time events trigger once, and only at
 their times

---
 numerous/engine/simulation/simulation.py      |  9 +++---
 .../engine/simulation/solver_interface.py     | 28 +++++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 8306f1f..fc790cf 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -1,8 +1,7 @@
 from datetime import datetime
 import time
 import numpy as np
-from numerous.solver.numerous_solver import NumerousSolver
-from numerous.engine.simulation.solver_interface import generate_numerous_engine_solver_model
+from numerous.engine.simulation.solver_interface import generate_numerous_engine_solver_model, NumerousEngineSolver
 from numerous.engine.model import Model
 from numerous.utils import logger as log
 
@@ -60,9 +59,9 @@ class Simulation:
         numerous_engine_model, numerous_engine_event_handler = \
             generate_numerous_engine_solver_model(model)
 
-        self.solver = NumerousSolver(model=numerous_engine_model,
-                                     use_jit=model.use_llvm, event_handler=numerous_engine_event_handler,
-                                     **kwargs)
+        self.solver = NumerousEngineSolver(model=numerous_engine_model,
+                                           use_jit=model.use_llvm, event_handler=numerous_engine_event_handler,
+                                           **kwargs)
 
         self.start_datetime = start_datetime
         self.info = model.info["Solver"]
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index d73c572..5377f93 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -11,6 +11,7 @@ from numerous.solver import model, interface, Model as SolverModel, Interface, S
     PeriodicTimeEvent as SolverPeriodicTimeEvent, TimestampedEvent as SolverTimestampedEvent, event
 from numerous.solver.events import Event as SolverEvent
 from numerous.solver.handlers import EventHandler
+from numerous.solver.numerous_solver import NumerousSolver
 from numerous.solver.solve_states import SolveEvent
 
 @model
@@ -160,6 +161,19 @@ class NumerousEngineModelInterface(Interface):
         return SolveEvent.NoneEvent
 
 
+class NumerousEngineSolver(NumerousSolver):
+    def _trigger_external_events(self, direction: int, t: float, y: np.array):
+        """
+        The solver marks the next time event before its time has come, and may leave its internal loop until then for
+        other reasons (to store the history, load external data or run other events)
+        """
+        tolerance = self.method_options.get('atol') * 1000
+        for time_event in self.time_events:
+            if time_event.is_triggered() and time_event.get_next_event_time(self.interface, t) > t + tolerance:
+                time_event.clear()
+        super()._trigger_external_events(direction, t, y)
+
+
 def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel, NumerousEngineEventHandler):
     """
     Method to generate the numerous-engine solver-model and its event handler
@@ -207,6 +221,13 @@ def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel,
 
 
 class TimestampedEvent(SolverTimestampedEvent):
+    def post_event(self, direction: int, interface: Interface, t: float, y: np.array):
+        """
+        The solver uses a copy of an external event, and only this one knows which timestamps were skipped: go on after
+        the timestamp that triggered
+        """
+        self._last_ix = np.argmin(np.abs(self.timestamps - t)) + 1
+
     def reset(self):
         """
         All timestamps trigger again after a reset
@@ -224,6 +245,13 @@ class PeriodicTimeEvent(SolverPeriodicTimeEvent):
             self.t_next_event = np.ceil((t - 1e-6) / self.period) * self.period
         return self.t_next_event
 
+    def post_event(self, direction: int, interface: Interface, t: float, y: np.array):
+        """
+        The solver uses a copy of an external event, and only this one knows which multiples of the period were skipped:
+        go on after the multiple that triggered
+        """
+        self.t_next_event = (np.round(t / self.period) + 1) * self.period
+
 
 class EventFactory:
     """
-- 
2.43.0


From 55684e002efff10cb571169e1cb4b4f80d4c8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 36/62] fix: event actions read variables calculated for
 another time or before earlier events

---
 numerous/engine/simulation/solver_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 5377f93..cf1d957 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -264,6 +264,8 @@ class EventFactory:
 
         class BaseInternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
+                # the action may read variables which the equations calculate from what earlier events or steps changed
+                interface.model.numba_model.func(t, interface.get_states())
                 vars = interface._get_variables().copy()
                 if event_type == 'state':
                     modified_variables = interface.model.state_event_actions(t, vars, ix)
@@ -282,6 +284,7 @@ class EventFactory:
         # Use closure to wrap external event class
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
+                model.numba_model.func(t, model.numba_model.get_states())
                 model.update_local_variables()
                 path_ = ".".join(parent_path) + "." if parent_path else ""
                 # variables of the item are named relative to it, like in internal events
-- 
2.43.0


From ca6d2f8b0dfb401a14384a9e68b171a9830c28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 37/62] fix: sets of items may have variables not used in
 equations

---
 numerous/engine/variables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 8e3d885..9105165 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -144,6 +144,7 @@ class SetOfVariables:
         self.global_var = False
         self.global_var_idx = False
         self.eq_used = []
+        self.used_in_equation_graph = False
 
     def get_size(self):
         return self.size
-- 
2.43.0


From fa1ddb546522136fcb3cfb84b9cdfb8230b8d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 38/62] fix: equations of a second set of the same items work
 on its own variables

---
 numerous/engine/model/ast_parser/parser_ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index c82efd8..87d3509 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -1,7 +1,7 @@
 import ast
 from textwrap import dedent
 
-from numerous.engine.variables import Variable
+from numerous.engine.variables import Variable, SetOfVariables
 from numerous.engine.model.ast_parser.ast_visitor import ast_to_graph, connect_equation_node
 from numerous.engine.model.graph_representation import Graph, EdgeType, Node, Edge
 from numerous.engine.model.utils import NodeTypes
@@ -84,7 +84,7 @@ def qualify_equation(prefix, g, tag_vars, eq_class, eq_current):
     g_qual.node_map = {q(k): v for k, v in g_qual.node_map.items()}
     g_qual.key_map = {k: q(v) for k, v in g_qual.key_map.items()}
 
-    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, Variable) else sv
+    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, (Variable, SetOfVariables)) else sv
                        for n in g.node_map.values()]
 
     for i in range(g_qual.node_counter):
-- 
2.43.0


From f749c78244103e593d67f16061b062825e5ef4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 39/62] fix: equations and mappings of sets of items read and
 write the right variables

---
 .../graph_representation/mappings_graph.py    |  2 +-
 .../model/lowering/equations_generator.py     | 67 ++++++++++++++-----
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/numerous/engine/model/graph_representation/mappings_graph.py b/numerous/engine/model/graph_representation/mappings_graph.py
index 43d3eed..83ca174 100644
--- a/numerous/engine/model/graph_representation/mappings_graph.py
+++ b/numerous/engine/model/graph_representation/mappings_graph.py
@@ -116,7 +116,7 @@ class MappingsGraph(Graph):
                         tsv = TemporarySetVar(tmp_key, sv)
                         for svi in sv.variables.values():
                             tmp_var_counter += 1
-                            svf = TemporaryVar('tmp_var_' + str(tmp_var_counter), svi,
+                            svf = TemporaryVar(d_u(tmp_key) + '_' + str(tmp_var_counter), svi,
                                                svi.tag + '_' + str(sv.id), svi.set_var, svi.set_var_ix)
                             tsv.tmp_vars.append(svf)
                         fake_sv[tsv.id] = tsv
diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 1aec9da..0c7c981 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -134,7 +134,7 @@ class EquationGenerator:
         log.info('Making equations for compilation')
 
         for eq_key, eq in equations.items():
-            vardef = Vardef(eq_key, llvm=self.llvm, exclude_global_var=eq.is_set)
+            vardef = Vardef(eq_key, llvm=self.llvm, exclude_global_var=False)
 
             eq.graph.lower_graph = None
             if self.llvm:
@@ -174,6 +174,27 @@ class EquationGenerator:
                 return var_id
         raise ValueError("No variable found for id {}", var_id)
 
+    def search_in_set_scope(self, set_var_id, scope_vars):
+        # The equation was parsed for another set of the same items: find the variable in the set it is called for
+        members = [self.set_variables[v].set_var if v in self.temporary_variables else self.set_variables[v]
+                   for v in scope_vars.values() if v in self.set_variables]
+        namespace = members[0].get_var_by_idx(0).namespace
+        for k, set_var in self.set_variables.items():
+            if k not in self.temporary_variables and set_var.tag == self.set_variables[set_var_id].tag \
+                    and set_var.get_var_by_idx(0).namespace is namespace:
+                return set_var
+        raise ValueError(f"No set variable found for id {set_var_id}")
+
+    def _is_aligned_set_call(self, set_args):
+        # A loop over the set assumes that the arguments of all its items follow each other in memory
+        if any(a.is_global_var for args in set_args for a in args):
+            return False
+        order = [self.values_order[a.name] for args in set_args for a in args]
+        if order != list(range(order[0], order[0] + len(order))):
+            return False
+        # in llvm current values of the states are not in this memory
+        return not (self.llvm and any(a.name in self.states for args in set_args for a in args))
+
     def _process_equation_node(self, n):
         eq_name = self.equation_graph.nodes[n].name
 
@@ -207,7 +228,8 @@ class EquationGenerator:
         if self.equation_graph.nodes[n].vectorized:
 
             # Map of scope.?? vars and set variable names
-            scope_vars = {'scope.' + self.set_variables[k].tag: v for k, v in
+            scope_vars = {'scope.' + (self.set_variables[k] if k in self.set_variables
+                                      else self.scope_variables[k]).tag: v for k, v in
                           zip(args_scope_var + targets_scope_var, args_local + targets_local)}
 
             # Put the information of args and targets in the scope_var attr of the graph node for those equation
@@ -226,18 +248,27 @@ class EquationGenerator:
         # Generate ast for this equation callcompiled_function_from_graph_generic_llvm
         if self.equation_graph.nodes[n].vectorized:
 
-            llvm_args = []
-            for t in vardef.args_order:
-                if not t.is_global_var:
-                    llvm_args_ = []
-                    set_var = self.set_variables[scope_vars[t[0]]]
-                    for i in range(set_var.get_size()):
-                        llvm_args_.append(set_var.get_var_by_idx(i).id)
-                    llvm_args.append(llvm_args_)
-            # reshape to correct format
-            llvm_args = [list(x) for x in zip(*llvm_args)]
-            self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
-                                                vardef.llvm_target_ids)
+            set_vars = [None if t.is_global_var else
+                        self.set_variables[scope_vars[t.name]] if t.name in scope_vars else
+                        self.search_in_set_scope(t.name, scope_vars) for t in vardef.args_order]
+            set_size = max(set_var.get_size() for set_var in set_vars if set_var is not None)
+            llvm_args = [[VariableArgument(t.name, True) if set_var is None else
+                          VariableArgument(set_var.get_var_by_idx(i).id, False)
+                          for t, set_var in zip(vardef.args_order, set_vars)] for i in range(set_size)]
+            for t_ix, t in enumerate(vardef.args_order):
+                if t.is_global_var:
+                    global_var = VariableArgument(d_u(scope_vars.get(t.name, t.name)), True)
+                    for llvm_args_ in llvm_args:
+                        llvm_args_[t_ix] = global_var
+
+            if self._is_aligned_set_call(llvm_args):
+                self.generated_program.add_set_call(self.get_external_function_name(ext_func),
+                                                    [[a.name for a in llvm_args_] for llvm_args_ in llvm_args],
+                                                    vardef.llvm_target_ids)
+            else:
+                for llvm_args_ in llvm_args:
+                    self.generated_program.add_call(self.get_external_function_name(ext_func), llvm_args_,
+                                                    vardef.llvm_target_ids)
         else:
             # Generate llvm arguments
             args = []
@@ -313,7 +344,8 @@ class EquationGenerator:
                 for set_variable in mappings[':']:
                     for k in range(self.set_variables[set_variable].size):
                         target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
-                        mappings_llvm[target_var_name] = [self.set_variables[set_variable].get_var_by_idx(k).id]
+                        mappings_llvm.setdefault(target_var_name, []).append(
+                            self.set_variables[set_variable].get_var_by_idx(k).id)
             for m_ix in mappings['ix']:
                 for k, v in m_ix[1].items():
                     target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
@@ -328,7 +360,8 @@ class EquationGenerator:
                             else:
                                 raise ValueError(f'Variable  {m_ix[0]} mapping not found')
             for k, v in mappings_llvm.items():
-                self.generated_program.add_mapping(v, [k])
+                self.generated_program.add_mapping([VariableArgument(var_id, False) for var_id in v],
+                                                   [VariableArgument(k, False)])
         else:
             # Register targeted variables
             is_set_var = self.equation_graph.nodes[t].is_set_var
@@ -365,7 +398,7 @@ class EquationGenerator:
                             mapping_dict[target_var] = [VariableArgument(var_name, False)]
                     else:
                         if var_name in self.set_variables:
-                            if var_name in mapping_dict:
+                            if target_var in mapping_dict:
                                 mapping_dict[target_var].append(
                                     VariableArgument(self.set_variables[var_name].get_var_by_idx(v[1]).id, False))
                             else:
-- 
2.43.0


From 2f35b7fc149b9d6829a6bea36df7e9241398f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 40/62] fix: events of items in a set, and items inside items
 of a set, are part of the model

---
 numerous/engine/model/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 93d924b..e1d7fac 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -206,6 +206,12 @@ class Model:
         self.model_items.update({item.id: item})
         model_namespaces[item.id] = self._create_model_namespaces(item)
         if isinstance(item, ItemSet):
+            # The namespaces of the set stand for those of its items
+            for set_item in item.registered_items.values():
+                self.model_items.update({set_item.id: set_item})
+                if isinstance(set_item, Subsystem):
+                    for registered_item in set_item.registered_items.values():
+                        model_namespaces.update(self.__add_item(registered_item))
             return model_namespaces
         if isinstance(item, Connector):
             for binded_item in item.get_binded_items():
-- 
2.43.0


From 277fb681f9784fc77b75982534d340ac52801211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 41/62] fix: models with items whose bindings are not of a
 connector can be validated

---
 numerous/engine/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index e1d7fac..d6a4848 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -578,7 +578,7 @@ class Model:
         Checks that all bindings are fulfilled.
         """
         valid = True
-        for item in self.model_items.values():
+        for item in [item for item in self.model_items.values() if isinstance(item, Connector)]:
             for binding in item.bindings:
                 if binding.is_bindend():
                     pass
-- 
2.43.0


From 07ac212a635f7167d982b328d203ac4f9ffb1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 42/62] fix: variable paths do not depend on the order items
 are registered in

---
 numerous/engine/system/item.py      |  1 +
 numerous/engine/system/subsystem.py | 24 ++++++++++++++++--------
 numerous/engine/variables.py        | 12 +++---------
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/numerous/engine/system/item.py b/numerous/engine/system/item.py
index 9061bf7..47ec30a 100644
--- a/numerous/engine/system/item.py
+++ b/numerous/engine/system/item.py
@@ -29,6 +29,7 @@ class Item(Node):
         self.timestamp_events = []
         self.level = 1
         self.parent_item = None
+        self.parents = []
         self.registered = False
         self.parent_set = None
         self.part_of_set = False
diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index 2e08ce9..b29424a 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -129,15 +129,13 @@ class Subsystem(ConnectorItem):
 
         """
         item.path = self.path + [item.tag]
+        ancestors = [self] + tail[::-1]
         for ns in item.registered_namespaces.values():
             for var in ns.variables.values():
-                var.path.extend_path(item.id, self.id, self.tag)
-                if len(tail) == 1:
-                    var.path.extend_path(self.id, tail[0].id, tail[0].tag)
-                if len(tail) > 1:
-                    t1 = tail[0::2][0]
-                    t2 = tail[1::2][0]
-                    var.path.extend_path(t2.id, t1.id, t1.tag)
+                current = item
+                for ancestor in ancestors:
+                    var.path.extend_path(current.id, ancestor.id, ancestor.tag)
+                    current = ancestor
         if isinstance(item, Subsystem):
             for item_ in item.registered_items.values():
                 item.update_variables_path(item_, tail + [self])
@@ -153,8 +151,18 @@ class Subsystem(ConnectorItem):
         if item.tag in [x.tag for x in self.registered_items.values()]:
             raise ValueError('Item with tag {} is already registered in system {}'.format(item.tag, self.tag))
         item._increase_level()
-        self.update_variables_path(item)
+        for tail in self._get_tails():
+            self.update_variables_path(item, tail)
         self.registered_items.update({item.id: item})
+        item.parents.append(self)
+
+    def _get_tails(self):
+        """
+        The subsystems above this one, from the top, for each of the ways it is registered.
+        """
+        if not self.parents:
+            return [[]]
+        return [tail + [parent] for parent in self.parents for tail in parent._get_tails()]
 
     def _find_variable(self, item, varname):
         variables = item.get_variables()
diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 9105165..d986bb6 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -115,20 +115,14 @@ class VariablePath:
     def __init__(self, tag, id):
         self.path = {id: tag}
         self.primary_path = tag
-        self.used_id_pairs = []
 
     def __iter__(self):
         return iter(self.path.values())
 
     def extend_path(self, current_id, new_id, new_tag):
-        if not (current_id + new_id in self.used_id_pairs):
-            if new_id in self.path:
-                self.path[new_id].extend([new_tag + '.' + x for x in self.path[current_id]])
-                self.primary_path = new_tag + '.' + self.path[current_id][-1]
-            else:
-                self.path.update({new_id: [new_tag + '.' + x for x in self.path[current_id]]})
-                self.primary_path = new_tag + '.' + self.path[current_id][-1]
-            self.used_id_pairs.append(current_id + new_id)
+        paths = self.path.setdefault(new_id, [])
+        paths.extend([path for path in [new_tag + '.' + x for x in self.path[current_id]] if path not in paths])
+        self.primary_path = paths[-1]
 
 
 class SetOfVariables:
-- 
2.43.0


From 7f71e2c2dc0935c5bc12769461b7f4d73eb3f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 43/62] fix: external mappings find variables by any of their
 paths

---
 numerous/engine/system/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index b29424a..f4698b1 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -168,7 +168,7 @@ class Subsystem(ConnectorItem):
         variables = item.get_variables()
         for variable in variables:
             for path in variable[0].path.path.values():
-                if path[0] == varname:
+                if varname in path:
                     return True
         return False
 
-- 
2.43.0


From d733a41b1d6b9dd2832b3bd32e8d20778fcf8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 44/62] fix: aliases of variable descriptions are kept

---
 numerous/engine/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index d986bb6..575a28a 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -180,7 +180,7 @@ class Variable(MappedValue):
         self.paths = []
         self.global_var = detailed_variable_description.global_var
         self.global_var_idx = detailed_variable_description.global_var_idx
-        self.alias = None
+        self.alias = detailed_variable_description.alias
         self.set_var = None
         self.set_var_ix = None
         self.set_namespace = None
-- 
2.43.0


From 18727fe7ab67f5e5c80ad74a768621e88242c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 45/62] fix: mappings of a connector reach the items bound to
 it

---
 numerous/engine/system/binding.py        | 28 +++++++++++++++++++++++-
 numerous/engine/system/connector.py      | 21 +++++++++++++++++-
 numerous/engine/system/connector_item.py | 14 +-----------
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/numerous/engine/system/binding.py b/numerous/engine/system/binding.py
index 525f51e..62a6110 100644
--- a/numerous/engine/system/binding.py
+++ b/numerous/engine/system/binding.py
@@ -48,7 +48,33 @@ class Binding:
     def __merge_namespaces(self):
         for namespace in self.ns:
             self.__create_binding_varaible_bindings(namespace)
-            self.ns[namespace.tag] = self.binded_item.registered_namespaces[namespace.tag]
+            if namespace.tag in self.binded_item.registered_namespaces.keys():
+                self.ns[namespace.tag] = self.binded_item.registered_namespaces[namespace.tag]
+            elif any(bv.mapping or bv.sum_mapping for bv in namespace.variables):
+                raise ValueError("Item {0} binded to binding {1} has no namespace {2}"
+                                 .format(self.binded_item.tag, self.name, namespace.tag))
+
+    def get_binded_variable(self, variable):
+        """
+            Variable of the binded item that a variable of this binding stands for.
+
+            Parameters
+            ----------
+            variable : :class:`Variable`
+                Variable of a namespace of this binding.
+
+            Raises
+            ------
+            ValueError
+                If the binded item has no such variable.
+        """
+        ns_tag, tag = variable.namespace.tag, variable.detailed_description.tag
+        if ns_tag in self.binded_item.registered_namespaces.keys():
+            binded_variable = self.binded_item.registered_namespaces[ns_tag].get_variable(tag)
+            if binded_variable is not None:
+                return binded_variable
+        raise ValueError("Item {0} binded to binding {1} has no variable {2}.{3}"
+                         .format(self.binded_item.tag, self.name, ns_tag, tag))
 
     def add_binding(self, item):
         """
diff --git a/numerous/engine/system/connector.py b/numerous/engine/system/connector.py
index a06153a..c2b0ae3 100644
--- a/numerous/engine/system/connector.py
+++ b/numerous/engine/system/connector.py
@@ -1,6 +1,6 @@
 from numerous.engine.system.binding import Binding
 from numerous.utils.dict_wrapper import _DictWrapper
-from numerous.engine.system.namespace import _ShadowVariableNamespace
+from numerous.engine.system.namespace import _BindingVariable, _ShadowVariableNamespace
 from numerous.engine.system.node import Node
 
 
@@ -77,6 +77,24 @@ class Connector(Node):
             if y.binded_item is not None
         ]
 
+    def _bind_mappings(self):
+        """
+        Replaces the variables of the bindings by those of the binded items in all mappings of the connector and of
+        the binded items.
+        """
+        bindings = [binding for binding in self.bindings if binding.is_bindend()]
+
+        def get_binded_variable(variable):
+            if isinstance(variable, _BindingVariable) and variable.namespace.binding in bindings:
+                return variable.namespace.binding.get_binded_variable(variable)
+            return variable
+
+        for item in [self] + self.get_binded_items():
+            for ns in item.registered_namespaces:
+                for variable in ns.variables:
+                    variable.mapping = get_binded_variable(variable.mapping)
+                    variable.sum_mapping = [get_binded_variable(v) for v in variable.sum_mapping]
+
     @staticmethod
     def create_new_binding(binding_name):
         """
@@ -100,4 +118,5 @@ class Connector(Node):
             if isinstance(self.__dict__[key], Binding):
                 if isinstance(value, Node):
                     self.__dict__[key].add_binding(value)
+                    self._bind_mappings()
         object.__setattr__(self, key, value)
diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index da3fd85..c9b9515 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -1,6 +1,5 @@
 from numerous.engine.system.connector import Connector
 from numerous.engine.system.item import Item
-from numerous.engine.system.namespace import _BindingVariable
 
 
 class ConnectorItem(Item, Connector):
@@ -29,17 +28,6 @@ class ConnectorItem(Item, Connector):
         super()._create_shadow_namespace(namespace_name)
         return new_namespace
 
-    def __bind_mappings(self, binding, binded_item):
-        for ns in self.registered_namespaces:
-            for f_var in ns.variables:
-                if f_var.mapping:
-                    b_fvar=f_var.mapping
-                    if isinstance(b_fvar, _BindingVariable):
-                        if b_fvar.namespace.binding.name == binding.name:
-                            bv = binded_item.registered_namespaces[ns.tag].get_variable(
-                                b_fvar.detailed_description.tag)
-                            f_var.mapping = bv
-
     def bind(self, **kwargs):
         """
         Method to bind item to the bindings in current item. Biding items creating all mappings that
@@ -55,7 +43,7 @@ class ConnectorItem(Item, Connector):
             if key in self.bindings.keys():
 
                 self.bindings[key].add_binding(value)
-                self.__bind_mappings(self.bindings[key], value)
+                self._bind_mappings()
             else:
                 ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
-- 
2.43.0


From a4c6aed9d5390e11ca10cef8442ba5629061c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 46/62] fix: binding an item to an unknown binding raises

---
 numerous/engine/system/connector_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index c9b9515..9580a62 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -45,7 +45,7 @@ class ConnectorItem(Item, Connector):
                 self.bindings[key].add_binding(value)
                 self._bind_mappings()
             else:
-                ValueError("Binding {} is not exist in item {}".format(key, self.tag))
+                raise ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
 
 class ConnectorTwoWay(ConnectorItem):
-- 
2.43.0


From 437bd8476a6f4a8a56f8c230bcd17fa928a79e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 47/62] fix: statements equations cannot contain are refused
 rather than skipped

---
 numerous/engine/model/ast_parser/ast_visitor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 406b248..3608cdc 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -47,16 +47,17 @@ class AstVisitor(ast.NodeVisitor):
         self.traverse(node)
 
     def visit_Module(self, node: ast.Module):
-        self.traverse(node.body)
-
-    def visit_FunctionDef(self, node: ast.FunctionDef):
-        self.traverse(node.body)
+        body = node.body[0].body
+        # A return at the very end of the equation changes nothing
+        self.traverse(body[:-1] if isinstance(body[-1], ast.Return) else body)
 
     def _visit_unsupported(self, node: ast.AST):
         raise NotImplementedError(f'{type(node).__name__} is not supported in equations: {self.eq_file}, '
                                   f'line {self.eq_lineno}')
 
     visit_For = visit_While = visit_With = visit_Try = visit_AnnAssign = visit_BoolOp = _visit_unsupported
+    visit_Return = visit_Raise = visit_Assert = visit_Yield = visit_YieldFrom = visit_Match = _visit_unsupported
+    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _visit_unsupported
 
     def visit_Call(self, node: ast.Call) -> Any:
         if node.keywords:
-- 
2.43.0


From f0077c6e866fa8423dfb47b4d7184dd030293694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 48/62] fix: a namespace can have several equation objects

---
 numerous/engine/model/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index d6a4848..abf4318 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -77,13 +77,11 @@ class ModelNamespace:
 
         variables__ = [list(x) for x in zip(*variables__)]
         variables__ = list(itertools.chain(*variables__))
-        variables_ordered = [None] * len(variables__)
         if self.is_set:
             for i, v in enumerate(variables__):
                 v.detailed_description.variable_idx = i
-        for variable in variables__:
-            variables_ordered[variable.detailed_description.variable_idx] = variable
-        return variables_ordered
+        # The equations of a namespace each count their variables from zero
+        return sorted(variables__, key=lambda variable: variable.detailed_description.variable_idx)
 
 
 class ModelAssembler:
-- 
2.43.0


From 7a261fc07685877d45f712cfafeaa321340bf220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 49/62] fix: equation objects of one namespace can declare the
 same variable

---
 numerous/engine/system/namespace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index 65d46e1..ca3f740 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -125,10 +125,10 @@ class VariableNamespaceBase:
             logging.warning("Variable {0} is already in namespace {1} of item {2}".format(variable.tag,
                                                                                           self.tag, self.item.tag))
             # we overwrite constant < parameters < state
-            if self.variables[variable.tag].value < variable.value:
+            if self.variables[variable.tag].type.value < variable.type.value:
                 self.variables[variable.tag] = variable
-                variable.extend_path(self.tag)
-                variable.extend_path(self.item.tag)
+                variable.path.extend_path(variable.id, self.id, self.tag)
+                variable.path.extend_path(self.id, self.item.id, self.item.tag)
 
     def update_set_var(self):
         pass
-- 
2.43.0


From d4b8d92191fe21ad18a53e72eff1d24cc0d2a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 50/62] fix: equation objects with the tag of another are
 refused rather than replacing it

---
 numerous/engine/system/namespace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index ca3f740..74c0eb8 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -179,6 +179,9 @@ class VariableNamespaceBase:
         if create_variables:
             any(self.create_variable_from_desc(variable_description)
                 for variable_description in equation.variables_descriptions)
+        if self.associated_equations.get(equation.tag, equation) is not equation:
+            raise ValueError('Equation with tag {0} is already in namespace {1} of item {2}'
+                             .format(equation.tag, self.tag, self.item.tag))
         equation.set_equation = set_equation
         self.associated_equations.update({equation.tag: equation})
 
-- 
2.43.0


From a68d2d5de6650af57703ad629b32fc7274f1bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 51/62] fix: assignments to global variables are refused by the
 LLVM code generator, too

---
 numerous/engine/model/ast_parser/ast_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 3608cdc..ab243d5 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -112,6 +112,9 @@ class AstVisitor(ast.NodeVisitor):
     def _process_named_node(self, node: ast.expr, ast_type: type, node_type: NodeTypes, static_key=False, func=None):
         source_id = recurse_Attribute(node)
         scope_var, is_mapped = self._select_scope_var(source_id)
+        if scope_var is not None and scope_var.global_var and isinstance(getattr(node, 'ctx', None), ast.Store):
+            raise ValueError(f'Global variables cannot be assigned in equations: {self.eq_file}, '
+                             f'line {self.eq_lineno}')
         en = self.graph.add_node(
             Node(key=source_id if static_key else None, ao=node, file=self.eq_file, name=self.eq_key,
                  ln=self.eq_lineno, id=source_id, local_id=source_id, func=func,
-- 
2.43.0


From e56aa9cdff6078904ef3b112bb207851fdfa550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 52/62] fix: bilinear interpolation at points of the grid

---
 .../interpolation/bilinear_interpolation.py   | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/numerous/utils/interpolation/bilinear_interpolation.py b/numerous/utils/interpolation/bilinear_interpolation.py
index dcabae8..b2e836e 100644
--- a/numerous/utils/interpolation/bilinear_interpolation.py
+++ b/numerous/utils/interpolation/bilinear_interpolation.py
@@ -101,20 +101,11 @@ def bilinear_interpolation(ix, x, y, data_def, data):
     # if not x1 <= x <= x2 or not y1 <= y <= y2:
     #     raise ValueError('(x, y) not within the rectangle')
 
-    if x == x2 or x == x1 or x1 == x2:
-        if y == y1 or y == y2 or y1 == y2:
-            return q11
-        else:
-            z = (q11 * (y2 - y) + q12 * (y - y1)) / (y2 - y1)
-    elif y == y1 or y == y2 or y1 == y2:
-        if x == x1 or x == x2 or x1 == x2:
-            return q11
-        else:
-            z = (q11 * (x2 - x) + q21 * (x - x1)) / (x2 - x1)
-    else:
-        z = (q11 * (x2 - x) * (y2 - y) +
-             q21 * (x - x1) * (y2 - y) +
-             q12 * (x2 - x) * (y - y1) +
-             q22 * (x - x1) * (y - y1)
-             ) / ((x2 - x1) * (y2 - y1))
-    return z
+    # the two indices are the same on a grid line and outside the grid, else the point is between x1 and x2
+    x_weight = 0.0 if x1_ix == x2_ix else (x - x1) / (x2 - x1)
+    y_weight = 0.0 if y1_ix == y2_ix else (y - y1) / (y2 - y1)
+
+    return (q11 * (1 - x_weight) * (1 - y_weight) +
+            q21 * x_weight * (1 - y_weight) +
+            q12 * (1 - x_weight) * y_weight +
+            q22 * x_weight * y_weight)
-- 
2.43.0


From 1925d82cd8088bc826b3a4910de3e7c419e03041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 53/62] fix: clones and models loaded from files lacked events,
 global variables and initial values, clones took over the variables of the
 items

---
 numerous/engine/model/model.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index abf4318..cb21217 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -2,6 +2,7 @@ import itertools
 import os
 import pickle
 import sys
+from copy import copy
 
 from typing import Optional, Callable
 
@@ -516,7 +517,8 @@ class Model:
                              self.imports, self.use_llvm, self.vars_ordered_values, self.variables,
                              self.state_idx, self.derivatives_idx, self.init_values, self.aliases,
                              eq_gen.generated_program.equations_llvm_opt, eq_gen.generated_program.max_var,
-                             eq_gen.generated_program.n_deriv), handle, protocol=pickle.HIGHEST_PROTOCOL)
+                             eq_gen.generated_program.n_deriv, self.model_items, self.global_variables,
+                             self.global_tag_vars), handle, protocol=pickle.HIGHEST_PROTOCOL)
             log.info('Model successfully exported to ' + filename)
 
         if self.clonable:
@@ -944,8 +946,8 @@ class Model:
     def from_file(cls, filename: str):
 
         system_, logger_level, imports, use_llvm, vars_ordered_values, variables, state_idx, \
-            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv = pickle.load(
-            open(filename, "rb"))
+            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv, model_items, \
+            global_variables, global_tag_vars = pickle.load(open(filename, "rb"))
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
         model.variables = variables
@@ -955,8 +957,13 @@ class Model:
         model.derivatives_idx = derivatives_idx
         model.init_values = init_values
         model.aliases = aliases
+        model.model_items = model_items
+        model.global_variables = global_variables
+        model.global_tag_vars = global_tag_vars
 
         model._set_functions(equations_llvm_opt, n_deriv, max_var)
+        model._initial_variables_dict = {k: v.value for k, v in model.variables.items() if not v.global_var}
+        model._reset()
         return model
 
     def clone(self, clonable=False):
@@ -968,15 +975,23 @@ class Model:
         use_llvm = self.use_llvm
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
-        model.variables = self.variables
+        # the variables of the items belong to the model the system was assembled for
+        model.variables = {k: copy(v) for k, v in self.variables.items()}
         model.imports = self.imports
         model.vars_ordered_values = self.vars_ordered_values
         model.state_idx = self.state_idx
         model.derivatives_idx = self.derivatives_idx
         model.init_values = self.init_values
-        model.aliases = self.aliases
+        model.aliases = dict(self.aliases)
+        model.model_items = self.model_items
+        model.global_variables = self.global_variables
+        model.global_tag_vars = self.global_tag_vars
 
         model._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
+        model.events = list(self.events)
+        model.timestamp_events = list(self.timestamp_events)
+        model._initial_variables_dict = dict(self._initial_variables_dict)
+        model._reset()
 
         if clonable:
             model.clonable = True
-- 
2.43.0


From c5406ecbc55096d5afaf232ddb15af64b492955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 54/62] fix: derivatives are in the order of the states they
 belong to, however they are declared

---
 numerous/engine/model/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index cb21217..3003487 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -276,6 +276,7 @@ class Model:
         for variables, equation_dict in map(ModelAssembler.namespace_parser, model_namespaces.items()):
             self.equation_dict.update(equation_dict)
             self.variables.update(variables)
+        self.__order_derivatives()
 
         mappings = []
         for variable in self.variables.values():
@@ -358,6 +359,15 @@ class Model:
         self._assembly_tail()
         self._initial_variables_dict = {k: v.value for k, v in self.variables.items() if not v.global_var}
 
+    def __order_derivatives(self):
+        # the solver expects the derivatives in the order of the states, however they were declared
+        states = [(id(v.namespace), v.tag + '_dot') for v in self.variables.values() if v.type == VariableType.STATE]
+        place = {state: i for i, state in enumerate(states)}
+        derivatives = iter(sorted((v for v in self.variables.values() if v.type == VariableType.DERIVATIVE),
+                                  key=lambda v: place.get((id(v.namespace), v.tag), len(place))))
+        ordered = [next(derivatives) if v.type == VariableType.DERIVATIVE else v for v in self.variables.values()]
+        self.variables = {v.id: v for v in ordered}
+
     def _assembly_tail(self):
         self.logged_aliases = {}
 
-- 
2.43.0


From 04f3254bd6dbbd2c6d7b66f33498cd6c98171496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 55/62] fix: any number of edges at one node of the mappings
 graph

---
 .../engine/model/graph_representation/lower_graph.py     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/graph_representation/lower_graph.py b/numerous/engine/model/graph_representation/lower_graph.py
index 0e6a253..1c2ddbf 100644
--- a/numerous/engine/model/graph_representation/lower_graph.py
+++ b/numerous/engine/model/graph_representation/lower_graph.py
@@ -169,7 +169,14 @@ spec = [
 class _Graph:
     def __init__(self, n_nodes: int64, edges: int64[:], node_types):
 
-        self.n_children_max = 100
+        # all edges of a node are in one row, behind their number
+        degree = np.zeros((n_nodes, 2), np.int64)
+        for e in edges:
+            degree[e[0], 0] += 1
+            degree[e[1], 1] += 1
+        self.n_children_max = 1
+        for n in range(n_nodes):
+            self.n_children_max = max(self.n_children_max, degree[n, 0] + 1, degree[n, 1] + 1)
         self.n_nodes = n_nodes
         self.nodes = np.arange(self.n_nodes)
 
-- 
2.43.0


From 2a670b40263d4cc73f5e0a5c0176cb340991ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 56/62] fix: sums of hundreds of contributions with the
 interpreted code generator

---
 numerous/engine/model/lowering/ast_builder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/lowering/ast_builder.py b/numerous/engine/model/lowering/ast_builder.py
index 0dd2d38..9a4eca9 100644
--- a/numerous/engine/model/lowering/ast_builder.py
+++ b/numerous/engine/model/lowering/ast_builder.py
@@ -285,11 +285,15 @@ class ASTBuilder:
             self.body.append(temp)
 
     def _generate_sum_left(self, arg_idxs):
-        if len(arg_idxs) > 0:
-            return ast.BinOp(left=self._generate_sum_left(arg_idxs[1:]), op=ast.Add(),
-                             right=ast.Subscript(value=KERNEL_ARRAY,
-                                                 slice=ast.Index(
-                                                     value=ast.Constant(value=arg_idxs[0], kind=None))))
+        if len(arg_idxs) > 1:
+            # the depth of the expression is limited, the number of summation arguments is not
+            half = len(arg_idxs) // 2
+            return ast.BinOp(left=self._generate_sum_left(arg_idxs[half:]), op=ast.Add(),
+                             right=self._generate_sum_left(arg_idxs[:half]))
+        elif len(arg_idxs) == 1:
+            return ast.Subscript(value=KERNEL_ARRAY,
+                                 slice=ast.Index(
+                                     value=ast.Constant(value=arg_idxs[0], kind=None)))
         else:
             ## adding 0 if no summation arguments left
             return ast.Constant(value=0, kind=None)
-- 
2.43.0


From 39d87dc591aa5e8b707330adb4381e32c6f5e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 57/62] fix: equations with more graph edges than are
 preallocated

---
 numerous/engine/model/graph_representation/graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index dee3bd0..525ce25 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -98,9 +98,6 @@ class Graph:
                 self.key_map[node_n] = node.key
                 self.node_counter += 1
 
-                if self.node_counter > self.allocated:
-                    raise ValueError('Exceeding allocation')
-
             else:
                 node_n = self.node_map[node.key]
             node.node_n = node_n
@@ -118,12 +115,14 @@ class Graph:
 
     def add_edge(self, edge: Edge):
         edge_n = self.edge_counter
+        if edge_n >= len(self.edges):
+            # the preallocated edges are used up: double the allocation
+            self.edges = np.concatenate([self.edges, -np.ones_like(self.edges)])
+            self.allocated = len(self.edges)
         self.edges[edge_n, :] = [edge.start, edge.end]
 
         self.edge_counter += 1
 
-        if self.edge_counter > self.allocated:
-            raise ValueError('Exceeding allocation')
         self.edges_c.append(edge)
         edge.edge_n = edge_n
         if edge.e_type == EdgeType.TARGET:
-- 
2.43.0


From 36c916d39c025753ffcd291d118f1864afee22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 58/62] fix: mappings of the first variable of the mappings
 graph

---
 numerous/engine/model/graph_representation/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 525ce25..919b26c 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -176,7 +176,7 @@ class Graph:
         return zip(np.argwhere(end_ix), end_)
 
     def get_edges_type_for_node_filter(self, start_node: int = None, end_node: int = None, val=None):
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             raise ValueError('arg cant have both start and end!')
         ix = []
         if not self.node_edges:
@@ -206,15 +206,15 @@ class Graph:
 
     def has_edge_for_nodes(self, start_node=None, end_node=None):
 
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             return np.where(
                 (self.edges[:self.edge_counter, 0] == start_node) & (self.edges[:self.edge_counter, 1] == end_node))[0]
 
-        if start_node:
-            return start_node in self.edges[:, 0]
+        if start_node is not None:
+            return start_node in self.edges[:self.edge_counter, 0]
 
-        if end_node:
-            return end_node in self.edges[:, 1]
+        if end_node is not None:
+            return end_node in self.edges[:self.edge_counter, 1]
 
     def clone(self):
         from copy import deepcopy
-- 
2.43.0


From 7bc6416bf8886633fd40ed0c4f798a2a9b07b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:12 +0000
Subject: [PATCH 59/62] fix: chained assignments in equations assign all of
 their targets

---
 numerous/engine/model/ast_parser/ast_visitor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index ab243d5..c9f9f12 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -141,6 +141,9 @@ class AstVisitor(ast.NodeVisitor):
         self.visit_Assign(new_assign)
 
     def visit_Assign(self, node: ast.Assign):
+        if len(node.targets) > 1:
+            self._visit_chained_assign(node)
+            return
         for target in node.targets:
             if self._is_assign_target_supported(target):
                 self.traverse(target)
@@ -172,6 +175,18 @@ class AstVisitor(ast.NodeVisitor):
         self.node_number_stack.append([en])
         self.mapped_stack.append(mapped)
 
+    def _visit_chained_assign(self, node: ast.Assign):
+        """
+        a = b = value: the value is evaluated once, and then assigned to the targets from left to right
+        """
+        for target in node.targets:
+            if isinstance(target, ast.Tuple):
+                self._visit_unsupported(target)
+        name = '_chained_value'
+        self.visit_Assign(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=node.value))
+        for target in node.targets:
+            self.visit_Assign(ast.Assign(targets=[target], value=ast.Name(id=name, ctx=ast.Load())))
+
     def visit_Attribute(self, node: ast.Attribute):
         self._process_named_node(node, ast_type=ast.Attribute, static_key=True, node_type=NodeTypes.VAR)
 
-- 
2.43.0


From 5a7949b7f155b097e4ca8fb941df87f02fc7614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:39 +0000
Subject: [PATCH 60/62] fix: parse equations with comments, docstrings or
 continuation lines indented less than the method

---
 .../engine/model/ast_parser/parser_ast.py     | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 87d3509..62254db 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -121,6 +121,16 @@ def _generate_equation_key(equation_id: str, is_set: bool) -> str:
     return eq_key
 
 
+def parse_source(source):
+    try:
+        return ast.parse(dedent(source))
+    except IndentationError:
+        # Comments, docstrings and continuation lines may be indented less than the equation itself
+        tree = ast.parse('if True:\n' + source)
+        tree.body = tree.body[0].body
+        return tree
+
+
 def replace_global_var_identification(dsource):
     return dsource.replace("global_vars.", "global_vars_")
 
@@ -137,17 +147,7 @@ def parse_eq(model_namespace, item_id, mappings_graph: Graph, variables,
             if not is_parsed_eq:
                 dsource = eq.lines
                 dsource = replace_global_var_identification(dsource)
-                tries = 0
-                while tries < 10:
-                    try:
-                        dsource = dedent(dsource)
-                        ast_tree = ast.parse(dsource)
-                        break
-                    except IndentationError:
-
-                        tries += 1
-                        if tries > 10 - 1:
-                            raise
+                ast_tree = parse_source(dsource)
 
                 g = ast_to_graph(ast_tree, eq_key, eq.file, eq.lineno, variables)
                 # Create branched versions of graph
-- 
2.43.0


From 9405dd30cec142075cb2a8603d67e831ee80f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:39 +0000
Subject: [PATCH 61/62] fix: equations decorated by the same Equation object no
 longer replace each other

---
 numerous/multiphysics/equation_decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/multiphysics/equation_decorators.py b/numerous/multiphysics/equation_decorators.py
index 3e96719..5a7b89f 100644
--- a/numerous/multiphysics/equation_decorators.py
+++ b/numerous/multiphysics/equation_decorators.py
@@ -32,7 +32,7 @@ class Equation(object):
 
         wrapper._equation = True
 
-        wrapper.id = self.id
+        wrapper.id = str(uuid.uuid4())
         try:
             wrapper.lines = inspect.getsource(func)
             wrapper.lineno = inspect.getsourcelines(func)[1]
@@ -92,7 +92,7 @@ class InlineEquation(Equation):
         wrapper.name = func_name
         wrapper._equation = True
         wrapper.lines = func_source
-        wrapper.id = self.id
+        wrapper.id = str(uuid.uuid4())
         # a = inspect.getsourcelines(func)
         wrapper.lineno = 0
         wrapper.file = 'dynamic.py'
-- 
2.43.0


From d7466e24b2f0cc6ed1c1f699496755159e999fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:39 +0000
Subject: [PATCH 62/62] fix: refuse item sets whose items have different
 equations

---
 numerous/engine/system/subsystem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index f4698b1..67d7127 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -271,6 +271,9 @@ class ItemSet(Subsystem, EquationBase):
                     ns.clear_equations()
                     self.register_namespace(sns)
                 else:
+                    if not self._has_same_equations(self.registered_namespaces[tag_], ns):
+                        raise ValueError(f'Error in registering set {tag} - namespace {tag_} of item {item.tag} '
+                                         f'has not the same equations as the other items of the set!')
                     self.registered_namespaces[tag_].add_item(item, ns)
                 if not ns.part_of_set:
                     ns.part_of_set = sns
@@ -280,3 +283,9 @@ class ItemSet(Subsystem, EquationBase):
         for ns in self.registered_namespaces.values():
             ns.items = self.items
         self.register_items(set_structure_flat)
+
+    @staticmethod
+    def _has_same_equations(namespace, other_namespace):
+        sources = [sorted(equation.lines for eq in ns.associated_equations.values() for equation in eq.equations)
+                   for ns in (namespace, other_namespace)]
+        return sources[0] == sources[1]
-- 
2.43.0

