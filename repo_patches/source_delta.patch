From aff0fdb0cd7cd426f1698c57af02acc86cf53e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 01/42] fix: literal minus expression must subtract the
 expression

5 - x was built as 5 + x by the reflected subtraction operator.
---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From de987c88091c304039009f953b28e74cecd29b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 02/42] fix: parse time shift and time index of parenthesized
 expressions

The grammar accepts (x + y)[t-1] and (x + y)[0], but no visitor was
defined for them and the parser silently returned None.
---
 .../expression/parsing/parse_expression.py    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 1dc3c3e..05f2427 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -147,6 +147,25 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
             return shifted_expr
         return shifted_expr.shift(time_shift)
 
+    # Visit a parse tree produced by ExprParser#timeIndexExpr.
+    def visitTimeIndexExpr(
+        self, ctx: ExprParser.TimeIndexExprContext
+    ) -> ExpressionNode:
+        expr = ctx.expr(0).accept(self)  # type: ignore
+        eval_time = ctx.expr(1).accept(self)  # type: ignore
+        return expr.eval(eval_time)
+
+    # Visit a parse tree produced by ExprParser#timeShiftExpr.
+    def visitTimeShiftExpr(
+        self, ctx: ExprParser.TimeShiftExprContext
+    ) -> ExpressionNode:
+        shifted_expr = ctx.expr().accept(self)  # type: ignore
+        time_shift = ctx.shift().accept(self)  # type: ignore
+        # specifics for (x)[t] ...
+        if expressions_equal(time_shift, literal(0)):
+            return shifted_expr
+        return shifted_expr.shift(time_shift)
+
     def visitTimeSum(self, ctx: ExprParser.TimeSumContext) -> ExpressionNode:
         shifted_expr = ctx.expr().accept(self)  # type: ignore
         from_shift = ctx.from_.accept(self)  # type: ignore
-- 
2.43.0


From f6abe0eb3a55a397ea69bad6d1319c2ab818c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 03/42] fix: reject expressions containing unrecognized
 characters

The lexer silently dropped them: 'x < 3' was parsed as 'x', 'x > = 3' as
'x = 3'.
---
 .../expression/parsing/parse_expression.py    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 05f2427..6765baa 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -10,9 +10,10 @@
 #
 # This file is part of the Antares project.
 from dataclasses import dataclass
-from typing import Set
+from typing import Any, Set
 
 from antlr4 import CommonTokenStream, InputStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.error.ErrorStrategy import BailErrorStrategy
 
 from andromede.expression import ExpressionNode, literal, param, var
@@ -261,6 +262,23 @@ class AntaresParseException(Exception):
     pass
 
 
+class _RaisingLexerErrorListener(ErrorListener):
+    """
+    By default, the lexer skips the characters it does not recognize.
+    """
+
+    def syntaxError(
+        self,
+        recognizer: Any,
+        offendingSymbol: Any,
+        line: int,
+        column: int,
+        msg: str,
+        e: Any,
+    ) -> None:
+        raise ValueError(f"line {line}:{column} {msg}")
+
+
 def parse_expression(expression: str, identifiers: ModelIdentifiers) -> ExpressionNode:
     """
     Parses a string expression to create the corresponding AST representation.
@@ -268,6 +286,7 @@ def parse_expression(expression: str, identifiers: ModelIdentifiers) -> Expressi
     try:
         input = InputStream(expression)
         lexer = ExprLexer(input)
+        lexer.addErrorListener(_RaisingLexerErrorListener())
         stream = CommonTokenStream(lexer)
         parser = ExprParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From 8cd324b8c6a51edb7b3168f422c11e116094cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 04/42] fix: take constraint bounds into account in constraint
 indexing

An IndexingStructure is always truthy, so that the bounds were ignored: a
constant expression with time-varying bounds was constrained at t=0 only.
---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From b54cbb93e2c5451f2b9a12dc3a278c601a100961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 05/42] fix: check data requirements of nodes too

Only the parameters of non-node components were checked.
---
 src/andromede/study/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..b1eb983 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -257,7 +257,7 @@ class DataBase:
             raise KeyError(f"Index {index} not found.")
 
     def requirements_consistency(self, network: Network) -> None:
-        for component in network.components:
+        for component in network.all_components:
             for param in component.model.parameters.values():
                 data_structure = self.get_data(component.id, param.name)
 
-- 
2.43.0


From 5de8be04cca4e379b7560a460038ef798f4a0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 06/42] fix: scope a parameter's scenario group to that
 parameter, load nodes data

The scenario group of one parameter was also applied to the following
parameters of the component, and parameters of nodes were not loaded.
---
 src/andromede/study/resolve_components.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..89a8735 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -215,15 +215,12 @@ def build_scenarized_data_base(
     database = DataBase()
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
-    for comp in input_comp.components:
-        scenarization = None
-        if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
-
+    for comp in input_comp.components + input_comp.nodes:
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
-            if param.scenario_group:
-                scenarization = scenarizations[param.scenario_group]
+            # The group of the parameter prevails over the one of the component
+            scenario_group = param.scenario_group or comp.scenario_group
+            scenarization = scenarizations[scenario_group] if scenario_group else None
             param_value = _build_data(
                 param.time_dependent,
                 param.scenario_dependent,
-- 
2.43.0


From a57f0877eb5128c7cca158ec72294f1c8a9cba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 07/42] fix: do not override the scenarios of a nested
 expectation

expec(x * expec(p)) was expanded as expec(x * p).
---
 src/andromede/expression/operators_expansion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/operators_expansion.py b/src/andromede/expression/operators_expansion.py
index 13e2d40..51f29b1 100644
--- a/src/andromede/expression/operators_expansion.py
+++ b/src/andromede/expression/operators_expansion.py
@@ -226,12 +226,12 @@ class ApplyScenario(CopyVisitor):
     scenario: int
 
     def pb_parameter(self, node: ProblemParameterNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
     def pb_variable(self, node: ProblemVariableNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
-- 
2.43.0


From 8fa188cc80ece15f508493e629a13b11dd99e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 08/42] fix: multiplication of linear expressions must not
 alter its operands

When the left operand was constant, the right operand was multiplied in
place, or shared its terms with the result.
---
 src/andromede/simulation/linear_expression.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..3efa944 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -378,16 +378,14 @@ class LinearExpression:
             elif is_close_abs(const_expr.constant, 1, EPS):
                 _copy_expression(left_expr, self)
             else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
-                        term.component_id,
-                        term.variable_name,
-                        term.time_index,
-                        term.scenario_index,
+                multiplier = const_expr.constant
+                self.constant = left_expr.constant * multiplier
+                self.terms = {
+                    term_key: dataclasses.replace(
+                        term, coefficient=term.coefficient * multiplier
                     )
-                _copy_expression(left_expr, self)
+                    for term_key, term in left_expr.terms.items()
+                }
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +432,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = dict(src.terms)
     dst.constant = src.constant
-- 
2.43.0


From 50b185cad50beda0f8afc32dee315f111c0d74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 09/42] fix: sum the terms on the same variable when building a
 linear expression

Only the last one of them was kept.
---
 src/andromede/simulation/linear_expression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 3efa944..838c19b 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -287,8 +287,9 @@ class LinearExpression:
                         self.terms[term_key] = term
             elif isinstance(terms, list):
                 for term in terms:
-                    if not term.is_zero():
-                        self.terms[generate_key(term)] = term
+                    term_key = generate_key(term)
+                    self.terms[term_key] = _add_terms(self.terms.get(term_key), term)
+                self.remove_zeros_from_terms()
             else:
                 raise TypeError(
                     f"Terms must be either of type Dict[str, Term] or List[Term], whereas {terms} is of type {type(terms)}"
-- 
2.43.0


From 9037f32bef472d5de94007b257b25a286cc1f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 10/42] fix: forget the former values of an output variable on
 assignment

The values of a previous larger assignment were kept, which broke
comparisons with other outputs.
---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..6cd2cd4 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value.clear()
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From 644a66b9e692a21802184d662a0ef996f0c599fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:55 +0000
Subject: [PATCH 11/42] fix: restore the working directory when the solver
 cannot be run

---
 src/andromede/simulation/runner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/andromede/simulation/runner.py b/src/andromede/simulation/runner.py
index ac52a04..252c954 100644
--- a/src/andromede/simulation/runner.py
+++ b/src/andromede/simulation/runner.py
@@ -45,13 +45,15 @@ class CommandRunner:
             return 0
 
         os.chdir(self.emplacement)
-        res = subprocess.run(
-            [self.current_dir / self.command, *self.arguments],
-            stdout=sys.stdout,
-            stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
-            shell=False,
-        )
-        os.chdir(self.current_dir)
+        try:
+            res = subprocess.run(
+                [self.current_dir / self.command, *self.arguments],
+                stdout=sys.stdout,
+                stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
+                shell=False,
+            )
+        finally:
+            os.chdir(self.current_dir)
 
         return res.returncode
 
-- 
2.43.0


From c055e0160a96fe436e28a5bd1d878e5883413d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:55 +0000
Subject: [PATCH 12/42] fix: a decomposed run following a merged run is not
 merged

The solution of the second run was read as a merged solution.
---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..bf9277f 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -202,10 +202,10 @@ class BendersDecomposedProblem:
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
 
+        self.is_merged = should_merge
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
         else:
-            self.is_merged = True
             return_code = MergeMPSRunner(self.emplacement).run()
 
         if return_code == 0:
-- 
2.43.0


From fb5cc9b1a3bcdffc47f28f8999876ba8ff5ff4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 13/42] fix: keep coupling constraints of a decision tree with
 a single node

They were dropped together with the coupler problem, or applied to
variables unknown to the master when the ID of the node is empty.
---
 src/andromede/simulation/decision_tree.py | 8 ++++++--
 src/andromede/simulation/optimization.py  | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..bad4e99 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -91,6 +91,10 @@ class DecisionTreeNode(NodeMixin):
         # probability sum equal to one
         return all(child.is_leaves_prob_sum_one() for child in self.children)
 
+    def _coupling_prefix(self, component: Component) -> str:
+        # Must be consistent with the naming of solver variables
+        return f"{self.id}_{component.id}" if self.id else component.id
+
     def define_coupling_constraint(
         self,
         component_par: Component,
@@ -133,12 +137,12 @@ class DecisionTreeNode(NodeMixin):
         prefix_par = ""
         cumulative_var_par_id = ""
         if self.parent:
-            prefix_par = f"{self.parent.id}_{component_par.id}"
+            prefix_par = self.parent._coupling_prefix(component_par)
             cumulative_var_par_id = f"{prefix_par}_{cumulative_par_var_id}"
 
             self.coupling_info.variables.add(cumulative_var_par_id)
 
-        prefix_chd = f"{self.id}_{component_chd.id}"
+        prefix_chd = self._coupling_prefix(component_chd)
         cumulative_var_chd_id = f"{prefix_chd}_{cumulative_chd_var_id}"
         incremental_var_par_id = f"{prefix_chd}_{incremental_chd_var_id}"
 
diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..5c39d9f 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and coupler.solver.NumConstraints() == 0:
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From 6ead498bc5d3ef8fdab6a72c012213031061446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 14/42] fix: keep integrality, objective offset and constant
 rows when merging masters

The merged master relaxed the integer investment variables of its
nodes, and lost their constant investment costs and their constraints
without variables.
---
 src/andromede/simulation/optimization.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 5c39d9f..0c936cb 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -811,11 +811,19 @@ def fusion_problems(
         context = master.context
         objective = master.solver.Objective()
 
+        for cstr in master.solver.constraints():
+            key = f"{master.name}_{cstr.name()}"
+            root_constraints[key] = root_master.solver.Constraint(
+                cstr.Lb(), cstr.Ub(), key
+            )
+
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,6 +833,7 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
@@ -833,13 +842,9 @@ def fusion_problems(
 
             for cstr in master.solver.constraints():
                 coeff = cstr.GetCoefficient(var)
-                # If variable present in constraint, we add the constraint to root
+                # If variable present in constraint, we add it to the constraint of root
                 if coeff != 0:
                     key = f"{master.name}_{cstr.name()}"
-                    if key not in root_constraints:
-                        root_constraints[key] = root_master.solver.Constraint(
-                            cstr.Lb(), cstr.Ub(), key
-                        )
                     root_cstr = root_constraints[key]
                     root_cstr.SetCoefficient(root_var, coeff)
 
@@ -847,4 +852,6 @@ def fusion_problems(
             if obj_coeff != 0:
                 root_objective.SetCoefficient(root_var, obj_coeff)
 
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
+
     return root_master
-- 
2.43.0


From 7c0f5092bb41163b73c77ad7989a2d5ad9368579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 15/42] fix: do not share coupling constraints between decision
 trees

All the decision trees of a process shared the same coupling network
and coupling constraints, so that the master problem of a tree
contained the coupling constraints of the trees defined before it. The
order of the columns was not reproducible either.
---
 src/andromede/simulation/decision_tree.py | 32 ++++++++++-------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index bad4e99..0b9d3ad 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -55,14 +55,14 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        self.coupling_network = coupling_network or Network("_Coupler")
+        self.coupling_info = coupling_info or CouplingInfo()
         self.parent = parent
 
         if prob < 0 or 1 < prob:
@@ -159,19 +159,15 @@ class DecisionTreeNode(NodeMixin):
         variables: List[Variable] = []
         constraints: List[Constraint] = []
 
-        """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
-        """
-        for var_name in self.coupling_info.variables:
+        # Each node carries its own coupling info
+        var_names: Set[str] = set()
+        expressions: Dict[str, ExpressionNode] = {}
+        for node in self.traverse():
+            var_names |= node.coupling_info.variables
+            expressions.update(node.coupling_info.constraints)
+
+        # Sorted in order not to depend on the ordering of the set
+        for var_name in sorted(var_names):
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
@@ -182,7 +178,7 @@ class DecisionTreeNode(NodeMixin):
                 ),
             )
 
-        for cst_name, expr in self.coupling_info.constraints.items():
+        for cst_name, expr in expressions.items():
             constraints.append(
                 Constraint(
                     name=cst_name,
-- 
2.43.0


From 10bf825d10203b499f44636f52501790e0d81ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:26 +0000
Subject: [PATCH 16/42] fix: variation of the number of units is cyclic on the
 first period too

The first timestep of the first period had no predecessor, unlike the
one of the following periods. Without explicit period, the default one
was not used.
---
 .../input_converter/src/data_preprocessing/thermal.py       | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index d2be8aa..693e9e8 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -79,9 +79,7 @@ class ThermalDataPreprocessing:
             indices // period
         ) * period
 
-        previous_indices = np.where(
-            indices == 0, 0, np.minimum(previous_indices, max_valid_index)
-        )
+        previous_indices = np.minimum(previous_indices, max_valid_index)
         variation = pd.DataFrame()
         if direction == Direction.BACKWARD:
             variation = nb_units_max.reset_index(drop=True) - nb_units_max.iloc[
@@ -103,7 +101,7 @@ class ThermalDataPreprocessing:
         return self.series_path / Path(f"{component_id}").with_suffix(suffix)
 
     def generate_component_parameter(
-        self, parameter_id: str, period: int = 0
+        self, parameter_id: str, period: int = DEFAULT_PERIOD
     ) -> InputComponentParameter:
         if parameter_id not in self._prepro_parameter_functions:
             raise ValueError(f"Unsupported parameter_id: {parameter_id}")
-- 
2.43.0


From 9fb78607203310a4243f20bce3e2333d1c576dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:26 +0000
Subject: [PATCH 17/42] fix: compute the minimum power of thermal clusters for
 each scenario

The minimum over all scenarios was written as a single column.
---
 .../input_converter/src/data_preprocessing/thermal.py        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index 693e9e8..3367ed4 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -49,10 +49,9 @@ class ThermalDataPreprocessing:
         nominal_capacity: float = self.thermal.properties.nominal_capacity
         scaled_modulation: pd.Series = modulation_data * nominal_capacity * unit_count
         #  min(min_gen_modulation * unit_count * nominal_capacity, p_max_cluster)
-        min_values: pd.Series = pd.concat([scaled_modulation, series_data], axis=1).min(
-            axis=1
+        return series_data.apply(
+            lambda p_max_cluster: np.fmin(p_max_cluster, scaled_modulation)
         )
-        return min_values.to_frame(name="p_min_cluster")
 
     def _compute_nb_units_min(self) -> pd.DataFrame:
         p_min_cluster: pd.DataFrame = self._compute_p_min_cluster()
-- 
2.43.0


From dbeccca49dc279d7ed6d570a0f4284cf4b484242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 18/42] fix: convert the batteries of each area independently

The batteries of the areas following an area without battery were
ignored, and values computed for one area could be used for another.
---
 src/andromede/input_converter/src/converter.py           | 9 +++++----
 .../src/data_preprocessing/binding_constraints.py        | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..d15aecf 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,8 +615,8 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
+        for area in valid_areas.values():
+            try:
                 data_with_area: dict = self._match_area_pattern(bc_data, area.id)
                 bcp = BindingConstraintsPreprocessing(self.study)
 
@@ -647,8 +647,9 @@ class AntaresStudyConverter:
                         port2="balance_port",
                     )
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            except (KeyError, FileNotFoundError):
+                # No such binding constraints in this area
+                continue
 
         return components, connections
 
diff --git a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
index 0f8b527..6e5663f 100644
--- a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
+++ b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
@@ -35,10 +35,10 @@ DataType = Union[ThermalData, TimeseriesData, BindingConstraintData]
 
 
 class BindingConstraintsPreprocessing:
-    preprocessed_values: dict[str, float] = {}
     id: Optional[str] = None
 
     def __init__(self, study: Study):
+        self.preprocessed_values: dict[str, float] = {}
         self.study = study
         self.study_path: Path = study.service.config.study_path  # type: ignore
 
-- 
2.43.0


From 77e6902094b87e92babbfa6993c845c9e9473e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:56 +0000
Subject: [PATCH 19/42] fix: reject duplicate IDs in models, libraries and
 systems

IDs must be unique. When they were not, all the objects with the same
ID but the last one were silently ignored.
---
 src/andromede/model/model.py              | 33 ++++++++++++++++-------
 src/andromede/model/resolve_library.py    |  2 ++
 src/andromede/study/resolve_components.py |  5 ++++
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index 741a4fb..f1bcf21 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -17,7 +17,7 @@ defining parameters, variables, and equations.
 """
 import itertools
 from dataclasses import dataclass, field, replace
-from typing import Any, Dict, Iterable, Optional
+from typing import Any, Dict, Iterable, Optional, TypeVar
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
@@ -143,6 +143,18 @@ class Model:
         return replace(self, **changes)
 
 
+T = TypeVar("T", Constraint, Parameter, Variable)
+
+
+def _by_unique_name(elements: Optional[Iterable[T]]) -> Dict[str, T]:
+    res: Dict[str, T] = {}
+    for element in elements or []:
+        if element.name in res:
+            raise ValueError(f"{element.name} is defined twice inside the model.")
+        res[element.name] = element
+    return res
+
+
 def model(
     id: str,
     constraints: Optional[Iterable[Constraint]] = None,
@@ -168,19 +180,20 @@ def model(
                 raise ValueError(
                     f"2 ports have the same name inside the model, it's not authorized : {port_name}"
                 )
+    existing_definitions: Dict[PortFieldId, PortFieldDefinition] = {}
+    for definition in port_fields_definitions or []:
+        if definition.port_field in existing_definitions:
+            raise ValueError(f"2 definitions of port field {definition.port_field}.")
+        existing_definitions[definition.port_field] = definition
     return Model(
         id=id,
-        constraints={c.name: c for c in constraints} if constraints else {},
-        binding_constraints={c.name: c for c in binding_constraints}
-        if binding_constraints
-        else {},
-        parameters={p.name: p for p in parameters} if parameters else {},
-        variables={v.name: v for v in variables} if variables else {},
+        constraints=_by_unique_name(constraints),
+        binding_constraints=_by_unique_name(binding_constraints),
+        parameters=_by_unique_name(parameters),
+        variables=_by_unique_name(variables),
         objective_operational_contribution=objective_operational_contribution,
         objective_investment_contribution=objective_investment_contribution,
         inter_block_dyn=inter_block_dyn,
         ports=existing_port_names,
-        port_fields_definitions={d.port_field: d for d in port_fields_definitions}
-        if port_fields_definitions
-        else {},
+        port_fields_definitions=existing_definitions,
     )
diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..5552f92 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -126,6 +126,8 @@ def _resolve_lib(
 ) -> None:
     port_types = [_convert_port_type(p) for p in cur_yaml_lib.port_types]
     port_types_dict = dict((p.id, p) for p in port_types)
+    if len(port_types_dict) != len(port_types):
+        raise Exception(f"Port type defined twice in library {cur_yaml_lib.id}.")
 
     if current_lib.port_types.keys() & port_types_dict.keys():
         raise Exception(
diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 89a8735..f2aaa7e 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -9,6 +9,7 @@
 # SPDX-License-Identifier: MPL-2.0
 #
 # This file is part of the Antares project.
+from collections import Counter
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Dict, Iterable, List, Optional, Union
@@ -68,6 +69,10 @@ def resolve_system(input_system: InputSystem, libraries: dict[str, Library]) ->
     ]
     nodes = [_resolve_component(libraries, n) for n in input_system.nodes]
     all_components: List[Component] = components_list + nodes
+    ids_count = Counter(c.id for c in all_components)
+    if duplicate_ids := [id for id, count in ids_count.items() if count > 1]:
+        raise ValueError(f"Component(s) {duplicate_ids} defined twice.")
+
     connections = []
     for cnx in input_system.connections:
         resolved_cnx = _resolve_connections(cnx, all_components)
-- 
2.43.0


From f44c7eb3acdf6c4358f3712f54081a3646fa179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 20/42] fix: reject conflicting definitions of a port type by
 two dependencies

One of them was picked, depending on the ordering of a set.
---
 src/andromede/model/resolve_library.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 5552f92..a510278 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -112,7 +112,9 @@ def _add_resolved_dependent_port_types_to_current_lib(
 ) -> None:
     done_dependencies = set(cur_yaml_lib.dependencies) & treated_lib_ids
     for done_lib in done_dependencies:
-        current_lib.port_types.update(output_lib_dict[done_lib].port_types)
+        for id, port_type in output_lib_dict[done_lib].port_types.items():
+            if current_lib.port_types.setdefault(id, port_type) != port_type:
+                raise Exception(f"Port : {id} is defined twice.")
 
 
 def _update_treated_libs_and_import_stack(
-- 
2.43.0


From 04c3623b96bce0b332620265f37de7ca21e70fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:23 +0000
Subject: [PATCH 21/42] fix: limit the dispatch of PyPSA storage units to their
 capacity

The constraint was written on p_store instead of p_dispatch.
---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index 1909a1a..aa09f12 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -376,7 +376,7 @@ library:
         - id: p_store_upper
           expression: p_store <= p_max_pu * p_nom
         - id: p_dispatch_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
           expression: state_of_charge <= max_hours * p_nom
         - id: state_of_charge_balance
-- 
2.43.0


From 2e800cb79610bb06ca1617a21b7feccbc8772f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:23 +0000
Subject: [PATCH 22/42] fix: reject inactive storage units and stores in the
 PyPSA converter

The activity of links was checked instead.
---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 4e97462..5bfa718 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -112,7 +112,7 @@ class PyPSAStudyConverter:
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
         ### PyPSA components : Storage Units
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
         if not (all((self.pypsa_network.storage_units["sign"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with sign = 1")
@@ -125,7 +125,7 @@ class PyPSAStudyConverter:
         ):
             raise ValueError(f"Converter supports only Storage Units with linear cost")
         ### PyPSA components : Stores
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.stores["active"] == 1))):
             raise ValueError(f"Converter supports only Stores with active = 1")
         if not (all((self.pypsa_network.stores["sign"] == 1))):
             raise ValueError(f"Converter supports only Stores with sign = 1")
-- 
2.43.0


From 307fdfaf1a9d2f863b6b494bcd773dc133885ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:20 +0000
Subject: [PATCH 23/42] fix: evaluate products and quotients of time shifts
 from left to right

---
 .../expression/parsing/parse_expression.py       | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 6765baa..f85e089 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -207,12 +207,20 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
     # Visit a parse tree produced by ExprParser#shiftMuldiv.
     def visitShiftMuldiv(self, ctx: ExprParser.ShiftMuldivContext) -> ExpressionNode:
         left = ctx.shift_expr().accept(self)  # type: ignore
-        right = ctx.right_expr().accept(self)  # type: ignore
-        op = ctx.op.text  # type: ignore
+        return self._muldiv_left_assoc(left, ctx.op.text, ctx.right_expr())  # type: ignore
+
+    def _muldiv_left_assoc(
+        self, left: ExpressionNode, op: str, right: Any
+    ) -> ExpressionNode:
+        # The grammar groups the factors on the right together, but "t - a / b * c"
+        # must be understood as "t - (a / b) * c", not "t - a / (b * c)".
+        if isinstance(right, ExprParser.RightMuldivContext):
+            left = self._muldiv_left_assoc(left, op, right.right_expr(0))  # type: ignore
+            return self._muldiv_left_assoc(left, right.op.text, right.right_expr(1))  # type: ignore
         if op == "*":
-            return left * right
+            return left * right.accept(self)
         elif op == "/":
-            return left / right
+            return left / right.accept(self)
         raise ValueError(f"Invalid operator {op}")
 
     # Visit a parse tree produced by ExprParser#signedExpression.
-- 
2.43.0


From e51f9072148180a503ac128764f46ea7a657a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:40 +0000
Subject: [PATCH 24/42] fix: reject sums over connections of a port that does
 not exist

---
 src/andromede/expression/port_resolver.py | 16 +++++++++-------
 src/andromede/simulation/optimization.py  | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/andromede/expression/port_resolver.py b/src/andromede/expression/port_resolver.py
index 66ab8f5..1f89117 100644
--- a/src/andromede/expression/port_resolver.py
+++ b/src/andromede/expression/port_resolver.py
@@ -62,14 +62,16 @@ class PortResolver(CopyVisitor):
         if not isinstance(port_field_node, PortFieldNode):
             raise ValueError(f"Should be a portFieldNode : {port_field_node}")
 
-        expressions = self.ports_expressions.get(
-            PortFieldKey(
-                self.component_id,
-                PortFieldId(port_field_node.port_name, port_field_node.field_name),
-            ),
-            [],
+        key = PortFieldKey(
+            self.component_id,
+            PortFieldId(port_field_node.port_name, port_field_node.field_name),
         )
-        return sum_expressions(expressions)
+        if key not in self.ports_expressions:
+            raise ValueError(
+                f"Component {self.component_id} has no port field "
+                f"{port_field_node.port_name}.{port_field_node.field_name}"
+            )
+        return sum_expressions(self.ports_expressions[key])
 
 
 def resolve_port(
diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0c936cb..b95fbd6 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -292,6 +292,15 @@ class OptimizationContext:
             )
         self._component_variables[key] = variable
 
+    def declare_port_field(
+        self, component_id: str, port_name: str, field_name: str
+    ) -> None:
+        """
+        The port field exists, even if nothing is connected to it.
+        """
+        key = PortFieldKey(component_id, PortFieldId(port_name, field_name))
+        get_or_add(self._connection_fields_expressions, key, lambda: [])
+
     def register_connection_fields_expressions(
         self,
         component_id: str,
@@ -585,6 +594,12 @@ class OptimizationProblem:
         self._create_objectives()
 
     def _register_connection_fields_definitions(self) -> None:
+        for component in self.context.network.all_components:
+            for port in component.model.ports.values():
+                for field in port.port_type.fields:
+                    self.context.declare_port_field(
+                        component.id, port.port_name, field.name
+                    )
         for cnx in self.context.network.connections:
             for field_name in list(cnx.master_port.keys()):
                 master_port = cnx.master_port[field_name]
-- 
2.43.0


From 7093e22332bf8523219dc3985eb39baea0ff79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:32 +0000
Subject: [PATCH 25/42] fix: reject libraries with the same identifier

---
 src/andromede/model/resolve_library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index a510278..48cb552 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -54,6 +54,8 @@ def resolve_library(
      - parses expressions and resolves references to variables/params
     """
     yaml_lib_dict = dict((l.id, l) for l in input_libs)
+    if len(yaml_lib_dict) != len(input_libs):
+        raise ValueError("Two libraries have the same identifier.")
 
     preloaded_port_types = {}
     if preloaded_libs:
-- 
2.43.0


From ec73be73b5ea35cd8f3452d32b5fbd4712962415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:09 +0000
Subject: [PATCH 26/42] fix: reject models with a parameter hidden by a
 variable

---
 src/andromede/model/resolve_library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 48cb552..6fd7ab5 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -177,6 +177,10 @@ def _resolve_model(input_model: InputModel, port_types: Dict[str, PortType]) ->
         variables={v.id for v in input_model.variables},
         parameters={p.id for p in input_model.parameters},
     )
+    if ambiguous_ids := identifiers.variables & identifiers.parameters:
+        raise ValueError(
+            f"{ambiguous_ids} defined both as variable and parameter in model {input_model.id}"
+        )
     return model(
         id=input_model.id,
         parameters=[_to_parameter(p) for p in input_model.parameters],
-- 
2.43.0


From d07820a14c9c92185ea77d6194e758ef89509201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:46 +0000
Subject: [PATCH 27/42] fix: reject parameters defined twice for a component

---
 src/andromede/study/resolve_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index f2aaa7e..7da7cb5 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -72,6 +72,10 @@ def resolve_system(input_system: InputSystem, libraries: dict[str, Library]) ->
     ids_count = Counter(c.id for c in all_components)
     if duplicate_ids := [id for id, count in ids_count.items() if count > 1]:
         raise ValueError(f"Component(s) {duplicate_ids} defined twice.")
+    for c in input_system.components + input_system.nodes:
+        params_count = Counter(p.id for p in c.parameters or [])
+        if duplicate_ids := [id for id, count in params_count.items() if count > 1]:
+            raise ValueError(f"Parameter(s) {duplicate_ids} of {c.id} defined twice.")
 
     connections = []
     for cnx in input_system.connections:
-- 
2.43.0


From cde3cdd9bb3170533c3f9c2309d341b77527eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:26 +0000
Subject: [PATCH 28/42] fix: number the columns of the Benders structure file
 as in the MPS files

---
 .../simulation/benders_decomposed.py          |  8 +++---
 src/andromede/simulation/optimization.py      | 26 +++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index bf9277f..5111f08 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -88,21 +88,23 @@ class BendersDecomposedProblem:
         candidates = set()
 
         problem_to_candidates["master"] = {}
+        column_ids = self.master.mps_column_ids()
         for solver_var_info in self.master.context._solver_variables.values():
-            problem_to_candidates["master"][
+            problem_to_candidates["master"][solver_var_info.name] = column_ids[
                 solver_var_info.name
-            ] = solver_var_info.column_id
+            ]
             candidates.add(solver_var_info.name)
 
         for problem in self.subproblems:
             problem_to_candidates[problem.name] = {}
+            column_ids = problem.mps_column_ids()
 
             for solver_var_info in problem.context._solver_variables.values():
                 if solver_var_info.name in candidates:
                     # If candidate was identified in master
                     problem_to_candidates[problem.name][
                         solver_var_info.name
-                    ] = solver_var_info.column_id
+                    ] = column_ids[solver_var_info.name]
 
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index b95fbd6..ddd3a46 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -22,6 +22,7 @@ from enum import Enum
 from typing import Dict, Iterable, List, Optional
 
 import ortools.linear_solver.pywraplp as lp
+from ortools.linear_solver import linear_solver_pb2
 
 from andromede.expression import EvaluationVisitor, ExpressionNode, ValueProvider, visit
 from andromede.expression.context_adder import add_component_context
@@ -763,6 +764,31 @@ class OptimizationProblem:
     def export_as_mps(self) -> str:
         return self.solver.ExportModelAsMpsFormat(fixed_format=True, obfuscated=False)
 
+    def mps_column_ids(self) -> Dict[str, int]:
+        """
+        Positions of the columns in the MPS format, where integer variables come first
+        and variables without any coefficient are left out of the columns (these are
+        numbered last).
+        """
+        proto = linear_solver_pb2.MPModelProto()
+        self.solver.ExportModelToProto(proto)
+
+        used = {
+            index
+            for cstr in proto.constraint
+            for index, coeff in zip(cstr.var_index, cstr.coefficient)
+            if coeff != 0
+        }
+        columns = sorted(
+            enumerate(proto.variable),
+            key=lambda column: (
+                column[0] not in used and column[1].objective_coefficient == 0,
+                not column[1].is_integer,
+                column[0],
+            ),
+        )
+        return {var.name: position for position, (_, var) in enumerate(columns)}
+
     def export_as_lp(self) -> str:
         return self.solver.ExportModelAsLpFormat(obfuscated=False)
 
-- 
2.43.0


From 9a8449b76393891eff1b453693ca22296ba31a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:26 +0000
Subject: [PATCH 29/42] fix: keep the fields of the Benders structure file
 apart whatever their length

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 5111f08..3a112c2 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -109,7 +109,7 @@ class BendersDecomposedProblem:
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
             for candidate, index in candidate_to_index.items():
-                structure_str += f"{problem_name:>50}{candidate:>50}{index:>10}\n"
+                structure_str += f"{problem_name:>50} {candidate:>49} {index:>9}\n"
 
         return structure_str
 
-- 
2.43.0


From a0a9e7bb07b62d4537df4b4c7a4336c5ef0fae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 30/42] fix: do not present the solution of a previous Benders
 run as the one of a failed run

---
 src/andromede/simulation/benders_decomposed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 3a112c2..e5178ea 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -200,6 +200,10 @@ class BendersDecomposedProblem:
         should_merge: bool = False,
         show_debug: bool = False,
     ) -> bool:
+        # The results of a previous run are not those of this one
+        self.solution = None
+        (self.emplacement / self.output_path / "out.json").unlink(missing_ok=True)
+
         self.initialise(
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
-- 
2.43.0


From e1a6d05f3d2383f5f30cc1c85bdb0df917030300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:02 +0000
Subject: [PATCH 31/42] fix: limit the charging of PyPSA storage units by
 p_min_pu

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index aa09f12..b0a7f5d 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -351,7 +351,7 @@ library:
           upper-bound: p_nom_max
         - id: p_store
           lower-bound: 0
-          upper-bound: p_max_pu * p_nom_max
+          upper-bound: -p_min_pu * p_nom_max
         - id: p_dispatch
           lower-bound: 0
           upper-bound: p_max_pu * p_nom_max
@@ -374,7 +374,7 @@ library:
           definition: emission_factor * 0 #Since we assume here cyclity of StorageUnits. In the future, for non-cyclic Store: (e[-1] - e[T-1])*emission_factor
       constraints:
         - id: p_store_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_store <= -p_min_pu * p_nom
         - id: p_dispatch_upper
           expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
-- 
2.43.0


From bfa572c6b35b4e959b3665cfe5930d7dde240365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:02 +0000
Subject: [PATCH 32/42] fix: apply the sign of PyPSA stores and storage units
 to their injection

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index b0a7f5d..a449be2 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -368,7 +368,7 @@ library:
       port-field-definitions:
         - port: p_balance_port
           field: flow
-          definition: p_dispatch - p_store
+          definition: sign * (p_dispatch - p_store)
         - port: emission_port
           field: emission
           definition: emission_factor * 0 #Since we assume here cyclity of StorageUnits. In the future, for non-cyclic Store: (e[-1] - e[T-1])*emission_factor
@@ -447,7 +447,7 @@ library:
       port-field-definitions:
         - port: p_balance_port
           field: flow
-          definition: p
+          definition: p*sign
         - port: emission_port
           field: emission
           definition: emission_factor * 0 #Since we assume here cyclity of stores. In the future, for non-cyclic Store: (e[-1] - e[T-1])*emission_factor
-- 
2.43.0


From 569520ea499217a8f9be6a795f3c29387cc2e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:25 +0000
Subject: [PATCH 33/42] fix: PyPSA components whose carrier is not declared do
 not emit CO2

---
 src/andromede/pypsa_converter/pypsa_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 5bfa718..747373c 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -199,6 +199,8 @@ class PyPSAStudyConverter:
             ),
         )
         df = getattr(self.pypsa_network, component_type)
+        ### As in PyPSA, carriers that are not declared do not emit CO2
+        df["co2_emissions"] = df["co2_emissions"].fillna(0.0)
         ### Adding min and max capacities to non-extendable objects
         for field in [capa_str + "_min", capa_str + "_max"]:
             df.loc[df[capa_str + "_extendable"] == False, field] = df[capa_str]
-- 
2.43.0


From 6c6c421a29822e5d41cd802156480a4507882656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:12 +0000
Subject: [PATCH 34/42] fix: do not attach a decision tree node with an invalid
 probability to its parent

---
 src/andromede/simulation/decision_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 0b9d3ad..38a3ae9 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -58,16 +58,16 @@ class DecisionTreeNode(NodeMixin):
         coupling_network: Optional[Network] = None,
         coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
+        # Checked first, in order not to attach an invalid node to its parent
+        if not 0 <= prob <= 1:
+            raise ValueError("Probability must be a value in the range [0, 1]")
+
         self.id = id
         self.config = config
         self.network = network
         self.coupling_network = coupling_network or Network("_Coupler")
         self.coupling_info = coupling_info or CouplingInfo()
         self.parent = parent
-
-        if prob < 0 or 1 < prob:
-            raise ValueError("Probability must be a value in the range [0, 1]")
-
         self.prob = prob * (parent.prob if parent is not None else 1)
         if children:
             self.children = children
-- 
2.43.0


From 63730b3b64e74a3306085f475beacd7b196cc38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:12 +0000
Subject: [PATCH 35/42] fix: probability of decision tree nodes attached to
 their parent after their creation

---
 src/andromede/simulation/decision_tree.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 38a3ae9..a04d294 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -42,7 +42,6 @@ class DecisionTreeNode(NodeMixin):
     id: str
     config: InterDecisionTimeScenarioConfig
     network: Network
-    prob: float
 
     coupling_network: Network
     coupling_info: CouplingInfo
@@ -68,10 +67,18 @@ class DecisionTreeNode(NodeMixin):
         self.coupling_network = coupling_network or Network("_Coupler")
         self.coupling_info = coupling_info or CouplingInfo()
         self.parent = parent
-        self.prob = prob * (parent.prob if parent is not None else 1)
+        self._conditional_prob = prob
         if children:
             self.children = children
 
+    @property
+    def prob(self) -> float:
+        # Computed on demand, since a node can be attached to its parent
+        # after its creation
+        return self._conditional_prob * (
+            self.parent.prob if self.parent is not None else 1
+        )
+
     def traverse(
         self, depth: Optional[int] = None
     ) -> Generator["DecisionTreeNode", None, None]:
@@ -81,8 +88,8 @@ class DecisionTreeNode(NodeMixin):
         if not self.children:
             return True
 
-        # Since we multiply the child's prob by the parent's prob
-        # in the constructor, the sum of the children prob should
+        # Since we multiply the child's prob by the parent's prob,
+        # the sum of the children prob should
         # equal 1 * parent.prob if the values were set correctly
         if not math.isclose(self.prob, sum(child.prob for child in self.children)):
             return False
-- 
2.43.0


From f666c6792d25dd89fbf127a5dded70108c7c635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:11 +0000
Subject: [PATCH 36/42] fix: reject series files in which values are missing

---
 src/andromede/study/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index b1eb983..41f2c1e 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -139,12 +139,15 @@ def load_ts_from_txt(
         timeseries_with_extension = timeseries_name + ".txt"
         ts_path = path_to_file / timeseries_with_extension
     try:
-        return pd.read_csv(ts_path, header=None, sep=r"\s+")
+        ts_dataframe = pd.read_csv(ts_path, header=None, sep=r"\s+")
 
     except FileNotFoundError:
         raise FileNotFoundError(f"File '{timeseries_name}' does not exist")
     except Exception:
         raise Exception(f"An error has arrived when processing '{ts_path}'")
+    if ts_dataframe.isna().to_numpy().any():
+        raise ValueError(f"Some values are missing in '{ts_path}'")
+    return ts_dataframe
 
 
 def dataframe_to_time_series(ts_dataframe: pd.DataFrame) -> Dict[TimeIndex, float]:
-- 
2.43.0


From bf51a573742be334b0d02803259ee5d632c40058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:23 +0000
Subject: [PATCH 37/42] fix: reject decision trees whose nodes or blocks have
 the same ID

---
 src/andromede/simulation/benders_decomposed.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index e5178ea..f1c3e28 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -16,6 +16,7 @@ with Benders solver related functions
 """
 
 import pathlib
+from collections import Counter
 from typing import Any, Dict, List, Optional
 
 from andromede.simulation.decision_tree import DecisionTreeNode
@@ -298,6 +299,12 @@ def build_benders_decomposed_problem(
                 )
             )
 
+    names_count = Counter(problem.name for problem in masters + subproblems)
+    if duplicates := [name for name, count in names_count.items() if count > 1]:
+        raise ValueError(
+            f"Problem(s) {duplicates} defined twice, decision tree nodes and time blocks must have different IDs."
+        )
+
     master = fusion_problems(masters, coupler)
 
     return BendersDecomposedProblem(
-- 
2.43.0


From 7bc585b8bbe9c52bcf450db369e6d7916a8d6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:26 +0000
Subject: [PATCH 38/42] fix: reject conflicting preloaded libraries

---
 src/andromede/model/resolve_library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 6fd7ab5..5eefe16 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -54,13 +54,16 @@ def resolve_library(
      - parses expressions and resolves references to variables/params
     """
     yaml_lib_dict = dict((l.id, l) for l in input_libs)
-    if len(yaml_lib_dict) != len(input_libs):
+    lib_ids = [l.id for l in input_libs] + [l.id for l in preloaded_libs or []]
+    if len(set(lib_ids)) != len(lib_ids):
         raise ValueError("Two libraries have the same identifier.")
 
-    preloaded_port_types = {}
+    preloaded_port_types: Dict[str, PortType] = {}
     if preloaded_libs:
         for preloaded_lib in preloaded_libs:
-            preloaded_port_types.update(preloaded_lib.port_types)
+            for id, port_type in preloaded_lib.port_types.items():
+                if preloaded_port_types.setdefault(id, port_type) != port_type:
+                    raise Exception(f"Port : {id} is defined twice.")
 
     output_lib_dict: Dict[str, Library] = (
         dict((l.id, l) for l in preloaded_libs) if preloaded_libs else {}
-- 
2.43.0


From 88c79f5d7ec05337d8278d5a2e3edee8384f999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:40 +0000
Subject: [PATCH 39/42] fix: use the requested border management in decomposed
 problems

---
 src/andromede/simulation/benders_decomposed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index f1c3e28..1725be3 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -292,6 +292,7 @@ def build_benders_decomposed_problem(
                     block,
                     tree_node.config.scenarios,
                     problem_name=f"subproblem{suffix_tree}{suffix_block}",
+                    border_management=border_management,
                     solver_id=solver_id,
                     build_strategy=OperationalProblemStrategy(),
                     decision_tree_node=tree_node.id,
-- 
2.43.0


From ea1586103e0831fa9cec77905e1eec0e7bef1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:40 +0000
Subject: [PATCH 40/42] fix: apply the operation of the configuration to
 thermal properties

---
 .../src/data_preprocessing/binding_constraints.py             | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
index 6e5663f..b98db9c 100644
--- a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
+++ b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
@@ -89,6 +89,10 @@ class BindingConstraintsPreprocessing:
             field_name: str = FIELD_ALIAS_MAP[obj.field]  # type: ignore
 
             parameter_value = getattr(thermal.properties, field_name)
+            if obj.operation:
+                parameter_value = obj.operation.execute(
+                    parameter_value, self.preprocessed_values
+                )
             self.preprocessed_values[self.id] = parameter_value  # type: ignore
             return parameter_value
         elif isinstance(obj, BindingConstraintData):
-- 
2.43.0


From 0453e84cdd06025ba45e49d35db18be9da2c3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 41/42] fix: write the converted study where the command line
 asks for it

---
 src/andromede/input_converter/src/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/main.py b/src/andromede/input_converter/src/main.py
index 684c748..c8c9e5d 100644
--- a/src/andromede/input_converter/src/main.py
+++ b/src/andromede/input_converter/src/main.py
@@ -153,7 +153,10 @@ if __name__ == "__main__":
     if args.output_path:
         config_parser.set("study", "output_path", str(args.output_path))
 
+    output_path = config_parser["study"].get("output_path")
     converter = AntaresStudyConverter(
-        study_input=Path(config_parser["study"].get("study_path")), logger=logger
+        study_input=Path(config_parser["study"].get("study_path")),
+        logger=logger,
+        output_path=Path(output_path) / "output.yaml" if output_path else None,
     )
     converter.process_all()
-- 
2.43.0


From ca7e7a2b7ff7d384490e7c80c17eeec47553d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:01 +0000
Subject: [PATCH 42/42] fix: refuse negative timesteps and scenarios in time
 and scenario dependent series

They were silently counted from the end of the series, while the other kinds of
series refuse them.
---
 src/andromede/study/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index 41f2c1e..27e9898 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -198,6 +198,9 @@ class TimeScenarioSeriesData(AbstractDataStructure):
             raise KeyError("Time scenario data requires a scenario index.")
         if self.scenarization:
             scenario = self.scenarization.get_scenario_for_year(scenario)
+        if timestep < 0 or scenario < 0:
+            # Would be counted from the end of the series
+            raise IndexError(f"No data for timestep {timestep}, scenario {scenario}.")
         value = str(self.time_scenario_series.iloc[timestep, scenario])
         return float(value)
 
-- 
2.43.0

