From c4c445a469a6a3373e26f553d6bd58ac9c9b5fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 01/33] fix: register variables and constraints only after they
 have been validated

A rejected call (unknown sense, unknown variable in the coefficients, crossed
bounds, repeated key) left its name in the name-to-index dictionaries, where it
pointed at an element that does not exist or at a later, different one.
---
 qiskit_optimization/problems/quadratic_program.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..1a3f963 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -203,7 +203,7 @@ class QuadraticProgram:
                     raise QiskitOptimizationError(
                         "Variable name already exists: {}".format(new_name)
                     )
-                if new_name in self._variables_index:
+                if new_name in self._variables_index or new_name in names:
                     k += 1
                     prev = new_name
                 else:
@@ -219,15 +219,16 @@ class QuadraticProgram:
                 indexed_name = name + key_format.format(key)
             else:
                 indexed_name, k = _find_name(name, key_format, k)
-            if indexed_name in self._variables_index:
+            if indexed_name in self._variables_index or indexed_name in names:
                 raise QiskitOptimizationError(
                     "Variable name already exists: {}".format(indexed_name)
                 )
             names.append(indexed_name)
+            variables.append(Variable(self, indexed_name, lowerbound, upperbound, vartype))
+        # register the variables only after all of them have been validated
+        for indexed_name, variable in zip(names, variables):
             self._variables_index[indexed_name] = self.get_num_vars()
-            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
             self._variables.append(variable)
-            variables.append(variable)
         return names, variables
 
     def _var_dict(
@@ -646,10 +647,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +740,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +747,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From fcb001077f13c9124833a74db59fa547689f6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 02/33] fix: map a constant objective to the zero Ising
 Hamiltonian

The identity was returned, whose value is 1 for every state, so Hamiltonian plus
offset did not equal the objective.
---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 1a3f963..ca34c5c 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1323,12 +1323,12 @@ class QuadraticProgram:
         # Remove paulis whose coefficients are zeros.
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
-        # qubit_op could be the integer 0, in this case return an identity operator of
+        # qubit_op could be the integer 0, in this case return a zero operator of
         # appropriate size
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * I ^ num_nodes
 
         return qubit_op, offset
 
-- 
2.43.0


From 4c9c8eadfba8568350ada156723bb31c1ef51500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 03/33] fix: load every diagonal Ising Hamiltonian of degree at
 most 2 correctly

Identity terms were rejected, repeated Pauli terms overwrote each other or raised
TypeError, and a non-empty program kept its variables and constraints, so that the
loaded coefficients were attached to the wrong variables.
---
 .../problems/quadratic_program.py             | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index ca34c5c..a1ac5cc 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1364,6 +1364,9 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
+        # clear current problem
+        self.clear()
+
         # add binary variables
         for i in range(qubit_op.num_qubits):
             self.binary_var(name="x_{0}".format(i))
@@ -1374,10 +1377,10 @@ class QuadraticProgram:
         # The other elements in the QUBO matrix are for quadratic terms of the qubit operator.
         qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
 
-        if not isinstance(qubit_op, SummedOp):
-            pauli_list = [qubit_op.to_pauli_op()]
-        else:
-            pauli_list = qubit_op.to_pauli_op()
+        # an operator with a single (remaining) term is converted into a PauliOp
+        pauli_list = qubit_op.to_pauli_op()
+        if not isinstance(pauli_list, SummedOp):
+            pauli_list = [pauli_list]
 
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
@@ -1389,10 +1392,12 @@ class QuadraticProgram:
             num_z = len(z_index)
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
-                qubo_matrix[z_index[0], z_index[0]] = coeff.real
+            if num_z == 0:
+                offset += coeff.real
+            elif num_z == 1:
+                qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
-                qubo_matrix[z_index[0], z_index[1]] = coeff.real
+                qubo_matrix[z_index[0], z_index[1]] += coeff.real
             else:
                 raise QiskitOptimizationError(
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
-- 
2.43.0


From 835980b970da54e47af475527e46237992ceaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 04/33] fix: convert integer variables whose bounds coincide

The conversion raised OverflowError, e.g., for a variable fixed by its bounds.
---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..348de8c 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From 495ce6d2c698b5367f1ac4300f9d93caf73b83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 05/33] fix: scale the linear part of products of integer
 variables by the encoding

The terms lowerbound * (encoding of the other variable) were added without the
encoding coefficients, which changed the function unless all lower bounds are 0.
---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index 348de8c..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From b689ebf9a01b3adafb3c0cbb1334ccd88e9f3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 06/33] fix: use a continuous slack for constraints over
 continuous variables

In the mode 'auto' an integer slack variable was added, so that most feasible
points of the original problem had no counterpart in the converted one.
---
 .../converters/inequality_to_equality.py      | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..2ac4eda 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -248,8 +248,11 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", rhs, name)
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_any_continuous_var(linear):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -330,9 +333,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.quadratic_constraint(new_linear, quadratic, "==", rhs, name)
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_any_continuous_var(linear)
+            or any(self._contains_any_continuous_var(pair) for pair in quadratic)
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
@@ -392,6 +399,12 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_x[i] = sol[var.name]
         return new_x
 
+    def _contains_any_continuous_var(self, names) -> bool:
+        """Check whether any of the named variables is continuous."""
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
     @staticmethod
     def _contains_any_float_value(values: List[Union[int, float]]) -> bool:
         """Check whether the list contains float or not.
-- 
2.43.0


From 78a58691ae15cb756c92f019a9307eff74403a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 07/33] fix: reject quadratic constraints when converting
 constraints to penalties

They were dropped silently, i.e., the result was an unconstrained problem that
does not penalize their violation.
---
 .../converters/linear_equality_to_penalty.py                | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 17cce7a..13e36e5 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -54,7 +54,13 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
 
         Raises:
             QiskitOptimizationError: If an inequality constraint exists.
+            QiskitOptimizationError: If a quadratic constraint exists.
         """
+        if problem.get_num_quadratic_constraints() > 0:
+            raise QiskitOptimizationError(
+                "A quadratic constraint exists. "
+                "The method supports only linear equality constraints."
+            )
 
         # create empty QuadraticProgram model
         self._src = copy.deepcopy(problem)
-- 
2.43.0


From db4d0c4e4a1e39d049ed0014e5ce66212ab6451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 08/33] fix: take the variable ranges into account in the
 automatic penalty

The sum of the absolute coefficients bounds the range of the objective only for
binary variables, so for integer variables an infeasible point could have the
best penalized objective value.
---
 .../converters/linear_equality_to_penalty.py  | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 13e36e5..ad1fc23 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -21,6 +21,7 @@ import numpy as np
 
 from .quadratic_program_converter import QuadraticProgramConverter
 from ..exceptions import QiskitOptimizationError
+from ..infinity import INFINITY
 from ..problems.constraint import Constraint
 from ..problems.quadratic_objective import QuadraticObjective
 from ..problems.quadratic_program import QuadraticProgram
@@ -138,7 +139,7 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
         Returns:
             Return the minimum valid penalty factor calculated
             from the upper bound and the lower bound of the objective function.
-            If a constraint has a float coefficient,
+            If a constraint has a float coefficient or the objective function is unbounded,
             return the default value for the penalty factor.
         """
         default_penalty = 1e5
@@ -160,12 +161,27 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
             return default_penalty
 
         # (upper bound - lower bound) can be calculate as the sum of absolute value of coefficients
+        # times the size of the range of the corresponding term (1 for binary variables).
         # Firstly, add 1 to guarantee that infeasible answers will be greater than upper bound.
         penalties = [1.0]
+        bounds = [(x.lowerbound, x.upperbound) for x in self._src.variables]
         # add linear terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.linear.to_dict().values())
+        for j, coef in self._src.objective.linear.to_dict().items():
+            l_b, u_b = bounds[cast(int, j)]
+            penalties.append(abs(coef) * (u_b - l_b))
         # add quadratic terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.quadratic.to_dict().values())
+        for (j, k), coef in self._src.objective.quadratic.to_dict().items():
+            products = [x * y for x in bounds[cast(int, j)] for y in bounds[cast(int, k)]]
+            penalties.append(abs(coef) * (max(products) - min(products)))
+        if max(penalties) >= INFINITY:
+            logger.warning(
+                "Warning: Using %f for the penalty coefficient because "
+                "the objective function contains an unbounded variable. \n"
+                "The value could be too small. "
+                "If so, set the penalty coefficient manually.",
+                default_penalty,
+            )
+            return default_penalty
 
         return fsum(penalties)
 
-- 
2.43.0


From 904d30b206c8e89c2f953ee319c4eaedff290d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:42 +0000
Subject: [PATCH 09/33] fix: report contradictory and chained variable
 substitutions as documented

Contradictory bounds raised an error of the variable instead of the status
INFEASIBLE, and {x: (y, a), y: (z, b)} raised KeyError in one order of the
dictionary and QiskitOptimizationError in the other.
---
 .../problems/quadratic_program.py             | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index a1ac5cc..bd473f3 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1626,13 +1626,15 @@ class SubstituteVariables:
                     raise QiskitOptimizationError(
                         "Cannot substitute the same variable twice: {} <- {} {}".format(i, j, v)
                     )
-                if j_2 in subs:
-                    raise QiskitOptimizationError(
-                        "Cannot substitute by variable that gets substituted itself: "
-                        "{} <- {} {}".format(i, j, v)
-                    )
                 subs[i_2] = (j_2, v)
 
+        for i, (j, v) in subs.items():
+            if j in subs:
+                raise QiskitOptimizationError(
+                    "Cannot substitute by variable that gets substituted itself: "
+                    "{} <- {} {}".format(i, j, v)
+                )
+
         self._subs = subs
 
     def _variables(self) -> bool:
@@ -1674,21 +1676,19 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    new_lb_j = max(lb_j, new_lb_i)
+                    new_ub_j = min(ub_j, new_ub_i)
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
-
-        for var in self._dst.variables:
-            if var.lowerbound > var.upperbound:
-                logger.warning(
-                    "Infeasible lower and upper bound: %s %f %f",
-                    var,
-                    var.lowerbound,
-                    var.upperbound,
-                )
-                feasible = False
+                    new_lb_j = max(lb_j, new_ub_i)
+                    new_ub_j = min(ub_j, new_lb_i)
+                if new_lb_j > new_ub_j:
+                    logger.warning(
+                        "Infeasible lower and upper bound: %s %f %f", j, new_lb_j, new_ub_j
+                    )
+                    feasible = False
+                else:
+                    var_j.lowerbound = new_lb_j
+                    var_j.upperbound = new_ub_j
 
         return feasible
 
-- 
2.43.0


From 0741577cbf1425483d8db0ca63e92522494dbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 10/33] fix: keep coefficients given as integer lists or arrays
 as floats

They were stored with an integer data type, so that assigning 0.5 to such a
coefficient silently stored 0.
---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..cbd8f72 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..a060227 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From ebbfbb68d8d7bab41a459b0936db09c4cffbe47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 11/33] fix: evaluate expressions created before the last
 variable was added

Their coefficients kept the old number of variables, so that, e.g., is_feasible
raised ValueError for a constraint followed by another variable, or for a program
without an explicit objective function.
---
 qiskit_optimization/problems/linear_expression.py    | 8 ++++++--
 qiskit_optimization/problems/quadratic_expression.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index cbd8f72..4dd6415 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -59,7 +59,7 @@ class LinearExpression(QuadraticProgramElement):
     def __setitem__(self, i: Union[int, str], value: float) -> None:
         if isinstance(i, str):
             i = self.quadratic_program.variables_index[i]
-        self._coefficients[0, i] = value
+        self.coefficients[0, i] = value
 
     def _coeffs_to_dok_matrix(
         self, coefficients: Union[ndarray, spmatrix, List, Dict[Union[int, str], float]]
@@ -101,6 +101,10 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the linear expression.
         """
+        # variables may have been added after the expression was created
+        num_vars = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[1] < num_vars:
+            self._coefficients.resize(1, num_vars)
         return self._coefficients
 
     @coefficients.setter
@@ -121,7 +125,7 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the linear expression.
         """
-        return self._coefficients.toarray()[0]
+        return self.coefficients.toarray()[0]
 
     def to_dict(self, use_name: bool = False) -> Dict[Union[int, str], float]:
         """Returns the coefficients of the linear expression as dictionary, either using variable
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index a060227..aaacc13 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -137,6 +137,10 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the quadratic expression.
         """
+        # variables may have been added after the expression was created
+        num_vars = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[0] < num_vars:
+            self._coefficients.resize(num_vars, num_vars)
         return self._coefficients
 
     @coefficients.setter
@@ -165,7 +169,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         return coeffs.toarray()
 
     def to_dict(
@@ -181,7 +185,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An dictionary with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         if use_name:
             return {
                 (
-- 
2.43.0


From 45d5df4a1f5f15630feb8d9a42e5f27bb6134fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 12/33] fix: compare the trials of a multi-start maximization
 with the same sign

The best value was stored with the original sign but compared with the negated
one, so that a worse later trial could replace a better one.
---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From 62266e486791084d83dd21d4fbef09f1778ddc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 13/33] fix: draw initial guesses for variables bounded beyond
 the clipping value

A half-bounded variable whose only bound lies outside [-clip, clip] made the
multi-start method raise ValueError.
---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 624d624..c831b43 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -80,6 +80,12 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
                 for i, var in enumerate(problem.variables):
                     lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                     upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
+                    # a bound beyond the clipping value leaves that bound as the only choice
+                    if lowerbound > upperbound:
+                        if var.upperbound < INFINITY:
+                            lowerbound = upperbound
+                        else:
+                            upperbound = lowerbound
                     x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
             # run optimization
             t_0 = time.time()
-- 
2.43.0


From fe2477ab6dce1a4084514bab8d3f4ae66b9184b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 14/33] fix: return a failure result when the
 Goemans-Williamson SDP is not solved

The empty solution vector was rejected by the result class, so that solve raised
instead of reporting the status FAILURE.
---
 qiskit_optimization/algorithms/goemans_williamson_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..a0a0e13 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,7 +156,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
+                x=None,
                 fval=0,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-- 
2.43.0


From 73c52f4ae394ef45a2175c281944bfc8d8a287b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 15/33] fix: read dictionary eigenstates with the right bit
 order and probabilities

The eigenstates of shot-based backends map bitstrings, whose last bit is the first
qubit, to amplitudes. They were read in the opposite order and as counts, so that
samples, x and fval belonged to a different state than the one measured. The
Grover optimizer, which passed reversed strings, now passes the measured ones and
merges those that differ only in the value register.
---
 .../algorithms/grover_optimizer.py                |  8 ++++++--
 .../algorithms/optimization_algorithm.py          | 15 ++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..2ceef02 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -261,8 +261,12 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
+                        probabilities = {}  # type: Dict[str, float]
+                        for i, amplitude in self._circuit_results.items():
+                            key = i[-n_key:]
+                            probabilities[key] = probabilities.get(key, 0.0) + amplitude ** 2
                         self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
+                            key: np.sqrt(prob) for key, prob in probabilities.items()
                         }
 
                     raw_samples = self._eigenvector_to_solutions(
@@ -347,7 +351,7 @@ class GroverOptimizer(OptimizationAlgorithm):
             state = result.get_counts(qc)
             shots = self.quantum_instance.run_config.shots
             hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
-            self._circuit_results = {b[::-1]: np.sqrt(v / shots) for (b, v) in state.items()}
+            self._circuit_results = {b: np.sqrt(v / shots) for (b, v) in state.items()}
         return hist
 
     @staticmethod
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..18ba501 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -520,7 +520,7 @@ class OptimizationAlgorithm(ABC):
 
         Examples:
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
-            >>> eigenvectors = {'0': 12, '1': 1}
+            >>> eigenvectors = {'0': 0.9607689228305227, '1': 0.2773500981126146}
             >>> print(eigenvector_to_solutions(eigenvectors, op))
             [('0', 0.7071067811865475, 0.9230769230769231),
             ('1', -0.7071067811865475, 0.07692307692307693)]
@@ -535,12 +535,13 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = eigenvector.primitive
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
         def generate_solution(bitstr, qubo, probability):
-            x = np.fromiter(list(bitstr), dtype=int)
+            # the first qubit corresponds to the last bit of the bitstring
+            x = np.fromiter(list(bitstr[::-1]), dtype=int)
             fval = qubo.objective.evaluate(x)
             return SolutionSample(
                 x=x,
@@ -551,10 +552,10 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
-            all_counts = sum(eigenvector.values())
+            # the values of a dictionary are amplitudes as well
             # iterate over all samples
-            for bitstr, count in eigenvector.items():
-                sampling_probability = count / all_counts
+            for bitstr, amplitude in eigenvector.items():
+                sampling_probability = np.abs(amplitude) ** 2
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
@@ -567,7 +568,7 @@ class OptimizationAlgorithm(ABC):
             for i, sampling_probability in enumerate(probabilities):
                 # add the i-th state if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")[::-1]
+                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
 
         else:
-- 
2.43.0


From 454ed356514d7e794a81f98e9978c9a8367ff71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 16/33] fix: sort the raw samples of the Grover optimizer by
 the original objective

The values of the samples carry the original sign, hence for a maximization
problem the worst sample came first.
---
 qiskit_optimization/algorithms/grover_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 2ceef02..5843344 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -272,7 +272,7 @@ class GroverOptimizer(OptimizationAlgorithm):
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
                     )
-                    raw_samples.sort(key=lambda x: problem_.objective.sense.value * x.fval)
+                    raw_samples.sort(key=lambda x: problem_init.objective.sense.value * x.fval)
                     samples = self._interpret_samples(problem, raw_samples, self._converters)
                 else:
                     # Using Durr and Hoyer method, increase m.
-- 
2.43.0


From 0961b3df2098afbd4f544615f879ef1bea2c443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 17/33] fix: do not modify the given problem if there are no
 converters

With an empty list of converters the Grover and the recursive optimizer worked on
the problem of the caller and changed its objective function.
---
 qiskit_optimization/algorithms/optimization_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 18ba501..6f6225c 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -13,6 +13,7 @@
 """An abstract class for optimization algorithms in Qiskit's optimization module."""
 
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from dataclasses import dataclass
 from enum import Enum
 from typing import List, Union, Any, Optional, Dict, Type, cast
@@ -410,7 +411,8 @@ class OptimizationAlgorithm(ABC):
         Returns:
             The problem converted by the converters.
         """
-        problem_ = problem
+        # optimizers may modify the converted problem, also if there is no converter
+        problem_ = deepcopy(problem)
 
         if not isinstance(converters, list):
             converters = [converters]
-- 
2.43.0


From bc1f49e7f3b4b387bc9a7b579cd245cf4e9b241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 18/33] fix: do not interpret aggregated warm-start samples
 twice

With several initial solutions the samples, already given in terms of the original
variables, went through the converters once more and were reported as feasible
regardless of their status. Values other than single digits got lost.
---
 .../algorithms/warm_start_qaoa_optimizer.py   | 48 ++++++++-----------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..27245c7 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,41 +66,30 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the variables, value: tuple of sample, probability
+        dict_samples: Dict[Tuple[float, ...], Tuple[SolutionSample, float]] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
-                # state, fval, prob = sample[0], sample[1], sample[2]
-                state, fval, prob = (
-                    _to_string(sample.x),
-                    sample.fval,
-                    sample.probability,
-                )
+                state, prob = tuple(sample.x), sample.probability
                 if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
+                    dict_samples[state] = (sample, dict_samples[state][1] + prob)
                 else:
-                    dict_samples[state] = (fval, prob)
+                    dict_samples[state] = (sample, prob)
 
         # Divide by the number of results to normalize
         aggregated_samples = []
         num_results = len(results)
-        for state in dict_samples:
-            # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
-            sample = SolutionSample(
-                x=_from_string(state),
-                fval=dict_samples[state][0],
-                probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+        for sample, prob in dict_samples.values():
+            aggregated_samples.append(
+                SolutionSample(
+                    x=sample.x,
+                    fval=sample.fval,
+                    probability=prob / num_results,
+                    status=sample.status,
+                )
             )
-            aggregated_samples.append(sample)
 
         return aggregated_samples
 
@@ -336,15 +325,20 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples have already been translated back to the original variables
+            # by MinimumEigenOptimizer
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From 2d0a5be29f153a7eec814e2103f4901ce8f3f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:35 +0000
Subject: [PATCH 19/33] fix: save the y iterates of ADMM separately

They were appended to the z iterates, hence the dual residual of every iteration
but the first compared the wrong vectors.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From 5931286e1500bc69cdd7878a15670d1dd8d1df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 20/33] fix: decrease rho when the dual residual of ADMM
 dominates

The parameter was multiplied by tau_decr instead of being divided by it, i.e., it
was increased in both cases.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..0e1ae4d 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -822,7 +822,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From a3469e01bf0c5ebbced50b88b59dc22d602ce3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 21/33] fix: drop all objective terms of binary variables from
 the second ADMM block

The products of two different binary variables remained in the problem of the
continuous copies, although the objective belongs to the first block only.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0e1ae4d..ee51707 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -696,6 +696,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.upperbound = 1.0
             variable.lowerbound = 0.0
             # replacing Q0 objective and take of min/max sense, initially we consider minimization
+            for other_index in self._state.binary_indices:
+                op2.objective.quadratic[var_index, other_index] = 0
+        for i, var_index in enumerate(self._state.binary_indices):
             op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
             # replacing linear objective
             op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (
-- 
2.43.0


From 56b4883f78447031da6e420ad972f8e3e0212271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 22/33] fix: include every relevant binary variable in the
 first ADMM block

Variables that occur only as the second factor of products in the objective, or
only with negative coefficients in equality constraints, were fixed to 0.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index ee51707..2ae1d7c 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -536,6 +536,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
         # here we keep binary indices from the original problem
         step1_absolute_indices = []
 
+        quadratic = self._state.op.objective.quadratic.to_array(symmetric=True)
+
         # iterate over binary variables and put all binary variables mentioned in the objective
         # to the array for the step1
         for binary_index in self._state.binary_indices:
@@ -543,8 +545,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             # either in the linear or quadratic terms
             if (
                 self._state.op.objective.linear[binary_index] != 0
-                or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
-                != 0
+                or np.abs(quadratic[binary_index, :]).sum() != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +560,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From 10b60363cd3c3a00e52b4811731cd29ca98aa9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 23/33] fix: store the edge weights of a Gset file in the
 adjacency matrix

---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..d1d5bf5 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, weight = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = weight
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From ce77456b28ea23e169bc2564409bb3eccd79019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 24/33] fix: read TSPLIB files with surrounding spaces and an
 EOF line

The node positions are handed to networkx as a dictionary, as it requires.
---
 qiskit_optimization/applications/tsp.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..5195546 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -160,11 +160,9 @@ class Tsp(GraphOptimizationApplication):
             coord_section = False
             for line in infile:
                 if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
+                    name = line.split(":")[1].strip()
                 elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,8 +171,7 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
@@ -183,6 +180,8 @@ class Tsp(GraphOptimizationApplication):
                     coord_section = True
                 elif coord_section:
                     v = line.split()
+                    if not v or v[0] == "EOF":
+                        continue
                     index = int(v[0]) - 1
                     coord[index][0] = float(v[1])
                     coord[index][1] = float(v[2])
@@ -193,7 +192,7 @@ class Tsp(GraphOptimizationApplication):
         y_min = min(coord_[1] for coord_ in coord)
 
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=dict(enumerate(coord))
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From f14bf2ae028e94934cd9407d02929d6a425b1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 25/33] fix: report problems without a CPLEX solution as
 QiskitOptimizationError

---
 qiskit_optimization/algorithms/cplex_optimizer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/algorithms/cplex_optimizer.py b/qiskit_optimization/algorithms/cplex_optimizer.py
index 393a3a6..7f0f24a 100644
--- a/qiskit_optimization/algorithms/cplex_optimizer.py
+++ b/qiskit_optimization/algorithms/cplex_optimizer.py
@@ -129,18 +129,19 @@ class CplexOptimizer(OptimizationAlgorithm):
         # solve problem
         try:
             cplex.solve()
+            # process results
+            sol = cplex.solution
+            x = sol.get_values()
+            fval = sol.get_objective_value()
         except CplexSolverError as ex:
             raise QiskitOptimizationError(str(ex)) from ex
 
-        # process results
-        sol = cplex.solution
-
         # create results
         result = OptimizationResult(
-            x=sol.get_values(),
-            fval=sol.get_objective_value(),
+            x=x,
+            fval=fval,
             variables=problem.variables,
-            status=self._get_feasibility_status(problem, sol.get_values()),
+            status=self._get_feasibility_status(problem, x),
             raw_results=sol,
         )
 
-- 
2.43.0


From f805f649fb5a2c64f3b7c10e0c2fd5e9c5e92093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:50 +0000
Subject: [PATCH 26/33] fix: recursive optimizer keeps the bounds of a variable
 standing for the opposite of another

---
 .../algorithms/recursive_minimum_eigen_optimizer.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..e80526b 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -276,6 +276,8 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
 
                 # 2. replace x_i by -x_j
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
+                # x_i = 1 - x_j is within its bounds for both values of x_j
+                problem_.get_variable(x_j).upperbound = 1
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                     raise QiskitOptimizationError("Infeasible due to variable substitution")
                 replacements[x_i] = (x_j, -1)
-- 
2.43.0


From 53c589b0751070ce3acd8ddf698475812f265a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:50 +0000
Subject: [PATCH 27/33] fix: seed zero makes a random TSP instance reproducible

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 5195546..28e4c12 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From 435c66de15b019de7f6da56b2ee4c4228577b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:48 +0000
Subject: [PATCH 28/33] fix: ADMM refuses products of integer and continuous
 variables in the objective

Integer variables become binary ones, so that such a product is as little separable
as one of a binary and a continuous variable, but only the latter was reported and the
former was solved with a wrong sub-problem.
---
 qiskit_optimization/algorithms/admm_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2ae1d7c..6c6b540 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -267,6 +267,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
 
         # 1. get bin/int and continuous variable indices
         bin_int_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
+        bin_int_indices += self._get_variable_indices(problem, Variable.Type.INTEGER)
         continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
 
         # 2. binary and continuous variables are separable in objective
-- 
2.43.0


From 9b2d8614b7720be56818a1ad5a9ad9ddee612da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 29/33] fix: recognise a substituted constraint whose linear
 terms cancel as constant

---
 qiskit_optimization/problems/quadratic_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index bd473f3..2ac173d 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1782,7 +1782,7 @@ class SubstituteVariables:
                     sense=quad_cst.sense,
                     rhs=rhs,
                 )
-            elif linear.nnz > 0:
+            elif linear.count_nonzero() > 0:
                 name = quad_cst.name
                 lin_names = set(lin.name for lin in self._dst.linear_constraints)
                 while name in lin_names:
-- 
2.43.0


From 0ce0eeb6dcc12f93f4d8b3e646c0957dde83e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 30/33] fix: round the discrete values CPLEX returns

CPLEX returns the values of binary and integer variables only up to its integrality
tolerance. A value such as 8.9e-15 made the feasibility check fail, so that an optimal
solution of a solvable problem was reported as infeasible.
---
 qiskit_optimization/algorithms/cplex_optimizer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/cplex_optimizer.py b/qiskit_optimization/algorithms/cplex_optimizer.py
index 7f0f24a..139aaf4 100644
--- a/qiskit_optimization/algorithms/cplex_optimizer.py
+++ b/qiskit_optimization/algorithms/cplex_optimizer.py
@@ -18,6 +18,7 @@ from qiskit.exceptions import MissingOptionalLibraryError
 from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
 from ..exceptions import QiskitOptimizationError
 from ..problems.quadratic_program import QuadraticProgram
+from ..problems.variable import Variable
 
 logger = logging.getLogger(__name__)
 
@@ -131,11 +132,17 @@ class CplexOptimizer(OptimizationAlgorithm):
             cplex.solve()
             # process results
             sol = cplex.solution
-            x = sol.get_values()
-            fval = sol.get_objective_value()
+            values = sol.get_values()
         except CplexSolverError as ex:
             raise QiskitOptimizationError(str(ex)) from ex
 
+        # CPLEX returns the values of discrete variables only up to a tolerance
+        x = [
+            value if var.vartype == Variable.Type.CONTINUOUS else float(round(value))
+            for var, value in zip(problem.variables, values)
+        ]
+        fval = problem.objective.evaluate(x)
+
         # create results
         result = OptimizationResult(
             x=x,
-- 
2.43.0


From c9b7c0521b7f420b9d0b955c16685cff476539f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 31/33] fix: color the vertices of a drawn max-cut by their own
 side

---
 qiskit_optimization/applications/max_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index d1d5bf5..3ba27ec 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -91,7 +91,7 @@ class Maxcut(GraphOptimizationApplication):
         # Return a list of strings for draw.
         # Color a node with red when the corresponding variable is 1.
         # Otherwise color it with blue.
-        return ["r" if value == 0 else "b" for value in x]
+        return ["r" if x[node] == 0 else "b" for node in self._graph.nodes]
 
     @staticmethod
     def parse_gset_format(filename: str) -> np.ndarray:
-- 
2.43.0


From b136aefcdb4a4d6e22501637c33b518ba79511c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 32/33] fix: draw tours and routes without given positions

---
 qiskit_optimization/applications/tsp.py             | 2 ++
 qiskit_optimization/applications/vehicle_routing.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 28e4c12..21bdebc 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -101,6 +101,8 @@ class Tsp(GraphOptimizationApplication):
             pos: The positions of nodes
         """
         x = self._result_to_x(result)
+        if pos is None:
+            pos = nx.spring_layout(self._graph)
         nx.draw(self._graph, with_labels=True, pos=pos)
         nx.draw_networkx_edges(
             self._graph,
diff --git a/qiskit_optimization/applications/vehicle_routing.py b/qiskit_optimization/applications/vehicle_routing.py
index 5be280d..44c9b69 100644
--- a/qiskit_optimization/applications/vehicle_routing.py
+++ b/qiskit_optimization/applications/vehicle_routing.py
@@ -158,6 +158,8 @@ class VehicleRouting(GraphOptimizationApplication):
         import matplotlib.pyplot as plt
 
         route_list = self.interpret(result)
+        if pos is None:
+            pos = nx.spring_layout(self._graph)
         nx.draw(self._graph, with_labels=True, pos=pos)
         nx.draw_networkx_edges(
             self._graph,
-- 
2.43.0


From 592416c076dfdd035914570b3eb08b444e53993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 33/33] fix: default penalty for unbounded objectives with
 small coefficients

---
 .../converters/linear_equality_to_penalty.py          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index ad1fc23..d4f0754 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -165,14 +165,21 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
         # Firstly, add 1 to guarantee that infeasible answers will be greater than upper bound.
         penalties = [1.0]
         bounds = [(x.lowerbound, x.upperbound) for x in self._src.variables]
+        unbounded = {
+            j for j, (l_b, u_b) in enumerate(bounds) if l_b <= -INFINITY or u_b >= INFINITY
+        }
         # add linear terms of the object function.
         for j, coef in self._src.objective.linear.to_dict().items():
             l_b, u_b = bounds[cast(int, j)]
-            penalties.append(abs(coef) * (u_b - l_b))
+            penalties.append(INFINITY if j in unbounded else abs(coef) * (u_b - l_b))
         # add quadratic terms of the object function.
         for (j, k), coef in self._src.objective.quadratic.to_dict().items():
             products = [x * y for x in bounds[cast(int, j)] for y in bounds[cast(int, k)]]
-            penalties.append(abs(coef) * (max(products) - min(products)))
+            width = max(products) - min(products)
+            if width > 0 and (j in unbounded or k in unbounded):
+                penalties.append(INFINITY)
+            else:
+                penalties.append(abs(coef) * width)
         if max(penalties) >= INFINITY:
             logger.warning(
                 "Warning: Using %f for the penalty coefficient because "
-- 
2.43.0

