From efac18aedf9870b4cf2fa22b577a49e0db213d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 01/79] fix: import of the distributed augmented Lagrangian on
 Python >= 3.11 (mutable dataclass default)

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index b09863c..9b8c14e 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -9,7 +9,7 @@ import logging
 import random
 import time
 from collections import defaultdict
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
@@ -55,7 +55,9 @@ class DistributedAugmentedLagrangianOptions:
     ] = "cyclic"
     debug_skip_replace_by_approximation: bool = False
 
-    al_options: AugmentedLagrangianOptions = AugmentedLagrangianOptions()
+    al_options: AugmentedLagrangianOptions = field(
+        default_factory=AugmentedLagrangianOptions
+    )
 
     def __post_init__(self):
         if not isinstance(self.al_options, AugmentedLagrangianOptions):
-- 
2.43.0


From da8e2b82ccb3bee7eadf0b65b0b7b1a41d094a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 02/79] fix: default blocks must contain every node once and
 never two coupled nodes

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 9b8c14e..2f968da 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -86,12 +86,13 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
             self.blocks = blocks
         else:
             coloring: Dict[Node, int] = networkx.algorithms.coloring.greedy_color(
-                self.network.graph
+                self.network.graph.to_undirected()
             )
             self.blocks = {
                 group_number: [node for node, _ in group]
                 for group_number, group in itertools.groupby(
-                    coloring.items(), key=lambda item: item[1]
+                    sorted(coloring.items(), key=lambda item: item[1]),
+                    key=lambda item: item[1],
                 )
             }
 
-- 
2.43.0


From eb579c36c85eefc7c3ebb8c5e0478dfc46542db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:27 +0000
Subject: [PATCH 03/79] fix: distributed solve must pass the results of a block
 to the following blocks, like the serial one

---
 .../methods/network/distributedaugmetedlagrangian.py  | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 2f968da..23a096a 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -344,13 +344,10 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
             }
             block_results = {node: future.result() for node, future in futures.items()}
 
-            result_dict.update(
-                {
-                    node: result
-                    for node, result in block_results.items()
-                    if result.success
-                }
-            )
+            for node, result in block_results.items():
+                if result.success:
+                    # the next block uses the results of this one
+                    result_dict[node] = self._last_result[node] = result
 
         return result_dict
 
-- 
2.43.0


From 48d87001bedd20e61cd4ef0118811befc6fcc88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:27 +0000
Subject: [PATCH 04/79] fix: do not update multipliers nor claim the tolerance
 before every node has a solution

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 23a096a..75cef02 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -434,6 +434,12 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                             break
                         last_objective = objective
 
+                    if len(result_dict) < len(self.network.nodes):
+                        # without a result of every node, the violations are unknown
+                        # and only one side of a connection would be updated
+                        LOGGER.info("Nodes without solution, skipping update")
+                        continue
+
                     # update nu
                     node_error = self._update_parameters(result_dict)
 
-- 
2.43.0


From b65f417c53d25d9f1eebd7c7e69b2fe318ebe3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 05/79] fix: intermediary nodes must use their updated
 multipliers

---
 .../methods/network/intermediary_node_solution_method.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 8953020..7769b9a 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -129,7 +129,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el, nu_c_p2_next_el)
+            el: vertcat(nu_p1_c_next_el.T, nu_c_p2_next_el.T)
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -158,6 +158,9 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         return errors
 
     def solve(self, theta, p=None, *args, **kwargs):
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-- 
2.43.0


From a559b760d4d763c7d314299ba60c0f5fe28898c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 06/79] fix: only_update_if_improve must update the multiplier
 at every collocation point

---
 yaocptool/methods/augmented_lagrangian.py                   | 3 ++-
 .../methods/network/intermediary_node_solution_method.py    | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..6506895 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -783,7 +783,8 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                rows = slice(ind, None, self.n_relax)
+                                self.nu_tilde[el][rows] = nu_tilde[el][rows]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 7769b9a..768f9fc 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -150,7 +150,11 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
                     if (error - last_error) < 0:
                         self.last_violation_error[ind] = error
                         for el in self.nu_tilde:
-                            self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                            rows = slice(
+                                ind * self.options.degree,
+                                (ind + 1) * self.options.degree,
+                            )
+                            self.nu_tilde[el][rows] = nu_tilde[el][rows]
                     else:
                         print("Error is greater than zero")
             else:
-- 
2.43.0


From 6ba3089e93bd4da4379fda4b5a305fcaeefa5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 07/79] fix: only_update_if_improve must not overwrite the
 error that the penalty update compares against

---
 yaocptool/methods/augmented_lagrangian.py                      | 1 -
 yaocptool/methods/network/intermediary_node_solution_method.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6506895..d6b874d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -781,7 +781,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
                         if (error - last_error) < 0:
-                            self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
                                 rows = slice(ind, None, self.n_relax)
                                 self.nu_tilde[el][rows] = nu_tilde[el][rows]
diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 768f9fc..fc88f6a 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -148,7 +148,6 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
                     zip(errors.nz, self.last_violation_error.nz)
                 ):
                     if (error - last_error) < 0:
-                        self.last_violation_error[ind] = error
                         for el in self.nu_tilde:
                             rows = slice(
                                 ind * self.options.degree,
-- 
2.43.0


From 88bfc4ec98a180173b3df6605c257d223344d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 08/79] fix: bipartite Jacobi ADMM mixed up the elements of
 connections with more than one variable

---
 .../methods/network/bipartite_jacobi_admm.py      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 71a8002..64d561c 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
-from typing import Dict
+from typing import Dict, Tuple
 
-from casadi import DM, vertcat
+from casadi import DM, SX, vertcat
 
 from yaocptool.methods.network.distributedaugmetedlagrangian import (
     DistributedAugmentedLagrangian,
@@ -11,6 +11,17 @@ from yaocptool.util.util import find_variables_indices_in_vector
 
 
 class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
+    def _create_variable_approx(self, var: SX, tau: SX) -> Tuple[SX, SX]:
+        # parameters ordered element by element, as in `_get_node_theta`
+        approx = [
+            super(BipartiteJacobiADMM, self)._create_variable_approx(var[el], tau)
+            for el in range(var.numel())
+        ]
+        return (
+            vertcat(*[pol for pol, _ in approx]),
+            vertcat(*[par for _, par in approx]),
+        )
+
     def _include_exogenous_variables(self):
         self.relax_dict = {
             node: {
-- 
2.43.0


From ce905d05d2972a1fe3706b17bc4cdfd21a946870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 09/79] fix: expressions unpickled from a second message were
 resolved against the previous one

---
 yaocptool/util/serializer.py | 41 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/yaocptool/util/serializer.py b/yaocptool/util/serializer.py
index e1475e5..2f7690d 100644
--- a/yaocptool/util/serializer.py
+++ b/yaocptool/util/serializer.py
@@ -1,5 +1,6 @@
 import concurrent.futures
 import multiprocessing as mp
+import threading
 from typing import Union
 
 from casadi import MX, SX, StringDeserializer, StringSerializer
@@ -14,42 +15,56 @@ class NewForkingPickler(mp.reduction.ForkingPickler):
 
         def pickle_casadi(obj):
             #  print("pickling", obj)
+            # the first expression of a message starts a new stream in the receiver
+            new_stream = _casadi_serializer.is_new
             s = _casadi_serializer.dumps(obj)
-            return _casadi_serializer.loads, (s, repr(obj))
+            return _casadi_serializer.loads, (s, repr(obj), new_stream)
 
         self.dispatch_table.update({SX: pickle_casadi, MX: pickle_casadi})
 
 
 class CasadiPicklerDepickler:
-    serializer = StringSerializer()
-    deserializer = StringDeserializer(serializer.encode())
+    """
+    Each instance encodes one message (stream), in which common subexpressions are
+    sent only once. A receiver decodes the messages one at a time.
+    """
+
+    _receiver = threading.local()
 
     def __init__(self):
         #  print("creating pickler/depickler", os.getpid())
-        self.__class__.serializer = StringSerializer()
-        self.__class__.deserializer = StringDeserializer(
-            self.__class__.serializer.encode()
-        )
+        self.serializer = StringSerializer()
+        self.is_new = True
+
+    def __reduce__(self):
+        # the serializer belongs to the sender, only `loads` is used by the receiver
+        return self.__class__, ()
 
     def dumps(self, var: Union[SX, MX]) -> str:
         #  print(os.getpid(), id(self.serializer), "starting to dump", repr(var))
+        self.is_new = False
         try:
             self.serializer.pack(var)
         except Exception as e:
-            print("failed to deserialize", e)
+            print("failed to serialize", e)
             raise e
         #  print(os.getpid(), id(self.serializer), "dump succesful", repr(var))
         return self.serializer.encode()
 
-    def loads(self, s: str, name: str = "no name") -> Union[SX, MX]:
-        #  print(os.getpid(), id(self.deserializer), "starting to load", name)
+    def loads(
+        self, s: str, name: str = "no name", new_stream: bool = True
+    ) -> Union[SX, MX]:
+        #  print(os.getpid(), "starting to load", name)
         try:
-            self.deserializer.decode(s)
-            var = self.deserializer.unpack()
+            if new_stream:
+                self._receiver.deserializer = StringDeserializer(s)
+            else:
+                self._receiver.deserializer.decode(s)
+            var = self._receiver.deserializer.unpack()
         except Exception as e:
             print("failed to deserialize", name, e)
             raise e
-        #  print(os.getpid(), id(self.deserializer), "load succesful", name)
+        #  print(os.getpid(), "load succesful", name)
         return var
 
 
-- 
2.43.0


From f6435e4caa8d7313377160fe13cc0bca63718547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:07 +0000
Subject: [PATCH 10/79] fix: remove leftover debugger breakpoint from
 MPC.get_new_control

---
 yaocptool/mpc/mpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..6fa7539 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,6 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
             x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
         )
-- 
2.43.0


From b2d221e93e9a7a3b7ee11f78f041896ad6d45ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 11/79] fix: MPC.run(iterations=0) must run indefinitely, as
 documented

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6fa7539..ec872b0 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -238,7 +238,7 @@ class MPC:
             # FIXME: Trying with function
             self.send_control(new_u)  # this advances the simulation
 
-            if k >= iterations - 1:
+            if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From 83064a6ca7467c5a57530d3e9976a5c9b5ea879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 12/79] fix: MPC must rebuild the control polynomial with the
 degree of the control

---
 yaocptool/mpc/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index ec872b0..7057431 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -148,7 +148,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
-- 
2.43.0


From b23b5a0d902367aaf344dc7c0d89a0fd0532eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 13/79] fix: fixed control runs must apply the given control to
 the plant

---
 yaocptool/mpc/mpc.py   | 11 +++++++++--
 yaocptool/mpc/plant.py |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 7057431..8ba26e6 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -185,6 +185,13 @@ class MPC:
             )
         )  # this advances the simulation
 
+    def send_fixed_control(self, u):
+        """Sent a given constant control to the plant.
+
+        :param u: DM
+        """
+        self.plant.set_control(u)  # this advances the simulation
+
     def post_process_measurement(self, t, meas, u):
         return t, meas, u
 
@@ -267,7 +274,7 @@ class MPC:
             if self.verbosity:
                 print("Measurement: {}".format(y_k))
 
-            self.send_control(u)  # this advances the simulation
+            self.send_fixed_control(u)  # this advances the simulation
 
     def run_fixed_control_with_estimator(self, u, iterations):
         """
@@ -295,7 +302,7 @@ class MPC:
                 print("Measurement: {}".format(y_k))
                 print("Estimated state: {}".format(x_k))
 
-            self.send_control(u)  # this advances the simulation
+            self.send_fixed_control(u)  # this advances the simulation
 
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..8df3413 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -146,6 +146,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From 6a4251c4d25fefe2acaab96f5881effdd54ac252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 14/79] fix: last_u given to solve() was left out of the NLP
 parameters

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..8ea3bf7 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -383,6 +383,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From cd998241aa39b2171d1461b0a270e2b4e2ae5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:00 +0000
Subject: [PATCH 15/79] fix: control increment bounds without a last control
 indexed an empty vector

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 8ea3bf7..2b8ca2a 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -273,7 +273,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-            p=p_mx, x_0=p_mx_x_0, theta=theta, last_u=p_last_u
+            p=p_mx,
+            x_0=p_mx_x_0,
+            theta=theta,
+            last_u=p_last_u if self.last_control_as_parameter else None,
         )
 
         if has_parameters:
-- 
2.43.0


From aa1228de9a1a944ef276f224e9e598f4dcddfbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 16/79] fix: nested timeouts must not cancel the enclosing one,
 nor swallow errors that are not theirs

---
 yaocptool/util/timeout.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 7bd3de6..c2b2fdc 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -1,4 +1,5 @@
 import signal
+import time
 from types import TracebackType
 from typing import Type
 
@@ -11,6 +12,7 @@ class timeout:
         self.raise_exc = raise_exc
         self.error_message = error_message
         self._timedout = None
+        self._exception = None
 
     @property
     def timedout(self):
@@ -20,11 +22,20 @@ class timeout:
 
     def handle_timeout(self, signum, frame):
         self._timedout = True
-        raise TimeoutError(self.error_message)
+        self._exception = TimeoutError(self.error_message)
+        raise self._exception
 
     def __enter__(self):
-        signal.signal(signal.SIGALRM, self.handle_timeout)
-        signal.alarm(self.seconds)
+        self._timedout = self._exception = None
+        self._start = time.monotonic()
+        self._outer_remaining = signal.getitimer(signal.ITIMER_REAL)[0]
+        # an enclosing timer that expires first is left alone
+        self._armed = self.seconds > 0 and not (
+            0 < self._outer_remaining <= self.seconds
+        )
+        if self._armed:
+            self._outer_handler = signal.signal(signal.SIGALRM, self.handle_timeout)
+            signal.setitimer(signal.ITIMER_REAL, self.seconds)
         return self
 
     def __exit__(
@@ -33,8 +44,18 @@ class timeout:
         value: BaseException,
         traceback: TracebackType,
     ):
-        signal.alarm(0)
+        if self._armed:
+            signal.setitimer(signal.ITIMER_REAL, 0)
+            signal.signal(signal.SIGALRM, self._outer_handler)
+            if self._outer_remaining > 0:
+                # give the remaining time back to the enclosing timer
+                elapsed = time.monotonic() - self._start
+                signal.setitimer(
+                    signal.ITIMER_REAL, max(self._outer_remaining - elapsed, 1e-6)
+                )
+
         if exc_type is None:
+            self._timedout = bool(self._timedout)
             return True
 
         max_depth = 20
@@ -44,7 +65,8 @@ class timeout:
                 break
             cause = cause.__cause__
 
-        if type(cause) is not TimeoutError:
+        # only the exception of this timeout counts, not any TimeoutError of the body
+        if self._exception is None or cause is not self._exception:
             self._timedout = False
             return
 
-- 
2.43.0


From 46281e5347063772dadc756ec5dc6992d611c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 17/79] fix: a rejected DataSet.insert_data must leave the
 entry unchanged

---
 yaocptool/modelling/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..c88510b 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -147,11 +147,14 @@ class DataSet:
                 "time.shape={} and value.shape={}".format(time.shape[1], value.shape)
             )
 
-        self.data[entry].values = horzcat(self.data[entry].values, value)
-        self.data[entry].time = horzcat(self.data[entry].time, time)
+        # both can fail, change the entry only when none of them did
+        new_values = horzcat(self.data[entry].values, value)
+        new_time = horzcat(self.data[entry].time, time)
+        self.data[entry].values = new_values
+        self.data[entry].time = new_time
 
         if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
+            self.data[entry].size = value.size1()
 
     def get_copy(self) -> "DataSet":
         """
-- 
2.43.0


From 59094027bc7b7e6ea49c099e89e9c192ebf669dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 18/79] fix: DataSet.extend must accept new or empty entries,
 and check all sizes before changing anything

---
 yaocptool/modelling/dataset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index c88510b..ffcacec 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -177,18 +177,23 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
-            if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
+            if entry in self.data and self.get_entry_size(
+                entry
+            ) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
                     "{}!={}".format(
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
+
+        for entry in other_dataset.data:
             if entry not in self.data:
                 self.create_entry(
                     entry,
                     size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
+                    names=list(other_dataset.get_entry_names(entry)),
+                    plot_style=other_dataset.data[entry].plot_style,
                 )
             self.insert_data(
                 entry,
@@ -210,6 +215,8 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if entry_length == 0:
+                continue
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From 957506fed6b2efb88f81d16f4edaa21a1857b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 19/79] fix: a failed DataSet.save must not destroy the
 previously saved file

---
 yaocptool/modelling/dataset.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index ffcacec..a904ff4 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -244,8 +244,16 @@ class DataSet:
         if not os.path.exists(directory):
             os.makedirs(directory)
 
-        with open(file_path, "wb+") as f:
-            pickle.dump(self, f)
+        # an error or a crash while writing must not destroy a previously saved file
+        temp_path = "{}.{}.tmp".format(file_path, os.getpid())
+        try:
+            with open(temp_path, "wb+") as f:
+                pickle.dump(self, f)
+            os.replace(temp_path, file_path)
+        except BaseException:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
 
     def _plot_entry(self, t_vector, data_vector, row, label="", plot_style="plot"):
         if plot_style not in ["plot", "step"]:
-- 
2.43.0


From bdb81468349f1663a4f8b13532e21cfb3dee9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:32 +0000
Subject: [PATCH 20/79] fix: Kalman filters could not be created (old DataSet
 and SystemModel attribute names)

---
 .../estimation/extended_kalman_filter.py      | 97 +++++++++++--------
 yaocptool/estimation/pce_kalman_filter.py     | 28 +++---
 .../estimation/unscented_kalman_filter.py     | 71 ++++++++------
 3 files changed, 116 insertions(+), 80 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..5f034a8 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,49 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ekf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ekf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            [
+                "ekf_" + self.model.x[i].name() for i in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            [
+                "ekf_" + self.model.y[i].name() for i in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ekf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ekf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            [
+                "ekf_meas_" + str(i) for i in range(self.n_meas)
+            ],
+        )
 
     @property
     def n_meas(self):
@@ -178,14 +193,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -239,27 +254,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +296,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..493d1cf 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,23 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            [
+                "est_" + self.model.x[i].name() for i in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..09f35ab 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,49 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ukf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ukf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            [
+                "ukf_" + self.model.x[i].name() for i in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            [
+                "ukf_" + self.model.y[i].name() for i in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ukf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ukf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            self.n_meas,
+            [
+                "ukf_meas_" + str(i) for i in range(self.n_meas)
+            ],
+        )
 
         # Choose the UKF implementation
         if self.implementation == "standard":
-- 
2.43.0


From bdcace345d26e2224e019dbf49624a39676c4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:04 +0000
Subject: [PATCH 21/79] fix: EKF/UKF recorded P_y as a matrix instead of a
 vector, and EKF linearised without the control

---
 yaocptool/estimation/extended_kalman_filter.py  | 6 ++++--
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 5f034a8..56de0b1 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -179,7 +179,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta, u_par=u_f
         )
         all_sym_values = all_sym_values
 
@@ -244,7 +244,9 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data(
+            "P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :])
+        )
 
         return self.x_mean, self.p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 09f35ab..a91a70d 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -263,7 +263,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From 358fd32cd39de36bdd324dcde6ad63756d707f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:04 +0000
Subject: [PATCH 22/79] fix: UKF must return the state estimate, not the state
 augmented with the algebraics

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index a91a70d..fd84c3e 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -266,7 +266,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From e98d9e327deb57c778bbeebd18b0ce67c789b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:04 +0000
Subject: [PATCH 23/79] fix: Kalman filters must advance their time, models can
 depend on it

---
 yaocptool/estimation/extended_kalman_filter.py  | 3 +++
 yaocptool/estimation/pce_kalman_filter.py       | 3 +++
 yaocptool/estimation/unscented_kalman_filter.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 56de0b1..892bbde 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -248,6 +248,9 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :])
         )
 
+        # the estimate is for the end of the sampling interval
+        self.t = self.t + self.t_s
+
         return self.x_mean, self.p_k
 
     def _create_augmented_model_and_p_update(self, model):
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 493d1cf..e4eb69b 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -148,6 +148,9 @@ class PCEKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("x", t_k, self.x_mean)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
 
+        # the estimate is for the end of the sampling interval
+        self.t = self.t + self.t_s
+
         return x_hat_k, p_k
 
     def _get_measurement_from_prediction(self, x, y, u):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index fd84c3e..e0749a6 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -266,6 +266,9 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
+        # the estimate is for the end of the sampling interval
+        self.t = self.t + self.t_s
+
         return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
-- 
2.43.0


From b278f1eda57148045fb6210f9cdecf349fd6eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:37 +0000
Subject: [PATCH 24/79] fix: PlantSimulation must take its documented noise
 options, and noise_seed must seed the noise

---
 yaocptool/mpc/plant.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 8df3413..cf93f08 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -40,6 +40,11 @@ class PlantSimulation(PlantInterface):
         verbosity: int = 1,
         super_samling: Union[int, List[float]] = 1,
         u_function: Optional[Function] = None,
+        integrator_options: Optional[dict] = None,
+        has_noise: bool = False,
+        r_n: Union[DM, float] = 0.0,
+        r_v: Union[DM, float] = 0.0,
+        noise_seed: Optional[int] = None,
     ):
         """
             Plant which uses a SystemModel.simulate to obtain the measurements.
@@ -81,10 +86,11 @@ class PlantSimulation(PlantInterface):
         self.theta = None
 
         # Noise
-        self.has_noise = False
-        self.r_n = DM(0.0)
-        self.r_v = DM(0.0)
-        self.noise_seed = None
+        self.has_noise = has_noise
+        self.r_n = DM(r_n)
+        self.r_v = DM(r_v)
+        self.noise_seed = noise_seed
+        self._random = numpy.random.RandomState(noise_seed)
 
         # Options
         self.verbosity = verbosity
@@ -93,7 +99,7 @@ class PlantSimulation(PlantInterface):
             if isinstance(super_samling, int)
             else super_samling
         )
-        self.integrator_options = None
+        self.integrator_options = integrator_options
         self.dataset = DataSet(name="Plant")
 
         self._iterations = 0
@@ -103,8 +109,6 @@ class PlantSimulation(PlantInterface):
         meas_data = self._measure(self.x, self.y_guess)
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
-        if self.has_noise and self.noise_seed is not None:
-            numpy.random.seed(self.noise_seed)
 
     def get_measurement(self) -> Tuple[float, DM, DM]:
         """Return the plant measurement of a simulated model and advance time by 't_s'.
@@ -188,13 +192,13 @@ class PlantSimulation(PlantInterface):
         self.measurement = meas_data["measurement"]
 
     def _process_noise(self):
-        return DM(numpy.random.multivariate_normal([0] * self.r_v.shape[0], self.r_v))
+        return DM(self._random.multivariate_normal([0] * self.r_v.shape[0], self.r_v))
 
     def _measure(self, x, y):
         measurement_wo_noise = mtimes(self.c_matrix, vertcat(x, y))
         if self.has_noise:
             n_rand = DM(
-                numpy.random.multivariate_normal([0] * self.r_n.shape[0], self.r_n)
+                self._random.multivariate_normal([0] * self.r_n.shape[0], self.r_n)
             )
             measurement = measurement_wo_noise + n_rand
         else:
-- 
2.43.0


From 54b851d3d00e9d2b986bde77fcdd0a3316bf1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:37 +0000
Subject: [PATCH 25/79] fix: the first measurement of PlantSimulation must be a
 measurement, and be recorded with its size

---
 yaocptool/mpc/plant.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index cf93f08..593af4a 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -109,6 +109,7 @@ class PlantSimulation(PlantInterface):
         meas_data = self._measure(self.x, self.y_guess)
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
+        self.measurement = meas_data["measurement"]
 
     def get_measurement(self) -> Tuple[float, DM, DM]:
         """Return the plant measurement of a simulated model and advance time by 't_s'.
@@ -242,11 +243,11 @@ class PlantSimulation(PlantInterface):
 
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_wo_noise_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
-- 
2.43.0


From b18fab15b0d09d779882919421e2d7f57aa756c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:55 +0000
Subject: [PATCH 26/79] fix: PlantSimulation must accept models without
 algebraic variables (y_guess=None)

---
 yaocptool/mpc/plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 593af4a..6c00551 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -71,7 +71,7 @@ class PlantSimulation(PlantInterface):
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
-        self.y_guess = y_guess
+        self.y_guess = y_guess if y_guess is not None else DM.zeros(self.model.n_y)
         self.u_function = u_function
 
         self.c_matrix = (
-- 
2.43.0


From 1960f2ab2d30f30de1d44027593b6b792f0e5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:49 +0000
Subject: [PATCH 27/79] fix: relaxation of time equalities was decided on the
 algebraic equations (an output feeding two nodes failed)

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index d6b874d..a5df80d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From 738fdf5f02b6715a3994b633e8400fac5fe30363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 28/79] fix: an interrupted first solve could lose the integral
 cost when solving again

---
 yaocptool/methods/classic/directmethod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/classic/directmethod.py b/yaocptool/methods/classic/directmethod.py
index 0fcf358..a452864 100644
--- a/yaocptool/methods/classic/directmethod.py
+++ b/yaocptool/methods/classic/directmethod.py
@@ -44,8 +44,8 @@ class DirectMethod(SolutionMethodsBase):
     def _create_cost_state(self):
         if not self.has_cost_state:
             x_c = self.problem.create_cost_state()
-            self.has_cost_state = True
-            self.problem.V = self.problem.V + x_c
+            # a single statement: an interrupted solve must not leave half of it done
+            self.problem.V, self.has_cost_state = self.problem.V + x_c, True
 
     def prepare(self):
         super().prepare()
-- 
2.43.0


From e9734b85dcd41993f3fafd4c80a60fd039e1c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 29/79] fix: solution methods must not share (nor modify) the
 dictionary of NLP options

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 2b8ca2a..3dc9eb1 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From 14d179e68ac020581f7e8a58c686363e05f3b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 30/79] fix: a worker that cannot be terminated must not keep
 the other ones running

---
 .../methods/network/distributedaugmetedlagrangian.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 75cef02..24a91a8 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -476,8 +476,12 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                         )
                     )
         finally:
-            for proxy in self.nodes_proxies.values():
-                proxy.terminate()
+            for node, proxy in self.nodes_proxies.items():
+                try:
+                    proxy.terminate()
+                except Exception:
+                    # e.g. the process is already dead, the others must be terminated
+                    LOGGER.exception("Could not terminate node {}".format(node.name))
 
         return DistibutedOptimizationResult(
             results=result_dict,
-- 
2.43.0


From 0198490c51f62e3bda738a4200a9318ef5d133b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:49 +0000
Subject: [PATCH 31/79] fix: DataSet.save failed when another process created
 the same directory at the same time

---
 yaocptool/modelling/dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index a904ff4..930a658 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -241,8 +241,7 @@ class DataSet:
         :param str file_path: path with file name of the file to be saved. Example: files/result.p
         """
         directory = os.path.abspath(os.path.dirname(file_path))
-        if not os.path.exists(directory):
-            os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
         # an error or a crash while writing must not destroy a previously saved file
         temp_path = "{}.{}.tmp".format(file_path, os.getpid())
-- 
2.43.0


From f82ec37c277fa28ddb14c430b14151e6c4a1eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:54 +0000
Subject: [PATCH 32/79] fix: intermediary nodes must use the penalty of each of
 their two connections

---
 .../network/intermediary_node_solution_method.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index fc88f6a..a599b90 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -30,7 +30,11 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
 
     def _create_solve_function(self):
         mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2 = self._get_symb_variables()
-        u_c = (nu_c_p2 - nu_p1_c) / (2 * mu_k) + (y_p1 + u_p2) / 2
+        # each connection has its own penalty
+        mu_p1_c, mu_c_p2 = mu_k[0], mu_k[1]
+        u_c = (nu_c_p2 - nu_p1_c + mu_p1_c * y_p1 + mu_c_p2 * u_p2) / (
+            mu_p1_c + mu_c_p2
+        )
 
         return Function("f_u_c", [mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2], [u_c])
 
@@ -54,8 +58,8 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
             ]
         )
 
-        nu_p1_c_next = nu_p1_c + mu_k * (u_c - y_p1)
-        nu_c_p2_next = nu_c_p2 + mu_k * (u_p2 - y_c)
+        nu_p1_c_next = nu_p1_c + mu_k[0] * (u_c - y_p1)
+        nu_c_p2_next = nu_c_p2 + mu_k[1] * (u_p2 - y_c)
 
         algebraic_error = u_c - y_p1
         equality_error = u_p2 - y_c
@@ -67,7 +71,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         )
 
     def _get_symb_variables(self):
-        mu_k = MX.sym("mu_k")
+        mu_k = MX.sym("mu_k", 2)
 
         y_p1 = [
             [MX.sym("y_p1_{el}_{deg}") for deg in range(self.options.degree)]
@@ -123,7 +127,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         y_c = u_c
 
         (nu_p1_c_next, nu_c_p2_next, rel_alg, rel_eq) = self.new_nu_func(
-            p[0], y_p1, u_p2, nu_p1_c, nu_c_p2, u_c, y_c
+            p[-2:], y_p1, u_p2, nu_p1_c, nu_c_p2, u_c, y_c
         )
 
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
@@ -175,7 +179,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         )
         y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
 
-        u_c = self.u_c_function(p_k[0], y_p1, u_p2, nu_p1_c, nu_c_p2)
+        u_c = self.u_c_function(p_k[-2:], y_p1, u_p2, nu_p1_c, nu_c_p2)
         raw_solution_dict = {"x": u_c}
 
         return self.create_optimization_result(raw_solution_dict, p_k, theta_k)
-- 
2.43.0


From 0d6c6ec63d1c814f605341588dad5f602218ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:16 +0000
Subject: [PATCH 33/79] fix: bipartite Jacobi ADMM took the values of the wrong
 inputs when they are connected in another order

---
 yaocptool/methods/network/bipartite_jacobi_admm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 64d561c..a23ea8b 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -98,8 +98,8 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            y_indices = find_variables_indices_in_vector(y, p.model.y)
-            u_indices = find_variables_indices_in_vector(u, node.model.u)
+            y_indices = find_variables_indices_in_vector(y, p.problem.model.y)
+            u_indices = find_variables_indices_in_vector(u, node.problem.model.u)
             for ind in y_indices:
                 y_data = self._get_variable_last_result(p, "y", ind)
                 for i in range(self.options.finite_elements):
@@ -114,8 +114,8 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            u_indices = find_variables_indices_in_vector(u, s.model.u)
-            y_indices = find_variables_indices_in_vector(y, node.model.y)
+            u_indices = find_variables_indices_in_vector(u, s.problem.model.u)
+            y_indices = find_variables_indices_in_vector(y, node.problem.model.y)
             for ind in u_indices:
                 u_data = self._get_variable_last_result(s, "u", ind)
                 for i in range(self.options.finite_elements):
-- 
2.43.0


From bcac89ff2b9bcb77018a2c20af2a15d33b99a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 34/79] fix: a node that is not solved between two updates lost
 the first one of them

---
 yaocptool/methods/augmented_lagrangian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index a5df80d..8fbd41d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -624,6 +624,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         raw_solution_dict: ExtendedOptiResultDictType,
         exogenous_data: Dict[str, Dict[str, ALExogeunousData]] = None,
     ) -> DM:
+        # the previous update counts even if there was no solve after it
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
         theta_k = join_thetas(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
         error = self._compute_new_nu_and_error(
@@ -691,6 +694,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.block_number is None:
             raise ValueError("Need to set block_number to use this method")
 
+        # the previous update counts even if there was no solve after it
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
         theta_k = join_thetas(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
         error = self._compute_new_nu_and_error(
-- 
2.43.0


From ce021b97489165297ca6d76fb4596e248aaec4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:54 +0000
Subject: [PATCH 35/79] fix: Kalman filters failed for models with a single
 state

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 892bbde..b34c1f6 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -218,7 +218,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -241,7 +241,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, 0])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index e0749a6..ead3ba2 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -236,7 +236,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, 0], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -259,7 +259,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, 0])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0


From 637aad1caababe87940d87b9c7530493c4b9a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:38 +0000
Subject: [PATCH 36/79] fix: solving changed the parameters given by the
 caller, and with them earlier results

---
 yaocptool/methods/base/solutionmethodsbase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 3dc9eb1..1d02c56 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -485,9 +485,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         optimization_result.method_name = self.__class__.__name__
 
         # Initial condition, theta, and parameters used
-        optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
+        # (copies: the result gets the optimized values, the caller keeps the arguments)
+        optimization_result.x_0 = DM(x_0)
+        optimization_result.theta = {el: DM(theta[el]) for el in theta}
+        optimization_result.p = DM(p)
 
         # From the problem
         for attr in ["t_0", "t_f"]:
-- 
2.43.0


From f50822ab7cd1f9e23e2d81facdb26976809858a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:35 +0000
Subject: [PATCH 37/79] fix: solution methods ignored the initial time of the
 problem

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 1d02c56..2fd7109 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From 26ef4de60d2ae1ad417458919869e3708ea30b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:41 +0000
Subject: [PATCH 38/79] fix: a result without initial condition raised an error

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 2fd7109..5aaf11d 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -488,7 +488,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         # (copies: the result gets the optimized values, the caller keeps the arguments)
-        optimization_result.x_0 = DM(x_0)
+        optimization_result.x_0 = DM(x_0) if x_0 is not None else None
         optimization_result.theta = {el: DM(theta[el]) for el in theta}
         optimization_result.p = DM(p)
 
-- 
2.43.0


From c87ed21dd97cd2f1f32a5650b4556185b507270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:01 +0000
Subject: [PATCH 39/79] fix: relaxing state bounds together with equalities
 exchanged their multipliers

---
 yaocptool/methods/augmented_lagrangian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 8fbd41d..274ef1d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,12 +214,13 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
-            self._relax_time_equalities()
-
+        # the order of the multipliers is the one of the violations: (algebraic, states, equalities)
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From 6f42d3e8e35c9359c2c23a01f97f4ccf93ca91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:27 +0000
Subject: [PATCH 40/79] fix: multipliers ignored the degree and finite elements
 given for the solver

---
 yaocptool/methods/augmented_lagrangian.py | 45 ++++++++++++-----------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 274ef1d..be0fb83 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -165,6 +165,29 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             if isinstance(options, dict)
             else options
         )
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        solver_options = dict(solver_options)
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         #  LOGGER.setLevel(
         #      {0: logging.WARNING, 1: logging.INFO, 2: logging.DEBUG}[
         #          self.options.verbose
@@ -237,28 +260,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From ef3a6919251798d2763130a435cabc8b25fc4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 41/79] fix: multipliers were updated with the parameters given
 instead of the optimized ones

---
 yaocptool/methods/augmented_lagrangian.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index be0fb83..ce7cb7b 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -406,8 +406,8 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             y_var,
             u_var,
             _,
-            _,
-            _,
+            p_opt,
+            theta_opt,
         ) = self.ocp_solver.discretizer.unpack_decision_variables(v)
         par = MX.sym("par", self.model.n_p)
         theta = {
@@ -416,6 +416,14 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         }
         theta_var = vertcat(*[theta[i] for i in range(self.options.finite_elements)])
 
+        # the optimized parameters have the values of the solution
+        p_values = MX(par)
+        for i, ind in enumerate(self.problem.get_p_opt_indices()):
+            p_values[ind] = p_opt[i]
+        for i, ind in enumerate(self.problem.get_theta_opt_indices()):
+            for el in range(self.options.finite_elements):
+                theta[el][ind] = theta_opt[el][i]
+
         time_dict = {i: {} for i in range(self.options.finite_elements)}
 
         for el in range(self.options.finite_elements):
@@ -453,7 +461,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # get values (symbolically)
         results = self.ocp_solver.discretizer.get_system_at_given_times(
-            x_var, y_var, u_var, time_dict, p=par, theta=theta, functions=functions
+            x_var, y_var, u_var, time_dict, p=p_values, theta=theta, functions=functions
         )
 
         # compute new nu
-- 
2.43.0


From f41bb253299d1d7fb68e6192e3857922a1449571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:03 +0000
Subject: [PATCH 42/79] fix: the multipliers of the last solve changed when
 only improved ones are updated

---
 yaocptool/methods/augmented_lagrangian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index ce7cb7b..79bf216 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -793,6 +793,8 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     and any((errors > 0).nz)
                     and self.last_violation_error is not None
                 ):
+                    # the multipliers of the last solve are kept as they are
+                    self.nu_tilde = {el: DM(self.nu_tilde[el]) for el in self.nu_tilde}
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
-- 
2.43.0


From 23cb60fb268897340ac3cf45f0afddfdbec1e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:16 +0000
Subject: [PATCH 43/79] fix: intermediary nodes start at the same time as the
 nodes they connect

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..5b05bd9 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -298,6 +298,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From f5cda4cb4a07ec7c8353514ef9e047845f3e291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:16 +0000
Subject: [PATCH 44/79] fix: inserting intermediary nodes keeps the nodes
 without connections

---
 yaocptool/modelling/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 5b05bd9..dd42bfb 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -274,7 +274,9 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
+        nodes = list(self.graph.nodes)
         self.graph = networkx.DiGraph()
+        self.graph.add_nodes_from(nodes)
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From 135913afe75288b4c2068c0b85a1d47076777a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:20 +0000
Subject: [PATCH 45/79] fix: as_dataframe failed for records with entries
 without data

---
 yaocptool/modelling/dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 930a658..aeda3c7 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -61,7 +61,8 @@ class DataSet:
             #  entry_time_value_dict = [
             #      np.atleast_2d(col).T for col in horzsplit(entry.values, 1)
             #  ]
-            values = entry.values.T.full()
+            # an entry without data has no rows
+            values = entry.values.T.full().reshape(len(time), len(entry.names))
             names_tuples = [(entry_name, name) for name in entry.names]
             index = pd.MultiIndex.from_tuples(names_tuples)
             entry_df = pd.DataFrame(values, index=time, columns=index)
@@ -77,6 +78,8 @@ class DataSet:
                 if df is not None
                 else entry_df
             )
+        if df is None:
+            df = pd.DataFrame()
         df.index.name = "time"
         return df
 
-- 
2.43.0


From 8bdb02a47500b50bd6e6ead8d03b14bfecd7e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:33 +0000
Subject: [PATCH 46/79] fix: the theta given to the MPC is used in its
 optimisations

---
 yaocptool/mpc/mpc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 8ba26e6..dd5323e 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -32,8 +32,8 @@ class MPC:
         :param Plant|PlantSimulation plant:
         :param SolutionMethodsBase solution_method:
         :param EstimatorAbstract estimator:
-        :param DM default_p: is a default parameter vector that will be used by the 'solution_method'
-        :param DM default_theta: is a default theta parameter that will be used by the 'solution_method'
+        :param DM p: is a default parameter vector that will be used by the 'solution_method'
+        :param dict theta: is a default theta parameter that will be used by the 'solution_method'
         :param bool include_cost_in_state_vector: Typically the optimal control problem has one extra state than the
             plant, the dynamic cost state. By setting this variable to True, it automatically include an zero
             the in state vector obtained from the estimator.
@@ -132,7 +132,11 @@ class MPC:
         #          initial_guess_dict = initial_guess_dict[0]
 
         solutions = self.solution_method.solve(
-            x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
+            x_0=x_k,
+            initial_guess=self.initial_guess,
+            p=p,
+            theta=self.theta,
+            last_u=u_k,
         )
         self.initial_guess = self.step(solutions.raw_decision_variables)
 
-- 
2.43.0


From f6131740997a3a386b0c2c01957288d6e2d7cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:33 +0000
Subject: [PATCH 47/79] fix: the number of elements of a simulation result was
 always 0

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From 5dd21561ad05c07401aacd7b139e6cbc800a6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:11 +0000
Subject: [PATCH 48/79] fix: deep copies of models with time dependence,
 parametrized controls, prefixes or without some kind of variable

---
 yaocptool/modelling/system_model.py | 45 +++++++++++++++++++----------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..1614db0 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -485,15 +485,13 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
+        # the names of the variables already have the prefix
+        model_copy = SystemModel(name=self.name)
         x_copy = SX(0, 1)
         y_copy = SX(0, 1)
         u_copy = SX(0, 1)
         p_copy = SX(0, 1)
         theta_copy = SX(0, 1)
-        u_par_copy = SX(0, 1)
 
         if self.n_x > 0:
             x_copy = vertcat(
@@ -526,22 +524,39 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
                 ]
             )
 
-        if self.n_u_par > 0:
-            u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
-            )
+        # the controls that are not parametrized are in u_par too
+        u_par_copy = vertcat(
+            SX(0, 1),
+            *[
+                u_copy[find_variables_indices_in_vector(var, self.u)]
+                if find_variables_indices_in_vector(var, self.u)
+                else SX.sym(var.name())
+                for var in self.u_par.nz
+            ]
+        )
 
         model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
         model_copy.u_expr = self.u_expr
 
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
-        model_copy.replace_variable(self.u_par, u_par_copy)
+        for original, replacement in [
+            (self.x, x_copy),
+            (self.y, y_copy),
+            (self.u_par, u_par_copy),
+            (self.u, u_copy),
+            (self.p, p_copy),
+            (self.theta, theta_copy),
+            (self.t, model_copy.t),
+            (self.tau, model_copy.tau),
+        ]:
+            if original.numel() > 0:
+                model_copy.replace_variable(original, replacement)
+        model_copy.u_par = u_par_copy
+        model_copy._parametrized_controls = [
+            u_copy[find_variables_indices_in_vector(var, self.u)]
+            for var in self._parametrized_controls
+        ]
 
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From ed1c03b20b317f0ede1cc19af645abd917eaea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:40 +0000
Subject: [PATCH 49/79] fix: an alarm that arrives while a timeout is entered
 or left no longer escapes from it

---
 yaocptool/util/timeout.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index c2b2fdc..e54d8e4 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -21,14 +21,31 @@ class timeout:
         return self._timedout
 
     def handle_timeout(self, signum, frame):
+        method = self._own_method(frame)
+        if method == "__exit__":
+            return  # the body has already finished
+        if method == "__enter__":
+            # raising here would skip __exit__, wait for the body to start
+            signal.setitimer(signal.ITIMER_REAL, 1e-3)
+            return
         self._timedout = True
         self._exception = TimeoutError(self.error_message)
         raise self._exception
 
+    def _own_method(self, frame):
+        """Which of __enter__ and __exit__ of this object is being executed, if any"""
+        codes = {type(self).__enter__.__code__, type(self).__exit__.__code__}
+        while frame is not None:
+            if frame.f_code in codes and frame.f_locals.get("self") is self:
+                return frame.f_code.co_name
+            frame = frame.f_back
+        return None
+
     def __enter__(self):
         self._timedout = self._exception = None
+        # stop the enclosing timer, if any
+        self._outer_remaining = signal.setitimer(signal.ITIMER_REAL, 0)[0]
         self._start = time.monotonic()
-        self._outer_remaining = signal.getitimer(signal.ITIMER_REAL)[0]
         # an enclosing timer that expires first is left alone
         self._armed = self.seconds > 0 and not (
             0 < self._outer_remaining <= self.seconds
@@ -36,6 +53,8 @@ class timeout:
         if self._armed:
             self._outer_handler = signal.signal(signal.SIGALRM, self.handle_timeout)
             signal.setitimer(signal.ITIMER_REAL, self.seconds)
+        elif self._outer_remaining > 0:
+            signal.setitimer(signal.ITIMER_REAL, self._outer_remaining)
         return self
 
     def __exit__(
-- 
2.43.0


From f77c5d1a9a055b09128166dfb25e670f3d356617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:49 +0000
Subject: [PATCH 50/79] fix: results of networks with four or more nodes could
 not be turned into a data frame

---
 yaocptool/methods/base/distributed_optimization_result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/distributed_optimization_result.py b/yaocptool/methods/base/distributed_optimization_result.py
index 2323e27..8191f9d 100644
--- a/yaocptool/methods/base/distributed_optimization_result.py
+++ b/yaocptool/methods/base/distributed_optimization_result.py
@@ -31,7 +31,7 @@ class DistibutedOptimizationResult:
 
     def as_dataframe(self):
         df = None
-        for result in self.results.values():
+        for node, result in self.results.items():
             res_df = result.dataset.as_dataframe()
             df = (
                 pd.merge(
@@ -40,6 +40,8 @@ class DistibutedOptimizationResult:
                     how="outer",
                     left_index=True,
                     right_index=True,
+                    # entries that all the nodes have, e.g. the multipliers
+                    suffixes=(None, f"_{node.name}"),
                 )
                 if df is not None
                 else res_df
-- 
2.43.0


From 98fdcd3c514247e05d36ba295f47be095057d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:04 +0000
Subject: [PATCH 51/79] fix: include_constraint took the upper bound of an
 inequality as its lower bound

---
 yaocptool/optimization/abstract_optimization_problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..0e25d68 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -354,7 +354,8 @@ class AbstractOptimizationProblem(object):
             )
 
         # find the dependent and independent term
-        if depends_on(expr.dep(0), vertcat(self.x, self.p)):
+        lhs_is_dependent = depends_on(expr.dep(0), vertcat(self.x, self.p))
+        if lhs_is_dependent:
             dep_term = expr.dep(0)
             indep_term = expr.dep(1)
         else:
@@ -372,7 +373,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if lhs_is_dependent:
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From e0703c13e3697b6839e048eea3852b6ef08af5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:04 +0000
Subject: [PATCH 52/79] fix: an optimization problem that was changed after a
 solve kept solving the old one

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 0e25d68..05bf64f 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -167,6 +167,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
@@ -190,6 +191,7 @@ class AbstractOptimizationProblem(object):
 
         :param MX|SX par: parameter to be included
         """
+        self._solver = None
         self.p = vertcat(self.p, par)
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
@@ -208,6 +210,7 @@ class AbstractOptimizationProblem(object):
                 "Objective function should be an scalar. "
                 "Given objective has shape = {}".format(expr.shape)
             )
+        self._solver = None
         self.f = expr
 
     def include_inequality(
@@ -283,6 +286,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
@@ -325,6 +329,7 @@ class AbstractOptimizationProblem(object):
                 "RHS = {}".format(rhs)
             )
 
+        self._solver = None
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
-- 
2.43.0


From f3971a916deab8300db234c5621161902a33d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:04 +0000
Subject: [PATCH 53/79] fix: nonlinear problems must not share the dictionary
 of default options

---
 yaocptool/optimization/nonlinear_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/optimization/nonlinear_problem.py b/yaocptool/optimization/nonlinear_problem.py
index d359ee0..de36af1 100644
--- a/yaocptool/optimization/nonlinear_problem.py
+++ b/yaocptool/optimization/nonlinear_problem.py
@@ -23,7 +23,7 @@ class NonlinearOptimizationProblem(AbstractOptimizationProblem):
         """
         super(NonlinearOptimizationProblem, self).__init__(**kwargs)
         if self.solver_options == {}:
-            self.solver_options = SOLVER_OPTIONS["nlpsol_options"]
+            self.solver_options = dict(SOLVER_OPTIONS["nlpsol_options"])
 
     def _create_solver(self) -> Function:
         problem_dict = self.get_problem_dict()
-- 
2.43.0


From 79b70ad3a912b040d929af8d78a507c57fff41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:53 +0000
Subject: [PATCH 54/79] fix: equations that are rejected must not be included
 in part

---
 .../modelling/mixins/continuous_states_mixin.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..5caffb0 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -99,9 +99,6 @@ class ContinuousStateMixin(BaseMixin):
         Differential equations can passed via `ode` kw argument with a `x` positional
         argument or via equallity in positional arguments.
         """
-        if callable(getattr(super(), "include_equations", None)):
-            super().include_equations(*args, **kwargs)
-
         if "ode" not in kwargs and "x" in kwargs:
             raise ValueError(
                 "`x` is not given, but is `ode` given, what do I do with this `x`?"
@@ -110,8 +107,13 @@ class ContinuousStateMixin(BaseMixin):
         if len(args) > 0:
             self._include_equation_from_diff_equations(*args)
 
-        if "ode" not in kwargs:
-            return
+        if "ode" in kwargs:
+            self._include_equation_from_lists(**kwargs)
+
+        if callable(getattr(super(), "include_equations", None)):
+            super().include_equations(*args, **kwargs)
+
+    def _include_equation_from_lists(self, **kwargs: Union[SX, List[SX]]):
         ode = kwargs["ode"]
         x = kwargs.pop("x", None)
 
-- 
2.43.0


From b37709e45680b3f3bf2fc375c729d3835a7d370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:53 +0000
Subject: [PATCH 55/79] fix: remove_state must remove the initial state too

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 5caffb0..59fd164 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -72,6 +76,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        self.x_0 = remove_variables_from_vector_by_indices(
+            find_variables_indices_in_vector(var, self.x), self.x_0
+        )
         self.x = remove_variables_from_vector(var, self.x)
 
         for x_i in var.nz:
-- 
2.43.0


From af227608778235fdee03278b678d475eba58ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:56 +0000
Subject: [PATCH 56/79] fix: a model whose states are already included must be
 rejected before anything is changed

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 6 ++++--
 yaocptool/modelling/system_model.py                   | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 59fd164..bd3d1fc 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -60,6 +60,10 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        for x_i in var.nz:
+            if x_i in self._ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
@@ -68,8 +72,6 @@ class ContinuousStateMixin(BaseMixin):
 
         # crate entry for included state
         for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
             self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 1614db0..3ad65f9 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -374,6 +374,14 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         if not isinstance(models, list):
             models = [models]
 
+        # check all of them before including any
+        states = set(self._ode)
+        for model in models:
+            for x_i in model.x.nz:
+                if x_i in states:
+                    raise ValueError(f'State "{x_i}" already in this model')
+                states.add(x_i)
+
         for model in models:
             # include variables
             self.include_state(model.x, x_0=model.x_0)
-- 
2.43.0


From c39ec1515400ba179e10ad6a2d0b1209ec36adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:22 +0000
Subject: [PATCH 57/79] fix: deep copies of models without states, or with
 states without equation

---
 yaocptool/modelling/system_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 3ad65f9..2618bf3 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -543,7 +543,11 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             ]
         )
 
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
+        # some states may not have their equation yet
+        model_copy._ode = dict(
+            zip(model_copy.x.nz, [self._ode[x_i] for x_i in self.x.nz])
+        )
+        model_copy.include_equations(alg=self.alg)
         model_copy.u_expr = self.u_expr
 
         for original, replacement in [
-- 
2.43.0


From fd27980861c74ec5751f600f4548f2a0d9fc26c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:32 +0000
Subject: [PATCH 58/79] fix: a rejected parametrization registered some of its
 controls as parametrized

---
 yaocptool/modelling/mixins/control_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 572a72d..a97bb65 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -95,8 +95,8 @@ class ControlMixin(BaseMixin):
         for u_i in u.nz:
             if self.control_is_parametrized(u_i):
                 raise ValueError(f'The control "{u_i}" is already parametrized.')
-            # to get have a new memory address
-            self._parametrized_controls = self._parametrized_controls + [u_i]
+        # to get have a new memory address
+        self._parametrized_controls = self._parametrized_controls + list(u.nz)
 
         # Remove u from u_par if they are going to be parametrized
         self.u_par = remove_variables_from_vector(u, self.u_par)
-- 
2.43.0


From be5d90c033fc9a0a469e90447167f4fc1432fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:32 +0000
Subject: [PATCH 59/79] fix: including a model lost the parametrization of its
 controls

---
 yaocptool/modelling/system_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 2618bf3..97af411 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -386,7 +386,13 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            # (with their parametrization)
+            self.u = vertcat(self.u, model.u)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
-- 
2.43.0


From f90a8e7a2decfe7ceb7fd91d3705e08e721c83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:22 +0000
Subject: [PATCH 60/79] fix: the guess of the first algebraic variable of a
 problem was dropped

---
 yaocptool/modelling/ocp.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..243b495 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -361,6 +361,8 @@ class OptimalControlProblem(object):
             y_min = vertcat(*y_min)
         if isinstance(y_max, list):
             y_max = vertcat(*y_max)
+        if y_guess is not None:
+            y_guess = vertcat(*y_guess) if isinstance(y_guess, list) else vertcat(y_guess)
 
         if var.numel() != y_min.numel():
             raise ValueError(
@@ -374,14 +376,24 @@ class OptimalControlProblem(object):
                     var.numel(), y_max.numel()
                 )
             )
+        if y_guess is not None and var.numel() != y_guess.numel():
+            raise ValueError(
+                "Given 'var' and 'y_guess' does not have the same size, {}!={}".format(
+                    var.numel(), y_guess.numel()
+                )
+            )
+
+        n_y = self.model.n_y
+        self.model.include_algebraic(var, alg)
 
         if self.y_guess is not None:
             if y_guess is None:
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
                 self.y_guess = vertcat(self.y_guess, y_guess)
+        elif y_guess is not None and n_y == 0:
+            self.y_guess = y_guess
 
-        self.model.include_algebraic(var, alg)
         self.y_min = vertcat(self.y_min, y_min)
         self.y_max = vertcat(self.y_max, y_max)
 
-- 
2.43.0


From 4eed2a6b32dfb36b96b19db5312eaad9ff2d8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:22 +0000
Subject: [PATCH 61/79] fix: a connected control without guess left the guess
 of the algebraic variables too short

---
 yaocptool/modelling/ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 243b495..a6fd0f1 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1017,8 +1017,11 @@ class OptimalControlProblem(object):
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                if self.u_guess is not None:
+                    self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+                else:
+                    self.y_guess = vertcat(self.y_guess, DM.zeros(u.numel()))
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From efac5afa2ab0d5c098131df9d8fbe236bb6b0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:48 +0000
Subject: [PATCH 62/79] fix: connecting with replace left the removed control
 in the costs and constraints

---
 yaocptool/modelling/ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index a6fd0f1..92aeab9 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1016,7 +1016,9 @@ class OptimalControlProblem(object):
 
         self.model.connect(u, y, replace=replace)
 
-        if not replace:
+        if replace:
+            self.replace_variable(u, y)
+        else:
             if self.y_guess is not None:
                 if self.u_guess is not None:
                     self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
-- 
2.43.0


From 350c93603b4b975e5dc1b3e7c194132c906e7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:24 +0000
Subject: [PATCH 63/79] fix: optimization parameters with wrong bounds must not
 stay in the model

---
 yaocptool/modelling/ocp.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 92aeab9..7e0fcaf 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -246,9 +246,13 @@ class OptimalControlProblem(object):
     ) -> SX:
         new_p_opt = self.model.create_parameter(name=name, size=size)
 
-        self.set_parameter_as_optimization_parameter(
-            new_p_opt, new_p_opt_min=p_opt_min, new_p_opt_max=p_opt_max
-        )
+        try:
+            self.set_parameter_as_optimization_parameter(
+                new_p_opt, new_p_opt_min=p_opt_min, new_p_opt_max=p_opt_max
+            )
+        except ValueError:
+            self.model.remove_parameter(new_p_opt)
+            raise
         return new_p_opt
 
     def create_optimization_theta(
@@ -256,11 +260,15 @@ class OptimalControlProblem(object):
     ) -> SX:
         new_theta_opt = self.model.create_theta(name=name, size=size)
 
-        self.set_theta_as_optimization_theta(
-            new_theta_opt,
-            new_theta_opt_min=new_theta_opt_min,
-            new_theta_opt_max=new_theta_opt_max,
-        )
+        try:
+            self.set_theta_as_optimization_theta(
+                new_theta_opt,
+                new_theta_opt_min=new_theta_opt_min,
+                new_theta_opt_max=new_theta_opt_max,
+            )
+        except ValueError:
+            self.model.remove_theta(new_theta_opt)
+            raise
         return new_theta_opt
 
     def create_adjoint_states(self):
@@ -512,8 +520,8 @@ class OptimalControlProblem(object):
         if p_opt_max is None:
             p_opt_max = DM.inf(var.numel())
 
-        self.model.include_parameter(var)
         self.set_parameter_as_optimization_parameter(var, p_opt_min, p_opt_max)
+        self.model.include_parameter(var)
 
     def include_optimization_theta(
         self, var: SX, theta_opt_min: DM = None, theta_opt_max: DM = None
@@ -523,10 +531,10 @@ class OptimalControlProblem(object):
         if theta_opt_max is None:
             theta_opt_max = DM.inf(var.numel())
 
-        self.model.include_theta(var)
         self.set_theta_as_optimization_theta(
             var, new_theta_opt_min=theta_opt_min, new_theta_opt_max=theta_opt_max
         )
+        self.model.include_theta(var)
 
     def include_initial_time_equality(self, eq: Union[SX, List[SX]]):
         """Include initial time equality. Equality that is evaluated at t=t_0.
-- 
2.43.0


From 794c5c644c1b7e3b711a6f55aef23e52f0d48e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:24 +0000
Subject: [PATCH 64/79] fix: merging problems must not change anything when one
 of them is rejected

---
 yaocptool/modelling/ocp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 7e0fcaf..550896f 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -832,6 +832,7 @@ class OptimalControlProblem(object):
 
         :param list of OptimalControlProblem problems:
         """
+        problems = list(problems)
         for problem in problems:
             if self.t_0 != problem.t_0:
                 raise ValueError(
@@ -846,6 +847,11 @@ class OptimalControlProblem(object):
                     )
                 )
 
+        # Merge models
+        n_y, n_u = self.model.n_y, self.model.n_u
+        self.model.merge([problem.model for problem in problems])
+
+        for problem in problems:
             self.x_0 = vertcat(self.x_0, problem.x_0)
 
             self.eta = vertcat(self.eta, problem.eta)
@@ -881,7 +887,7 @@ class OptimalControlProblem(object):
 
             if (
                 self.last_u is None
-                and self.model.n_u == 0
+                and n_u == 0
                 and problem.last_u is not None
             ):
                 self.last_u = problem.last_u
@@ -892,7 +898,7 @@ class OptimalControlProblem(object):
 
             if (
                 self.y_guess is None
-                and self.model.n_y == 0
+                and n_y == 0
                 and problem.y_guess is not None
             ):
                 self.y_guess = problem.y_guess
@@ -903,7 +909,7 @@ class OptimalControlProblem(object):
 
             if (
                 self.u_guess is None
-                and self.model.n_u == 0
+                and n_u == 0
                 and problem.u_guess is not None
             ):
                 self.u_guess = problem.u_guess
@@ -916,8 +922,8 @@ class OptimalControlProblem(object):
                 self.positive_objective and problem.positive_objective
             )
 
-            # Merge models
-            self.model.merge([problem.model])
+            n_y += problem.model.n_y
+            n_u += problem.model.n_u
 
     def set_parameter_as_optimization_parameter(
         self,
-- 
2.43.0


From d04a5a0e10afa2b1df12bf0f4c1dc259ffd8dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:24 +0000
Subject: [PATCH 65/79] fix: merging a problem without controls or algebraic
 variables lost the guesses

---
 yaocptool/modelling/ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 550896f..3420306 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -893,7 +893,7 @@ class OptimalControlProblem(object):
                 self.last_u = problem.last_u
             elif self.last_u is not None and problem.last_u is not None:
                 self.last_u = vertcat(self.last_u, problem.last_u)
-            else:
+            elif problem.model.n_u > 0:
                 self.last_u = None
 
             if (
@@ -904,7 +904,7 @@ class OptimalControlProblem(object):
                 self.y_guess = problem.y_guess
             elif self.y_guess is not None and problem.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, problem.y_guess)
-            else:
+            elif problem.model.n_y > 0:
                 self.y_guess = None
 
             if (
@@ -915,7 +915,7 @@ class OptimalControlProblem(object):
                 self.u_guess = problem.u_guess
             elif self.u_guess is not None and problem.u_guess is not None:
                 self.u_guess = vertcat(self.u_guess, problem.u_guess)
-            else:
+            elif problem.model.n_u > 0:
                 self.u_guess = None
 
             self.positive_objective = (
-- 
2.43.0


From e871bde37bc0a7b6e6d50aa571cb51b8dc10e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:16 +0000
Subject: [PATCH 66/79] fix: costs and constraints of a merged problem kept
 their own time variable

---
 yaocptool/modelling/ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 3420306..1b15c54 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -922,6 +922,9 @@ class OptimalControlProblem(object):
                 self.positive_objective and problem.positive_objective
             )
 
+            # the merged problem has a single time variable
+            self.replace_variable(problem.model.t, self.model.t)
+
             n_y += problem.model.n_y
             n_u += problem.model.n_u
 
-- 
2.43.0


From ef1a11d9ac3a815c4f82a6cb0c88669acdc62be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 67/79] fix: simulating a problem ignored t_0 and missed the
 last finite element

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 1b15c54..b0f3c33 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1081,14 +1081,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * k for k in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From 17dfc3318ecfed350dadc9190bd8f239dcee6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:27 +0000
Subject: [PATCH 68/79] fix: a node could be given the id of a node that is
 already in the network

---
 yaocptool/modelling/network/network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index dd42bfb..d979b92 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -126,10 +126,12 @@ class Network:
         if not isinstance(nodes, list):
             nodes = [nodes]
 
+        used_ids = {node.node_id for node in [*self.graph, *nodes]}
+
         # if node does not have an id
         for node in nodes:
             if node.node_id is None:
-                self._set_node_an_id(node)
+                self._set_node_an_id(node, used_ids)
 
         self.graph.add_nodes_from(nodes)
 
@@ -223,14 +225,17 @@ class Network:
             if node.name == name:
                 return node
 
-    def _set_node_an_id(self, node):
+    def _set_node_an_id(self, node, used_ids):
         """
             Set a unique id to a node
 
         :param Node node:
+        :param set used_ids: ids that other nodes have
         :return: node id
         :rtype: int
         """
+        while self._nodes_id_counter in used_ids:
+            self._nodes_id_counter += 1
         node.node_id = self._nodes_id_counter
         self._nodes_id_counter += 1
 
-- 
2.43.0


From 9cd4264428e5408ae244f70b5128a6addf31bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:27 +0000
Subject: [PATCH 69/79] fix: connecting nodes accepted variables of other nodes
 and vectors of different sizes

---
 yaocptool/modelling/network/network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index d979b92..abd6460 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -154,13 +154,17 @@ class Network:
         :param node1: node1 (which has 'y')
         :param node2: node2 (which has 'u')
         """
-        if not node1.model.has_variable(y):
+        if y.is_empty() or not all(node1.model.has_variable(var) for var in y.nz):
             raise ValueError(
                 '"node1" ({}) does not have the passed "y" ({})'.format(node1.name, y)
             )
-        if not node2.model.has_variable(u):
+        if u.is_empty() or not all(node2.model.has_variable(var) for var in u.nz):
             raise ValueError(
-                '"node2" ({}) does not have the passed "u" ({})'.format(node2.name, y)
+                '"node2" ({}) does not have the passed "u" ({})'.format(node2.name, u)
+            )
+        if not y.numel() == u.numel():
+            raise ValueError(
+                'The passed "y" ({}) and "u" ({}) do not have the same size'.format(y, u)
             )
 
         if not self.intermediary_nodes:
-- 
2.43.0


From 78c94f47b9adadaf2599034fdf1bd4024a60088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:02 +0000
Subject: [PATCH 70/79] fix: a failure while inserting intermediary nodes left
 the network without its connections

---
 yaocptool/modelling/network/network.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index abd6460..7cd7ec8 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -276,6 +276,7 @@ class Network:
         return list(grouping_dict.values())
 
     def insert_intermediary_nodes(self):
+        old_graph = self.graph
         old_connections = {
             (node1, node2): (
                 self.graph.edges[node1, node2]["y"],
@@ -284,11 +285,16 @@ class Network:
             for (node1, node2) in self.graph.edges
         }
         nodes = list(self.graph.nodes)
-        self.graph = networkx.DiGraph()
-        self.graph.add_nodes_from(nodes)
-
-        for (node1, node2), (y, u) in old_connections.items():
-            self.insert_intermediary_node(y, u, node1, node2)
+        try:
+            self.graph = networkx.DiGraph()
+            self.graph.add_nodes_from(nodes)
+
+            for (node1, node2), (y, u) in old_connections.items():
+                self.insert_intermediary_node(y, u, node1, node2)
+        except BaseException:
+            # do not leave the network without its connections
+            self.graph = old_graph
+            raise
 
     def insert_intermediary_node(self, y, u, node1, node2):
         new_model = SystemModel(
-- 
2.43.0


From 3f2344ba0f91cee70e4993b633c1db67ea61a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:53 +0000
Subject: [PATCH 71/79] fix: nodes that got into the network by being connected
 had no id

---
 yaocptool/modelling/network/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 7cd7ec8..b20c776 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -167,6 +167,10 @@ class Network:
                 'The passed "y" ({}) and "u" ({}) do not have the same size'.format(y, u)
             )
 
+        self.include_nodes(
+            [node for node in (node1, node2) if node not in self.graph]
+        )
+
         if not self.intermediary_nodes:
             self._connect(y, u, node1, node2)
         else:
-- 
2.43.0


From ffca03209513f8c79c9a9c6089fa56be21c8cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:30 +0000
Subject: [PATCH 72/79] fix: bounds of an included state can be given as lists
 of several values

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index b0f3c33..a190a93 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -317,9 +317,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From dce85aa5ddbc9397d95a41d929ae174d3dabaf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:30 +0000
Subject: [PATCH 73/79] fix: the weights of a quadratic cost are not changed

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index a190a93..054a2d1 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -801,6 +801,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 91b0863662cc0b8d686a8584ea871211f8c0eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 74/79] fix: solution methods whose initial condition is not a
 parameter could not solve

---
 yaocptool/methods/base/solutionmethodsbase.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 5aaf11d..e500519 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -252,7 +252,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         has_parameters = (
             self.model.n_p + self.model.n_theta > 0
             or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
+            or self.last_control_as_parameter
         )
 
         # parameters MX
@@ -263,7 +263,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = MX()
 
         # last control MX
         if self.last_control_as_parameter:
@@ -276,7 +279,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
             p=p_mx,
-            x_0=p_mx_x_0,
+            x_0=p_mx_x_0 if self.initial_condition_as_parameter else None,
             theta=theta,
             last_u=p_last_u if self.last_control_as_parameter else None,
         )
@@ -318,6 +321,13 @@ class SolutionMethodsBase(SolutionMethodInterface):
         initial_guess: Optional[DM],
     ) -> Tuple[Dict[str, DM], DM, Dict[int, DM], DM, DM]:
         # initial conditions
+        if not self.initial_condition_as_parameter and x_0 is not None:
+            warnings.warn(
+                "solution_method.initial_condition_as_parameter is False, but x_0 was passed."
+                "x_0 will be ignored."
+            )
+            x_0 = None
+
         if x_0 is None:
             x_0 = self.problem.x_0
         if isinstance(x_0, list):
-- 
2.43.0


From f8e280a7fdbaa7e27162c87a01f8e4cdb07aee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:18 +0000
Subject: [PATCH 75/79] fix: a solve interrupted while the cost state is
 created included it twice

---
 yaocptool/methods/classic/directmethod.py | 8 +++++++-
 yaocptool/modelling/ocp.py                | 5 ++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/yaocptool/methods/classic/directmethod.py b/yaocptool/methods/classic/directmethod.py
index a452864..2423b4f 100644
--- a/yaocptool/methods/classic/directmethod.py
+++ b/yaocptool/methods/classic/directmethod.py
@@ -24,6 +24,7 @@ class DirectMethod(SolutionMethodsBase):
         self.solution_class = "direct"
 
         self.has_cost_state = False
+        self._other_cost_states = None
 
     def _parametrize_control(self):
         u_pol = self.create_control_approximation()
@@ -43,7 +44,12 @@ class DirectMethod(SolutionMethodsBase):
 
     def _create_cost_state(self):
         if not self.has_cost_state:
-            x_c = self.problem.create_cost_state()
+            if self._other_cost_states is None:
+                self._other_cost_states = [self.problem.x_cost]
+            x_c = self.problem.x_cost
+            # an interrupted solve may have included it already
+            if x_c is self._other_cost_states[0] or not self.model.has_variable(x_c):
+                x_c = self.problem.create_cost_state()
             # a single statement: an interrupted solve must not leave half of it done
             self.problem.V, self.has_cost_state = self.problem.V + x_c, True
 
diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 054a2d1..d893854 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -792,10 +792,9 @@ class OptimalControlProblem(object):
         :rtype: casadi.SX
         """
         x_min = DM(0) if self.positive_objective else DM(-inf)
-        x_c = self.create_state(
-            self.name + "_x_c", size=1, ode=self.L, x_0=DM(0), x_min=x_min
-        )
+        x_c = SX.sym(self.name + "_x_c")
         self.x_cost = x_c
+        self.include_state(x_c, ode=self.L, x_0=DM(0), x_min=x_min)
         return x_c
 
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
-- 
2.43.0


From 6af53e4a3eead6b97b3c185e78fb04ba042903aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:38 +0000
Subject: [PATCH 76/79] fix: the last controls of a problem were not updated
 when controls are removed or connected

---
 yaocptool/modelling/ocp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index d893854..f64d3da 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -634,6 +634,11 @@ class OptimalControlProblem(object):
                 to_remove, self.u_guess
             )
 
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                to_remove, self.last_u
+            )
+
         self.model.remove_control(var)
 
     def replace_variable(
@@ -1051,6 +1056,9 @@ class OptimalControlProblem(object):
         if self.u_guess is not None:
             self.u_guess = remove_variables_from_vector_by_indices(ind_u, self.u_guess)
 
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(ind_u, self.last_u)
+
         self.delta_u_max = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_max
         )
-- 
2.43.0


From 5a18360a739ba41489e344f4ab643301fc96aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:38 +0000
Subject: [PATCH 77/79] fix: relaxed algebraic variables had the guesses of
 other ones

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 79bf216..6036008 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -314,7 +314,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 54cc1354310a1624f05cb64ad320dc9fb35527b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:47 +0000
Subject: [PATCH 78/79] fix: equations could not be included in a problem
 without giving both kinds

---
 yaocptool/modelling/ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index f64d3da..aed4a82 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -294,7 +294,10 @@ class OptimalControlProblem(object):
         )
 
     def include_system_equations(self, ode=None, alg=None):
-        self.model.include_equations(ode=ode, alg=alg)
+        equations = {"ode": ode, "alg": alg}
+        self.model.include_equations(
+            **{name: eq for name, eq in equations.items() if eq is not None}
+        )
 
     def include_state(
         self,
-- 
2.43.0


From 6cad2d711ac58937ea1862fcc79ca68dedd51e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:36 +0000
Subject: [PATCH 79/79] fix: collocation of degree 1 could not be created

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index e500519..4be29b6 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -166,7 +166,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0

