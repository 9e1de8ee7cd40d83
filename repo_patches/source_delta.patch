From d61383a52c32447362cd5dafdd99d857791064a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 01/37] fix: restore the distance matrix in Gillett-Miller path
 search also on errors

The end point distance was left at zero in the caller's matrix if the TSP
solver was interrupted or failed.
---
 verypy/classic_heuristics/gillet_miller_sweep.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index e9a9925..86c410e 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -50,10 +50,12 @@ def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
     old_path_end_distance = D[from_node, to_node]
     D[from_node, to_node] = 0.0
     D[to_node, from_node] = 0.0
-    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    # restore original weights
-    D[from_node, to_node] = old_path_end_distance
-    D[to_node, from_node] = old_path_end_distance
+    try:
+        route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
+    finally:
+        # restore original weights (even if the TSP solver is interrupted)
+        D[from_node, to_node] = old_path_end_distance
+        D[to_node, from_node] = old_path_end_distance
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From 1c4f3186a925948f55862bc861e307122e1156bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 02/37] fix: recursive problem search must not extend the
 caller's path list

The list was extended while it was iterated, so it was changed for the caller
and nested folders were solved several times.
---
 verypy/shared_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..3196197 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -157,9 +157,11 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
+        all_paths = list(problem_paths)
         for problem_path in problem_paths:
             for root, dirs, _ in walk(problem_path):
-                problem_paths += [path.join(root,d) for d in dirs]
+                all_paths += [path.join(root,d) for d in dirs]
+        problem_paths = all_paths
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
-- 
2.43.0


From 33e5399d1498e7db34740c4aebdc6c7bf141d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 03/37] fix: petal heuristic TSP solver fallback used an
 unimported stderr

The warning raised a NameError instead of falling back to the internal solver.
---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..fca6652 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -20,6 +20,7 @@ from builtins import range
 from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
+from sys import stderr
 from logging import log, DEBUG
 
 from gurobipy import Model, GRB, GurobiError, quicksum
-- 
2.43.0


From 42e1a8f953465863172d971488ecbaa6422ed5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 04/37] fix: naive 2-opt* referred to a constraint check that
 does not exist

---
 verypy/local_search/naive_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 6bcad14..c3ca13d 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -225,7 +225,7 @@ def do_naive_2optstar_move(solution,D,d,C,L,
 
          
                 if delta+S_EPS<best_delta:
-                    if fast_constraint_check(ansatz_sol,D,demands,C,L):
+                    if _naive_constraint_check(ansatz_sol,D,demands,C,L):
                         best_delta = delta
                         best_sol = ansatz_sol
                         
-- 
2.43.0


From 2d46ad608ea6cba0ae8bcbef8c9824521893e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 05/37] fix: first_valid failed with TypeError as next() takes
 no keywords

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..6504f31 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -62,7 +62,7 @@ def totald(sol, d):
 def first_valid(l):
     """Returns the first non-None or otherwise valid (evals to true) item from
     the list, or None if no such item exists."""
-    return next((item for item in l if item), default=None)
+    return next((item for item in l if item), None)
     
 def is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
     """Compares a solution against the current best and returns True if the
-- 
2.43.0


From 93f098f764e5cdfd19c4e1ccd04642a2e2eb9d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 06/37] fix: acotsp solver used np.float, which has been
 removed from numpy

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..510d940 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -69,7 +69,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = issubclass(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
     with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
-- 
2.43.0


From 8989844cb318aa35b62820f1cbb3a4da4e8f3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 07/37] fix: acotsp solver with ants referred to an unopened
 null file

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index 510d940..a4e1a3b 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -79,12 +79,12 @@ def solve_tsp_acotsp(D, selected_idxs,
                       float_to_int_precision=float_accuracy)
     
     # 2. Call acotsp
+    nul_f = open(os.devnull, 'w')
     if use_ants:
         # with defaults
         command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
     else:
         # use only local 2-opt+3-opt local search
-        nul_f = open(os.devnull, 'w')
         command = [ACOTSP_EXE_PATH,
                    "-r", "1", # one try is enough without ants (determnistic)
                    "-m", "1", # one (deteministic) ant is still needed 
-- 
2.43.0


From 0cca93b749ba775f6d6efcb2e046074ea3fbcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 08/37] fix: interrupted route-first-cluster-second used an
 unset route cost

The interrupt could surface as UnboundLocalError instead of carrying the
solution built so far.
---
 verypy/classic_heuristics/rfcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..cb9257c 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -33,6 +33,7 @@ except ImportError:
 # Always use built-in TSP solver to guarantee 2 and 3-optimality of single routes.
 from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt
 
+from verypy.util import objf
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
 
@@ -153,6 +154,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
         
         if not interrupted:
             route, route_cost = route_tsp_opt_algo(D, route )
+        else:
+            route_cost = objf(route, D)
         
         # record the route
         sol.extend(route[1:])
-- 
2.43.0


From 6b2529311c9a9ad9e52d7f823ef9d7e2d62cdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 09/37] fix: -D ROUND failed, np.int cannot convert a matrix
 and has been removed

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..c163ca3 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -167,7 +167,7 @@ def main(overridden_args=None):
             D = np.floor(D)
             ewt = "FLOOR_2D"
         if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
+            D = np.rint(D)
             ewt = "EUC_2D"
             
         # Bake service time to D (if needed)
-- 
2.43.0


From 4aec955e5c2d2732d55b59b067f9d26583691322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 10/37] fix: insertion heap ties were broken by object id,
 results varied between runs

---
 verypy/classic_heuristics/cheapest_insertion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..468323e 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -50,6 +50,7 @@ class _EmergingRouteData:
     constructed in the same place. """
     def __init__(self, seed_customers, D, d):
         self.potential_insertions = []
+        self.insertion_count = 0 # running number, orders the ties in the heap
         if seed_customers:
             lroute = [0]+seed_customers+[0]
             self.route = dllist(lroute)
@@ -123,7 +124,8 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        rd.insertion_count += 1
+        heappush( rd.potential_insertions, (sorting_key, rd.insertion_count, insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From f3c2f062c9c14a9b2c68509243ff9d0569c0a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 11/37] fix: savings and insertion variants swallowed an
 interrupt without a solution

---
 verypy/classic_heuristics/gaskell_savings.py        | 2 +-
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 verypy/classic_heuristics/paessens_savings.py       | 2 +-
 verypy/classic_heuristics/suppression_savings.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..11fcedb 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -97,9 +97,9 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             sol = parallel_savings_init(D,d,C,L,minimize_K,sav_f)
         except KeyboardInterrupt as e:  #or SIGINT
             # lambda or pi was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..a5fbe6f 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -268,9 +268,9 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             
         except KeyboardInterrupt as e: #or SIGINT
             # some of the strain function insertion runs was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..439efde 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -115,9 +115,9 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             sol = without_empty_routes(sol)
         except KeyboardInterrupt as e: # or SIGINT
             # some parameter combination was interrupted
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..febe2db 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -135,9 +135,9 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
         except KeyboardInterrupt as e: # or SIGINT
+            interrupted = True
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From 5f3ad16cead0855cc6bd4acdcb5cb859a453c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 12/37] fix: interrupted petal iteration without a solution
 went on searching

---
 verypy/classic_heuristics/petalvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index fca6652..21b9e16 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -863,6 +863,8 @@ def petal_init(points, D, d, C, L, K=None,
             # It may be the case that constraints are so tight that we did not find 
             #  even an infeasbile solution. Do our best to find one by loosening K.
             if not found_solution:
+                if interrupted:
+                    break # the main loop
                 if ptl_set == PTL_SET.RESTRICTED:
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
-- 
2.43.0


From ca8446e5451c7e19e8d753c7fcef6b96975264ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 13/37] fix: interrupt of a problem solve lost the intermediate
 solution

---
 verypy/shared_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 3196197..ec84ea7 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -150,7 +150,7 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
         print_solution_statistics(n_best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     if interrupted:
-        raise KeyboardInterrupt()
+        raise KeyboardInterrupt(best_sol)
     
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
-- 
2.43.0


From 1c9bc6d30fbd342902db5c56178a7611b8fed0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 14/37] fix: 2-opt* returned route records with wrong costs and
 demands

---
 verypy/local_search/inter_route_operators.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..33d159f 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -129,11 +129,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,c]
+                                  +route2_data.fwd_l[j], r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,d]
+                                  +route2_data.rwd_l[j+1], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -164,11 +166,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,d]
+                                  +route2_data.rwd_l[j+1], r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,c]
+                                  +route2_data.fwd_l[j], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +184,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_l, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_l, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_l,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_l,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From 7f3a9a7fb71b661d03d8cac16608db91047b12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 15/37] fix: redistribute could insert the same customer to
 several routes

---
 verypy/local_search/inter_route_operators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 33d159f..7383715 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -567,9 +567,8 @@ def do_redistribute_move(redisributed_route_data,
                 total_delta+=delta
                 if total_delta+S_EPS<best_delta:
                     node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                # do not try to insert the same node to other routes, too
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From a2784faea53459247a5e7c271ea800e8c642b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 16/37] fix: --forbid failed with KeyError on names in upper
 case or unknown names

---
 verypy/VeRyPy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index c163ca3..040c7ec 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -105,9 +105,9 @@ def main(overridden_args=None):
     # get algorithms
     algos = get_algorithms(app_args.active_algorithms)
     if app_args.forbid_algorithms:
-        forbidden_algos = [algo_name_aliases[algo_name]
+        forbidden_algos = [algo_name_aliases[algo_name.lower()]
                            for algo_name in app_args.forbid_algorithms
-                           if (algo_name in app_args.forbid_algorithms)]
+                           if (algo_name.lower() in algo_name_aliases)]
         algos = [a for a in algos if (a[0] not in forbidden_algos)]
 
     # get primary objective
-- 
2.43.0


From 3c44071a99b9acb593861f8da12c9518273c5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 17/37] fix: main program failed with TypeError on problems
 without a capacity

---
 verypy/VeRyPy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 040c7ec..bdb5d4c 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -253,7 +253,9 @@ def main(overridden_args=None):
                     tightness = (sum(d)/(C*sol_K))
                 if not bn in instance_data or sol_K<instance_data[bn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    instance_data[bn] = (N,sol_K,C,
+                                         "%.3f"%tightness if tightness is not None else None,
+                                         L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
-- 
2.43.0


From 880df0d43e9bfb5c399271d27465f2ee32894c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 18/37] fix: collected results failed with KeyError when a
 problem had no solution

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index bdb5d4c..ddf97de 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -300,7 +300,7 @@ def main(overridden_args=None):
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
-                print("\t".join( str(e) for e in instance_data[problem] ),end="")
+                print("\t".join( str(e) for e in instance_data.get(problem, ["-"]*6) ),end="")
             for _, result in sorted(algo_results.items()):
                 print("\t", result,end="")
             print()
-- 
2.43.0


From aa29aa3fc619a5732b9827902c76dc1419f52be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 19/37] fix: service times with a fractional half were rounded
 down

---
 verypy/cvrp_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..43352e8 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -237,8 +237,9 @@ def D2D_c(D, st):
         raise ValueError("Service time not set")
     
     tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    if float(tst)!=float(st) or float(int(tst/2))!=float(st/2.0):
         D_c = D.astype('d')
+        tst = float(st)
         halftst = tst/2.0
     else:
         D_c = np.copy(D)    
-- 
2.43.0


From 50bc572f46496ceda47c60f3bc6d624f612e223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:43 +0000
Subject: [PATCH 20/37] fix: do not pass the service time as the
 print_violations switch

VeRyPy.main -m handed st to validate_solution_feasibility as its sixth
parameter, so with a service time the one line report was mixed with the
checker's messages on stderr.
---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index ddf97de..cb62d68 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -233,7 +233,7 @@ def main(overridden_args=None):
                 print("%s;%s"%(algo_abbreviation, bn),end="")
                 timecap_symbol = "*" if interrupted else ""
                 if sol:
-                    feasible = all( cvrp_ops.validate_solution_feasibility( sol,D_c,d,C,L,st) )
+                    feasible = all( cvrp_ops.validate_solution_feasibility( sol,D_c,d,C,L) )
                     print(";%s;%.2f;%d;%.2f%s"%
                           (str(feasible), sol_q, sol_K, elapsed_t, timecap_symbol))
                 else:
-- 
2.43.0


From b2a9350773941af674978085ae96e1b368bf0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:56 +0000
Subject: [PATCH 21/37] fix: permute the last node's distances too when the
 depot is not the first node

---
 verypy/cvrp_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..3e4319a 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -385,9 +385,9 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
+        for i in range(len(D)):
             D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
+        for i in range(len(D)):
             D[i,:] = D[i,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
-- 
2.43.0


From 352f0029ae8a60e2aa85ee42920fd4ec7a4deb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:17 +0000
Subject: [PATCH 22/37] fix: read service time sections, ignoring the service
 time of the depot

---
 verypy/cvrp_io.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 3e4319a..b9bc5bc 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -419,14 +419,19 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
             if reading_service_time_section:
-                nid, nst = l.split()
+                fields = l.split()
+                # the section ends with the next keyword
+                reading_service_time_section = len(fields)==2 and fields[0].isdigit()
+            if reading_service_time_section:
+                nid, nst = fields
                 if "." in nst:
                     nst = float(nst)
                 else:
                     nst = int(nst)
-                if ST is not None and nst!=ST:
-                    raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
+                # the service time of the depot (node 1) is ignored
+                if int(nid)!=1:
+                    if ST is not None and nst!=ST:
+                        raise IOError("Only single (same) service time for all customers is supported")
                     ST = nst
             if "DISTANCE" in l:
                 if "." in l:
-- 
2.43.0


From adc41fb4a03e1b0f7ac6d8833b9a8520a4df3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:28 +0000
Subject: [PATCH 23/37] fix: count the routes of a solution file

---
 verypy/cvrp_io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index b9bc5bc..b44de6d 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -145,10 +144,10 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
+    if opt_k and opt_k!=count_k:
+        print("WARNING: the vehicle count in file name and solution differ", file=stderr)
     if count_k or not opt_k:
         opt_k = count_k
-    elif opt_k!=count_k:
-        print("WARNING: the vehicle count in file name and solution differ", file=stderr)
 
     return solution, opt_f, opt_k
          
-- 
2.43.0


From b3db0fc3b331ac3bf4eac2f643cbf6ad6515babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 24/37] fix: read the cost line as_OPT_solution writes

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index b44de6d..9765ac2 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -131,7 +131,7 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    coststring = l.split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
-- 
2.43.0


From 98ce101878a8e0683788297a666274b5cce64252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:12 +0000
Subject: [PATCH 25/37] fix: divide by ten under the root in ATT
 (pseudo-Euclidean) distances

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 9765ac2..18bdb1e 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From b3cb36a99ddc508e9d0339e86afdbbc4cc9fe70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:12 +0000
Subject: [PATCH 26/37] fix: add half of a service time to integer seed
 distances in gapvrp

---
 verypy/classic_heuristics/gapvrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..c718032 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -772,8 +772,8 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                     # include the "leaving half" of the service_time in the 
                     #  distances (the other half is already added to the D
                     #  prior to gapvrp_init)
-                    halftst = int(st/2) if int_dists else st/2.0
-                    S[:,1:] += halftst
+                    # S may be integers even if D is not, do not add in place
+                    S = np.hstack( (S[:,:1], S[:,1:]+st/2.0) )
                 D_s = np.vstack( (D_0, S) )
         
                 GAP_infeasible = False        
-- 
2.43.0


From 6a926c192e9df752f43b76a2b54a03513a17650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:45 +0000
Subject: [PATCH 27/37] fix: round EUC_2D distances of exactly a half up, as
 TSPLIB defines

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 18bdb1e..565ffc8 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -90,7 +90,7 @@ def calculate_D(pts, opts=None, tsplib_distances_type='EUC_2D'):
     elif tsplib_distances_type=='FLOOR_2D':
         postprocess = lambda D: np.floor(D).astype(int)
     elif tsplib_distances_type=='EUC_2D':
-        postprocess = lambda D: np.round(D).astype(int)
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='ATT':
         pdtype = lambda v,w : _att(v, w)
     elif tsplib_distances_type=='GEO':
-- 
2.43.0


From bfa2462d635e3c6704d59738d10b6a3bfcc7529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:45 +0000
Subject: [PATCH 28/37] fix: round MAN_2D and MAX_2D distances to the nearest
 integer

---
 verypy/cvrp_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 565ffc8..3e9c035 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -83,8 +83,10 @@ def calculate_D(pts, opts=None, tsplib_distances_type='EUC_2D'):
     
     if tsplib_distances_type=='MAX_2D':
         pdtype = 'chebyshev'
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='MAN_2D':
         pdtype = 'cityblock'
+        postprocess = lambda D: np.floor(D+0.5).astype(int)
     elif tsplib_distances_type=='CEIL_2D':
         postprocess = lambda D: np.ceil(D).astype(int)
     elif tsplib_distances_type=='FLOOR_2D':
-- 
2.43.0


From 7ca8ec9815d13aee1869d940ad8bd273f19e34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 29/37] fix: print the instance info in the collected results
 when asked for with --iinfo

---
 verypy/VeRyPy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index cb62d68..bb1613c 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -44,7 +44,6 @@ __status__ = "Development"
 #TODO: Generic TODO list for the very high level 
 # - Experiment with http://numba.pydata.org/ esp. in local search
 
-PRINT_INSTANCE_DATA = True
 
 def _build_algorithm_help():
     algo_shorthands = sorted(list(set(algo_name_aliases.values())-set(["all","classical"])))
@@ -292,13 +291,13 @@ def main(overridden_args=None):
             
             if print_title:
                 instance_fields = "instance\t"
-                if PRINT_INSTANCE_DATA:
+                if app_args.print_instance_info:
                     #"N K C tightness L st"
                     instance_fields+="N\tK*\tC\ttightness\tL\tst\t"
                 print(instance_fields+"\t".join(algo_names))
                 print_title=False
             print(problem,end="")
-            if PRINT_INSTANCE_DATA:            
+            if app_args.print_instance_info:            
                 print("\t",end="")
                 print("\t".join( str(e) for e in instance_data.get(problem, ["-"]*6) ),end="")
             for _, result in sorted(algo_results.items()):
-- 
2.43.0


From 0ab83e3a2c06d81496f76a8c1c230e033c71165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 30/37] fix: let -D EXACT use the distances without rounding

---
 verypy/VeRyPy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index bb1613c..8dfbb5f 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -162,6 +162,10 @@ def main(overridden_args=None):
             else:
                 points, ewt = cvrp_ops.generate_missing_coordinates(D)
         
+        if app_args.dist_weight_format == "EXACT" and \
+           ewt in ("EUC_2D", "CEIL_2D", "FLOOR_2D"):
+            D = cvrp_io.calculate_D(points, None, "EXACT_2D")
+            ewt = "EXACT_2D"
         if app_args.dist_weight_format == "TRUNCATE":
             D = np.floor(D)
             ewt = "FLOOR_2D"
-- 
2.43.0


From f573acfd4699a31a16fe8c0197d6cde50eae9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 31/37] fix: print the elapsed time also for random problems

---
 verypy/shared_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index ec84ea7..0c4b2b0 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -289,6 +289,7 @@ def cli(init_name, init_desc, init_f):
         best_K = len(D)
         for i in range(best_of_n):
             sol, sol_f, sol_K = None, float('inf'), float('inf')
+            start = time()
             try:
                 sol = init_f(points, D_c, d, C, L, st, wtt, single, minimize_K)
             except KeyboardInterrupt as e:
@@ -298,10 +299,13 @@ def cli(init_name, init_desc, init_f):
                 # if interrupted on initial sol gen, return the best of those
                 if len(e.args)>0 and type(e.args[0]) is list:
                     sol = e.args[0]
+            elapsed = time()-start
             if sol:      
                 sol = cvrp_ops.normalize_solution(sol)
                 sol_f = objf(sol, D_c)
                 sol_K = sol.count(0)-1
+                if print_measured_time or verbosity>=1:
+                    print("SOLVED IN: %.2f s"%elapsed)
                 
                 if is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
                     best_sol = sol
-- 
2.43.0


From a04b44800a60b9a87df25ea557dc453379a701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 32/37] fix: do not print the usage after solving a random
 problem

---
 verypy/shared_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 0c4b2b0..f50dff6 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -316,6 +316,7 @@ def cli(init_name, init_desc, init_f):
                 break
                 
         print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        return
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
-- 
2.43.0


From 994d38e4a48e4465bd9d9119d4ad9c8c5d452b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:36 +0000
Subject: [PATCH 33/37] fix: tiny tours of the LKH and ACOTSP wrappers start
 from the first node and have their true cost

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 2 +-
 verypy/tsp_solvers/tsp_solver_lkh.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index a4e1a3b..9484b5f 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -63,7 +63,7 @@ def solve_tsp_acotsp(D, selected_idxs,
     
     if len(selected_idxs)<=3:
         p=None
-        sol = list(sorted(selected_idxs))
+        sol = list(selected_idxs)
         sol.append(sol[0])
         sol_f = sum(D[sol[i-1]][sol[i]] for i in range(1,len(sol)))
         return sol, sol_f
diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..f08f2f0 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -40,12 +40,12 @@ def solve_tsp_lkh(D, selected_idxs,
     
     if len(selected_idxs)<=3:
         p=None
-        sol = list(sorted(selected_idxs))
+        sol = list(selected_idxs)
         sol.append(sol[0])
         sol_f = 0
         for n in sol:
             if p is not None:
-                sol_f+=int(D[p,n])
+                sol_f+=D[p,n]
             p=n
         return sol, sol_f
 
-- 
2.43.0


From e1d512ffe7cb05d48cf4048373d49c9ce6d1d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:56 +0000
Subject: [PATCH 34/37] fix: tours from the LKH wrapper start from the first
 given node

---
 verypy/tsp_solvers/tsp_solver_lkh.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index f08f2f0..c225049 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -107,8 +107,8 @@ def solve_tsp_lkh(D, selected_idxs,
                 obj_f = float(l.split()[-1])
             elif not skip:
                 vrp_nid = selected_idxs[int(l)-1]
-                if vrp_nid==0:
-                    tail.append(0)
+                if vrp_nid==selected_idxs[0]:
+                    tail.append(vrp_nid)
                     depot_found = True
                 if depot_found:                    
                     sol.append(vrp_nid)
@@ -117,8 +117,6 @@ def solve_tsp_lkh(D, selected_idxs,
             if l == "TOUR_SECTION":
                 skip = False
         sol+=tail
-        if not depot_found:
-            sol+=[sol[0]]
         
     os.remove(temp_problem_file_path) 
     os.remove(temp_parameter_file_path) 
-- 
2.43.0


From 818e107b18e2c394ec05be27edc1c7d10d3c18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:08 +0000
Subject: [PATCH 35/37] fix: the Gurobi TSP wrapper returns a tour also for a
 single node

---
 verypy/tsp_solvers/tsp_solver_gurobi.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_gurobi.py b/verypy/tsp_solvers/tsp_solver_gurobi.py
index d4c04d2..7b1ad0b 100644
--- a/verypy/tsp_solvers/tsp_solver_gurobi.py
+++ b/verypy/tsp_solvers/tsp_solver_gurobi.py
@@ -66,13 +66,10 @@ def solve_tsp_gurobi(D, selected_idxs):
     
     # no need to invoke Gurobi for tiny TSP cases
     if n<=3:
-        sol = None
-        obj_f = 0.0
-        if n>1:
-            sol = list(selected_idxs)
-            if sol[0]!=sol[-1]:
-                sol.append(sol[0])            
-            obj_f = sum( D[sol[i-1],sol[i]] for i in range(1,len(sol)) ) 
+        sol = list(selected_idxs)
+        if sol[0]!=sol[-1]:
+            sol.append(sol[0])            
+        obj_f = sum( D[sol[i-1],sol[i]] for i in range(1,len(sol)) ) 
         return sol, obj_f 
         
     m = Model("TSP")
-- 
2.43.0


From 1762cf59459850f6eb19faf738ca6b195213b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:19 +0000
Subject: [PATCH 36/37] fix: shuffling a closed tour does not visit its end
 point twice

---
 verypy/tsp_solvers/tsp_solver_ropt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_ropt.py b/verypy/tsp_solvers/tsp_solver_ropt.py
index 7fce828..6cd9bfd 100644
--- a/verypy/tsp_solvers/tsp_solver_ropt.py
+++ b/verypy/tsp_solvers/tsp_solver_ropt.py
@@ -24,7 +24,7 @@ def solve_tsp_ropt(D, selected_idxs,
     endp = selected_idxs[0]
     
     if do_shuffle:
-        shuffled_idxs = list(selected_idxs[1:])
+        shuffled_idxs = [n for n in selected_idxs[1:] if n!=endp]
         shuffle(shuffled_idxs)
         new_route = [endp]+shuffled_idxs+[endp]
     elif selected_idxs[-1]!=endp:
-- 
2.43.0


From e5f863871f66996c034cb69dc337899191ea12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 37/37] fix: nearest neighbor lists leave out the node itself,
 not the first node in the same place

---
 verypy/classic_heuristics/nearest_neighbor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..b403dfe 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -164,9 +164,10 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
-        node_nearest_neighbors[i].popleft() # pop reference to self
+        # leave out the reference to self (it is not necessarily the first one,
+        #  as there can be other nodes in the same place)
+        node_nearest_neighbors[i] = _PeekQueue( sorted(
+            (nn for nn in enumerate(D[i][:]) if nn[0]!=i), key=itemgetter(1)) )
         
     # bookkeeping on the nodes that we have already served
     served = [False]*N
-- 
2.43.0

