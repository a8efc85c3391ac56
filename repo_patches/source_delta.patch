From 1e14263c82b6626afa2dc43c1b11e51f8e39a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 01/75] fix: save transition probabilities with full precision

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..d565b8e 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %r\n" % (source, dest, float(p)))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..cf26d6b 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %r\n" % (source, action, dest, float(p)))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 942cc10844f0ce884ed9a9019d1b223902f2c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 02/75] fix: save MDP transitions in row order so that loading
 keeps the row indices

---
 switss/model/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index cf26d6b..99ce5c7 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -121,7 +121,7 @@ class MDP(AbstractMDP):
 
         with open(tra_path, "w") as tra_file:
             tra_file.write("%d %d %d\n" % (self.N, self.C, self.P.nnz))
-            for (index,dest), p in self.P.items():
+            for (index,dest), p in sorted(self.P.items()):
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
                     tra_file.write("%d %d %d %r\n" % (source, action, dest, float(p)))
-- 
2.43.0


From 974ffa07499d5cba85ea3663a78206c45267432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 03/75] fix: derive fail transitions of a reduced system from
 the removed successors

Computing them as 1 - (sum of the remaining entries) created spurious fail
transitions from floating-point noise, which hid proper end components.
---
 switss/model/reachability_form.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..ac35db9 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -329,6 +329,8 @@ class ReachabilityForm:
             print("shape of new_P (%s,%s)" % (new_C,new_N))
 
         to_target = np.zeros(new_C)
+        # probability of moving to a removed state in one step
+        to_fail = np.zeros(new_C)
 
         # mask for faster access
         target_mask = np.zeros(system.N, dtype=bool)
@@ -345,6 +347,8 @@ class ReachabilityForm:
                     if dest in to_rf_cols:
                         newdest = to_rf_cols[dest]
                         new_P[newidx, newdest] = system.P[idx, dest]
+                    else:
+                        to_fail[newidx] += system.P[idx, dest]
         if debug:
             print("computed transition matrix & to_target")
 
@@ -352,6 +356,7 @@ class ReachabilityForm:
             new_P, 
             new_index_by_state_action,
             to_target, 
+            to_fail, 
             to_rf_rows, 
             system, 
             new_target_label, 
@@ -369,7 +374,7 @@ class ReachabilityForm:
         return rf, to_rf_cols, to_rf_rows
 
     @staticmethod
-    def __initialize_system(P, index_by_state_action, to_target, mapping, configuration, target_label, fail_label):
+    def __initialize_system(P, index_by_state_action, to_target, to_fail, mapping, configuration, target_label, fail_label):
         C,N = P.shape
         P_compl = dok_matrix((C+2, N+2))
         target_state, fail_state = N, N+1
@@ -408,17 +413,14 @@ class ReachabilityForm:
         label_to_states[fail_label].add(fail_state)
         label_to_states[target_label].add(target_state)
 
-        not_to_fail = np.zeros(C)
         for (idx, dest), p in P.items():
-            not_to_fail[idx] += p
             P_compl[idx, dest] = p
 
         for idx, p_target in enumerate(to_target):
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
-            p_fail = 1 - (p_target + not_to_fail[idx])
-            if p_fail > 0:
-                P_compl[idx, fail_state] = p_fail
+            if to_fail[idx] > 0:
+                P_compl[idx, fail_state] = to_fail[idx]
 
         P_compl[C, target_state] = 1
         P_compl[C+1, fail_state] = 1
-- 
2.43.0


From 25ad423d2c9b43a7be9e10545b03d325cdfeb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 04/75] fix: populate subsystems from the actual transitions

1 - (sum of the kept entries) yielded spurious or negative fail probabilities
(failing assertion) because of floating-point noise.
---
 switss/problem/subsystem.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..b5cb1fb 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -129,31 +129,22 @@ class Subsystem:
         new_P[new_C+1, fail_state] = 1
         new_P[new_C, target_state] = 1
 
-        not_to_fail = np.zeros(new_C)
-
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if target >= N-2 or source >= N-2:
-                # P also contains target & fail state - but state_vector only has N-2 entries
+            # the rows of target & fail state have already been added
+            if source >= N-2 or not state_vector[source] or prob == 0:
                 continue
 
-            if state_vector[source] == True and state_vector[target] == True:
-                new_source = new_to_old_states.inv[source]
-                new_target = new_to_old_states.inv[target]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx,new_target] = prob
-                not_to_fail[new_row_idx] += prob
-
-        # populate probabilities to fail
-        # maps every target state with probability 1 to itself.
-        for rowidx, p_target in enumerate(reach_form.to_target):
-            (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if state_vector[source] == True:
-                new_source = new_to_old_states.inv[source]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+            new_source = new_to_old_states.inv[source]
+            new_row_idx = new_index_by_state_action[(new_source,action)]
+            if target == N-2:
+                new_P[new_row_idx,target_state] += prob
+            elif target < N-2 and state_vector[target] == True:
+                new_P[new_row_idx,new_to_old_states.inv[target]] += prob
+            else:
+                # transitions to removed states and to fail
+                new_P[new_row_idx,fail_state] += prob
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 3f70648a2820a896a775997d59ab6362ac6ab1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 05/75] fix: keep the action labels of a subsystem

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index b5cb1fb..2e378cf 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From d7936dbd89580cff044aa2a323a18cbe3410f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 06/75] fix: later queries no longer change Farkas constraints
 that were already returned

---
 switss/model/reachability_form.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index ac35db9..ab1b387 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -514,7 +514,7 @@ class ReachabilityForm:
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
             self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -525,7 +525,7 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -549,7 +549,7 @@ p        .. math::
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
             self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
         b = cast_dok_matrix(self.to_target)
 
@@ -559,7 +559,7 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From 73ebc88783ebf8e8b9666d243f24eb543de7f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 07/75] fix: max_y_state is the sum over the actions of a
 state, as documented

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index ab1b387..97b3edc 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -668,7 +668,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..84d2501 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -309,7 +309,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From 00321d140241886cd660dc8988148ded67f926cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 08/75] fix: keep transition probabilities of the graph in
 double precision

---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..ae48d8a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From f53d09ea37e1faf5eecbd60b22098aa93216c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 09/75] fix: explicitly stored zero entries of a matrix are no
 transitions

---
 switss/utils/graph.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index ae48d8a..6df684e 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -37,8 +37,10 @@ cdef class Graph:
             for i in range(self.nodecount):
                 self.nodes[i] = Node(NULL,NULL,0,0)
             for (i,d),p in P.items():
-                s,a = index_by_state_action.inv[i]
-                self.add_successor(s,a,p,d)
+                # explicitly stored zeros are no transitions
+                if p > 0:
+                    s,a = index_by_state_action.inv[i]
+                    self.add_successor(s,a,p,d)
 
     def get_nodecount(self):
         return self.nodecount
-- 
2.43.0


From bee4740b3c2c897b7baae212cabce5abdfd28050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 10/75] fix: strongly_connected_components of a model raised an
 AttributeError

---
 switss/utils/graph.pyx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 6df684e..e71955d 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -135,7 +135,7 @@ cdef class Graph:
 
 
     # Implementation of Tarjan's Algorithm (possibly on a subgraph defined by the state-set 'treap')
-    cdef (int) strongly_connected_components(self, TNode* treap, int* sccs):
+    cdef (int) subgraph_sccs(self, TNode* treap, int* sccs):
 
         cdef int subg_nodescount = treap.size
         cdef int* subg_arr = <int *> malloc(subg_nodescount * sizeof(int))
@@ -175,6 +175,23 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the whole graph.
+    # returns a tuple (sccs,nr_sccs) where sccs is a vector containing for each state the scc-index it belongs to.
+    def strongly_connected_components(self):
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef TNode* treap = NULL
+        for i in range(self.nodecount):
+            treap = add_to_treap(treap,i)
+
+        count = self.subgraph_sccs(treap,sccs)
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        for i in range(self.nodecount):
+            ret[i] = sccs[i]-1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, count
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
@@ -217,7 +234,7 @@ cdef class Graph:
             while j < subg_nodecount:
                 j += 1
             
-            compcount = self.strongly_connected_components(subg_treap,sccs)
+            compcount = self.subgraph_sccs(subg_treap,sccs)
 
             j = 0
             while j < self.nodecount:
-- 
2.43.0


From a783542e9a13cd75d2d29e3a35998b1da1e367b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 11/75] fix: negative rewards raise the intended AssertionError
 instead of a NameError

---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..0bdf1a5 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
-- 
2.43.0


From 09a7068fae782d84449d7265e6cb6c693c1e7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 12/75] fix: check_farkas_certificate rejects state-action
 certificates with negative entries

Without y >= 0 the remaining conditions do not imply the claim.
---
 switss/certification/certificates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..0f0cc07 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -110,6 +110,11 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
                 if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
                     return False
 
+    # certificates over state-action pairs need to be nonnegative
+    if (mode == "min") == (sense in ["<=","<"]):
+        if not (farkas_vec >= -tol).all():
+            return False
+
     res_vec = farkas_matr.dot(farkas_vec)
 
     if sense == "<=":
-- 
2.43.0


From 2a3007b91b79da8673db6ce32318c3e6951eced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 13/75] fix: force the state-action variables of end components
 to zero in certificate generation

---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 0f0cc07..3bccfbd 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -167,7 +167,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From 3f93d80f35b55da875de274b4a0b9f7f6f048476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 14/75] fix: remove_constraint accepts the index returned by
 add_constraint

---
 switss/solver/milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..606b6d5 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -166,10 +166,10 @@ class MILP:
     def remove_constraint(self, constridx):
         """removes a given constraint from the model.
 
-        :param constridx: the name of the constraint
-        :type constridx: str
+        :param constridx: index of the constraint, as returned by add_constraint
+        :type constridx: int
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop("c%d" % constridx)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From 37402225ab35bc7b8e13c6c752992396b12a10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 15/75] fix: LP.add_variables raised a TypeError

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 606b6d5..c7c2038 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -337,7 +337,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 0e412483edef7f40c3d3583b336e6b29ad0f119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 16/75] fix: setting an objective function replaces the
 previous one

---
 switss/solver/milp.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index c7c2038..9be0eec 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -54,7 +54,6 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
-        self.__set_objective_function = False
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -120,12 +119,7 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        if not self.__set_objective_function:
-            self.__set_objective_function = True
-            self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
-        else:
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+        self.__pulpmodel.setObjective(pulp.LpAffineExpression(self._expr_to_pulp(expression)))
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
-- 
2.43.0


From edcc3871ec8742bffceaf29a42d2182eb37e8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 17/75] fix: MILPExact failed for reward reachability forms in
 max mode

The grouping of state-action pairs needs index_by_state_action.
---
 switss/model/reward_reachability_form.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 84d2501..542c7db 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -34,6 +34,13 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def index_by_state_action(self):
+        """
+        Returns a bidict which maps state-action pairs to indices (i.e. rows) of the matrix P, and vice versa
+        """
+        return self.__index_by_state_action
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From 98baf27ebd9b7dbc9996a0cef50f50424d2ceda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 18/75] fix: RewardReachabilityForm.reduce ignored
 new_target_label

---
 switss/model/reward_reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 542c7db..661e4ac 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -69,7 +69,7 @@ class RewardReachabilityForm:
     @staticmethod
     def reduce(system, initial_label, target_label, new_target_label="rrf_target", debug=False, ignore_consistency_checks=False):
 
-        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label)
+        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label, new_target_label=new_target_label)
         RewardReachabilityForm.assert_reachform_consistency(reach_form)
 
         return RewardReachabilityForm(reach_form, reach_form.system.reward_vector[:-2]), to_rf_cols, to_rf_rows
-- 
2.43.0


From e0a45e9d6d6a98e3d02c82a3e829838e812776bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 19/75] fix: subsystems of reward reachability forms could not
 be materialised

Subsystem.subsys needs the label of the fail state.
---
 switss/model/reward_reachability_form.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 661e4ac..6c81857 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
-- 
2.43.0


From a4efd7e24976ac8408a46cba832e21edc930aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 20/75] fix: RewardReachabilityForm.fromsystem raised an
 AttributeError

It also no longer modifies the given system.
---
 switss/model/reward_reachability_form.py | 33 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 6c81857..d78acc6 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -55,13 +55,32 @@ class RewardReachabilityForm:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
         # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
-
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
-
-        system.add_label(N, "rf_fail")
+        N = system.N
+        C = system.C
+
+        P = dok_matrix((C+1, N+1))
+        for (idx,dest), p in system.P.items():
+            P[idx,dest] = p
+        P[C,N] = 1
+
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N,0)] = C
+
+        label_to_states = { label : set(states) for label,states in system.states_by_label.items() }
+        label_to_states["rf_fail"] = {N}
+        label_to_actions = { label : set(actions) for label,actions in system.actions_by_label.items() }
+
+        reward_vector = np.zeros(C+1)
+        for idx in range(C):
+            reward_vector[idx] = system.reward_vector[idx]
+
+        system = type(system)(
+            P=P,
+            index_by_state_action=index_by_state_action,
+            label_to_states=label_to_states,
+            label_to_actions=label_to_actions,
+            vis_config=system.visualization,
+            reward_vector=reward_vector)
 
         # initialize underlying reachability form
         return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
-- 
2.43.0


From 6be80bdc20b63cd94a38bc025a4ca8a6b70ca6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 21/75] fix: do not print debug output when creating reward
 reachability forms

---
 switss/model/reward_reachability_form.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index d78acc6..043b0a1 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -115,10 +115,6 @@ class RewardReachabilityForm:
 
         mecs,proper_mecs,nr_of_mecs = reachform.system.maximal_end_components()
 
-        print("mecs:" + str(mecs))
-        print("proper_mecs:" + str(proper_mecs))
-        print("nr_of_mecs:" + str(nr_of_mecs))
-
         assert (sum(proper_mecs) == 2), "there is some proper end component apart from the target and fail state"
 
     @staticmethod
-- 
2.43.0


From 69688bc99ca76bcb4703b3b91b84751129e6fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 22/75] fix: an InvertibleDict no longer shares its sets with
 the given dictionary

add_label on one model changed the caller's dictionary and other models built from it.
---
 switss/utils/invertible_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..6107306 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,7 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        self.__d = { k : v.copy() for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From 3f82a70ecb1b7d781d5430e475425d32f694a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 23/75] fix: prism_to_tra accepts dictionaries of constants and
 labels, as documented

---
 switss/prism/prism.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..3fdc5ac 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -62,14 +62,16 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
-    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
+    # both dictionaries and iterables of pairs are supported
+    prism_constants, extra_labels = dict(prism_constants), dict(extra_labels)
+    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants.items()])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
-        for (label_name, label_expr) in extra_labels:
+        for (label_name, label_expr) in extra_labels.items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
 
-- 
2.43.0


From c7d22bb07f087a5f132c3cf31ee21b5d13aa1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 24/75] fix: extra labels were appended to the last line of a
 prism model without final line break

---
 switss/prism/prism.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 3fdc5ac..094895f 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -71,6 +71,9 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
+        if len(extra_labels) > 0:
+            # the last line of the model (possibly a comment) may lack a line break
+            namedtf.write("\n".encode("utf-8"))
         for (label_name, label_expr) in extra_labels.items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
-- 
2.43.0


From aaf75ed3c6e3b21f6f8919f054c482ddc121899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 25/75] fix: DTMC.from_stormpy raised a TypeError

---
 switss/model/dtmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index d565b8e..70ce7a6 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -141,7 +141,9 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
+    def from_stormpy_model(cls,stormpy_model, choice_model = False):
+
+        assert not choice_model, "choice models are only supported for MDPs."
         
         #assert stormpy_model.model_type == "ModelType.MDP"
 
-- 
2.43.0


From c21889cc4242d3e55190ee373c23085645ef6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 26/75] fix: keep the state labels of imported stormpy DTMCs

---
 switss/model/dtmc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 70ce7a6..0193f44 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,4 +1,5 @@
 from bidict import bidict
+from collections import defaultdict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
 
@@ -153,10 +154,14 @@ class DTMC(AbstractMDP):
 
         P.resize((N,N))
 
+        label_to_states = defaultdict(set)
+
         for state in stormpy_model.states:
             sid = state.id
+            for label in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[label].add(sid)
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From 38677c56acc55e4d0dbe630e4c9e1dbc28a57398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 27/75] fix: choice labels of imported stormpy models were
 attached to the next choice

---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 99ce5c7..96b0517 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -268,8 +268,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From 0a4af34d72ee8ae35aed19349196487438a5409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 28/75] fix: TreeAlgo reported success after an infeasible or
 unsolved instance

---
 switss/problem/tree_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 9c49c8d..6778bab 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -34,6 +34,7 @@ class TreeAlgo(ProblemFormulation):
             print("res_min: " + str(res_min.value))
             if res_min.status != "success" or res_max.status != "success":
                 yield ProblemResult("infeasible",None,None,None)
+                return
 
             upper_bound = min(res_max.value, res_min.value)
 
@@ -53,5 +54,6 @@ class TreeAlgo(ProblemFormulation):
                                              timeout=timeout)
         if res == -1:
             yield ProblemResult("notsolved",None,None,None)
+            return
 
         yield ProblemResult("success", None, res, None)
-- 
2.43.0


From 7101ed0fa074eeb70ee6965ecb5f22da0de635bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 29/75] fix: switss minimize passed the mode to the wrong call
 and crashed on unsolved instances

---
 bin/switss | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..f47db83 100755
--- a/bin/switss
+++ b/bin/switss
@@ -82,6 +82,7 @@ def minargs(args):
             methodparams[k] = {C.__name__ : C for C in [
                 InverseResultUpdater
             ]}[methodparams[k]]
+    mode = methodparams.pop("mode")
     method = methodtype(**methodparams)
     vprint("method is %s" % method)
 
@@ -96,10 +97,13 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        if result.status != "success":
+            vprint("instance %s was not solved: %s" % (idx,result.status))
+            return
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +111,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
-- 
2.43.0


From ad86345dae490923b3a35389138f85add35470e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 30/75] fix: benchmarks of several methods with a single mode
 iterated over its characters

---
 switss/benchmarks/benchmarks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 6afeea6..d43d282 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -71,11 +71,12 @@ def run(reachability_form,
     assert isinstance(reachability_form, ReachabilityForm)
     
     if isinstance(method, Iterable):
+        modes = [mode] if isinstance(mode, str) else mode
         ret = []
-        for idx,(me,mo) in enumerate(itertools.product(method,mode)):
+        for idx,(me,mo) in enumerate(itertools.product(method,modes)):
             if debug:
                 print("="*50)
-                print("running benchmark %s/%s" % (idx+1, len(method)*len(mode)))
+                print("running benchmark %s/%s" % (idx+1, len(method)*len(modes)))
             data = run(reachability_form, 
                        me, mo, from_thr, 
                        to_thr, step, 
-- 
2.43.0


From d7688bad12f5ad97db803408292abc3ff0d5575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 31/75] fix: benchmark thresholds range from from_thr to to_thr

The greatest threshold 1 was left out, and rounding errors could add one beyond to_thr.
---
 switss/benchmarks/benchmarks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index d43d282..08d2da8 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -89,7 +89,8 @@ def run(reachability_form,
 
     assert isinstance(method, ProblemFormulation)
 
-    thresholds = np.arange(from_thr, min(1,to_thr+step), step)
+    # includes to_thr (up to rounding errors), but no threshold beyond it
+    thresholds = np.minimum(np.arange(from_thr, min(1,to_thr) + 1e-6*step, step), 1)
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From 61a593a071e84c67c239ff2e880b742af7adb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 32/75] fix: value of problems without objective function

---
 switss/solver/milp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 9be0eec..df2bc1e 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -92,7 +92,11 @@ class MILP:
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
         result_vector = np.array([var.value() for var in self.__variables])
-        value = self.__pulpmodel.objective.value()
+        objective = self.__pulpmodel.objective
+        value = objective.value() if objective is not None else None
+        # every feasible vector has value zero if there is no or an empty objective function
+        if value is None and status == "optimal":
+            value = 0.0
 
         return SolverResult(status, result_vector, value)
 
-- 
2.43.0


From 5543888a1c7ffd138b288da60980117872d09d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 33/75] fix: variables without any constraint had no value in
 an optimal solution

---
 switss/solver/milp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index df2bc1e..edc11b3 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -92,6 +92,14 @@ class MILP:
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
         result_vector = np.array([var.value() for var in self.__variables])
+        if status == "optimal":
+            # variables that do not occur in the problem are unknown to the solver and may have any value within their bounds
+            for idx,var in enumerate(self.__variables):
+                if result_vector[idx] is None:
+                    lb = -np.inf if var.lowBound is None else var.lowBound
+                    ub = np.inf if var.upBound is None else var.upBound
+                    result_vector[idx] = np.clip(0.0, lb, ub)
+            result_vector = result_vector.astype(float)
         objective = self.__pulpmodel.objective
         value = objective.value() if objective is not None else None
         # every feasible vector has value zero if there is no or an empty objective function
-- 
2.43.0


From ce79b3f0dd6fb9998541911875ce6c7e9b39aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 34/75] fix: subsystems of MILPExact contained states of groups
 that were not selected, due to solver precision

---
 switss/problem/milpexact.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/switss/problem/milpexact.py b/switss/problem/milpexact.py
index 57331f3..0b49eae 100644
--- a/switss/problem/milpexact.py
+++ b/switss/problem/milpexact.py
@@ -54,7 +54,7 @@ class MILPExact(ProblemFormulation):
         }
 
     def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
-        model, _ = construct_MILP(reach_form, 
+        model, indicators = construct_MILP(reach_form, 
                                   threshold, 
                                   mode=mode, 
                                   labels=labels, 
@@ -70,6 +70,11 @@ class MILPExact(ProblemFormulation):
                 yield ProblemResult(result.status, None, None, None)
             else:
                 certsize = certificate_size(reach_form, mode)
-                certificate = result.result_vector[:certsize]
+                certificate = result.result_vector[:certsize].copy()
+                # groups that were not selected may have a tiny positive value due to the solvers precision
+                for indicator, group in indicators.items():
+                    if result.result_vector[indicator] < 0.5:
+                        for var in group:
+                            certificate[var] = 0
                 witness = Subsystem(reach_form, certificate, mode)
                 yield ProblemResult("success", witness, result.value, certificate)
-- 
2.43.0


From 8f97ea2b2f112ca0052d343103f0b708e75f5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 35/75] fix: treap_from_arr did not terminate on a non-empty
 array

---
 switss/utils/treaps.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index cba336c..3ca53ac 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -99,6 +99,7 @@ cdef TNode* treap_from_arr(int* arr, int arr_size):
     cdef int i = 0
     while i < arr_size:
         treap = add_to_treap(treap, arr[i])
+        i += 1
     return treap
 
 cdef void treap_to_arr(TNode* treap, int* arr):
-- 
2.43.0


From f31062a2bbcdfa0ac8444f7d393a3d98b35c9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 36/75] fix: a row of P that does not sum to one raised a
 TypeError instead of the AssertionError

---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 0bdf1a5..a6f1789 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -69,7 +69,7 @@ class AbstractMDP(ABC):
         """
         # make sure all rows of P sum to one
         for idx,s in enumerate(self.P.sum(axis=1)):  
-            assert np.round(s,9) == 1, "Sum of row %d of P is %f but should be 1." % (idx, s)
+            assert np.round(s,9) == 1, "Sum of row %d of P is %f but should be 1." % (idx, s.item())
         # make sure that all values x are 0<=x<=1
         for (i,j), p in self.P.items():
             assert p >= 0 and p <= 1, "P[%d,%d]=%f, violating 0<=%f<=1." % (i,j,p,p)
-- 
2.43.0


From 885efd91d9981739d129a097fc348a555e301678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 37/75] fix: a non-square matrix for a DTMC raised a TypeError
 instead of the AssertionError

---
 switss/model/dtmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 0193f44..42dd84d 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -26,7 +26,7 @@ class DTMC(AbstractMDP):
         """
         # transform P into dok_matrix if neccessary
         P =  cast_dok_matrix(P)  
-        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % P.shape
+        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % (P.shape,)
         if index_by_state_action is None:
             index_by_state_action = bidict()
             for i in range(P.shape[0]):
-- 
2.43.0


From ca75a78e0a52b43683f152502a796c1b6c24dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 38/75] fix: all but the last occurrence of a variable in an
 expression were lost

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index edc11b3..7093c30 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -114,7 +114,11 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        # a variable may occur several times in a sum
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var, 0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
-- 
2.43.0


From 3539f34fff81e13f45680a908b8bb5f49c4a6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 39/75] fix: from_coefficients failed without objective
 function (opt=None)

---
 switss/solver/milp.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 7093c30..edbc0e8 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -245,9 +245,6 @@ class MILP:
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-
-        opt = cast_dok_matrix(opt)
-
         model = MILP(objective=objective)
 
         # initialize problem
@@ -257,7 +254,9 @@ class MILP:
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
@@ -572,8 +571,6 @@ class GurobiMILP(MILP):
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        opt = cast_dok_matrix(opt)
-
         model = GurobiMILP(objective=objective)
 
         # initialize problem
@@ -583,7 +580,9 @@ class GurobiMILP(MILP):
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From 4fc5e70c9f03034c8758eb6bca6b21b73e1748de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 40/75] fix: solving failed if a variable did not occur anymore
 (removed constraint, replaced objective)

---
 switss/solver/milp.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index edbc0e8..c2a57e0 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -67,30 +67,34 @@ class MILP:
         if timeout != None:
             assert isinstance(timeout,int), "timeout must be specified in seconds as integer value"
 
+        # pulp remembers variables that do not occur anymore (e.g. after the removal of a constraint), with
+        # which solvers fail, and it adds dummy variables to the problem. thus a copy is solved
+        problem = self.__pulpmodel.deepcopy()
+
         if solver == "gurobi":
             gurobi_options = [
                 ("MIPGap",0), ("MIPGapAbs",0), ("FeasibilityTol",1e-9),\
                 ("IntFeasTol",1e-9),("NumericFocus",3)]
             if timeout != None:
                 gurobi_options.append(("TimeLimit",str(timeout)))
-            self.__pulpmodel.setSolver(pulp.GUROBI_CMD(msg=print_output,options=gurobi_options))
+            problem.setSolver(pulp.GUROBI_CMD(msg=print_output,options=gurobi_options))
         elif solver == "cbc":
             cbc_options = ["--integerT","0"]
-            self.__pulpmodel.setSolver(
+            problem.setSolver(
                 pulp.PULP_CBC_CMD(gapRel=1e-9,timeLimit=timeout,msg=print_output,options=cbc_options))
         elif solver == "glpk":
             glpk_options = ["--tmlim",str(timeout)] if timeout != None else []
-            self.__pulpmodel.setSolver(pulp.GLPK_CMD(msg=print_output,options=glpk_options))
+            problem.setSolver(pulp.GLPK_CMD(msg=print_output,options=glpk_options))
         elif solver == "cplex":
-            self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
+            problem.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
-        self.__pulpmodel.solve()
+        problem.solve()
 
         status = {   1:"optimal",
                      0:"notsolved",
                     -1:"infeasible", 
                     -2:"unbounded", 
-                    -3:"undefined"}[self.__pulpmodel.status]
+                    -3:"undefined"}[problem.status]
         result_vector = np.array([var.value() for var in self.__variables])
         if status == "optimal":
             # variables that do not occur in the problem are unknown to the solver and may have any value within their bounds
-- 
2.43.0


From 50689c148a1eb018a823a236459ab11c4a836d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 41/75] fix: LP.from_coefficients returned a MILP and did not
 accept lists

---
 switss/solver/milp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index c2a57e0..2b2dc08 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -249,14 +249,14 @@ class MILP:
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        model = MILP(objective=objective)
+        model = cls(objective=objective)
 
         # initialize problem
         # this adds the variables and the objective function (which is opt^T*x, i.e. sum_{i=1}^N opt[i]*x[i])
         if bounds is not None:
             model.add_variables_w_bounds([(domains[idx],bounds[idx][0],bounds[idx][1]) for idx in range(A.shape[1])])
         else:
-            model.add_variables([domains[idx] for idx in range(A.shape[1])])
+            model.add_variables_w_bounds([(domains[idx],None,None) for idx in range(A.shape[1])])
 
         if opt is not None:
             opt = cast_dok_matrix(opt)
@@ -340,7 +340,8 @@ class LP(MILP):
         :return: The resulting LP.
         :rtype: solver.LP
         """
-        return MILP.from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
+        A = cast_dok_matrix(A)
+        return super().from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
 
     def add_variables(self, count):
         """Adds a number of variables to the LP.
-- 
2.43.0


From dfb1cd8f203bada5d65eac89e9ad4f6e48bf3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 42/75] fix: MILPExact reported feasible reward thresholds as
 infeasible if no upper bounds could be computed

---
 switss/problem/formulations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..9e3afc3 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -212,8 +212,9 @@ def construct_MILP(rf, threshold, mode, labels=None, relaxed=False, known_upper_
         elif status == "optimal":
             upper_bounds = up_res
 
-    if not relaxed and mode == "max" and upper_bounds is None:
-        assert modeltype_str == "gurobi", "warning: exact minimization of max-properties only possible via gurobi interface at the moment."
+    # without upper bounds, the indicator constraints of the MILP would exclude all vectors with entries above 1
+    if not relaxed and upper_bounds is None:
+        assert modeltype_str == "gurobi", "warning: exact minimization without upper bounds (max-properties, or failed computation of upper bounds) only possible via gurobi interface at the moment."
 
         use_real_indicator_constrs = True
 
-- 
2.43.0


From 4da78c65009c17212298d0ff4fa521474248a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:15 +0000
Subject: [PATCH 43/75] Undo the changes of the benchmark runner (kept as
 findings)

---
 switss/benchmarks/benchmarks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 08d2da8..6afeea6 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -71,12 +71,11 @@ def run(reachability_form,
     assert isinstance(reachability_form, ReachabilityForm)
     
     if isinstance(method, Iterable):
-        modes = [mode] if isinstance(mode, str) else mode
         ret = []
-        for idx,(me,mo) in enumerate(itertools.product(method,modes)):
+        for idx,(me,mo) in enumerate(itertools.product(method,mode)):
             if debug:
                 print("="*50)
-                print("running benchmark %s/%s" % (idx+1, len(method)*len(modes)))
+                print("running benchmark %s/%s" % (idx+1, len(method)*len(mode)))
             data = run(reachability_form, 
                        me, mo, from_thr, 
                        to_thr, step, 
@@ -89,8 +88,7 @@ def run(reachability_form,
 
     assert isinstance(method, ProblemFormulation)
 
-    # includes to_thr (up to rounding errors), but no threshold beyond it
-    thresholds = np.minimum(np.arange(from_thr, min(1,to_thr) + 1e-6*step, step), 1)
+    thresholds = np.arange(from_thr, min(1,to_thr+step), step)
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From b9c236d0f012198031a8e290f126a1bdd2301d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 44/75] fix: 'switss subsystem' always failed because models
 could not be copied

---
 switss/utils/graph.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index e71955d..e82cc5a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -42,6 +42,10 @@ cdef class Graph:
                     s,a = index_by_state_action.inv[i]
                     self.add_successor(s,a,p,d)
 
+    # a graph never changes after its creation, so copies of a model can share it
+    def __deepcopy__(self, memo):
+        return self
+
     def get_nodecount(self):
         return self.nodecount
 
-- 
2.43.0


From b9d5ae3b5727576092ffbaab67b92877b9c44725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 45/75] fix: explicitly stored zero entries were rendered as
 transitions and counted in saved models

---
 switss/model/amdp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index a6f1789..811ff3d 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -36,7 +36,10 @@ class AbstractMDP(ABC):
         :type vis_config: VisualizationConfig
         """        
         # transform P into dok_matrix if neccessary
-        self.P = cast_dok_matrix(P)
+        P = cast_dok_matrix(P).tocsr()
+        # explicitly stored zeros are no transitions
+        P.eliminate_zeros()
+        self.P = P.todok()
         # for fast column & row slicing
         self.__P_csc = self.P.tocsc()
         self.__P_csr = self.P.tocsr()
-- 
2.43.0


From 5c69fdab5b9bf41b220d6c7e0d9e74def547fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 46/75] fix: rendering a subsystem failed if the subsystem is
 no reachability form itself

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 2e378cf..d90d035 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -181,7 +181,7 @@ class Subsystem:
             in_subsystem = not is_fail and not is_target and self.subsystem_mask[stateidx]
 
             sm = visualization.state_map(stateidx,labels)
-            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.subsys.system, DTMC)))
+            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.supersys.system, DTMC)))
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-- 
2.43.0


From 19ee913166cb6fb822df96a930735647bd44422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 47/75] fix: rendering a subsystem failed if the state map
 yields no label

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index d90d035..044fe94 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -185,7 +185,7 @@ class Subsystem:
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-                label = sm["label"]
+                label = sm.get("label", "")
                 cert = self.certificate[stateidx]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
                 else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
-- 
2.43.0


From a3b26e4a2599227dab3f4aed3b87cb7faea82fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 48/75] fix: renderings of DTMC subsystems showed certificate
 values of other states if the rows are permuted

---
 switss/problem/subsystem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 044fe94..26c7919 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -186,9 +186,10 @@ class Subsystem:
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
                 label = sm.get("label", "")
-                cert = self.certificate[stateidx]
-                if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
-                else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
+                index = stateidx if self.certform == "min" else self.supersys.system.index_by_state_action[(stateidx, 0)]
+                cert = self.certificate[index]
+                if label == "": label = "c[{}]={:.5f}".format(index, cert)
+                else: label = "{}\nc[{}]={:.5f}".format(label, index, cert)
                 return { **sm, **{ "label" : label } }
             else:
                 return sm
-- 
2.43.0


From 0c9606cb23a3c5bed9393a3615cc733fcc7b1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 49/75] fix: constraints without entries could not be added to
 gurobi models

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 2b2dc08..5eb79c5 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -407,7 +407,7 @@ class GurobiMILP(MILP):
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _eval_pulp_expr(self, expression):
-        return sum([ self.__variables[var]*coeff for var, coeff in expression ])
+        return gp.quicksum([ self.__variables[var]*coeff for var, coeff in expression ])
 
     def set_objective_function(self, expression):
         """Sets the objective function of the form
-- 
2.43.0


From c084836c455606842ae92e6d56a91b3c512dcebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 50/75] fix: exact minimization with gurobi indicator
 constraints always failed with an AttributeError

---
 switss/problem/formulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 9e3afc3..a2a0866 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -133,7 +133,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
-- 
2.43.0


From c70ee59b8f11f44eb9a3bd60c2906a4c772eb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 51/75] fix: adding a gurobi indicator constraint always failed
 with a NameError

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 5eb79c5..93ed983 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -483,7 +483,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
-- 
2.43.0


From 9c4e4c6ab9aff3c01e3689891cef8aa791cd4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 52/75] fix: variables without lower bound were nonnegative in
 gurobi models

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 93ed983..4774fd4 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -514,6 +514,9 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
+            # variables without lower bound are nonnegative by default in gurobi
+            if lb is None and domain != "binary":
+                lb = -GRB.INFINITY
             if lb is not None:
                 if ub is not None:
                     var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-- 
2.43.0


From fd9cf4521a82204c04f48de9509eaf32faca8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 53/75] fix: the tree algorithm failed with a KeyError for
 states that the formula for subsystems leaves open

---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 1d84a2e..d6bc9e0 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -261,7 +261,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         # enumerate relevant subsystems of part_view
         bdd, p_expr = compute_subsys_bdd(part_view)
         no_of_models = 0
-        for model in bdd.pick_iter(p_expr):
+        for model in bdd.pick_iter(p_expr, care_vars=['x{i}'.format(i=i) for i in part_view.get_vertices()]):
             no_of_models += 1
             if timeout != None:
                 if time.perf_counter() - start_time > timeout:
-- 
2.43.0


From e4d7065066c36768a1cc256362399db28d7d589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 54/75] fix: the tree algorithm freed the points of successor
 partitions repeatedly

---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index d6bc9e0..4503146 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -319,7 +319,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         else:
             for i in range(no_sucs):
                 free_mem(suc_points_c[i],points_per_suc[i])
-                free(suc_points_c)
+            free(suc_points_c)
 
         # lambda to go from inp point to python Point dict
         fip = lambda p,k: from_inp_point(p,part_to_input_mapping,inp_dim,k)
-- 
2.43.0


From 669255ee39fc5f7d48fa7d6b6a1d37c0f9c6a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 55/75] fix: the tree algorithm read points beyond the end of
 the list when combining those of several partitions

---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 4503146..e77062b 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -111,7 +111,7 @@ cdef void increase_iterator(int* points_iterator, int [:] points_per_suc, int no
         return
     cdef int i = no_sucs -1
     while True:
-        if points_iterator[i] == points_per_suc[i]:
+        if points_iterator[i] == points_per_suc[i] - 1:
             points_iterator[i] = 0
             if i == 0:
                 break
-- 
2.43.0


From 84ab5b8bc5283b03860edfa893b2e667f16ac32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 56/75] fix: the tree algorithm counted transitions of the
 states at the border of a partition twice

---
 switss/utils/tree_decomp.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index e77062b..862923a 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -127,10 +127,13 @@ cdef double state_prob(Point p, int idx):
             return p.probs[i].prob
     return -1
 
-cdef double[:,:] comp_subsys_edges(double[:,:] P,int [:] states, int no_states):
+cdef double[:,:] comp_subsys_edges(double[:,:] P,int [:] states, int no_states, uint8 [:] is_out):
     cdef double[:,:] subsys_memview = np.zeros((no_states,no_states),dtype='d')
     cdef int i,j = 0
     for i in range(no_states):
+        # the probabilities of output states are given by the points of the successors
+        if is_out[states[i]]:
+            continue
         for j in range(no_states):
             subsys_memview[i,j] = P[states[i],states[j]]
     return subsys_memview
@@ -272,7 +275,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                               dtype="i")
             no_states = len(states)
 
-            subsys_edges = comp_subsys_edges(P_memview,states,no_states)
+            subsys_edges = comp_subsys_edges(P_memview,states,no_states,is_out.a)
 
             subsys_points = <Point*> malloc(tot_no_points * sizeof(Point))
 
-- 
2.43.0


From 525f533f097dc5ea5a40d25a3704bb505b289039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 57/75] fix: the tree algorithm only considered witnesses with
 states of every partition

---
 switss/utils/tree_decomp.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 862923a..1ed6612 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -248,6 +248,10 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         #list containing the points of p
         partition_points[part_id] = []
 
+        # a subsystem does not need to have states in this partition, unless it contains the initial state
+        if labeling[G.vertex(rf.initial)] != part_id:
+            partition_points[part_id].append(dict({ 'states' : 0, 'in_probs' : dict() }))
+
         # convex hulls used to remove dominated points
         p_hulls = dict([])
 
-- 
2.43.0


From 4ae3efa122874ded5a2bcd9e8cb0db0c5207836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 58/75] fix: the tree algorithm discarded parts of witnesses
 that only reach the threshold together with other parts

---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 1ed6612..52ed2fb 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -295,7 +295,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                                           subsys_edges,
                                           inp_dim,
                                           known_upper_bound,
-                                          thr,
+                                          thr if labeling[G.vertex(rf.initial)] == part_id else 0,
                                           points_per_suc,
                                           no_sucs,
                                           tot_no_points,
-- 
2.43.0


From 0d6ff7a8fc990f151753f20b2f3b6decd944341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 59/75] fix: the tree algorithm missed witnesses that attain
 the threshold exactly

---
 switss/problem/tree_algo.py  |  3 ++-
 switss/utils/tree_decomp.pyx | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 6778bab..d4d8e8d 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -51,7 +51,8 @@ class TreeAlgo(ProblemFormulation):
                                              self.partition,
                                              threshold,
                                              known_upper_bound = upper_bound,
-                                             timeout=timeout)
+                                             timeout=timeout,
+                                             tol=self.tol)
         if res == -1:
             yield ProblemResult("notsolved",None,None,None)
             return
diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 52ed2fb..3928224 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -184,7 +184,7 @@ def partition_graph(G,part_id,suc_ps,labeling,interface,rf):
     return part_view
 
 
-def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeout=None):
+def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeout=None,tol=1e-12):
     start_time = time.perf_counter()
     cdef Point** suc_points_c = NULL
     cdef int no_new_points = 0
@@ -300,7 +300,8 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                                           no_sucs,
                                           tot_no_points,
                                           subsys_points,
-                                          dist_from_init.a)
+                                          dist_from_init.a,
+                                          tol)
 
             print("***no_new_points :" + str(no_new_points) + " ***")
 
@@ -476,12 +477,13 @@ cdef int handle_subsys(int[:] states,
                        double[:,:] subsys_edges,
                        int inp_dim,
                        int known_upper_bound,
-                       float thr,
+                       double thr,
                        int[:] points_per_suc,
                        int no_sucs,
                        int tot_no_points,
                        Point* subsys_points,
-                       int[:] dist_from_init):
+                       int[:] dist_from_init,
+                       double tol):
     cdef int no_states = states.shape[0]
     cdef int no_not_out_states = 0
     cdef int i = 0
@@ -566,7 +568,7 @@ cdef int handle_subsys(int[:] states,
             if is_in[states[j]]:
                 sum_inp_reach += reach_probs[j]
 
-        if(sum_inp_reach < thr):
+        if(sum_inp_reach < thr - tol):
             excl_by_thr = excl_by_thr + 1
             continue
 
-- 
2.43.0


From 2dcd596e91de9f5fb4248e115c592bfd6d9923dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 60/75] fix: the tree algorithm failed if the threshold is
 infeasible or a partition has no relevant points

---
 switss/problem/tree_algo.py  | 4 ++++
 switss/utils/tree_decomp.pyx | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index d4d8e8d..4ba568c 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -57,4 +57,8 @@ class TreeAlgo(ProblemFormulation):
             yield ProblemResult("notsolved",None,None,None)
             return
 
+        if res is None:
+            yield ProblemResult("infeasible",None,None,None)
+            return
+
         yield ProblemResult("success", None, res, None)
diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 3928224..f74b1af 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -332,6 +332,9 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         # lambda to go from inp point to python Point dict
         fip = lambda p,k: from_inp_point(p,part_to_input_mapping,inp_dim,k)
 
+        if len(k_points) == 0:
+            continue
+
         if inp_dim == 1:
             current_max = 0
             for k in sorted(k_points.keys()):
@@ -396,7 +399,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         ## print("\npartition " + str(part_id) + " points: \n" + str(partition_points[part_id]))
         ## print("partition " + str(part_id) + " no-points: \n" + str(len(partition_points[part_id])) + "\n")
 
-    return min([p["states"] for p in partition_points[rev_top_order[-1]]])
+    return min([p["states"] for p in partition_points[rev_top_order[-1]]], default=None)
 
 # from https://stackoverflow.com/questions/23979146/check-if-numpy-array-is-in-list-of-numpy-arrays
 def arreqclose_in_list(myarr, list_arrays):
-- 
2.43.0


From b9405337e42d0ad844e730b5b683285f73724ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 61/75] fix: the tree algorithm mixed up states if the rows of
 the DTMC are permuted

---
 switss/utils/tree_decomp.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index f74b1af..07567d4 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -155,7 +155,7 @@ def tree_decomp_from_partition_graphtool(P,partition):
     #gt.graph_draw(decomp, output="quotient.pdf",output_size=(300,300),vertex_text=decomp.vertex_index,vertex_size=5)
 
 
-def partition_graph(G,part_id,suc_ps,labeling,interface,rf):
+def partition_graph(G,part_id,suc_ps,labeling,interface,rf,to_target):
     in_partition = lambda v: ((labeling[v] == part_id)
                               or ((labeling[v] in suc_ps)
                                   and interface[v]))
@@ -175,7 +175,7 @@ def partition_graph(G,part_id,suc_ps,labeling,interface,rf):
             is_in[v] = True
         if interface[v] and (labeling[v] != part_id):
             is_out[v] = True
-        if (rf.to_target[v] > 0) or has_out_suc(v):
+        if (to_target[v] > 0) or has_out_suc(v):
             is_target[v] = True
     part_view.vertex_properties["is_in"] = is_in
     part_view.vertex_properties["is_out"] = is_out
@@ -193,19 +193,23 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
     cdef StateProb* probs = NULL
 
     # TODO when does the overhead of keeping 'dense' P in memory become visible?
-    cdef double[:,:] P_memview = rf.P.todense()
+    # the rows of P are not necessarily in the order of the states
+    rows = [index for (_,index) in sorted(rf.index_by_state_action.items())]
+    P = cast_dok_matrix(rf.P.tocsr()[rows,:])
+    to_target = ((np.array(rf.to_target)).ravel())[rows]
+    cdef double[:,:] P_memview = P.todense()
 
     if known_upper_bound == None:
         known_upper_bound = rf.P.shape[0]
 
-    G = underlying_graph(rf.P)
+    G = underlying_graph(P)
 
     dist_from_init = gt.shortest_distance(G,source=G.vertex(rf.initial))
     ## print(dist_from_init.a)
 
     edge_probs = G.new_ep("double")
     for e in G.edges():
-        edge_probs[e] = rf.P[e.source(),e.target()]
+        edge_probs[e] = P[e.source(),e.target()]
     G.edge_properties["edge_probs"] = edge_probs
 
     decomp, labeling, interface = quotient(G,partition)
@@ -221,7 +225,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
     for part_id in rev_top_order:
         suc_ps = decomp.get_out_neighbors(decomp.vertex(part_id))
 
-        part_view = partition_graph(G,part_id,suc_ps,labeling,interface,rf)
+        part_view = partition_graph(G,part_id,suc_ps,labeling,interface,rf,to_target)
 
         is_in = part_view.vp["is_in"]
         is_out = part_view.vp["is_out"]
@@ -283,8 +287,6 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
 
             subsys_points = <Point*> malloc(tot_no_points * sizeof(Point))
 
-            to_target = ((np.array(rf.to_target)).ravel())
-
             # compute all the new points generated by the subsystem (stored into subsys_points)
             no_new_points = handle_subsys(states,
                                           suc_points_c,
-- 
2.43.0


From fa0f06f25233ad998c3d7c96e5278bcbe32d3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 62/75] fix: entries stored as zero were edges of the
 underlying graph of the tree algorithm

---
 switss/utils/graph_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/utils/graph_utils.py b/switss/utils/graph_utils.py
index 560d825..2a967c6 100644
--- a/switss/utils/graph_utils.py
+++ b/switss/utils/graph_utils.py
@@ -12,6 +12,9 @@ def underlying_graph(P):
     G = gt.Graph()
     G.add_vertex(cols)
     for (source,dest) in P.keys():
+        # entries may be stored explicitly as zero
+        if P[source,dest] == 0:
+            continue
         G.add_edge(G.vertex(source),G.vertex(dest))
     return G
 
-- 
2.43.0


From 328647802817250747c12f79006bc3b443e2985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 63/75] fix: the search for strongly connected components
 exceeded the call stack on long paths

---
 switss/utils/graph.pyx | 87 +++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index e82cc5a..80300c7 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -21,6 +21,11 @@ cdef struct TarjanNode:
     int index, lowlink
     int onstack
 
+cdef struct TarjanFrame:
+    int node, succidx
+    TNode* bad_actions
+    TarjanFrame* outer
+
 cdef struct SubMDP:
     int* E
     SAPPair* F
@@ -92,49 +97,77 @@ cdef class Graph:
             ret += "\n"
         return ret
 
-    cdef (int,int,IntStack*) strongconnect(self, int v, IntStack* stack, TarjanNode* tnodes,
+    # opens the visit of v, which becomes the innermost one
+    cdef TarjanFrame* visit(self, TarjanFrame* outer, int v, TNode* treap):
+        cdef TarjanFrame* frame = <TarjanFrame *> malloc(sizeof(TarjanFrame))
+        cdef Node *node = &self.nodes[v]
+        cdef TNode* bad_actions_treap = NULL
+
+        # compute actions of v which have a successor that is not in treap, and hence should be ignored
+        for succidx in range(node[0].succcount):
+            if not in_treap(treap,node[0].successors[succidx][0]):
+                bad_actions_treap = add_to_treap(bad_actions_treap,node[0].successors[succidx][1])
+
+        frame[0].node = v
+        frame[0].succidx = 0
+        frame[0].bad_actions = bad_actions_treap
+        frame[0].outer = outer
+        return frame
+
+    # the visits are kept in a list and not in the call stack, which long paths would exceed
+    cdef (int,int,IntStack*) strongconnect(self, int root, IntStack* stack, TarjanNode* tnodes,
                                            int i, int* sccs, int scc_counter, TNode* treap):
 
+        cdef int v = root
         cdef int w = 0
         cdef int a = 0
-        cdef TNode* bad_actions_treap = NULL
+        cdef Node *node = NULL
+        cdef TarjanFrame* done = NULL
+        cdef TarjanFrame* frame = self.visit(NULL, v, treap)
 
         tnodes[v] = TarjanNode(i, i, 1)
         i += 1
         stack = push(stack, v)
 
-        cdef Node *node = &self.nodes[v]
-        # compute actions of v which have a successor that is not in treap, and hence should be ignored
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
-            if not in_treap(treap,w):
-                bad_actions_treap = add_to_treap(bad_actions_treap,a)
+        while frame != NULL:
+            v = frame[0].node
+            node = &self.nodes[v]
 
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
+            if frame[0].succidx < node[0].succcount:
+                w = node[0].successors[frame[0].succidx][0] # -> index of successor state
+                a = node[0].successors[frame[0].succidx][1] # -> index of corresponding action
+                frame[0].succidx += 1
 
-            if in_treap(bad_actions_treap,a):
-                continue
+                if in_treap(frame[0].bad_actions,a):
+                    continue
 
-            elif tnodes[w].index == -1:
-                i,scc_counter,stack = self.strongconnect(w,stack,tnodes,i,sccs,scc_counter,treap)
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].lowlink)
+                elif tnodes[w].index == -1:
+                    frame = self.visit(frame, w, treap)
+                    tnodes[w] = TarjanNode(i, i, 1)
+                    i += 1
+                    stack = push(stack, w)
 
-            elif tnodes[w].onstack:
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+                elif tnodes[w].onstack:
+                    tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
 
+                continue
 
-        if tnodes[v].lowlink == tnodes[v].index:
-            w = -1
-            while w != v:
-                stack, w = pop(stack)
-                tnodes[w].onstack = 0
-                sccs[w] = scc_counter
-            scc_counter += 1
+            if tnodes[v].lowlink == tnodes[v].index:
+                w = -1
+                while w != v:
+                    stack, w = pop(stack)
+                    tnodes[w].onstack = 0
+                    sccs[w] = scc_counter
+                scc_counter += 1
+
+            done = frame
+            frame = frame[0].outer
+            if frame != NULL:
+                w = frame[0].node
+                tnodes[w].lowlink = min(tnodes[w].lowlink,tnodes[v].lowlink)
+            free_treap(done[0].bad_actions)
+            free(done)
 
-        free_treap(bad_actions_treap)
         return i,scc_counter,stack
 
 
-- 
2.43.0


From ee454cb1fe79df5ce6a6892bc5c63b7bda6b0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 64/75] fix: label based minimization failed with an IndexError
 if goal or fail carry one of the labels

---
 switss/problem/formulations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index a2a0866..a8ee53a 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -91,7 +91,8 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
     elif mode == "min":
         groups = {}
         for label in labels:
-            states = rf.system.states_by_label[label]
+            # goal and fail have no variables, even if they carry the label
+            states = { s for s in rf.system.states_by_label[label] if s < certificate_size(rf, mode) }
             groups[label] = states
         return InvertibleDict(groups)
     else:
@@ -99,6 +100,9 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
         for label in labels:
             states = rf.system.states_by_label[label]
             for state in states:
+                # goal and fail have no variables, even if they carry the label
+                if state >= rf.system.N-2:
+                    continue
                 actions = rf.system.actions_by_state[state]
                 for action in actions:
                     sap = rf.system.index_by_state_action[(state, action)]
-- 
2.43.0


From 822b2772d9c703738acc7e3aaf4b2ca6cc1e3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 65/75] fix: InverseReachabilityInitializer divided by zero for
 labels without states

---
 switss/problem/qsheurparams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..78de0da 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -217,7 +217,8 @@ class InverseReachabilityInitializer(Initializer):
 
         for group in self.groups:
             variables = self.indicator_to_group[group]
-            variablecount = len(variables)
+            # labels may be on no state at all
+            variablecount = max(1,len(variables))
             weighted_probability = sum([self.Pr[var] for var in variables])/variablecount
             ret.append((group, self.weights[group] * np.min([1e9,1/weighted_probability if weighted_probability > 0 else 1e9])))
 
-- 
2.43.0


From c0459f3cd37607c8ed35780c0e48fdf557791f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 66/75] fix: subsystems lost the rewards of the model

---
 switss/problem/subsystem.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 26c7919..970af30 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -95,6 +95,7 @@ class Subsystem:
         new_index_by_state_action = bidict()
         new_label_to_states = defaultdict(set)
         new_label_to_actions = defaultdict(set) 
+        new_rewards = []
         new_N = 0
         new_C = 0
 
@@ -117,6 +118,8 @@ class Subsystem:
                 new_index_by_state_action[(new_source,action)] = new_C
                 for l in actionlabels:
                     new_label_to_actions[l].add((new_source,action))
+                if reach_form.system.reward_vector is not None:
+                    new_rewards.append(reach_form.system.reward_vector[rowidx])
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
@@ -147,13 +150,18 @@ class Subsystem:
                 # transitions to removed states and to fail
                 new_P[new_row_idx,fail_state] += prob
 
+        new_reward_vector = None
+        if reach_form.system.reward_vector is not None:
+            new_reward_vector = np.array(new_rewards + [reach_form.system.reward_vector[C-2], reach_form.system.reward_vector[C-1]])
+
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
         modeltype = type(self.supersys.system)
         model = modeltype(P=new_P, 
             index_by_state_action=new_index_by_state_action, 
             label_to_actions=dict(new_label_to_actions), 
-            label_to_states=dict(new_label_to_states))
+            label_to_states=dict(new_label_to_states),
+            reward_vector=new_reward_vector)
 
         model = ReachabilityForm(
             model, 
-- 
2.43.0


From 8aca239b5c06540eb2afd1ed0234403c2fd7c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 67/75] fix: a model built from the labels of another one
 shared them with it

---
 switss/model/amdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 811ff3d..579ec4e 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -48,11 +48,11 @@ class AbstractMDP(ABC):
         self.index_by_state_action = bidict(index_by_state_action)
         self.reward_vector = reward_vector
         if isinstance(label_to_actions,InvertibleDict):
-            self.__label_to_actions_invertible = label_to_actions
+            self.__label_to_actions_invertible = InvertibleDict(dict(label_to_actions.items()), is_default=label_to_actions.is_default)
         else:
             self.__label_to_actions_invertible = InvertibleDict(label_to_actions, is_default=True)
         if isinstance(label_to_states,InvertibleDict):
-            self.__label_to_states_invertible = label_to_states
+            self.__label_to_states_invertible = InvertibleDict(dict(label_to_states.items()), is_default=label_to_states.is_default)
         else:
             self.__label_to_states_invertible = InvertibleDict(label_to_states, is_default=True)
         self.__check_correctness()
-- 
2.43.0


From ce510a6579146c3dc88bf3cb3203da6b10984021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 68/75] fix: the decomposition into end components kept the
 list of states of every subgraph but the last

---
 switss/utils/graph.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 80300c7..7d95f87 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -310,7 +310,8 @@ cdef class Graph:
                 free_treap(subg_treap)
                 free(new_subg_treaps)
 
-        free(subg_arr)
+            free(subg_arr)
+
         free_tstack(treap_stack)
         free(sccs)
 
-- 
2.43.0


From 7566ffc60f61a4b69f4fe73f0a395744820440a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 69/75] fix: inserting a key that is already in a treap lost a
 node

---
 switss/utils/treaps.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index 3ca53ac..9d41e6f 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -32,11 +32,16 @@ cdef (int) in_treap(TNode* treap, int key):
         return in_treap(treap.right, key)
 
 cdef (TNode*, TNode*) split_treap(TNode* treap, int key):
+    cdef TNode* left
+    cdef TNode* right
+
     if treap == NULL:
         return NULL, NULL
 
     elif key == treap.tree_key:
-        return treap.left, treap.right
+        left, right = treap.left, treap.right
+        free(treap)
+        return left, right
 
     elif key < treap.tree_key:
         rec_left, rec_right = split_treap(treap.left, key)
@@ -59,6 +64,7 @@ cdef TNode* insert(TNode* treap, TNode* new_node):
         return new_node
 
     elif treap.tree_key == new_node.tree_key:
+        free(new_node)
         return treap
 
     elif treap.heap_key > new_node.heap_key:
-- 
2.43.0


From e45568353cc6a7a6bc140025c2f7a84cc7e2634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 70/75] fix: the tree algorithm did not release the memory of
 combined and discarded points

---
 switss/utils/tree_decomp.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 07567d4..b1cd43d 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -86,9 +86,12 @@ cdef Point* py_to_c_points(suc_points_py):
 
 cdef Point get_point(Point** suc_points_c, int* point_it, int no_sucs):
     cdef Point new_point = Point(0,0,NULL)
+    cdef StateProb* prev_probs = NULL
     cdef int i = 0
     for i in range(no_sucs):
+        prev_probs = new_point.probs
         new_point = add_points_c(new_point,suc_points_c[i][point_it[i]])
+        free(prev_probs)
     return new_point
 
 cdef Point add_points_c(Point p1, Point p2):
@@ -543,6 +546,7 @@ cdef int handle_subsys(int[:] states,
 
         if (tot_no_states + min_dist_from_init) > known_upper_bound:
             excl_by_states = excl_by_states + 1
+            free(current_point.probs)
             continue
 
         # define target_arr (RHS of the linear equation system to solve) using out-probabilities
@@ -592,6 +596,7 @@ cdef int handle_subsys(int[:] states,
     free(P_arr)
     free(IPIV_arr)
     free(target_arr)
+    free(reach_probs)
 
     return no_new_points
 
-- 
2.43.0


From f17b968e8bb9f62da3e2f201b7d41e8fbfc26b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 71/75] fix: drawing a subsystem changed the dictionaries of a
 user-defined visualization

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 970af30..fa7e56f 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -207,7 +207,8 @@ class Subsystem:
             in_subsystem = not fail_or_target and self.subsystem_mask[sourceidx]
             show_action_weights = (show_weights and self.certform == "max" and in_subsystem)
             
-            am = visualization.action_map(sourceidx, action, sourcelabels)
+            # a copy: the returned dictionary belongs to the visualization
+            am = { **visualization.action_map(sourceidx, action, sourcelabels) }
             am["node"] = { "label" : "", **(am["node"]) }
             
             if show_action_weights:
-- 
2.43.0


From 7462301ec5de71902fc18fc075766427f3d2f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 72/75] fix: interface between sets of states used an undefined
 name

---
 switss/utils/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/graph_utils.py b/switss/utils/graph_utils.py
index 2a967c6..d447f2e 100644
--- a/switss/utils/graph_utils.py
+++ b/switss/utils/graph_utils.py
@@ -58,6 +58,6 @@ def interface(node_set1,node_set2,P):
 
     for (n1,n2) in P.keys():
         if (n1 in node_set1) and (n2 in node_set2):
-            P_int[node_map[n1],node_map[n2]] = P[n1,n2]
+            P_int[node_map1[n1],node_map2[n2]] = P[n1,n2]
 
     return P_int,node_map1,node_map2
-- 
2.43.0


From 9f14897d9e2742fea7390a844bff21fa4bd57354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 73/75] fix: the tree algorithm reported infeasible when the
 solver failed to compute an upper bound

---
 switss/problem/tree_algo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 4ba568c..b281130 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -32,9 +32,10 @@ class TreeAlgo(ProblemFormulation):
             res_min = qsheur.solve(reach_form,threshold,"min")
             print("res_max: " + str(res_max.value))
             print("res_min: " + str(res_min.value))
-            if res_min.status != "success" or res_max.status != "success":
-                yield ProblemResult("infeasible",None,None,None)
-                return
+            for res in [res_max, res_min]:
+                if res.status != "success":
+                    yield ProblemResult(res.status,None,None,None)
+                    return
 
             upper_bound = min(res_max.value, res_min.value)
 
-- 
2.43.0


From e6795efcd404a498044279c09b4b6a02f7b8a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 74/75] fix: thresholds were rounded in forms of models given
 by integer matrices

The Farkas constraints take over the number type of the transition matrix,
which cut off the threshold that is stored next to the probabilities.
---
 switss/model/amdp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 579ec4e..03e4dbd 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -36,7 +36,8 @@ class AbstractMDP(ABC):
         :type vis_config: VisualizationConfig
         """        
         # transform P into dok_matrix if neccessary
-        P = cast_dok_matrix(P).tocsr()
+        # (probabilities are floating point numbers, even if all given ones are integers)
+        P = cast_dok_matrix(P).tocsr().astype(float)
         # explicitly stored zeros are no transitions
         P.eliminate_zeros()
         self.P = P.todok()
-- 
2.43.0


From b415da482fdf277723dd08428064f1be886b0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 75/75] fix: thresholds were rounded in reward reachability
 forms with integer rewards

---
 switss/model/reward_reachability_form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 043b0a1..765567c 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -12,7 +12,8 @@ class RewardReachabilityForm:
     def __init__(self, reachability_form, reward_vector):
 
         self.__reach_form = reachability_form
-        self.reward_vector = reward_vector
+        # floating point numbers, since thresholds are stored next to the rewards
+        self.reward_vector = np.array(reward_vector, dtype=float)
 
         self.__system = reachability_form.system
         self.__P = reachability_form.system.P[:self.__system.C-2, :self.__system.N-2]
-- 
2.43.0

