From 37785959456f6a0f5716a98e784328da03ed0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 01/36] fix: invalid row sums and negative rewards fail with an
 assertion error, not a TypeError/NameError

---
 switss/model/amdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..3b3a3ee 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -68,7 +68,7 @@ class AbstractMDP(ABC):
 
         """
         # make sure all rows of P sum to one
-        for idx,s in enumerate(self.P.sum(axis=1)):  
+        for idx,s in enumerate(self.P.sum(axis=1).A1):  
             assert np.round(s,9) == 1, "Sum of row %d of P is %f but should be 1." % (idx, s)
         # make sure that all values x are 0<=x<=1
         for (i,j), p in self.P.items():
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %f is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
-- 
2.43.0


From f29f385db7cc009167283f3d1c3b1517af0ab58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 02/36] fix: reduction no longer invents a transition to fail
 from rounding errors in row sums

---
 switss/model/reachability_form.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..2da96eb 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -329,6 +329,8 @@ class ReachabilityForm:
             print("shape of new_P (%s,%s)" % (new_C,new_N))
 
         to_target = np.zeros(new_C)
+        # probability of moving to a removed state in one step
+        to_fail = np.zeros(new_C)
 
         # mask for faster access
         target_mask = np.zeros(system.N, dtype=bool)
@@ -345,6 +347,8 @@ class ReachabilityForm:
                     if dest in to_rf_cols:
                         newdest = to_rf_cols[dest]
                         new_P[newidx, newdest] = system.P[idx, dest]
+                    else:
+                        to_fail[newidx] += system.P[idx, dest]
         if debug:
             print("computed transition matrix & to_target")
 
@@ -352,6 +356,7 @@ class ReachabilityForm:
             new_P, 
             new_index_by_state_action,
             to_target, 
+            to_fail,
             to_rf_rows, 
             system, 
             new_target_label, 
@@ -369,7 +374,7 @@ class ReachabilityForm:
         return rf, to_rf_cols, to_rf_rows
 
     @staticmethod
-    def __initialize_system(P, index_by_state_action, to_target, mapping, configuration, target_label, fail_label):
+    def __initialize_system(P, index_by_state_action, to_target, to_fail, mapping, configuration, target_label, fail_label):
         C,N = P.shape
         P_compl = dok_matrix((C+2, N+2))
         target_state, fail_state = N, N+1
@@ -408,17 +413,14 @@ class ReachabilityForm:
         label_to_states[fail_label].add(fail_state)
         label_to_states[target_label].add(target_state)
 
-        not_to_fail = np.zeros(C)
         for (idx, dest), p in P.items():
-            not_to_fail[idx] += p
             P_compl[idx, dest] = p
 
         for idx, p_target in enumerate(to_target):
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
-            p_fail = 1 - (p_target + not_to_fail[idx])
-            if p_fail > 0:
-                P_compl[idx, fail_state] = p_fail
+            if to_fail[idx] > 0:
+                P_compl[idx, fail_state] = min(to_fail[idx], 1)
 
         P_compl[C, target_state] = 1
         P_compl[C+1, fail_state] = 1
-- 
2.43.0


From 2b72e52bdfe7b2a6c264d87c8c0c3b776acb5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 03/36] fix: saved models keep full precision

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..bc0f1ee 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %.17g\n" % (source, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..3fc6e2a 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 42aacb06d57cafc3d13734b48e5f7a2685f94eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 04/36] fix: consistency check rejects forms whose initial
 state is the target or fail state

---
 switss/model/reachability_form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 2da96eb..0b15492 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -222,7 +222,8 @@ class ReachabilityForm:
                 "There must be exactly 1 %s state. There are %s states in system %s with label %s" % (name, count, system, statelabel)
             states.append(labeledstates.pop())
         init,target,fail = states
-        
+        assert len({init, target, fail}) == 3, "Initial, target and fail state must be pairwise distinct"
+
         # check that fail and target state only map to themselves
         for state,name,rowidx,colidx in [(target,"target",system.C-2,system.N-2),(fail,"fail",system.C-1,system.N-1)]:
             successors = list(system.successors(state))
-- 
2.43.0


From 3650196afef68fb67ba0d1d496e5159e6dc73cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 05/36] fix: Farkas systems returned earlier keep their
 threshold

---
 switss/model/reachability_form.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 0b15492..a5b558b 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -514,8 +514,9 @@ class ReachabilityForm:
         C,N = self.__P.shape
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
-            self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            rhs = self.__fark_z_rhs.copy()
+            rhs[C] = -threshold
+            return self.__fark_z_matr, rhs
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -526,7 +527,8 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        # the cached vector must not be shared with the caller: later calls write their threshold into a copy
+        return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -549,8 +551,9 @@ p        .. math::
         C,N = self.__P.shape
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
-            self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            rhs = self.__fark_y_rhs.copy()
+            rhs[N] = -threshold
+            return self.__fark_y_matr, rhs
 
         b = cast_dok_matrix(self.to_target)
 
@@ -560,7 +563,8 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        # the cached vector must not be shared with the caller: later calls write their threshold into a copy
+        return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From d8cd80390f13d3dc4397a3a7f47c3b69442f74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:16 +0000
Subject: [PATCH 06/36] fix: max_y_state is the sum over the state's actions,
 without an extra one at the initial state

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index a5b558b..4a7d1bb 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -673,7 +673,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..84d2501 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -309,7 +309,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From 11169d6b395ad668679dad02c34118244a5e2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 07/36] fix: certificate conditions of proper end components
 and nonnegativity are checked and generated correctly

---
 switss/certification/certificates.py | 53 +++++++++++++++-------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..4c7d4a6 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -67,6 +67,23 @@ def __get_right_constraint_set(reach_form,mode,sense,threshold):
 
     assert False
 
+def __proper_ec_conditions(reach_form,mode,sense,shape):
+    # returns the indices of all variables that have to be zero and the indices of all 
+    # rows of the Farkas constraints that belong to the certificate condition.
+    # the minimal reachability probability of a state in a proper end component is zero. thus, for 
+    # mode "min" the variables that belong to these states are set to zero, and if there is one variable 
+    # for each state-action pair (i.e. one row for each state) then these states have no flow condition.
+    rows, D = shape[0], shape[1]
+    if mode != "min":
+        return [], list(range(rows))
+
+    if sense in [">=",">"]:
+        return [idx for idx in range(D) if reach_form.in_proper_ec(idx)], list(range(rows))
+
+    zero_vars = [idx for idx in range(D) if reach_form.in_proper_ec(reach_form.index_by_state_action.inv[idx][0])]
+    # the last row is the threshold condition
+    return zero_vars, [idx for idx in range(rows) if idx == rows-1 or not reach_form.in_proper_ec(idx)]
+
 def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol=1e-8):
     """Given a reachability form, mode, sense, threshold and candidate vector, checks
     whether the vector is a legal Farkas certificate for the reachability constraint.
@@ -97,18 +114,16 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
     N,D = farkas_matr.shape
     assert farkas_vec.shape[0] == D
 
-    if mode == "min":
-        N, D = farkas_matr.shape
-        if sense in [">=",">"]:
-            for idx in range(D):
-                if reach_form.in_proper_ec(idx) and not (farkas_vec[idx] == 0):
-                    return False
+    if (farkas_vec < -tol).any():
+        return False
+
+    zero_vars, rows = __proper_ec_conditions(reach_form,mode,sense,farkas_matr.shape)
+    for idx in zero_vars:
+        if abs(farkas_vec[idx]) > tol:
+            return False
 
-        else:
-            for idx in range(D):
-                (s,a) = reach_form.index_by_state_action.inv[idx]
-                if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
-                    return False
+    farkas_matr, rhs = farkas_matr.tocsr()[rows,:], rhs[rows]
+    N,D = farkas_matr.shape
 
     res_vec = farkas_matr.dot(farkas_vec)
 
@@ -150,19 +165,9 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
         # therefore, apply the transformation: Ax >=/> b <=> (-A)x <=/< -b
         farkas_matr, rhs = -farkas_matr, -rhs
 
-    #for "min"-problems all variables corresponding to states in proper end components have to be set to zero
-    zero_vars = []
-    if mode == "min":
-        N, D = farkas_matr.shape
-        if sense in [">=",">"]:
-            for idx in range(D):
-                if reach_form.in_proper_ec(idx):
-                    zero_vars.append(idx)
-        else:
-            for idx in range(D):
-                (s,a) = reach_form.index_by_state_action.inv[idx]
-                if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+    # for "min"-problems all variables corresponding to states in proper end components have to be set to zero
+    zero_vars, rows = __proper_ec_conditions(reach_form,mode,sense,farkas_matr.shape)
+    farkas_matr, rhs = farkas_matr.tocsr()[rows,:], rhs[rows]
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From cee15d4c109f0a8c3a8d04f4bd3af7e70d325593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 08/36] fix: labels of the target or fail state do not create
 groups of variables that do not exist

---
 switss/problem/formulations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..7555dcc 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -90,19 +90,24 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
             return InvertibleDict({ idx: {idx} for idx in range(certificate_size(rf, mode))})
     elif mode == "min":
         groups = {}
+        # there are no variables for target and fail
+        certsize = certificate_size(rf, mode)
         for label in labels:
             states = rf.system.states_by_label[label]
-            groups[label] = states
+            groups[label] = { state for state in states if state < certsize }
         return InvertibleDict(groups)
     else:
         groups = InvertibleDict({})
+        # there are no variables for target and fail
+        certsize = certificate_size(rf, mode)
         for label in labels:
             states = rf.system.states_by_label[label]
             for state in states:
                 actions = rf.system.actions_by_state[state]
                 for action in actions:
                     sap = rf.system.index_by_state_action[(state, action)]
-                    groups.add(label, sap)
+                    if sap < certsize:
+                        groups.add(label, sap)
         return groups
 
 def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_real_indicator_constrs=False, indicator_domain="real"):
-- 
2.43.0


From 9ec20ae8d0993bdd7b7964c4f5e49fc3a1feaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 09/36] fix: inverse reachability weights are defined for empty
 groups

---
 switss/problem/qsheurparams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..1e625f4 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -218,7 +218,8 @@ class InverseReachabilityInitializer(Initializer):
         for group in self.groups:
             variables = self.indicator_to_group[group]
             variablecount = len(variables)
-            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount
+            # a group may be empty (e.g. if there is no state with the corresponding label)
+            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount if variablecount > 0 else 0
             ret.append((group, self.weights[group] * np.min([1e9,1/weighted_probability if weighted_probability > 0 else 1e9])))
 
         return ret
-- 
2.43.0


From 99d4deebf0c88368d8e9cb76343f4acc1c383b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 10/36] fix: subsystems keep action labels in their meaning and
 do not invent transitions to fail

---
 switss/problem/subsystem.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..5f48b82 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
@@ -129,21 +130,23 @@ class Subsystem:
         new_P[new_C+1, fail_state] = 1
         new_P[new_C, target_state] = 1
 
-        not_to_fail = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if target >= N-2 or source >= N-2:
+            if target == N-2 or source >= N-2:
                 # P also contains target & fail state - but state_vector only has N-2 entries
                 continue
 
-            if state_vector[source] == True and state_vector[target] == True:
+            if state_vector[source] == True:
                 new_source = new_to_old_states.inv[source]
-                new_target = new_to_old_states.inv[target]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx,new_target] = prob
-                not_to_fail[new_row_idx] += prob
+                if target < N-2 and state_vector[target] == True:
+                    new_target = new_to_old_states.inv[target]
+                    new_P[new_row_idx,new_target] = prob
+                else:
+                    to_fail[new_row_idx] += prob
 
         # populate probabilities to fail
         # maps every target state with probability 1 to itself.
@@ -153,7 +156,7 @@ class Subsystem:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+                new_P[new_row_idx, fail_state] = min(to_fail[new_row_idx], 1)
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From baf91bcb03b6533b31bd066460a2d033d779b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 11/36] fix: reward forms provide what witnesses and
 certificates need from a form

---
 switss/model/reward_reachability_form.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 84d2501..dda3283 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
@@ -34,6 +35,16 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def index_by_state_action(self):
+        """Mapping from state-action pairs (without target and fail) to the corresponding indices."""
+        return self.__index_by_state_action
+
+    @property
+    def to_target(self):
+        """Vector of probabilities to go to the target for each state-action pair."""
+        return self.__reach_form.to_target
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From 5f99a34dd38a111192f2145c2199bcd64b4acff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 12/36] fix: reward form reduction uses the given target label
 and does not print

---
 switss/model/reward_reachability_form.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index dda3283..0a692f7 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -73,8 +73,9 @@ class RewardReachabilityForm:
     @staticmethod
     def reduce(system, initial_label, target_label, new_target_label="rrf_target", debug=False, ignore_consistency_checks=False):
 
-        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label)
-        RewardReachabilityForm.assert_reachform_consistency(reach_form)
+        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label, new_target_label=new_target_label, debug=debug)
+        if not ignore_consistency_checks:
+            RewardReachabilityForm.assert_reachform_consistency(reach_form)
 
         return RewardReachabilityForm(reach_form, reach_form.system.reward_vector[:-2]), to_rf_cols, to_rf_rows
 
@@ -99,10 +100,6 @@ class RewardReachabilityForm:
 
         mecs,proper_mecs,nr_of_mecs = reachform.system.maximal_end_components()
 
-        print("mecs:" + str(mecs))
-        print("proper_mecs:" + str(proper_mecs))
-        print("nr_of_mecs:" + str(nr_of_mecs))
-
         assert (sum(proper_mecs) == 2), "there is some proper end component apart from the target and fail state"
 
     @staticmethod
-- 
2.43.0


From d18cdd5cb458a4e8a5c4e0ab9de3256e07e41398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 13/36] fix: reward forms can be built from a system in
 reachability form

---
 switss/model/reward_reachability_form.py | 31 +++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 0a692f7..68ac644 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -58,17 +58,30 @@ class RewardReachabilityForm:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
         # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
-
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
-
-        system.add_label(N, "rf_fail")
+        C,N = system.P.shape
+        fail_label = "rf_fail"
+
+        P = dok_matrix((C+1, N+1))
+        for (idx, dest), p in system.P.items():
+            P[idx, dest] = p
+        P[C, N] = 1
+
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N,0)] = C
+        label_to_states = { label : set(states) for label, states in system.states_by_label.items() }
+        label_to_states[fail_label] = {N}
+        label_to_actions = { label : set(actions) for label, actions in system.actions_by_label.items() }
+
+        system = type(system)(
+                    P=P,
+                    index_by_state_action=index_by_state_action,
+                    label_to_states=label_to_states,
+                    label_to_actions=label_to_actions,
+                    reward_vector=np.append(system.reward_vector, 0))
 
         # initialize underlying reachability form
-        return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
-
+        reach_form = ReachabilityForm(system, initial_label, target_label, fail_label, ignore_consistency_checks)
+        return cls(reach_form, system.reward_vector[:-2])
 
     @staticmethod
     def reduce(system, initial_label, target_label, new_target_label="rrf_target", debug=False, ignore_consistency_checks=False):
-- 
2.43.0


From 09a36c4d41fbe7d6121b7b33fb1e176f82e99ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 14/36] fix: the latest objective replaces the previous one,
 constraints can be removed and every variable is solved for

---
 switss/solver/milp.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..93c9515 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -54,7 +54,6 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
-        self.__set_objective_function = False
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -85,6 +84,12 @@ class MILP:
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
+        # every variable is part of the problem, even if it occurs in no constraint and not in the objective
+        if self.__pulpmodel.objective is None:
+            self.__pulpmodel.setObjective(pulp.LpAffineExpression())
+        for var in self.__variables:
+            self.__pulpmodel.objective.addterm(var, 0)
+
         self.__pulpmodel.solve()
 
         status = {   1:"optimal",
@@ -120,12 +125,8 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        if not self.__set_objective_function:
-            self.__set_objective_function = True
-            self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
-        else:
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+        # variables that do not occur in the new objective must not keep their old coefficients
+        self.__pulpmodel.setObjective(pulp.LpAffineExpression(self._expr_to_pulp(expression)))
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
@@ -143,8 +144,8 @@ class MILP:
         :type sense: str
         :param rhs: Right side of the equation, i.e. a number.
         :type rhs: float
-        :return: name of the added constraint
-        :rtype: str
+        :return: index of the added constraint
+        :rtype: int
         """        
         assert sense in ["<=", "=", ">="]
         assert rhs == float(rhs), "Right hand side is not a number: rhs=%s" % rhs 
@@ -166,10 +167,10 @@ class MILP:
     def remove_constraint(self, constridx):
         """removes a given constraint from the model.
 
-        :param constridx: the name of the constraint
-        :type constridx: str
+        :param constridx: index of the constraint
+        :type constridx: int
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop(self.__constraints[constridx].name)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From 490ce59a43f47634c0afac1d5da72f937631341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 15/36] fix: repeated variables in an expression add up and
 empty constraints can be unsatisfiable

---
 switss/solver/milp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 93c9515..bc512c5 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -108,7 +108,11 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        # a variable may occur more than once, its coefficients add up
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var, 0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
@@ -151,6 +155,10 @@ class MILP:
         assert rhs == float(rhs), "Right hand side is not a number: rhs=%s" % rhs 
         self._assert_expression(lhs)
 
+        # PuLP refuses unsatisfiable constraints without variables, but these just make the problem infeasible
+        if len(lhs) == 0 and len(self.__variables) > 0:
+            lhs = [(0, 0)]
+
         lhs = pulp.LpAffineExpression(self._expr_to_pulp(lhs))
         sense = { "<=" : pulp.LpConstraintLE, 
                   "=" : pulp.LpConstraintEQ, 
-- 
2.43.0


From d5b5035955287308d4e675d47b877dcd1a5a161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 16/36] fix: feasible solutions of unfinished runs are not
 reported as optimal

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index bc512c5..f0bd4c0 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -97,6 +97,9 @@ class MILP:
                     -1:"infeasible", 
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
+        if status == "optimal" and self.__pulpmodel.sol_status == pulp.LpSolutionIntegerFeasible:
+            # the solver stopped (e.g. because of the time limit) before it could prove optimality
+            status = "notsolved"
         result_vector = np.array([var.value() for var in self.__variables])
         value = self.__pulpmodel.objective.value()
 
-- 
2.43.0


From 2158f95edfdc3ed989e5d55ff5d06da60e80e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 17/36] fix: LP class, problems without objective and bounds of
 binary variables

---
 switss/solver/milp.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index f0bd4c0..2d5cec5 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -205,6 +205,10 @@ class MILP:
             cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpBinary }[domain]
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
+            if domain == "binary":
+                # PuLP replaces the bounds of binary variables by 0 and 1
+                var.lowBound = 0 if lb is None else max(lb, 0)
+                var.upBound = 1 if ub is None else min(ub, 1)
             self.__variables.append(var)
 
             if len(var_descr) == 1:
@@ -248,18 +252,20 @@ class MILP:
         b = cast_dok_matrix(b)
 
 
-        opt = cast_dok_matrix(opt)
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
 
-        model = MILP(objective=objective)
+        model = cls(objective=objective)
 
         # initialize problem
         # this adds the variables and the objective function (which is opt^T*x, i.e. sum_{i=1}^N opt[i]*x[i])
         if bounds is not None:
             model.add_variables_w_bounds([(domains[idx],bounds[idx][0],bounds[idx][1]) for idx in range(A.shape[1])])
         else:
-            model.add_variables([domains[idx] for idx in range(A.shape[1])])
+            MILP.add_variables(model, [domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
@@ -339,7 +345,7 @@ class LP(MILP):
         :return: The resulting LP.
         :rtype: solver.LP
         """
-        return MILP.from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
+        return super().from_coefficients(A,b,opt,["real"]*cast_dok_matrix(A).shape[1],sense=sense,objective=objective)
 
     def add_variables(self, count):
         """Adds a number of variables to the LP.
@@ -349,7 +355,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 257f9b5b826fcde9e23ce4f170ea023aa410715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 18/36] fix: gurobi back end: default bounds, indicator
 constraints, empty sums and output flag

---
 switss/problem/formulations.py |  2 +-
 switss/solver/milp.py          | 31 ++++++++++++++-----------------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 7555dcc..673bf8d 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -138,7 +138,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 2d5cec5..4bf1f11 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -381,14 +381,12 @@ class GurobiMILP(MILP):
         self.__model.setParam('Threads', 4)
 
 
-    def solve(self, solver, timeout=None,print_output=False):
+    def solve(self, solver="gurobi", timeout=None,print_output=False):
         if timeout is not None:
             self.__model.setParam('TimeLimit',timeout)
+        self.__model.setParam('OutputFlag', 1 if print_output else 0)
         self.__model.optimize()
 
-        if print_output:
-            self.__model.setParam('OutputFlag',1)
-
         status_dict = { GRB.OPTIMAL: "optimal",
                         GRB.LOADED: "notsolved",
                         GRB.INFEASIBLE: "infeasible", 
@@ -411,7 +409,7 @@ class GurobiMILP(MILP):
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _eval_pulp_expr(self, expression):
-        return sum([ self.__variables[var]*coeff for var, coeff in expression ])
+        return sum([ self.__variables[var]*coeff for var, coeff in expression ], gp.LinExpr())
 
     def set_objective_function(self, expression):
         """Sets the objective function of the form
@@ -487,7 +485,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) >> (self.__variables[rhs_varidx] == 0), name)
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
@@ -518,15 +516,12 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
-            if lb is not None:
-                if ub is not None:
-                    var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-                else:
-                    var = self.__model.addVar(lb=lb, vtype=cat, name=varname)
-            elif ub is not None:
-                var = self.__model.addVar(ub=ub, vtype=cat, name=varname)
-            else:
-                var = self.__model.addVar(vtype=cat, name=varname)
+            # variables are unbounded by default (gurobi would use the lower bound 0)
+            if lb is None:
+                lb = 0 if domain == "binary" else -GRB.INFINITY
+            if ub is None:
+                ub = 1 if domain == "binary" else GRB.INFINITY
+            var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
 
             self.__variables.append(var)
 
@@ -580,7 +575,8 @@ class GurobiMILP(MILP):
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        opt = cast_dok_matrix(opt)
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
 
         model = GurobiMILP(objective=objective)
 
@@ -591,7 +587,8 @@ class GurobiMILP(MILP):
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From c22449820dc8e9ff91cf32f7249fe2b02f3b678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 19/36] fix: invertible dictionaries do not share their sets
 with the dictionary they were created from

---
 switss/utils/invertible_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..f8ce8fe 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,8 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        # the sets are copied as well, since they are changed by add and remove
+        self.__d = { k : set(v) for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From e772478437c8965cbec025da1ddcbdea6558fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 20/36] fix: storm imports: DTMCs can be imported with their
 labels, choice states carry the labels of their own choice

---
 switss/model/dtmc.py | 12 ++++++++----
 switss/model/mdp.py  |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index bc0f1ee..2c0ae1c 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,4 +1,5 @@
 from bidict import bidict
+from collections import defaultdict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
 
@@ -141,20 +142,23 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
-        
+    def from_stormpy_model(cls,stormpy_model,choice_model=False):
+
+        assert not choice_model, "choice models are only supported for MDPs"
         #assert stormpy_model.model_type == "ModelType.MDP"
 
         P = dok_matrix((1,1))
-        index_by_state_action = bidict()
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+            for slabel in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[slabel].add(sid)
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 3fc6e2a..2d58259 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -268,8 +268,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From 584c7135eb113e7e1057b748eb48770c80c01045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 21/36] fix: PRISM interface: constants and labels may be
 dictionaries, labels start on a new line, states without labels and blank
 lines are parsed

---
 switss/prism/prism.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..c9b3993 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -17,7 +17,7 @@ def parse_label_file(filepath):
     labels_by_state = {}
 
     mark_regexp = re.compile(r"([0-9]+)=\"(.*?)\"")
-    line_regexp = re.compile(r"([0-9]+):([\W,0-9]+)")
+    line_regexp = re.compile(r"([0-9]+):([\W,0-9]*)")
     with open(filepath) as label_file:
         lines = label_file.readlines()
         regexp_res = re.finditer(mark_regexp, lines[0])
@@ -27,6 +27,8 @@ def parse_label_file(filepath):
             states_by_label[label] = set({})
 
         for line in lines[1:]:
+            if line.strip() == "":
+                continue
             regexp_res = line_regexp.search(line)
             state_labelids = map(int, regexp_res.group(2).split())
             stateidx = int(regexp_res.group(1))
@@ -62,13 +64,20 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
+    # dictionaries as well as collections of pairs are accepted
+    if isinstance(prism_constants, dict):
+        prism_constants = prism_constants.items()
+    if isinstance(extra_labels, dict):
+        extra_labels = extra_labels.items()
+
     const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
-        # write the extra labels to the prism model description
+        # write the extra labels to the prism model description, on lines of their own
+        namedtf.write("\n".encode("utf-8"))
         for (label_name, label_expr) in extra_labels:
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
-- 
2.43.0


From 560551924ace727dfe49da353e082e3a8621f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 22/36] fix: command line tool passes the mode to the methods,
 stores it and writes subsystems

---
 bin/switss | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..1c2a520 100755
--- a/bin/switss
+++ b/bin/switss
@@ -2,7 +2,6 @@
 
 import argparse
 import json
-import copy
 import numpy as np
 
 from switss.utils import color_from_hash 
@@ -69,6 +68,8 @@ def minargs(args):
     
     methodtype = { "QSHeur":QSHeur, "MILPExact":MILPExact }[args.method[0]]
     methodparams = params_to_dict(args.method[1:])
+    assert "mode" in methodparams, "Mode not specified (mode=min or mode=max)."
+    mode = methodparams.pop("mode")
     for k in methodparams:
         if k == "iterations":
             methodparams[k] = int(methodparams[k])
@@ -96,10 +97,13 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        if result.status != "success":
+            vprint("no subsystem found for instance %s: %s" % (idx,result.status))
+            return
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +111,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
@@ -145,7 +149,7 @@ def subsysargs(args):
         output = "%s-%s" % (output, iteration)
         vprint("generating subsystem %s" % output,end=" - ")
         ss = Subsystem(rf, certificate, minfo["mode"])
-        sys = copy.deepcopy(rf.system)
+        sys = load_model(args)
         for s,inss in enumerate(ss.subsystem_mask):
             if inss:
                 sys.labels_by_state.add(s, args.subsys_label)
-- 
2.43.0


From 02f6392637b112cecea689f4772e5edbef8f9ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 23/36] fix: explicitly stored zeros of a matrix are not
 transitions and the model does not share the caller's matrix

---
 switss/utils/casting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/utils/casting.py b/switss/utils/casting.py
index f6653da..1f7b2df 100644
--- a/switss/utils/casting.py
+++ b/switss/utils/casting.py
@@ -15,4 +15,8 @@ def cast_dok_matrix(obj):
         if len(obj.shape) == 1:
             obj = np.array([obj]).T
     
-    return dok_matrix(obj)
\ No newline at end of file
+    matrix = dok_matrix(obj, copy=True)
+    # explicitly stored zeros are no entries
+    for index in [index for index, value in matrix.items() if value == 0]:
+        matrix[index] = 0
+    return matrix
-- 
2.43.0


From 3c614270f872e5ff010150654f81af1f0753318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 24/36] fix: certificate values of DTMC states are drawn at
 their states

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 5f48b82..bc0ff54 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -197,7 +197,8 @@ class Subsystem:
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
                 label = sm["label"]
-                cert = self.certificate[stateidx]
+                index = stateidx if self.certform == "min" else self.supersys.system.index_by_state_action[(stateidx, 0)]
+                cert = self.certificate[index]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
                 else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
                 return { **sm, **{ "label" : label } }
-- 
2.43.0


From fea2f574bff4fed70f347d58c8a9c26e42eb0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 25/36] fix: the graph keeps transition probabilities in double
 precision

Successors and predecessors yielded the probabilities rounded to C floats.
---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..ae48d8a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From 0750333142fd2b96ad2ff582e17b85b5eea94d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 26/36] fix: free the state array of every subgraph in
 maximal_end_components

Only the last of the arrays allocated in the loop was freed.
---
 switss/utils/graph.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index ae48d8a..20a891b 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -254,7 +254,8 @@ cdef class Graph:
                 free_treap(subg_treap)
                 free(new_subg_treaps)
 
-        free(subg_arr)
+            free(subg_arr)
+
         free_tstack(treap_stack)
         free(sccs)
 
-- 
2.43.0


From c437c6adf6c67b1ed9aec708cc15be284d9c5660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 27/36] fix: inserting a key that is already in a treap leaks
 no node

Depending on the priorities either the new node or the old one was dropped
without being freed.
---
 switss/utils/treaps.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index cba336c..9e783aa 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -36,7 +36,9 @@ cdef (TNode*, TNode*) split_treap(TNode* treap, int key):
         return NULL, NULL
 
     elif key == treap.tree_key:
-        return treap.left, treap.right
+        rec_left, rec_right = treap.left, treap.right
+        free(treap)
+        return rec_left, rec_right
 
     elif key < treap.tree_key:
         rec_left, rec_right = split_treap(treap.left, key)
@@ -59,6 +61,7 @@ cdef TNode* insert(TNode* treap, TNode* new_node):
         return new_node
 
     elif treap.tree_key == new_node.tree_key:
+        free(new_node)
         return treap
 
     elif treap.heap_key > new_node.heap_key:
-- 
2.43.0


From 547d731e6a7e1169cefc72a0a0b972584337c946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 28/36] fix: treap_from_arr terminates

The loop never advanced.
---
 switss/utils/treaps.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index 9e783aa..e61c754 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -102,6 +102,7 @@ cdef TNode* treap_from_arr(int* arr, int arr_size):
     cdef int i = 0
     while i < arr_size:
         treap = add_to_treap(treap, arr[i])
+        i += 1
     return treap
 
 cdef void treap_to_arr(TNode* treap, int* arr):
-- 
2.43.0


From 8994e73b4a6fffe703b55a40c2a99d182fe0c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 29/36] fix: strongly connected components can be queried

AbstractMDP.strongly_connected_components called a C-level method of the graph
that is not visible from Python.
---
 switss/utils/graph.pyx | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 20a891b..6a5723d 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -133,7 +133,7 @@ cdef class Graph:
 
 
     # Implementation of Tarjan's Algorithm (possibly on a subgraph defined by the state-set 'treap')
-    cdef (int) strongly_connected_components(self, TNode* treap, int* sccs):
+    cdef (int) subgraph_sccs(self, TNode* treap, int* sccs):
 
         cdef int subg_nodescount = treap.size
         cdef int* subg_arr = <int *> malloc(subg_nodescount * sizeof(int))
@@ -173,6 +173,35 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the graph.
+    # returns a pair (sccs,nr_sccs) where sccs is a vector containing for each state the index of the scc it belongs to, and
+    # nr_sccs is the total number of sccs
+    def strongly_connected_components(self):
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        cdef int[:] ret_view = ret
+        cdef TNode* treap = NULL
+        cdef int* sccs = NULL
+        cdef int scc_count = 0
+        cdef int i = 0
+
+        if self.nodecount == 0:
+            return ret, 0
+
+        while i < self.nodecount:
+            treap = add_to_treap(treap,i)
+            i += 1
+
+        sccs = <int *> malloc(self.nodecount * sizeof(int))
+        scc_count = self.subgraph_sccs(treap,sccs)
+        i = 0
+        while i < self.nodecount:
+            ret_view[i] = sccs[i]-1
+            i += 1
+
+        free(sccs)
+        free_treap(treap)
+        return ret, scc_count
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
@@ -215,7 +244,7 @@ cdef class Graph:
             while j < subg_nodecount:
                 j += 1
             
-            compcount = self.strongly_connected_components(subg_treap,sccs)
+            compcount = self.subgraph_sccs(subg_treap,sccs)
 
             j = 0
             while j < self.nodecount:
-- 
2.43.0


From c97f62914d903d19248d71a5f8eb31d8aee77a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 30/36] fix: maximal end components of a graph without states

The empty state set was dereferenced.
---
 switss/utils/graph.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 6a5723d..b59847f 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -229,7 +229,8 @@ cdef class Graph:
 
         # stack contains subgraphs which are represented by a set of nodes using treaps
         cdef TreapStack* treap_stack = NULL
-        treap_stack = ts_push(treap_stack, subg_treap)
+        if subg_treap != NULL:
+            treap_stack = ts_push(treap_stack, subg_treap)
 
         cdef TNode** new_subg_treaps = NULL
 
-- 
2.43.0


From 08a7304e5e3b05628cb233a08bd2f931298ef0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 31/36] fix: graph queries reject state indices outside the
 graph

They were used to index C arrays without a check.
---
 switss/utils/graph.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index b59847f..1909224 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -64,12 +64,14 @@ cdef class Graph:
         tonode[0].predecessors = newpreds
 
     def successors(self, nodeidx, actionidx=None):
+        assert 0 <= nodeidx and nodeidx < self.nodecount
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].succcount):
             if actionidx is None or actionidx == node[0].successors[i][1]:
                 yield node[0].successors[i]
     
     def predecessors(self, nodeidx, actionidx=None):
+        assert 0 <= nodeidx and nodeidx < self.nodecount
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].predcount):
             if actionidx is None or actionidx == node[0].predecessors[i][1]:
@@ -329,6 +331,10 @@ cdef class Graph:
     def reachable(self, fromset, direction, blocklist=set()):
         assert len(fromset) > 0
         assert direction in ["forward", "backward"]
+        for idx in fromset:
+            assert 0 <= idx and idx < self.nodecount
+        for idx in blocklist:
+            assert 0 <= idx and idx < self.nodecount
 
         cdef int* reachablemask = <int *> malloc(self.nodecount * sizeof(int))
         cdef int* instack = <int *> malloc(self.nodecount * sizeof(int))
-- 
2.43.0


From e30ab9c6067e5417735f966d292929b25b6b5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 32/36] fix: reduction keeps target states without actions

---
 switss/model/reachability_form.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 4a7d1bb..10c7cee 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -316,6 +316,14 @@ class ReachabilityForm:
                 to_rf_rows[(stateidx,actionidx)] = (idx,actionidx)
                 to_rf_cols[stateidx] = idx
 
+        # target states without actions are kept as well, they get an action that moves to the new target
+        for stateidx in sorted(target_states):
+            if reachable_mask[stateidx] and stateidx not in reachable_index_mapping:
+                reachable_index_mapping[stateidx] = nextidx
+                to_rf_rows[(stateidx,0)] = (nextidx,0)
+                to_rf_cols[stateidx] = nextidx
+                nextidx += 1
+
         if debug:
             print("computed state-action mapping")
 
@@ -406,7 +414,7 @@ class ReachabilityForm:
             for l in actionlabels:
                 label_to_actions[l].add((stateidx,actionidx))
 
-            if configuration.reward_vector is not None:
+            if configuration.reward_vector is not None and (sys_stateidx,sys_actionidx) in configuration.index_by_state_action:
                 # initialize new reward vector
                 sys_idx = configuration.index_by_state_action[(sys_stateidx,sys_actionidx)]
                 reward_vector[idx] = configuration.reward_vector[sys_idx]
-- 
2.43.0


From 7203b9e5e226805071f317c3e37cbec0f4c50f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 33/36] fix: Farkas z-systems of integer transition matrices
 keep the threshold

---
 switss/model/reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 10c7cee..d62facf 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -50,7 +50,7 @@ class ReachabilityForm:
         del self.__index_by_state_action.inv[system.C-1]
 
         self.__A = self._reach_form_id_matrix() - self.__P
-        self.__to_target = system.P.getcol(system.N-2).todense()[:system.C-2]
+        self.__to_target = system.P.getcol(system.N-2).todense()[:system.C-2].astype(float)
 
         system_mecs, proper_mecs, nr_of_system_mecs = system.maximal_end_components()
         self.__state_to_mec = system_mecs[:system.N-2]
-- 
2.43.0


From b5f2f0cdd664411dc1d8a26be9a6af2c25e30c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 34/36] fix: Farkas z-systems of integer rewards keep the
 threshold

---
 switss/model/reward_reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 68ac644..70e96f7 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -12,7 +12,7 @@ class RewardReachabilityForm:
     def __init__(self, reachability_form, reward_vector):
 
         self.__reach_form = reachability_form
-        self.reward_vector = reward_vector
+        self.reward_vector = np.array(reward_vector, dtype=float)
 
         self.__system = reachability_form.system
         self.__P = reachability_form.system.P[:self.__system.C-2, :self.__system.N-2]
-- 
2.43.0


From 328a547f64cf2ffdd50bb87331ca168ee15b5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 35/36] fix: drawing a subsystem leaves the dictionaries of
 action styles unchanged

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index bc0ff54..12d29a2 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -210,7 +210,8 @@ class Subsystem:
             in_subsystem = not fail_or_target and self.subsystem_mask[sourceidx]
             show_action_weights = (show_weights and self.certform == "max" and in_subsystem)
             
-            am = visualization.action_map(sourceidx, action, sourcelabels)
+            # a copy: the dictionary belongs to the style function
+            am = dict(visualization.action_map(sourceidx, action, sourcelabels))
             am["node"] = { "label" : "", **(am["node"]) }
             
             if show_action_weights:
-- 
2.43.0


From d906691420d7aa76e3996a888433bd75d764bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 36/36] fix: subsystems are drawn with state styles without a
 label

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 12d29a2..ea81e16 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -196,7 +196,7 @@ class Subsystem:
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-                label = sm["label"]
+                label = sm.get("label", "")
                 index = stateidx if self.certform == "min" else self.supersys.system.index_by_state_action[(stateidx, 0)]
                 cert = self.certificate[index]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
-- 
2.43.0

