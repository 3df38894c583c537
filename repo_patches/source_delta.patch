From 99363cb7f83205a996f380277f5ec5badddce235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 01/30] fix: honour row types when checking feasibility in
 from_constraints

---
 hylaa/lputil.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..7ce2166 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -111,7 +111,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-    assert is_feasible(csr, rhs), "initial constraints are not feasible"
+    assert is_feasible(csr, rhs, types), "initial constraints are not feasible"
     assert (types is None) == (names is None)
 
     if dims is None:
@@ -1000,8 +1000,11 @@ def reorthogonalize_matrix(mat, dims):
 
     return np.array(rv, dtype=float)
 
-def is_feasible(csr, rhs):
-    'are the passed in constraints feasible?'
+def is_feasible(csr, rhs, types=None):
+    '''are the passed in constraints feasible?
+
+    if types is None, then assume all constraints are '<=' constriants
+    '''
 
     if not isinstance(csr, csr_matrix):
         csr = csr_matrix(csr, dtype=float)
@@ -1011,7 +1014,11 @@ def is_feasible(csr, rhs):
     lpi = LpInstance()
     names = ["x{}".format(n) for n in range(csr.shape[1])]
     lpi.add_cols(names)
-    lpi.add_rows_less_equal(rhs)
+
+    if types is None:
+        lpi.add_rows_less_equal(rhs)
+    else:
+        lpi.add_rows_with_types(types, rhs)
 
     lpi.set_constraints_csr(csr)
 
-- 
2.43.0


From 4f92fc4b1e5b2392b190334cf0be4fcb10c618ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 02/30] fix: get_rhs returns the limit of greater-or-equal rows

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..69739f7 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -808,7 +808,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From 739ba24c795a90551bc6242de48312ff259c6caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 03/30] fix: time elapse with the conservative input model at
 skipped steps

---
 hylaa/time_elapse_expm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..fc7d23b 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -113,16 +113,16 @@ class TimeElapseExpmMult(Freezable):
 
             Timers.tic('expm')
             # compute one step behind, because this is what's used by input effects matrix
-            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size)
+            prev_step_mat_exp = expm(self.a_csc * (step_num-1) * self.time_elapser.step_size).toarray()
             Timers.toc('expm')
 
             # advance one step to get current basis matrix
-            self.cur_basis_matrix = np.dot(prev_step_mat_exp.toarray(), self.one_step_matrix_exp)
+            self.cur_basis_matrix = np.dot(prev_step_mat_exp, self.one_step_matrix_exp)
 
             # inputs
             if self.b_csc is not None:
                 Timers.tic("input effects")
-                self.cur_input_effects_matrix = prev_step_mat_exp * self.one_step_input_effects_matrix
+                self.cur_input_effects_matrix = np.dot(prev_step_mat_exp, self.one_step_input_effects_matrix)
                 Timers.toc("input effects")
 
                 if self.use_lgg:
@@ -140,4 +140,5 @@ class TimeElapseExpmMult(Freezable):
         '''
 
         self.use_lgg = True
+        self.cur_step = 0 # the cached input effects are for the exact model and can't be advanced
         self.one_step_input_effects_matrix = self.b_csc.toarray() * self.time_elapser.step_size
-- 
2.43.0


From 9db8fefb0d75564f9c39ec814d9cd64a52083bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 04/30] fix: keep the order of the inputs when states with
 inputs are intersected with an invariant

---
 hylaa/lputil.py   | 11 +++++++++++
 hylaa/result.py   | 14 ++++++++++----
 hylaa/stateset.py | 26 ++++++++++++++++++++++----
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 7ce2166..53554bf 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -300,6 +300,17 @@ def add_input_effects_matrix(lpi, input_mat, mode, lgg_beta=None):
 
     lpi.set_constraints_csc(csc, offset=(0, pre_cols))
 
+def set_input_effects_matrices(lpi, input_effects_list):
+    '''overwrite the input effects matrices in the lpi, one for each of the steps of the current mode
+
+    the i-th matrix in the list is the effect of the i-th group of input variables
+    '''
+
+    identity = np.identity(lpi.dims, dtype=float)
+    csr = csr_matrix(np.hstack([-identity] + input_effects_list), dtype=float)
+
+    lpi.set_constraints_csr(csr, offset=lpi.input_effects_offsets)
+
 def check_intersection(lpi, lc, tol=1e-13):
     '''check if there is an intersection between the LP constriants and the LinearConstraint object lc
 
diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..34aa28f 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -192,11 +192,17 @@ def make_counterexample(ha, state, transition_to_error, lpi):
             elif '_c' in name:
                 seg.end.append(value)
             elif '_I' in name:
+                # with an invariant, inputs are in order. Otherwise, they are in backwards order due to how the LP is
+                # constructed, so prepend it
+                in_order = bool(seg.mode.inv_list)
+
                 if '_I0' in name:
-                    seg.inputs.appendleft([])
-                    
-                # inputs are in backwards order due to how the LP is constructed, prepend it
-                seg.inputs[0].append(value)
+                    if in_order:
+                        seg.inputs.append([])
+                    else:
+                        seg.inputs.appendleft([])
+
+                seg.inputs[-1 if in_order else 0].append(value)
 
         elif name.startswith('reset'):
             seg.reset_minkowski_vars.append(value)
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..c67aa33 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -131,12 +131,14 @@ class StateSet(Freezable):
                 # if we're doing multiple steps here we need to get each step's input effects matrix
                 for step in range(self.cur_step_in_mode + 1, step_in_mode):
                     _, ie_mat = self.mode.time_elapse.get_basis_matrix(step)
-                    self.input_effects_list.append(ie_mat)
-                    lputil.add_input_effects_matrix(self.lpi, ie_mat, self.mode, self.lgg_beta)
+                    self._add_input_effects(ie_mat)
 
                 # add the input effects matrix for the final step (computed before with basis matrix)
-                self.input_effects_list.append(input_effects_matrix)
-                lputil.add_input_effects_matrix(self.lpi, input_effects_matrix, self.mode, self.lgg_beta)
+                self._add_input_effects(input_effects_matrix)
+
+                if self.mode.inv_list:
+                    lputil.set_input_effects_matrices(self.lpi, self.input_effects_list)
+
                 Timers.toc('input effects matrix')
 
                 #print(f".ss lp columns = {self.lpi.get_num_cols()}")
@@ -148,6 +150,22 @@ class StateSet(Freezable):
 
         Timers.toc("step")
 
+    def _add_input_effects(self, ie_mat):
+        '''add the input variables of one more step to the lpi
+
+        ie_mat is the effect of the inputs of the first step, after one more step. Without an invariant the order of
+        the input variables doesn't matter, so the lpi is simply extended. The invariant constraints from earlier steps,
+        however, refer to the inputs of specific steps, so there the i-th group of input variables must remain the
+        inputs of the i-th step: their effects are shifted when a new group is added.
+        '''
+
+        if self.mode.inv_list:
+            self.input_effects_list.insert(0, ie_mat)
+        else:
+            self.input_effects_list.append(ie_mat)
+
+        lputil.add_input_effects_matrix(self.lpi, ie_mat, self.mode, self.lgg_beta)
+
     def verts(self, plotman, subplot=0):
         'get the vertices for plotting this state set, wraps around so rv[0] == rv[-1]'
 
-- 
2.43.0


From ec208aa389bf3525c849068500d1a615582caa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 05/30] fix: reorthogonalize_matrix overwrote its last
 direction and its argument

---
 hylaa/lputil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 53554bf..4ecf173 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -969,6 +969,8 @@ def reorthogonalize_matrix(mat, dims):
 
     while len(rv) < dims:
         if next_index >= mat.shape[0]:
+            cur_vec = None
+
             # first try to pick orthonormal directions if we can
             for d in range(dims):
                 found_nonzero = False
@@ -986,7 +988,7 @@ def reorthogonalize_matrix(mat, dims):
             if cur_vec is None:
                 cur_vec = np.random.rand(dims,)
         else:
-            cur_vec = mat[next_index]
+            cur_vec = mat[next_index].copy()
             next_index += 1
 
         # project out the previous vectors
-- 
2.43.0


From 07a8656ba314928f6182c5d92009d4fb78dabd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 06/30] fix: forget invariant rows when the approximation model
 replaces the linear program

---
 hylaa/stateset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index c67aa33..d840be4 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -354,6 +354,10 @@ class StateSet(Freezable):
         assert self.cur_step_in_mode == 0, "approximation model should be applied before any continuous post operations"
         assert self.mode.time_elapse is not None, "init_time_elapse() must be called before apply_approx_model()"
 
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # the lpi gets replaced, so rows of earlier invariant constraints no longer exist
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
+
         if approx_model == HylaaSettings.APPROX_CHULL:
             self.apply_approx_chull()
         elif approx_model == HylaaSettings.APPROX_LGG:
-- 
2.43.0


From bff693c3954ac7e580606750eaecc17f28317578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 07/30] fix: radius of a set reached over a transition used the
 variables of the earlier mode

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 4ecf173..564f16e 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1092,7 +1092,7 @@ def compute_radius_inf(lpi):
 
             lp_result = lpi.minimize(dir_vec)
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[lpi.cur_vars_offset + n]))
 
     return max_val
 
-- 
2.43.0


From 33c1b998d039ce12592fde87ef08e24a63c91841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 08/30] fix: compare the columns of linear constraints before
 their values

---
 hylaa/hybrid_automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..7738974 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,9 +37,9 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
+        elif not np.array_equal(self.csr.indices, other.csr.indices):
             rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
+        elif not np.array_equal(self.csr.indptr, other.csr.indptr):
             rv = False
         else:
             for i in range(len(self.csr.data)):
-- 
2.43.0


From 0f40ff5f5bb077fb5921b312a9267cd5a8d5d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 09/30] fix: modes with inputs are not stationary when their
 dynamics matrix is zero

---
 hylaa/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..f15d9c1 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -236,8 +236,9 @@ class Core(Freezable):
                     cur_state.step()
                     self.check_guards() # check guards here, before doing an invariant intersection
 
-                    # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    # if the current mode has zero dynamics (and no inputs), remove it here
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                            self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 8d1522d1f14c1b860a8803e3924d72ec4d566268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 10/30] fix: reset the time-triggered flag when the state
 reaches the time bound

---
 hylaa/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index f15d9c1..3886e2a 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -220,6 +220,7 @@ class Core(Freezable):
         if not self.is_finished():
             if cur_state.cur_steps_since_start[0] >= self.settings.num_steps:
                 self.print_normal("State reached computation time bound")
+                self.took_tt_transition = False # reset the flag, it's about the current state
                 self.aggdag.cur_state_left_invariant(reached_time_bound=True)
 
             elif self.took_tt_transition:
-- 
2.43.0


From 970e353d038f775a246c9debed406e3a4be4f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 11/30] fix: only treat a transition as time-triggered when its
 guard expression decreases

---
 hylaa/hybrid_automaton.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7738974..a2b1fe9 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -803,7 +803,12 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
 
             #print(". min_val = {}, max_val = {}, rhs = {}".format(min_val, max_val, rhs))
 
-            if abs(max_val - min_val) < epsilon and min_val <= rhs:
+            # the guard expression must be decreasing, otherwise the invariant doesn't become false after the guard holds
+            deriv_dir = direction * t.from_mode.a_csr
+            max_deriv_state = state_lpi.minimize(direction_vec=-1 * deriv_dir, columns=state_cols)
+            max_deriv = np.dot(max_deriv_state, deriv_dir)
+
+            if abs(max_val - min_val) < epsilon and min_val <= rhs and step_size * max_deriv < -epsilon:
                 rv = True
                 
     return rv
-- 
2.43.0


From 28a97970f7e609319eb019bb853e1c654754659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 12/30] fix: do not replay split states beyond the computation
 time bound

---
 hylaa/aggdag.py        | 21 +++++++++++++++++++++
 hylaa/deaggregation.py |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..990237a 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -401,6 +401,10 @@ class AggDagNode(Freezable):
 
         op = op_list[i]
 
+        if self.check_replay_time_bound(op.step):
+            Timers.toc('replay_op')
+            return
+
         cur_state = self.get_cur_state()
         assert cur_state is not None
 
@@ -447,6 +451,23 @@ class AggDagNode(Freezable):
 
         Timers.toc('replay_op')
 
+    def check_replay_time_bound(self, step_in_mode):
+        '''during a replay, check if the computation time bound is reached before the passed-in step
+
+        The replayed operations come from an aggregated state, and this node may have started later than it did. If the
+        bound is reached, the computation in this node is finished. Returns True if this was the case.
+        '''
+
+        state = self.stateset
+        num_steps = step_in_mode - state.cur_step_in_mode
+        rv = False
+
+        if num_steps > 0 and state.cur_steps_since_start[0] + num_steps > self.aggdag.settings.num_steps:
+            self.op_list.append(OpLeftInvariant(state.cur_step_in_mode, self, True))
+            rv = True
+
+        return rv
+
     def replay_op_transition(self, state, op):
         '''replay a single operation of type OpTransition
         '''
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..830ab8c 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -147,7 +147,7 @@ class DeaggregationManager(Freezable):
 
         # advance the children to the current step if in case we only had inv_intersection operations
         for child in self.deagg_children:
-            if not child.node_left_invariant():
+            if not child.node_left_invariant() and not child.check_replay_time_bound(cur_step_in_mode):
                 child.stateset.step(cur_step_in_mode)
 
         if not parent_left_invariant:
-- 
2.43.0


From 99cfe4323900513bb21a1fa208b65ecc863e6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 13/30] fix: keep states of other nodes when a split removes
 their aggregated successor

---
 hylaa/aggdag.py        | 25 +++++++++++++++++++++++++
 hylaa/deaggregation.py |  7 +++++++
 2 files changed, 32 insertions(+)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 990237a..126871a 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -168,6 +168,31 @@ class AggDag(Freezable):
 
         return rv
 
+    def get_outside_ops(self, node):
+        '''get the transitions into descendants of the passed-in node that come from other nodes
+
+        when states with different paths are aggregated, a descendant can have parents that are not descendants
+
+        returns a list of pairs: (descendant_node, list of OpTransition)
+        '''
+
+        inside = [node]
+
+        for cur in inside: # inside is extended while iterating
+            for op in cur.op_list:
+                if isinstance(op, OpTransition) and op.child_node is not None and not op.child_node in inside:
+                    inside.append(op.child_node)
+
+        rv = []
+
+        for descendant in inside[1:]:
+            ops = [op for op in descendant.parent_ops if op.child_node is descendant and not op.parent_node in inside]
+
+            if ops:
+                rv.append((descendant, ops))
+
+        return rv
+
     def remove_node_decendants_from_waiting_list(self, node):
         'remove all waiting list states originating from the passed-in node'
 
diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 830ab8c..7a2a399 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -199,7 +199,14 @@ class DeaggregationManager(Freezable):
         # remove all states in the waiting list that come from this node
         self.aggdag.remove_node_decendants_from_waiting_list(node)
 
+        outside_ops = self.aggdag.get_outside_ops(node)
+
         # start to populate waiting_nodes
         self.waiting_nodes.append((node, node.split()))
 
+        # the descendants are recomputed, so the states which reached them from other nodes must be considered again
+        for descendant, ops in outside_ops:
+            new_node = self.aggdag.make_node(ops, descendant.agg_type_from_parents, descendant.stateset.aggstring)
+            self.waiting_nodes.append((descendant, [new_node]))
+
         Timers.toc('begin deagg replay')
-- 
2.43.0


From 57bf9d09ba8fb8ca779b9089b58750808d5ed5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 14/30] fix: replay counterexamples on the step grid and check
 identity resets

---
 hylaa/result.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 34aa28f..0224b4e 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -235,7 +235,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
@@ -265,16 +265,15 @@ def replay_counterexample(ce_segment_list, ha, settings):
 
         assert not t.reset_minkowski_csr, "unimplemented: resets with minkowski sums"
 
-        if t.reset_csr is not None:
-            poststate = t.reset_csr * states[-1]
+        poststate = states[-1] if t.reset_csr is None else t.reset_csr * states[-1]
 
-            if i + 1 < len(ce_segment_list):
-                next_prestate = ce_segment_list[i+1].start
+        if i + 1 < len(ce_segment_list):
+            next_prestate = ce_segment_list[i+1].start
 
-                assert np.allclose(poststate, next_prestate)
-            else:
-                rv.append(poststate)
-                all_times.append(all_times[-1])
+            assert np.allclose(poststate, next_prestate)
+        elif t.reset_csr is not None:
+            rv.append(poststate)
+            all_times.append(all_times[-1])
 
     return rv, all_times
 
-- 
2.43.0


From ae383c8908834ec6cfc2eb6685b0a5a156822ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 15/30] fix: do not build counterexamples from approximated
 states

---
 hylaa/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 3886e2a..81becc2 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -119,7 +119,10 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # states bloated by an approximation model do not correspond to discrete-time executions
+            has_trace = self.settings.approx_model == HylaaSettings.APPROX_NONE
+
+            if self.settings.make_counterexample and has_trace and not self.result.counterexample:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From d92ab2b47b77faa26aaadbccb86b155870e5f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 16/30] fix: counterexamples from initial sets with further
 variables

---
 hylaa/lputil.py | 2 +-
 hylaa/result.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 564f16e..1569100 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1176,7 +1176,7 @@ def from_input_constraints(b_mat, u_constraints, u_rhs, mode):
 
     combined_rhs = [0] * dims
     combined_types = [glpk.GLP_FX] * dims
-    combined_names = [f"c{n}" for n in range(dims)]
+    combined_names = [f"m{mode.mode_id}_i{n}" for n in range(dims)]
 
     combined_rhs += [v for v in u_rhs]
     combined_types += [glpk.GLP_UP] * u_constraints.shape[0]
diff --git a/hylaa/result.py b/hylaa/result.py
index 0224b4e..d93322f 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -188,7 +188,9 @@ def make_counterexample(ha, state, transition_to_error, lpi):
 
         if name.startswith('m'): # mode variable
             if '_i' in name:
-                seg.start.append(value)
+                # the initial set may have further variables after the state variables
+                if len(seg.start) < seg.mode.a_csr.shape[0]:
+                    seg.start.append(value)
             elif '_c' in name:
                 seg.end.append(value)
             elif '_I' in name:
-- 
2.43.0


From eb689353291fc40fe3c66759bbaf387d29b4b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 17/30] fix: plotting points with y dimension 0 or with
 directions

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From c38dc5fa62fba96d0d9e12580a457eadd2ae94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 18/30] fix: try guards in the first simulation step for all
 simulations or none

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 81becc2..37a6f16 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -564,7 +564,6 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
                 finished = False
                 
                 # advance time
@@ -573,6 +572,9 @@ class Core(Freezable):
                 obj[1] = pt
                 obj[2] = steps + 1
 
+            # all the simulations have now taken a step
+            self.sim_should_try_guards = True
+
             if finished:
                 self.plotman.commit_cur_sims()
                 self.sim_states = None
-- 
2.43.0


From cb3caeb390b73e982aaa1224d0769a3cc2807807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 19/30] fix: simulate with the default aggregation strategy

---
 hylaa/aggstrat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..2a6392a 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -47,6 +47,11 @@ class AggregationStrategy(Freezable):
 
         return [waiting_list[0]]
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''returns the mode to be popped off the simulation waiting list, which is a list of (mode, pt, num_steps)'''
+
+        return min(sim_waiting_list, key=lambda item: item[2])[0]
+
     def get_deagg_node(self, aggdag):
         '''Called before popping a state off the waiting list. Get the aggdag node to deaggregate (if any).
         '''
-- 
2.43.0


From 9c75bfc91abe948af57de930cc9ed7091f3503fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 20/30] fix: plot two dimensions given as directions

---
 hylaa/lpplot.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..8fb54c2 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -121,7 +121,7 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
         epsilon = min(bboxw) / 1000.0
-        dim_list = [xdim, ydim]
+        dim_list = [_to_direction(xdim, lpi.dims), _to_direction(ydim, lpi.dims)]
 
         def supp_point_nd(vec):
             'return a supporting point for the given direction (maximize)'
@@ -131,8 +131,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, direction in enumerate(dim_list):
+                d -= vec[i] * direction
 
             lpi.set_minimize_direction(d)
 
@@ -140,8 +140,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for direction in dim_list:
+                rv.append(np.dot(direction, res))
 
             rv = np.array(rv, dtype=float)
 
@@ -166,19 +166,29 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
     return verts
 
+def _to_direction(dim, dims):
+    'convert a plot dimension (a dimension number or an np.array direction) to an np.array direction'
+
+    if isinstance(dim, int):
+        dim = np.array([1.0 if i == dim else 0.0 for i in range(dims)], dtype=float)
+
+    assert isinstance(dim, np.ndarray)
+
+    return dim
+
 def bbox_widths(lpi, xdim, ydim):
     'find and return the bounding box widths of the lp for the passed-in dimensions'
 
     rv = []
     dims = lpi.dims
 
+    columns = [lpi.cur_vars_offset + n for n in range(dims)]
+
     for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
-        
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+        direction = _to_direction(dim, dims)
+
+        min_val = np.dot(direction, lpi.minimize(direction_vec=direction, columns=columns))
+        max_val = np.dot(direction, lpi.minimize(direction_vec=-1 * direction, columns=columns))
 
         dx = max_val - min_val
 
-- 
2.43.0


From 76fc75f4a98879252d1ee72565d882e2a1d55b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 21/30] fix: retract stored plot data from every subplot

---
 hylaa/result.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index d93322f..4922091 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -67,11 +67,10 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
-
-        found = False
+        'remove a state that was previously added (from every subplot)'
 
         for mode_to_obj in self.mode_to_obj_list:
+            found = False
             obj_list = mode_to_obj[state.mode.name]
 
             for index, obj in enumerate(obj_list):
@@ -83,10 +82,7 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
-        assert found
+            assert found
 
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
-- 
2.43.0


From 9ff9b2865881cafede632fa76711ec918be013de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 22/30] fix: retract sets which were drawn as markers

---
 hylaa/plotutil.py |  3 +++
 hylaa/stateset.py | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 0b8e96b..00e6955 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -343,6 +343,9 @@ class DrawnShapes(Freezable):
             ydata.append(poly_verts[0][1])
             markers.set_xdata(xdata)
             markers.set_ydata(ydata)
+
+            # save the markers in the StateSet
+            stateset.set_plot_path(self.subplot, markers, len(xdata) - 1)
         else:
             polys = self.parent_to_polys.get(mode_name)
 
diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index d840be4..73fd3c7 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -9,6 +9,7 @@ import math
 import numpy as np
 import scipy as sp
 
+from matplotlib.lines import Line2D
 from matplotlib.path import Path
 
 from hylaa import lpplot, lputil
@@ -211,6 +212,8 @@ class StateSet(Freezable):
     def set_plot_path(self, subplot, path_list, path_index):
         '''
         set the matplotlib path object for this stateset at the current step
+
+        if the set was drawn using a marker, path_list is the Line2D object with the markers
         '''
 
         step = self.cur_step_in_mode
@@ -246,10 +249,19 @@ class StateSet(Freezable):
 
             # for every subplot
             for path_list, index in l:
-                rv.append(path_list[index].vertices)
-
-                # this is what actually removes it from the plot
-                path_list[index] = Path(verts, codes)
+                if isinstance(path_list, Line2D):
+                    xdata, ydata = list(path_list.get_xdata()), list(path_list.get_ydata())
+                    rv.append([(xdata[index], ydata[index])] * 2)
+
+                    # remove the marker, without changing the positions of the other ones
+                    xdata[index] = ydata[index] = float('nan')
+                    path_list.set_xdata(xdata)
+                    path_list.set_ydata(ydata)
+                else:
+                    rv.append(path_list[index].vertices)
+
+                    # this is what actually removes it from the plot
+                    path_list[index] = Path(verts, codes)
 
         return rv
 
-- 
2.43.0


From 129dac4ce414a167085eabca0b8518f40d4fd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 23/30] fix: follow de-aggregation in stored plot data also
 without drawing

---
 hylaa/plotutil.py | 20 ++++++++++----------
 hylaa/result.py   | 12 +++++-------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/hylaa/plotutil.py b/hylaa/plotutil.py
index 00e6955..eebe573 100644
--- a/hylaa/plotutil.py
+++ b/hylaa/plotutil.py
@@ -699,6 +699,10 @@ class PlotManager(Freezable):
     def delete_plotted_state(self, stateset, step):
         'delete an already-plotted state'
 
+        # delete it from the result object
+        if self.core.result.plot_data is not None:
+            self.core.result.plot_data.remove_state(stateset, step)
+
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             verts = stateset.del_plot_path(step)
 
@@ -706,27 +710,23 @@ class PlotManager(Freezable):
                 pass # this happens during normal operation (nested deaggregation)
                 #print(f".#######plotutil plot was already deleted: {stateset}")
             else:
-                # delete it from the result object
-                if self.core.result.plot_data is not None:
-                    self.core.result.plot_data.remove_state(stateset, step)
-
                 # plot the verts of the deleted old plotted state
                 self.highlight_states_gray([verts])
 
     def add_plotted_states(self, stateset_list):
         'add the passed-in statesets to be plotted'
 
+        # add it to result
+        if self.settings.store_plot_result:
+            for state in stateset_list:
+                for subplot in range(self.num_subplots):
+                    verts = state.verts(self, subplot=subplot)
+                    self.core.result.plot_data.add_state(state, verts, subplot)
 
         if self.settings.plot_mode != PlotSettings.PLOT_NONE:
             for state in stateset_list:
                 self.add_reachable_poly(state)
 
-                # add it to result as well
-                if self.settings.store_plot_result:
-                    for subplot in range(self.num_subplots):
-                        verts = state.verts(self, subplot=subplot)
-                        self.core.result.plot_data.add_state(state, verts, subplot)
-
             self.highlight_states(stateset_list)
 
     def highlight_states_gray(self, states):
diff --git a/hylaa/result.py b/hylaa/result.py
index 4922091..fd15bf0 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -67,23 +67,21 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added (from every subplot)'
+        '''remove a state that was previously added (from every subplot)
+
+        does nothing if it was already removed (this can happen with recursive deaggregation)
+        '''
 
         for mode_to_obj in self.mode_to_obj_list:
-            found = False
             obj_list = mode_to_obj[state.mode.name]
 
             for index, obj in enumerate(obj_list):
-                _, istate, istep, desc = obj
+                _, istate, istep, _ = obj
 
                 if istate is state and step == istep:
-                    found = True
-
                     obj_list.pop(index)
                     break
 
-            assert found
-
     def get_plot_data(self, x, y, subplot=0):
         'get the plot data at x, y, or None if not found'
 
-- 
2.43.0


From 1b8a6cfb80b1f6e55c31e2c12450947330b5c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 24/30] fix: flatten and copy the right-hand side of a guard
 before it is checked and stored

---
 hylaa/hybrid_automaton.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index a2b1fe9..c09b76b 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -328,8 +328,9 @@ class Transition(Freezable):
         if not isinstance(guard_csr, csr_matrix):
             guard_csr = csr_matrix(guard_csr, dtype=float)
             
-        if not isinstance(guard_rhs, np.ndarray):
-            guard_rhs = np.array(guard_rhs, dtype=float)
+        # copy to a flat 1-d array of floats (the rhs may be modified if the transition is time-triggered)
+        guard_rhs = np.array(guard_rhs, dtype=float)
+        guard_rhs.shape = (len(guard_rhs), )
         
         assert self.from_mode.a_csr is not None, "A-matrix not assigned in predecessor mode {}".format(self.from_mode)
 
@@ -339,7 +340,6 @@ class Transition(Freezable):
 
         assert lputil.is_feasible(guard_csr, guard_rhs), "guard constraints were infeasible"
 
-        guard_rhs.shape = (len(guard_rhs), ) # flatten into a 1-d array
         assert guard_rhs.shape[0] == guard_csr.shape[0]
 
         self.guard_csr = guard_csr
-- 
2.43.0


From 526efbd660eb7c413ebd65919f7292f9f4bdc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 25/30] fix: copy the right-hand sides of invariants, inputs
 and resets instead of sharing the caller's arrays

---
 hylaa/hybrid_automaton.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index c09b76b..fba05eb 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -124,9 +124,7 @@ class Mode(Freezable):
         if not isinstance(constraints_csr, csr_matrix):
             constraints_csr = csr_matrix(constraints_csr, dtype=float)
             
-        if not isinstance(constraints_rhs, np.ndarray):
-            constraints_rhs = np.array(constraints_rhs, dtype=float)
-
+        constraints_rhs = np.array(constraints_rhs, dtype=float) # copy
         constraints_rhs.shape = (len(constraints_rhs), ) # flatten rhs into a 1-d array
         assert constraints_csr.shape[1] == self.a_csr.shape[0], \
             "width of invaraiant constraints({}) must equal A matrix size({})".format( \
@@ -220,9 +218,7 @@ class Mode(Freezable):
         if not isinstance(u_constraints_csr, csr_matrix):
             u_constraints_csr = csr_matrix(u_constraints_csr, dtype=float)
             
-        if not isinstance(u_constraints_rhs, np.ndarray):
-            u_constraints_rhs = np.array(u_constraints_rhs, dtype=float)
-        
+        u_constraints_rhs = np.array(u_constraints_rhs, dtype=float) # copy
         u_constraints_rhs.shape = (len(u_constraints_rhs), ) # flatten init_rhs into a 1-d array
 
         # additional checks on inputs
@@ -380,7 +376,7 @@ class Transition(Freezable):
         if reset_minkowski_constraints_csr is not None and not isinstance(reset_minkowski_constraints_csr, csr_matrix):
             reset_minkowski_constraints_csr = csr_matrix(reset_minkowski_constraints_csr, dtype=float)
 
-        if reset_minkowski_constraints_rhs is not None and not isinstance(reset_minkowski_constraints_rhs, np.ndarray):
+        if reset_minkowski_constraints_rhs is not None:
             reset_minkowski_constraints_rhs = np.array(reset_minkowski_constraints_rhs, dtype=float)
         
         assert reset_csr.shape[1] == self.from_mode.a_csr.shape[0], "reset matrix expected {} columns, got {}".format(
-- 
2.43.0


From 5cc55495f89b659ab558b2461c2d1271256ad83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 26/30] fix: refuse reset uncertainty without constraints when
 the reset is set

---
 hylaa/hybrid_automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index fba05eb..c343574 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -384,6 +384,10 @@ class Transition(Freezable):
         assert reset_csr.shape[0] == to_mode_csr.shape[0], "reset matrix expected {} rows, got {}".format(
             to_mode_csr.shape[0], reset_csr.shape[0])
 
+        assert reset_minkowski_constraints_rhs is not None or \
+            (reset_minkowski_csr is None and reset_minkowski_constraints_csr is None), \
+            "reset minkowski variables need constraints (matrix and rhs)"
+
         if reset_minkowski_constraints_rhs is not None:
             assert len(reset_minkowski_constraints_rhs.shape) == 1
             assert reset_minkowski_constraints_csr is not None
-- 
2.43.0


From adb09adc0ba311226c0586c27e562ca7039d1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 27/30] fix: the final check refuses a reset that does not fit
 its target mode

---
 hylaa/hybrid_automaton.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index c343574..f067f63 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -515,6 +515,11 @@ class HybridAutomaton(Freezable):
                 "Transition {} premode has {} dims and postmode has {} dims, but no reset was assigned".format(
                     t, premode_dims, postmode_dims)
 
+            # the target mode may have been an error mode (no dynamics) when the reset was set
+            assert t.reset_csr is None or t.reset_csr.shape[0] == postmode_dims, \
+                "Transition {} reset has {} rows, but postmode has {} dims".format(
+                    t, t.reset_csr.shape[0], postmode_dims)
+
     def do_guard_strengthening(self):
         '''
         Strengthen the guards to include the invariants of target modes
-- 
2.43.0


From 306bbf6230a09c3a40b49f2eea4b673363b65a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 28/30] fix: check_trace.check passed a fractional number of
 samples to linspace and always failed

---
 hylaa/check_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..afe63db 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = int(approx_samples / max(1, len(inputs)))
     if samples_per_input < 1:
         samples_per_input = 1
 
-- 
2.43.0


From e045c71d3bb137add0deaf867d2ea8a491acdfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 29/30] fix: check_trace.plot used the removed xrange builtin
 and appended to the caller's input list

---
 hylaa/check_trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index afe63db..8aad7d0 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -227,13 +227,13 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         ax[0].set_title('Counter-Example Trace', fontsize=28)
 
     if inputs is not None and len(inputs) > 0:
-        inputs.append(inputs[-1]) # there is one less input than time instants
+        inputs = list(inputs) + [inputs[-1]] # there is one less input than time instants
         inputs = np.array(inputs, dtype=float)
 
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(total_steps-1):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -242,7 +242,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -258,7 +258,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From 4608d2f284fc0cf8405ff8e449fddf189b0ed101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 30/30] fix: time-triggered detection takes inputs into account

get_tt_vars only looked at the dynamics matrix, so a variable driven by an input was taken for a
constant or a clock and states that could stay in the mode were dropped.
---
 hylaa/hybrid_automaton.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index f067f63..8291ec6 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -624,17 +624,20 @@ def get_tt_vars(mode):
 
     tt_vars = []
 
+    # the derivatives of these variables depend on inputs, so they're neither constant nor time-triggered
+    input_vars = [] if mode.b_csr is None else [i for i, row in enumerate(mode.b_csr) if row.getnnz() > 0]
+
     # find all variables with derivative equal to zero
     constant_vars = []
 
     for i in range(mode.a_csr.shape[0]):
         nonzeros = mode.a_csr[i].getnnz()
 
-        if nonzeros == 0: # row of all zeros
+        if nonzeros == 0 and not i in input_vars: # row of all zeros
             constant_vars.append(i)
 
     for row_index, row in enumerate(mode.a_csr):
-        if row.getnnz() == 0: # skip constant variables
+        if row.getnnz() == 0 or row_index in input_vars: # skip constant and input-driven variables
             continue
 
         all_constant = True
-- 
2.43.0

