From c714859ccf6d0962861d05f944bbe74579b13a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 01/44] fix: give torch.clamp its bounds when showing the next
 sample

---
 neural_network_lyapunov/pybullet_data_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..faf79ff 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -19,7 +19,7 @@ def show_sample(X_sample, X_next_sample=None, clamp=False):
     if clamp:
         X_sample = torch.clamp(X_sample, 0, 1)
         if X_next_sample is not None:
-            X_next_sample = torch.clamp(X_next_sample)
+            X_next_sample = torch.clamp(X_next_sample, 0, 1)
     if X_sample.shape[0] == 6:
         num_channels = 3
         cmap = None
-- 
2.43.0


From e9a6cbff256fdda98c013b220afdbed3cd16821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 02/44] fix: read position and velocity of every joint after a
 simulated sample

---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index faf79ff..ac004cb 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From 21191bd93f159cc9b3dfa2a48347ce5764981bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 03/44] fix: do not lose a simulation step to round off when
 splitting dt into time steps

---
 neural_network_lyapunov/pybullet_data_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index ac004cb..294251c 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -193,7 +193,8 @@ class PybulletSampleGenerator:
         assert (isinstance(x0, torch.Tensor))
         assert (len(x0) == self.x_dim)
         pb.restoreState(self.state_id)
-        num_step = int(dt * (.5 / self.timestep))
+        # The small offset absorbs the round off in dt / timestep.
+        num_step = int(dt * (.5 / self.timestep) + 1e-6)
         X = np.zeros((6, self.image_width, self.image_height), dtype=np.uint8)
         X_next = np.zeros((3, self.image_width, self.image_height),
                           dtype=np.uint8)
-- 
2.43.0


From 91319154582f4c54285ed3a5971528d68d5ead06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 04/44] fix: maximum encoding with exactly one input that
 cannot be the maximum

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..e41bbfb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From bbc0cf1eafadaa449dab53bbdf8883d9cfe9eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 05/44] fix: linear program value with two or more active
 inequalities

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index e41bbfb..59baa2a 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -888,7 +888,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


From 8c52d0d19f7b04cd408010791ea6cd7af06f92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 06/44] fix: l1 gradient with a positive tolerance compared
 signs with it

---
 neural_network_lyapunov/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 59baa2a..5d307a4 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1437,20 +1437,20 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
+        zero_mask = torch.abs(x) <= zero_tol
         s = torch.sign(x)
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[zero_mask] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[zero_mask] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
-                              zero_tol] = subgradient_samples[i]
+                s_subgradient[zero_mask] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
     else:
-- 
2.43.0


From 1819127fd056ed4f3bb7092d2f4181f9c44d16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 07/44] fix: exporting the parameters of an SPD state transform
 raised

---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..3d18443 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self._variables
         }
 
 
-- 
2.43.0


From e41d8920994aa1fb2bc3b461583ccfdcd5317882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 08/44] fix: concatenated binary bounds used the first block's
 number of binaries

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From e4c6da5d47247fd2c4f10c74ae2fedb95548adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 09/44] fix: MIQP objective from problem data ignored the mixed
 term and assumed symmetry

---
 neural_network_lyapunov/gurobi_torch_mip.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..c1b3a45 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1305,17 +1305,17 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
-        [ A_act,   0 ]   [λ]   [b_act]
+        [Qᵣ+Qᵣᵀ, A_actᵀ] * [r] = [ -cᵣ-Q_rzeta*ζ ]
+        [ A_act,     0 ]   [λ]   [     b_act     ]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,   0 ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ, A_actᵀ]⁻¹ * [ -cᵣ-Q_rzeta*ζ ]
+        [λ]   [ A_act,     0 ]     [     b_act     ]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,       εI ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ + εI, A_actᵀ]⁻¹ * [ -cᵣ-Q_rzeta*ζ ]
+        [λ]   [ A_act,         εI ]     [     b_act     ]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
         function of the MIQP data.
@@ -1330,13 +1330,15 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From 732badaff28c640e480861d6d258b99beeda6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 10/44] fix: adding a block whose slack or binary variables
 appear only in its output

---
 neural_network_lyapunov/gurobi_torch_mip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index c1b3a45..8871e8d 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -736,6 +736,8 @@ class GurobiTorchMIP:
             slack_size = mip_cnstr_return.Ain_slack.shape[1]
         elif mip_cnstr_return.Aeq_slack is not None:
             slack_size = mip_cnstr_return.Aeq_slack.shape[1]
+        elif mip_cnstr_return.Aout_slack is not None:
+            slack_size = mip_cnstr_return.Aout_slack.shape[1]
         elif mip_cnstr_return.slack_lo is not None:
             slack_size = mip_cnstr_return.slack_lo.numel()
         elif mip_cnstr_return.slack_up is not None:
@@ -756,6 +758,8 @@ class GurobiTorchMIP:
             binary_size = mip_cnstr_return.Ain_binary.shape[1]
         elif mip_cnstr_return.Aeq_binary is not None:
             binary_size = mip_cnstr_return.Aeq_binary.shape[1]
+        elif mip_cnstr_return.Aout_binary is not None:
+            binary_size = mip_cnstr_return.Aout_binary.shape[1]
         elif mip_cnstr_return.binary_lo is not None:
             binary_size = mip_cnstr_return.binary_lo.numel()
         elif mip_cnstr_return.binary_up is not None:
-- 
2.43.0


From 0ab4b9c573447d528d8d7d4dd315ce906ca48905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 11/44] fix: transforming a block's input changed tensors
 shared with other blocks

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 8871e8d..e6e1556 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -137,14 +137,14 @@ class MixedIntegerConstraintsReturn:
             Aout_input * b + Cout.
         """
         if self.Ain_input is not None:
-            self.rhs_in -= self.Ain_input @ b
+            self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
         if self.Aeq_input is not None:
-            self.rhs_eq -= self.Aeq_input @ b
+            self.rhs_eq = self.rhs_eq - self.Aeq_input @ b
             self.Aeq_input = self.Aeq_input @ A
         if self.Aout_input is not None:
             if self.Cout is not None:
-                self.Cout += self.Aout_input @ b
+                self.Cout = self.Cout + self.Aout_input @ b
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-- 
2.43.0


From a9d9d109f53138ebece4a0b96b74633ffde22943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 12/44] fix: transforming the input of a block with input
 bounds was not refused

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index e6e1556..df36648 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -136,6 +136,9 @@ class MixedIntegerConstraintsReturn:
         Aout_input * A * x + Aout_slack * s + Aout_binary * binary +
             Aout_input * b + Cout.
         """
+        if self.input_lo is not None or self.input_up is not None:
+            raise Exception("transform_input(): cannot handle non-empty " +
+                            "input_lo or input_up")
         if self.Ain_input is not None:
             self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
@@ -148,9 +151,6 @@ class MixedIntegerConstraintsReturn:
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-        if self.input_lo is not None or self.input_up is not None:
-            assert ("transform_input(): cannot handle non-empty input_lo or " +
-                    "input_up")
 
 
 def concatenate_mixed_integer_constraints(
-- 
2.43.0


From 0c79b49b491230b1fa23a0893bc30814bf483637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 13/44] fix: cost-to-go sampling crashed on trajectories that
 leave every mode

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..5265cd6 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "compute_discrete_time_system_cost_to_go(): the trajectory " +
+                "leaves every mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost += cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From 50e58ce97a1decbc856dc0a163574a90182f8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 14/44] fix: cost-to-go summation wrote into the tensor
 returned by the cost function

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 5265cd6..45bd5a6 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -703,7 +703,7 @@ def compute_discrete_time_system_cost_to_go(system,
                 "compute_discrete_time_system_cost_to_go(): the trajectory " +
                 "leaves every mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
-        total_cost += cost_steps[i + 1]
+        total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
     x_steps = torch.stack(x_steps[:terminal_step + 1], axis=1)
     costs = torch.stack([
-- 
2.43.0


From a70e9541b61b9e91a2d872a6bd9abfd0be54a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 15/44] fix: input-matrix encoding of second-order
 control-affine systems uses the state dimension

---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From 904961ca6eb86ec8e2802fa6d70c4a3ba1a26d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 16/44] fix: Lyapunov programs for networks with a single
 hidden unit

---
 neural_network_lyapunov/lyapunov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..384d726 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -86,7 +86,7 @@ class LyapunovHybridLinearSystem:
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
-        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(),
+        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(0),
                 mip_constr_return.Cout.squeeze(), mip_constr_return)
 
     def add_state_error_l1_constraint(self,
@@ -213,7 +213,7 @@ class LyapunovHybridLinearSystem:
         # = a_out * z + b_out - ϕ(x*) + λ * s
         relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
         V_coeff = [
-            a_out.squeeze(0), V_lambda * torch.ones(
+            a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=self.system.dtype)
         ]
         V_vars = [z, s]
@@ -294,7 +294,7 @@ class LyapunovHybridLinearSystem:
         # Now set the objective as -ϕ(x) + ϕ(x*) + (ε-λ)*|R(x−x*)|₁
         # = -a_out * z - b_out +  ϕ(x*) + (ε-λ) * s
         milp.setObjective([
-            -a_out.squeeze(), (V_epsilon - V_lambda) * torch.ones(
+            -a_out, (V_epsilon - V_lambda) * torch.ones(
                 (len(s), ), dtype=dtype)
         ], [z, s],
                           constant=-b_out + relu_at_equilibrium.squeeze(),
@@ -473,7 +473,7 @@ class LyapunovHybridLinearSystem:
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
@@ -1252,7 +1252,7 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
-- 
2.43.0


From d04ab61ddc6d9d392b03bb533cd882a9177086d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 17/44] fix: region of attraction counts successors that leave
 the box through several coordinates

---
 neural_network_lyapunov/lyapunov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 384d726..912cf76 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1178,9 +1178,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1204,14 +1204,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From 4c20ea3599cc3bffe8ae1fc42bddf134d78e55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 18/44] fix: continuous-time lyapunov_derivative accepts R=None
 (identity) as its callers do

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..8609d09 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -54,6 +54,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         Due to the non-uniqueness of the gradient dV/dx, there might be
         multiple V̇(x) + εV(x). We return a list of all the values.
         """
+        R = lyapunov._get_R(R, self.system.x_dim, x_equilibrium.device)
         dVdx = self._lyapunov_gradient(x,
                                        x_equilibrium,
                                        V_lambda,
-- 
2.43.0


From ecf9d659f1342d58685b8fb4c50e93e85ee08d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 19/44] fix: hybrid lyapunov_derivative works for systems with
 a single state

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 8609d09..34a9396 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -391,8 +391,8 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
         for i in range(len(dReLU_dx_all)):
             for j in range(len(state_error_grad)):
                 dV_dx[i * len(state_error_grad) + j] = \
-                    dReLU_dx_all[i].squeeze() + \
-                    V_lambda * state_error_grad[j].squeeze()
+                    dReLU_dx_all[i].reshape((-1, )) + \
+                    V_lambda * state_error_grad[j].reshape((-1, ))
         Vdot_all = [None] * (len(dV_dx) * len(xdot_all))
         for i in range(len(dV_dx)):
             for j in range(len(xdot_all)):
-- 
2.43.0


From 74cfcdae53882cbd1c32b988376df89bc03b04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 20/44] fix: continuous-time decrease program can be built with
 relaxed binaries

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 neural_network_lyapunov/gurobi_torch_mip.py         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 34a9396..f4077b8 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -100,7 +100,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index df36648..678804e 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -777,7 +777,10 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                # addVars registers BINARYRELAX as continuous in gurobi.
+                gurobi_vtype = gurobipy.GRB.CONTINUOUS if \
+                    binary_var_type == BINARYRELAX else binary_var_type
+                assert (all((v.vtype == gurobi_vtype for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From 8962bed1d81eaa980ad519d754fdf5897e16a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 21/44] fix: hybrid continuous-time sample loss applies the
 sample weights

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index f4077b8..2101b7d 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -1261,5 +1261,9 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
                    torch.norm(state_samples - x_equilibrium, p=1, dim=1))
         else:
             raise Exception("Unknown eps_type")
-        return torch.nn.HingeEmbeddingLoss(margin=margin)(-val,
-                                                          torch.tensor(-1))
+        hinge_loss_all = torch.nn.HingeEmbeddingLoss(
+            margin=margin, reduction="none")(-val, torch.tensor(-1))
+        if weight is None:
+            return torch.mean(hinge_loss_all)
+        assert (weight.shape == (num_samples, ))
+        return torch.mean(weight * hinge_loss_all)
-- 
2.43.0


From b0f9d8d080b96f2cd36a47d6e02c98119ed2d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 22/44] fix: project_gradient only projects gradients that
 conflict

---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From d94441b759ae9f33ac5879f06284838641da7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 23/44] fix: repetition counts of exactly two clusters of
 adversarial states

---
 .../train_lyapunov_barrier.py                 | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..6df13e6 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1471,20 +1471,12 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             (adversarial_states[0].reshape((1, -1)), adversarial_states[1:][
                 states_distance_squared > cluster_radius**2]),
             dim=0)
-        new_adversarial_state_index = torch.arange(
-            adversarial_states.shape[0] -
-            1)[states_distance_squared > cluster_radius**2] + 1
-        repeatition = new_adversarial_state_index[1:] - \
-            new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
-            repeatition = torch.tensor([adversarial_states.shape[0]])
-        else:
-            repeatition = torch.cat(
-                (torch.tensor([new_adversarial_state_index[0]],
-                              dtype=adversarial_states.dtype), repeatition,
-                 torch.tensor([
-                     adversarial_states.shape[0] -
-                     new_adversarial_state_index[-1]
-                 ],
-                              dtype=adversarial_states.dtype)))
+        # The index of the first state in each cluster, followed by the total
+        # number of states.
+        cluster_start = torch.cat(
+            (torch.tensor([0]), torch.arange(1, adversarial_states.shape[0])[
+                states_distance_squared > cluster_radius**2],
+             torch.tensor([adversarial_states.shape[0]])))
+        repeatition = (cluster_start[1:] - cluster_start[:-1]).to(
+            adversarial_states.dtype)
         return clustered_adversarial_states, repeatition
-- 
2.43.0


From f3f0b0aa7e9e95f017b57f7f83b981c190cae353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 24/44] fix: restoring the best parameters kept the state
 transform out of training

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 6df13e6..6f66780 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1112,7 +1112,9 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = [
+                v.detach().clone() for v in self.R_options.variables()
+            ]
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1127,7 +1129,12 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Update the variables in place, so that the optimizer keeps
+            # training them.
+            with torch.no_grad():
+                for v, val in zip(self.R_options.variables(),
+                                  params["R_params"]):
+                    v.copy_(val)
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From c0bdf2b3aeb58ff5869176e00d6e37f6b2f89c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 25/44] fix: training on samples restores the state transform
 with the best networks

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 6f66780..5ca183b 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1064,20 +1064,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From 4b6a852067cef77b0fc57cfcab31e53af114f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 26/44] fix: barrier derivative program without violating
 states returned no adversarial states

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 5ca183b..4a825dd 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From b7bb5e1aacf50553931c64e8488278808dd80aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 27/44] fix: continuity constraint with a number of shared
 vertices other than the state dimension

---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From 16b539b418745839c3f023f56de4d77abfbe05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 28/44] fix: adversarial_samples raised when no state violates
 the decrease condition

---
 neural_network_lyapunov/dynamics_learning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..eaa3a1f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -158,6 +158,7 @@ class DynamicsLearning:
                 z_adv_der.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
+        z_adv_der_lo = z_adv_der
         if len(z_adv_der) > 0:
             z_adv_der_lo = torch.cat(z_adv_der, dim=0)
 
@@ -186,6 +187,7 @@ class DynamicsLearning:
                 z_adv_der.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
+        z_adv_der_up = z_adv_der
         if len(z_adv_der) > 0:
             z_adv_der_up = torch.cat(z_adv_der, dim=0)
 
-- 
2.43.0


From 59875f67664f79468217d2cce4fe79afe50de7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 29/44] fix: L2 image reconstruction loss only counted the
 first sample of a batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index eaa3a1f..c23d222 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -780,7 +780,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From 8fe1b65cb97df517fc54e6e168ac2f6a78690bc0 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 30/44] fix: cross entropy along an image rollout swapped
 prediction and label

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index c23d222..c9bdfec 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -885,8 +885,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From 5e47ce9c8c9c48cf3e7bf99eb7e30abd13c603ae Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 31/44] fix: image rollouts with a single latent state

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index c9bdfec..95fe848 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -837,7 +837,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         V_traj = []
         z_traj.append(self.encoder(x_init.unsqueeze(0))[0])
         V_traj.append(
-            self.lyap.lyapunov_value(z_traj[-1].squeeze(),
+            self.lyap.lyapunov_value(z_traj[-1].squeeze(0),
                                      self.lyap.system.x_equilibrium,
                                      self.opt.V_lambda,
                                      R=self.opt.R).item())
@@ -849,7 +849,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z.squeeze(),
+                            z.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
@@ -864,7 +864,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z_next)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z_next.squeeze(),
+                            z_next.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
-- 
2.43.0


From 8931c4494948ac141f990d35df72c2e934d640d8 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 32/44] fix: rollout_validation returns the mean loss it
 documents

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 95fe848..e574f7f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -382,7 +382,7 @@ class DynamicsLearning:
                 rollout_expected = rollout_expected.to(device)
                 validation_loss += self.rollout_loss(rollout_expected)
         self.all_to_device('cpu')
-        validation_loss = validation_loss.to('cpu')
+        validation_loss = validation_loss.to('cpu') / len(rollouts)
         return validation_loss
 
     def log(self, name, value):
-- 
2.43.0


From 940b86fdd108408dc75864bc01435189d1f133d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 33/44] fix: SLIP linear model no longer assigns a length-1
 array to an entry

apex_to_apex_gradient returns the gradient of the post-liftoff state w.r.t
the leg angle as a 4 x 1 matrix; assigning its row to a matrix entry raises
with current NumPy, so apex_map_linear_approximation always crashed when the
hop exists.
---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..e3a39b0 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -82,9 +82,9 @@ class SlipHybridLinearSystem:
         # Now approximate the constraint that at liftoff, the vertical velocity
         # should be positive.
         P[1, :3] = -dx_post_lo_dx_apex[3, :]
-        P[1, 3] = -dx_post_lo_dleg_angle[3]
+        P[1, 3] = -dx_post_lo_dleg_angle[3, 0]
         q[1, 0] = x_post_lo[3] - dx_post_lo_dx_apex[3, :].dot(apex_state) -\
-            dx_post_lo_dleg_angle[3] * leg_angle
+            dx_post_lo_dleg_angle[3, 0] * leg_angle
         # Now approximate the constraint that the touchdown point is on the
         # stepping stone left ≤ x⁻_TD[0] + l₀sinθ ≤ right
         constraint_count = 2
-- 
2.43.0


From b6f436f4c8c0da98b33957a24f1de9c37a94deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 34/44] fix: SLIP simulation stops when the robot lifts off
 moving downward

Without a next apex the simulation went backward in time to a fictitious
apex before lift-off, and continued from there. apex_map already reports
that there is no next apex in this case.
---
 neural_network_lyapunov/spring_loaded_inverted_pendulum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_network_lyapunov/spring_loaded_inverted_pendulum.py b/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
index 5a3fa9c..41a1857 100644
--- a/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
+++ b/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
@@ -275,6 +275,9 @@ class SLIP:
             if (np.pi / 2 - sol_step_stance.y[1, -1] < 1E-5):
                 break
             x_post_lo = self.liftoff_transition(sol_step_stance.y[:, -1])
+            if (x_post_lo[3] < 0):
+                # The vertical velocity is negative, there is no next apex.
+                break
             t_post_lo = sol_step_stance.t[-1]
             # The ascending phase, compute the next apex state.
             t_lo_to_apex = x_post_lo[3] / self.g
-- 
2.43.0


From 51c271f8403ce160ddef27c2c803d115313d281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 35/44] fix: project_gradient ignores gradients left from an
 earlier step

---
 neural_network_lyapunov/train_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index c7fbaae..da10b72 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -45,6 +45,10 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     projection return False;otherwise return True.
     """
     assert (isinstance(mode, ProjectGradientMode))
+    # Gradients left by an earlier step are not part of n1.
+    for p in network.parameters():
+        if p.grad is not None:
+            p.grad.data.zero_()
     loss1.backward(retain_graph=True)
     n1 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     for p in network.parameters():
-- 
2.43.0


From 245e6d097e50fca3f1ff8b823d51d8491c6cc448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 36/44] fix: let the vehicle models be joined into a closed
 loop

---
 .../examples/car/acceleration_car.py             |  4 +++-
 neural_network_lyapunov/examples/car/unicycle.py | 16 ++++++++++++----
 .../examples/pole/pole_relu_system.py            |  4 +++-
 .../examples/quadrotor3d/quadrotor.py            |  4 +++-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 0e3fd64..6b25942 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -159,7 +159,9 @@ class AccelerationCarReLUModel:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
+        # TODO: support u_input_prog
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 65ebf9d..80f3f60 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -198,7 +198,10 @@ class UnicycleReLUModel:
                                 slack_var_name,
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
-                                additional_u_up: torch.Tensor = None):
+                                additional_u_up: torch.Tensor = None,
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
+        # TODO: support u_input_prog
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -238,7 +241,7 @@ class UnicycleReLUModel:
             mip.add_mixed_integer_linear_constraints(
                 mip_cnstr_result, input_vars, None, slack_var_name,
                 binary_var_name, "unicycle_forward_dynamics_ineq",
-                "unicycle_forward_dyamics_eq", None)
+                "unicycle_forward_dyamics_eq", None, binary_var_type)
         # Now add the constraint on the output of the network, that
         # [delta_pos_x, delta_pos_y] =
         # ϕ(θ[n], vel[n], θ_dot[n])−ϕ(0, 0, 0)
@@ -367,7 +370,9 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
+        # TODO: support u_input_prog
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -458,7 +463,10 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                        sense=gurobipy.GRB.EQUAL,
                        rhs=0.,
                        name="unicycle_theta_dynamics")
-        return forward_slack, forward_binary
+        ret = relu_system.ReLUDynamicsConstraintReturn(
+            forward_slack, forward_binary)
+        ret.from_mip_cnstr_return(mip_cnstr_result, input_vars)
+        return ret
 
 
 class UnicycleVisualizer:
diff --git a/neural_network_lyapunov/examples/pole/pole_relu_system.py b/neural_network_lyapunov/examples/pole/pole_relu_system.py
index ca642b9..7610416 100644
--- a/neural_network_lyapunov/examples/pole/pole_relu_system.py
+++ b/neural_network_lyapunov/examples/pole/pole_relu_system.py
@@ -95,7 +95,9 @@ class PoleReluSystem:
                                 forward_binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
+        # TODO: support u_input_prog
         u_lo = self.u_lo if additional_u_lo is None else torch.max(
             self.u_lo, additional_u_lo)
         u_up = self.u_up if additional_u_up is None else torch.min(
diff --git a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
index d891e17..6e08be4 100644
--- a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
+++ b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
@@ -301,7 +301,9 @@ class QuadrotorWithPixhawkReLUSystem:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
+        # TODO: support u_input_prog
         """
         Add the dynamic constraint
         pos[n+1] = pos[n] + (v[n] + v[n+1]) * dt / 2
-- 
2.43.0


From cfc410359cdd2fa6a3f1325402a7688d9b32c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 37/44] fix: AccelerationCar.dynamics accepts tensors

---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 6b25942..de8eb00 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.cat(
+            return torch.stack(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From 829350e67100b215fb99445c557fe1e52ba913ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 38/44] fix: planar quadrotor reports its dynamics network's
 own input

---
 neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
index 20d82fe..f77a275 100644
--- a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
+++ b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
@@ -302,7 +302,10 @@ class QuadrotorReluContinuousTime:
         binary_var_type=gurobipy.GRB.BINARY,
         u_input_prog: relu_system.ControlBoundProg = None
     ) -> relu_system.ReLUDynamicsConstraintReturn:
-        return relu_system._add_forward_dynamics_mip_constraints(
+        ret = relu_system._add_forward_dynamics_mip_constraints(
             self, mip, x_var, x_next_var, u_var, slack_var_name,
             binary_var_name, additional_u_lo, additional_u_up, binary_var_type,
             u_input_prog)
+        # The network only takes (theta, u) as its input.
+        ret.nn_input = x_var[2:3] + u_var
+        return ret
-- 
2.43.0


From 2e1c9a7590ce277cd0b0095e1e69c76639609fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 39/44] fix: sign of the cross velocity term in Pole.dynamics

---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 7c07dbe..79c19a7 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 -
+                 (self.length**2 - x_AB**2) / z_AB**3 +
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 -
+                        (self.length**2 - x_AB**2) / z_AB**3 +
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From 2e5e19344ec420b23b853bdf24a7b7acc06ebd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:53 +0000
Subject: [PATCH 40/44] fix: training with an autonomous network system can
 take more than one step

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 4a825dd..e0df798 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -938,6 +938,11 @@ class Trainer:
                 else:
                     derivative_state_samples_next = torch.empty_like(
                         derivative_state_samples)
+            else:
+                # The dynamics isn't trained, the next states stay the same.
+                # Don't go back through their graph in every iteration.
+                derivative_state_samples_next = \
+                    derivative_state_samples_next.detach()
             total_loss_return = self.total_loss(
                 positivity_state_samples, derivative_state_samples,
                 derivative_state_samples_next,
-- 
2.43.0


From 5341a186cb4b1465a6c1d9aa8c6383c6a030a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 41/44] Revert "fix: sign of the cross velocity term in
 Pole.dynamics"

This reverts commit 2e1c9a7590ce277cd0b0095e1e69c76639609fc1.
---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 79c19a7..7c07dbe 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 +
+                 (self.length**2 - x_AB**2) / z_AB**3 -
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 +
+                        (self.length**2 - x_AB**2) / z_AB**3 -
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From f22529d19c24a3938d5df8dc074ccc05590281b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 42/44] Revert "fix: planar quadrotor reports its dynamics
 network's own input"

This reverts commit 829350e67100b215fb99445c557fe1e52ba913ca.
---
 neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
index f77a275..20d82fe 100644
--- a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
+++ b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
@@ -302,10 +302,7 @@ class QuadrotorReluContinuousTime:
         binary_var_type=gurobipy.GRB.BINARY,
         u_input_prog: relu_system.ControlBoundProg = None
     ) -> relu_system.ReLUDynamicsConstraintReturn:
-        ret = relu_system._add_forward_dynamics_mip_constraints(
+        return relu_system._add_forward_dynamics_mip_constraints(
             self, mip, x_var, x_next_var, u_var, slack_var_name,
             binary_var_name, additional_u_lo, additional_u_up, binary_var_type,
             u_input_prog)
-        # The network only takes (theta, u) as its input.
-        ret.nn_input = x_var[2:3] + u_var
-        return ret
-- 
2.43.0


From afa11415b976c95e9cf346d92ab52cf570861aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 43/44] Revert "fix: AccelerationCar.dynamics accepts tensors"

This reverts commit cfc410359cdd2fa6a3f1325402a7688d9b32c673.
---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index de8eb00..6b25942 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.stack(
+            return torch.cat(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From 7507e25ee833f8966ad46f8598a2d05b42b31b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 44/44] Revert "fix: let the vehicle models be joined into a
 closed loop"

This reverts commit 245e6d097e50fca3f1ff8b823d51d8491c6cc448.
---
 .../examples/car/acceleration_car.py             |  4 +---
 neural_network_lyapunov/examples/car/unicycle.py | 16 ++++------------
 .../examples/pole/pole_relu_system.py            |  4 +---
 .../examples/quadrotor3d/quadrotor.py            |  4 +---
 4 files changed, 7 insertions(+), 21 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 6b25942..0e3fd64 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -159,9 +159,7 @@ class AccelerationCarReLUModel:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
-        # TODO: support u_input_prog
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 80f3f60..65ebf9d 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -198,10 +198,7 @@ class UnicycleReLUModel:
                                 slack_var_name,
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
-                                additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
-        # TODO: support u_input_prog
+                                additional_u_up: torch.Tensor = None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -241,7 +238,7 @@ class UnicycleReLUModel:
             mip.add_mixed_integer_linear_constraints(
                 mip_cnstr_result, input_vars, None, slack_var_name,
                 binary_var_name, "unicycle_forward_dynamics_ineq",
-                "unicycle_forward_dyamics_eq", None, binary_var_type)
+                "unicycle_forward_dyamics_eq", None)
         # Now add the constraint on the output of the network, that
         # [delta_pos_x, delta_pos_y] =
         # ϕ(θ[n], vel[n], θ_dot[n])−ϕ(0, 0, 0)
@@ -370,9 +367,7 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
-        # TODO: support u_input_prog
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -463,10 +458,7 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                        sense=gurobipy.GRB.EQUAL,
                        rhs=0.,
                        name="unicycle_theta_dynamics")
-        ret = relu_system.ReLUDynamicsConstraintReturn(
-            forward_slack, forward_binary)
-        ret.from_mip_cnstr_return(mip_cnstr_result, input_vars)
-        return ret
+        return forward_slack, forward_binary
 
 
 class UnicycleVisualizer:
diff --git a/neural_network_lyapunov/examples/pole/pole_relu_system.py b/neural_network_lyapunov/examples/pole/pole_relu_system.py
index 7610416..ca642b9 100644
--- a/neural_network_lyapunov/examples/pole/pole_relu_system.py
+++ b/neural_network_lyapunov/examples/pole/pole_relu_system.py
@@ -95,9 +95,7 @@ class PoleReluSystem:
                                 forward_binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
-        # TODO: support u_input_prog
+                                binary_var_type=gurobipy.GRB.BINARY):
         u_lo = self.u_lo if additional_u_lo is None else torch.max(
             self.u_lo, additional_u_lo)
         u_up = self.u_up if additional_u_up is None else torch.min(
diff --git a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
index 6e08be4..d891e17 100644
--- a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
+++ b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
@@ -301,9 +301,7 @@ class QuadrotorWithPixhawkReLUSystem:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
-        # TODO: support u_input_prog
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraint
         pos[n+1] = pos[n] + (v[n] + v[n+1]) * dt / 2
-- 
2.43.0

