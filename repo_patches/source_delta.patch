From a1629d74c85d41a652a5f10b61e4ab157f5f7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/52] fix: power of a number-constrained fermionic Hilbert
 space

__pow__ read the local n_elec before assignment (UnboundLocalError).
---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From 7d067ad1ab412d970f9f9effb88c368cca1950f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:48 +0000
Subject: [PATCH 02/52] fix: set the Hubbard section offsets also if there are
 no edges

The offset was only written inside the edge loop, so a lattice without
edges left the sections array uninitialised.
---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From a63169c4752f09f2a785f2b092241039516dfab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:48 +0000
Subject: [PATCH 03/52] fix: pass jax arrays to the on-the-fly Hubbard local
 energy kernel

With numpy arrays the kernel could only be traced if the arguments were
passed through jit, so imaginary time evolved states (which close over
the arguments) raised a TracerArrayConversionError.
---
 GPSKet/operator/hamiltonian/hubbard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 3391860..dc11136 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -204,9 +204,9 @@ def local_en_on_the_fly(
 @nk.vqs.get_local_kernel_arguments.dispatch
 def get_local_kernel_arguments(vstate: nk.vqs.MCState, op: FermiHubbardOnTheFly):
     samples = vstate.samples
-    edges = op.edges
+    edges = jnp.array(op.edges)
     U = op.U
-    t = op.t
+    t = jnp.array(op.t)
     return (samples, (edges, U, t))
 
 
-- 
2.43.0


From 991cf5940da6b2aeea104b98dc09fa9e401e4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/52] fix: J1-J2 Hamiltonian with a single sign rule flag

With J2 != 0 NetKet requires one sign rule flag per coupling, so the
default arguments raised a TypeError.
---
 GPSKet/operator/hamiltonian/J1J2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..05a35b2 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -47,6 +47,9 @@ def get_J1_J2_Hamiltonian(
         classtype = nk.operator.Heisenberg
 
     if J2 != 0:
+        # A single flag refers to the Marshall rule of the nearest neighbour bonds
+        if isinstance(sign_rule, bool):
+            sign_rule = [sign_rule, False]
         hamiltonian = classtype(hilbert, g, J=[J1 / 4, J2 / 4], sign_rule=sign_rule)
     else:
         hamiltonian = classtype(hilbert, g, J=J1 / 4, sign_rule=sign_rule)
-- 
2.43.0


From 9eddc5be9d35c4d6e27fb9c03e8525d083ab71fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/52] fix: construction of the on-the-fly Heisenberg operator

HeisenbergOnTheFly is constructed with the signature of
nk.operator.Heisenberg but derived from LocalOperator (TypeError).
---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 05a35b2..b8d70af 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From 0d6d1bd47e44cac68f7c5f3ebd5a5b64e112c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:55 +0000
Subject: [PATCH 06/52] fix: nested imaginary time steps

All steps of a nested imaginary time evolution shared the model state
entry "tau": the step size of the outer step was overwritten by that of
the inner step and the inner model raised a KeyError.
---
 GPSKet/supervised/imag_time_step.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..2f4bbaa 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -59,8 +59,13 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     else:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian, vstate.chunk_size)
 
+    # Use a separate entry for each of the (potentially nested) steps
+    tau_key = "tau"
+    while tau_key in vstate.model_state:
+        tau_key += "_nested"
+
     def imag_time_model_log_amp(model_pars, samples):
-        pars, tau = freeze(model_pars).pop("tau")
+        pars, tau = freeze(model_pars).pop(tau_key)
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -69,5 +74,5 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    new_vstate.model_state = {tau_key: tau, **new_vstate.model_state}
     return new_vstate
-- 
2.43.0


From 2bddc4e5a2572833ba9cc404b1797cce8143027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:38 +0000
Subject: [PATCH 07/52] fix: fast exchange sampler

The rule derived from a class which does not exist in NetKet anymore, so
MetropolisFastExchange could not be constructed.
---
 GPSKet/sampler/metropolis_fast.py            | 2 +-
 GPSKet/sampler/rules/exchange_with_update.py | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..aba5fe5 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -113,6 +113,6 @@ def MetropolisFastExchange(
     if clusters is None:
         assert graph is not None
         clusters = compute_clusters(graph, d_max)
-    exchange_rule_with_updates = ExchangeRuleWithUpdate(jnp.array(clusters))
+    exchange_rule_with_updates = ExchangeRuleWithUpdate(clusters=clusters)
 
     return MetropolisFastSampler(hilbert, exchange_rule_with_updates, *args, **kwargs)
diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..8d9378b 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,17 +1,13 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.sampler.rules.exchange import ExchangeRule
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(ExchangeRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
-
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
 
-- 
2.43.0


From 31db2f35950481812da7c27a234c472ac582f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:38 +0000
Subject: [PATCH 08/52] fix: acceptance statistics of the fast Metropolis
 sampler

NetKet keeps the number of accepted moves per chain, the fast sampler
added the total over all chains to each entry, overestimating the
acceptance rate by a factor of the number of chains.
---
 GPSKet/sampler/metropolis_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index aba5fe5..57603c1 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
-- 
2.43.0


From 1abb13d4263d6998f2b0e8c3fc5972c10ceb302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:45 +0000
Subject: [PATCH 09/52] fix: impose the magnetization only in constrained
 Hilbert spaces

The autoregressive models also masked conditionals in unconstrained
spaces: with two or three sites a single previous spin exhausts the
mask (hilbert.size // 2 == 1), giving zero or NaN amplitudes.
---
 GPSKet/models/autoreg_plaquetteqGPS.py | 13 +++++++------
 GPSKet/models/autoreg_qGPS.py          | 13 +++++++------
 GPSKet/models/autoreg_qGPS_full.py     | 15 ++++++++-------
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 05719d3..0576fa2 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -171,12 +171,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 01887f2..9e67835 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -270,12 +270,13 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return (cache, n_spins), log_psi
 
 
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..f29e9c4 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -333,13 +333,14 @@ def _compute_conditional(
     # This is done by counting number of up/down spins until index, then if
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
-    log_psi = gpu_cond(
-        index >= 0,
-        lambda log_psi: log_psi
-        + model.renormalize_log_psi(n_spins, model.hilbert, index),
-        lambda log_psi: log_psi,
-        log_psi,
-    )
+    if model.hilbert.constrained:
+        log_psi = gpu_cond(
+            index >= 0,
+            lambda log_psi: log_psi
+            + model.renormalize_log_psi(n_spins, model.hilbert, index),
+            lambda log_psi: log_psi,
+            log_psi,
+        )
     return n_spins, log_psi, context_prod
 
 
-- 
2.43.0


From 3fb60114aa1c82f9c953089173cee3c72d49d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:45 +0000
Subject: [PATCH 10/52] fix: amplitudes of autoregressive models outside of the
 sector

The arithmetic selection multiplied log-amplitudes of -inf with a
(complex) 0 or 1 and produced NaN instead of a vanishing amplitude.
---
 GPSKet/models/autoreg_qGPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 9e67835..24c8e85 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -13,7 +13,7 @@ from GPSKet.models import qGPS
 
 def gpu_cond(pred, true_func, false_func, args):
     return jax.tree_util.tree_map(
-        lambda x, y: pred * x + (1 - pred) * y, true_func(args), false_func(args)
+        lambda x, y: jnp.where(pred, x, y), true_func(args), false_func(args)
     )
 
 
-- 
2.43.0


From f6c72cc292ce44f3b5d2871cae79990ff4820ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:45 +0000
Subject: [PATCH 11/52] fix: never draw local states with zero probability

The uniform random number can be zero, in which case the first local
state was chosen even if its conditional probability vanishes.
---
 GPSKet/sampler/autoreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/autoreg.py b/GPSKet/sampler/autoreg.py
index 65f8d8d..3aafac4 100644
--- a/GPSKet/sampler/autoreg.py
+++ b/GPSKet/sampler/autoreg.py
@@ -23,7 +23,7 @@ def batch_choice(key, a, p):
     """
     p_cumsum = p.cumsum(axis=1)
     r = p_cumsum[:, -1:] * jax.random.uniform(key, shape=(p.shape[0], 1))
-    indices = (r > p_cumsum).sum(axis=1)
+    indices = (r >= p_cumsum).sum(axis=1)
     out = a[indices]
     return out
 
-- 
2.43.0


From 96677c6534267ad8f057408bd9472dcefc0def0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:24 +0000
Subject: [PATCH 12/52] fix: fast updates of the plaquette qGPS

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From 31f7a70d6ab084b9646be8d7d585358981c9ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:24 +0000
Subject: [PATCH 13/52] fix: log-pfaffian of odd-dimensional matrices

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..8d9ba37 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,7 +69,7 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
         )
         t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
-- 
2.43.0


From 4664d7db2200a0bfd6d9c2a43caef5ab29cbe3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:24 +0000
Subject: [PATCH 14/52] fix: infinities in the growing RVM

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..34ca163 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -989,7 +989,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1009,7 +1009,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From 89e38e7660e617761d744582ea9b2784f373b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:55 +0000
Subject: [PATCH 15/52] fix: fast updates of the CPD backflow with repeated
 sites

---
 GPSKet/models/cpd_backflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..40ecfbd 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -149,6 +149,7 @@ class CPDBackflow(nn.Module):
             )
         # Update configurations if fast-updating is in use
         if update_sites is not None:
+            occ_new = n
             def update_fun(saved_config, update_sites, occs):
                 def scan_fun(carry, count):
                     return (carry.at[update_sites[count]].set(occs[count]), None)
@@ -179,7 +180,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From db6bfa413a444614b5dc343a0322b3aca99845ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:55 +0000
Subject: [PATCH 16/52] fix: argument order in BackflowJastrow

---
 GPSKet/models/backflow_jastrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..c342c9b 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
                 self.correction_fun[d],
+                orbitals=self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From c7afc77a009f9670a3eaa5eb6d88ffe8054aa4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:55 +0000
Subject: [PATCH 17/52] fix: apply the ASymmqGPS coefficients along the
 determinant axis

---
 GPSKet/models/asymm_qGPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..6a10ad5 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -56,7 +56,7 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -65,7 +65,7 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From dfcefd982b471050ca472ad05c5df1a2f28d7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:55 +0000
Subject: [PATCH 18/52] fix: hermiticity flag of the ASEP generator

---
 GPSKet/operator/hamiltonian/asep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..a9ed632 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,7 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 7ce9238a4693f2f25ec50d5ec12b8ade225c89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:08 +0000
Subject: [PATCH 19/52] fix: cached plaquette qGPS configurations with repeated
 update sites

---
 GPSKet/models/plaquetteqGPS.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..2a1db2a 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,15 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From e4b4d644d757f4ba2c042ee537c210013e01e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 20/52] fix: order of the local energies in minSR with multiple
 chains

---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From 7f729c3574a539b585c71787612f14251f05d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 21/52] fix: weight the log-derivatives with the relative
 counts in minSR

---
 GPSKet/driver/minSR.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..a8acc37 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -104,10 +104,11 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
+            loc_ens_weighted = loc_ens_centered[i] * jnp.sqrt(counts_i)
             if loss_grad is None:
-                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]))
+                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_weighted))
             else:
-                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]), token=token)
+                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_weighted), token=token)
                 loss_grad += _loss_grad
 
             if O_avg is None:
@@ -135,12 +136,13 @@ class minSRVMC(VMC):
                 dense=True,
                 center=False,
             )
+            counts_i, token = mpi.mpi_gather_jax(counts[i], token=token)
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
             if mpi.rank == 0:
                 if len(O_i.shape) == 3:
                     O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
+                O_i = (O_i - O_avg) * jnp.sqrt(counts_i.reshape((-1, 1)))
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -159,12 +161,13 @@ class minSRVMC(VMC):
                     dense=True,
                     center=False,
                 )
+                counts_j, token = mpi.mpi_gather_jax(counts[j], token=token)
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
                 if mpi.rank == 0:
                     if len(O_j.shape) == 3:
                         O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
+                    O_j = (O_j - O_avg) * jnp.sqrt(counts_j.reshape((-1, 1)))
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -203,7 +206,7 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
-            O_i = O_i - O_avg
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From aafc4ad7e2b36d21ff0cc378b77f3caf1490102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 22/52] fix: weighting and default shift of the unique samples
 QGT

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..8110760 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -30,7 +30,7 @@ def QGTJacobianDenseUniqueSamples(
     *,
     mode: str = None,
     holomorphic: bool = None,
-    diag_shift=None,
+    diag_shift=0.0,
     diag_scale=None,
     **kwargs
 ) -> "QGTJacobianDenseT":
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From e6e58f7ceb4ba0380ef93da1f4fd68be6b9330c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 23/52] fix: normalisation of the dense RMSProp QGT

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..4a31756 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
@@ -84,6 +83,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From c9047f7528366c611c4768b6f6094ef29c2c89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 24/52] fix: average the state fitting gradient over the MPI
 ranks

---
 GPSKet/driver/autoreg_state_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/autoreg_state_fitting.py b/GPSKet/driver/autoreg_state_fitting.py
index 162737f..ce7f1af 100644
--- a/GPSKet/driver/autoreg_state_fitting.py
+++ b/GPSKet/driver/autoreg_state_fitting.py
@@ -90,6 +90,6 @@ def _loss_and_grad(params, model_state, logpsi, mini_batch):
         params, model_state, logpsi, mini_batch
     )
     loss, _ = mpi.mpi_mean_jax(loss)
-    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_sum_jax(p)[0], grad)
+    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_mean_jax(p)[0], grad)
     grad = jax.tree_util.tree_map(jnp.conj, grad)
     return loss, grad
-- 
2.43.0


From 0496d551150d22e626bdd4b5986e4349ba236d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 25/52] fix: sampler settings of the stratified sampling state

---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From 5e6aecedbe09a423a87169404db2c8d8eda94ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:20 +0000
Subject: [PATCH 26/52] fix: SRDense preconditioner

---
 GPSKet/optimizer/sr_dense.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/GPSKet/optimizer/sr_dense.py b/GPSKet/optimizer/sr_dense.py
index d8ceaa0..7067f61 100644
--- a/GPSKet/optimizer/sr_dense.py
+++ b/GPSKet/optimizer/sr_dense.py
@@ -1,17 +1,15 @@
-import jax
-import jax.numpy as jnp
-import netket.jax as nkjax
-from dataclasses import dataclass
-from typing import Callable, Optional, Any
-from netket.utils.types import PyTree, Scalar, ScalarOrSchedule
+from typing import Callable, Optional
+from netket.utils import struct
+from netket.utils.types import PyTree, Scalar
 from netket.vqs import VariationalState
 from netket.optimizer.preconditioner import AbstractLinearPreconditioner
 from netket.optimizer.qgt import QGTJacobianDense
 from .solvers import pinv
 
 
-@dataclass
-class SRDense(AbstractLinearPreconditioner):
+class SRDense(AbstractLinearPreconditioner, mutable=True):
+    qgt_constructor: Callable = struct.field(pytree_node=False, serialize=False)
+
     def __init__(self, qgt: QGTJacobianDense, solver: Callable = pinv):
         self.qgt_constructor = qgt
         super().__init__(solver)
@@ -22,15 +20,10 @@ class SRDense(AbstractLinearPreconditioner):
     def __call__(
         self, vstate: VariationalState, gradient: PyTree, step: Optional[Scalar] = None
     ) -> PyTree:
-        # Ravel gradient
-        gradient, unravel_fun = nkjax.tree_ravel(gradient)
-
         # Compute S matrix
         self._lhs = self.lhs_constructor(vstate, step)
-        S = self._lhs.to_dense()
 
         # Solve system
-        x0 = self.solver(S, gradient)
-        self.x0 = unravel_fun(x0)
+        self.x0, self.info = self._lhs.solve(self.solver, gradient)
 
         return self.x0
-- 
2.43.0


From 0f56c9b81d9f5e6ab95594c6337a789de08ab95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:44 +0000
Subject: [PATCH 27/52] fix: prior mean in the growing RVM fit

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 34ca163..a878e2f 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1061,7 +1061,7 @@ class QGPSLearningExp(QGPSLearning):
             self.setup_fit_alpha_dep()
 
         if not self.precomputed_features:
-            self.update_epsilon_with_weights()
+            self.update_epsilon_with_weights(prior_mean=prior_mean)
 
         return
 
-- 
2.43.0


From a758b59befd04a83edfe526006dde681c4185436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:44 +0000
Subject: [PATCH 28/52] fix: do not modify the weightings passed to the
 generalized linear model fit

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index a878e2f..2c9c210 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1317,7 +1317,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings *= abs(prefactor) ** 2
+        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
-- 
2.43.0


From 29593c20c8c2c9336cdf6750cb4f7dd69c839b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:44 +0000
Subject: [PATCH 29/52] fix: apply the Newton step in the generalized linear
 model fit

---
 GPSKet/supervised/supervised_qgps.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2c9c210..880521d 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1537,10 +1537,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights[self.active_elements] += gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From fbbd5b6a1296f2b497c38422a4412e5fe82771fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 30/52] fix: on-the-fly ab initio local energies with an empty
 or full spin channel or absent integrals

---
 GPSKet/operator/hamiltonian/ab_initio.py      | 48 +++++++++++--------
 .../operator/hamiltonian/ab_initio_sparse.py  | 33 ++++++++-----
 2 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/ab_initio.py b/GPSKet/operator/hamiltonian/ab_initio.py
index 1e6fd40..b0e83ca 100644
--- a/GPSKet/operator/hamiltonian/ab_initio.py
+++ b/GPSKet/operator/hamiltonian/ab_initio.py
@@ -240,6 +240,16 @@ def get_parity_multiplicator_hop(update_sites, cummulative_el_count):
     return jnp.int32(1) - 2 * (parity_count & 1)
 
 
+""" Loop over a list of orbitals which may be empty (in this case the loop body, which
+indexes into the list, cannot be traced). """
+
+
+def fori_loop(lower, upper, body_fun, init_val):
+    if upper <= lower:
+        return init_val
+    return jax.lax.fori_loop(lower, upper, body_fun, init_val)
+
+
 """
 If the flag return_local_RDMs is set to true, this function also returns objects resembling the 1-RDMS and 2-RDMS for the samples.
 In particular, two t_RDM and eri_RDM are evaluated for each sample which describe the linear dependency
@@ -315,9 +325,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(1)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -328,9 +338,9 @@ def local_en_on_the_fly(
                         up_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_occ_inds), inner_update, val)
+                return fori_loop(0, len(up_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -341,9 +351,9 @@ def local_en_on_the_fly(
                         up_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_unocc_inds), inner_update, val)
+                return fori_loop(0, len(up_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -354,9 +364,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -367,9 +377,9 @@ def local_en_on_the_fly(
                         down_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_unocc_inds), inner_update, val)
+                return fori_loop(0, len(down_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
 
         # The following part evaluates the contributions from the connected configurations.
 
@@ -692,16 +702,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop(
                 0, len(up_unocc_inds), two_body_up_up_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop(
                 0, len(up_occ_inds), two_body_up_up_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop(
                 0, len(up_occ_inds), two_body_up_up_occ, local_en
             )
 
@@ -810,16 +820,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop(
                 0, len(down_unocc_inds), two_body_down_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop(
                 0, len(down_occ_inds), two_body_down_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop(
                 0, len(down_occ_inds), two_body_down_down_occ, local_en
             )
 
@@ -936,16 +946,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop(
                 0, len(up_unocc_inds), two_body_up_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop(
                 0, len(up_occ_inds), two_body_up_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop(
                 0, len(up_occ_inds), two_body_up_down_occ, local_en
             )
 
diff --git a/GPSKet/operator/hamiltonian/ab_initio_sparse.py b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
index bba7ac5..59c9b3b 100644
--- a/GPSKet/operator/hamiltonian/ab_initio_sparse.py
+++ b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
@@ -193,7 +193,9 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en = jnp.sum(jax.vmap(compute_1B_up)(up_occ_inds))
+        local_en = jnp.array(0, dtype=log_amp.dtype)
+        if h1_nonzero_vals_flat.shape[0] > 0:
+            local_en += jnp.sum(jax.vmap(compute_1B_up)(up_occ_inds))
 
         def compute_1B_down(i):
             def inner_loop(a_index, val):
@@ -230,7 +232,8 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(jax.vmap(compute_1B_down)(down_occ_inds))
+        if h1_nonzero_vals_flat.shape[0] > 0:
+            local_en += jnp.sum(jax.vmap(compute_1B_down)(down_occ_inds))
 
         # Helper function which updates a config, also taking into account a previous update
         def update_config(site, update_sites, updated_conf, spin_int, create):
@@ -297,9 +300,13 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_up_occ)(jnp.triu_indices(up_occ_inds.shape[0], k=1))
-        )
+        has_two_body = h2_nonzero_vals_flat.shape[0] > 0
+        if has_two_body and up_occ_inds.shape[0] > 1:
+            local_en += jnp.sum(
+                jax.vmap(two_body_up_up_occ)(
+                    jnp.triu_indices(up_occ_inds.shape[0], k=1)
+                )
+            )
 
         def two_body_down_down_occ(inds):
             i = down_occ_inds[inds[0]]
@@ -351,11 +358,12 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_down_down_occ)(
-                jnp.triu_indices(down_occ_inds.shape[0], k=1)
+        if has_two_body and down_occ_inds.shape[0] > 1:
+            local_en += jnp.sum(
+                jax.vmap(two_body_down_down_occ)(
+                    jnp.triu_indices(down_occ_inds.shape[0], k=1)
+                )
             )
-        )
 
         def two_body_up_down_occ(inds):
             i = up_occ_inds[inds[0]]
@@ -404,9 +412,10 @@ def local_en_on_the_fly(
             )
 
         row_inds, col_inds = jnp.indices((up_occ_inds.shape[0], down_occ_inds.shape[0]))
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
-        )
+        if has_two_body and row_inds.size > 0:
+            local_en += jnp.sum(
+                jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
+            )
 
         return local_en
 
-- 
2.43.0


From 7ed01f89bec899470b7a7d04c63f562ce3800533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:47 +0000
Subject: [PATCH 31/52] fix: log-pfaffian of singular matrices is -inf instead
 of nan

---
 GPSKet/models/pfaffian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 8d9ba37..9aade9e 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -71,7 +71,9 @@ def log_pfaffian(mat):
             value + jnp.log(matrix[index, index + 1]),
             -jnp.inf + 0.0j,
         )
-        t = matrix[index, (index + 2) :] / matrix[index, index + 1]
+        # a vanishing pivot means that the whole row vanishes and nothing is left to eliminate
+        pivot = matrix[index, index + 1]
+        t = matrix[index, (index + 2) :] / jnp.where(pivot != 0.0, pivot, 1.0)
         matrix = matrix.at[index + 2 :, index + 2 :].add(
             jnp.outer(t, matrix[index + 2 :, index + 1])
         )
-- 
2.43.0


From b718d8afab962bddfcf36cd174b8f4a3deacabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:47 +0000
Subject: [PATCH 32/52] fix: PfaffianState no longer sums over the batch

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 9aade9e..a4e0526 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -127,7 +127,7 @@ class PfaffianState(nn.Module):
         self.out_transformation has the same meaning for this state as for the ZeroMagnetizationPfaffian
         below.
         """
-        return self.out_transformation(out)
+        return self.out_transformation(jnp.expand_dims(out, axis=-2))
 
 
 """
-- 
2.43.0


From eba7b0e93c116425a4bbc01ca8e9f3b23178cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:07 +0000
Subject: [PATCH 33/52] fix: weight the gradients of unique samples states with
 the counts

The override was registered for the expect_and_grad signature of old NetKet versions and
never dispatched to, so that gradients ignored the relative counts.
---
 .../vqs/mc/mc_state/state_unique_samples.py   | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..542f9c3 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -123,14 +123,13 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 """ The following functions just override the NetKet implementation to inject the sample counts into the expectation value evaluation."""
 
 
-@nk.vqs.expect_and_grad.dispatch(precedence=10)
-def expect_and_grad(
+@nk.vqs.expect_and_forces.dispatch(precedence=10)
+def expect_and_forces(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
     *,
-    mutable: Any
+    mutable: Any = False
 ):
     _, args = get_local_kernel_arguments(vstate, op)
     samples_and_counts = vstate.samples_with_counts
@@ -140,7 +139,7 @@ def expect_and_grad(
         local_estimator = get_local_kernel(vstate, op)
     assert mutable is False
 
-    exp, grad = grad_expect_hermitian_chunked(
+    exp, forces = grad_expect_hermitian_chunked(
         chunk_size,
         local_estimator,
         vstate._apply_fun,
@@ -151,7 +150,7 @@ def expect_and_grad(
         compute_grad=True,
     )
 
-    return exp, grad
+    return exp, forces
 
 
 @nk.vqs.expect.dispatch(precedence=10)
@@ -240,14 +239,6 @@ def grad_expect_hermitian_chunked(
 
         val_grad = vjp_fun((jnp.conjugate(loc_vals_centered)))[0]
 
-        val_grad = jax.tree_util.tree_map(
-            lambda x, target: (x if jnp.iscomplexobj(target) else 2 * x.real).astype(
-                target.dtype
-            ),
-            val_grad,
-            parameters,
-        )
-
         return loc_val_stats, jax.tree_util.tree_map(lambda x: _mpi_sum_jax(x)[0], val_grad)
     else:
         return loc_val_stats
-- 
2.43.0


From f009ff22d37a2fe7cf6f188c7a026481a9d08894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:36 +0000
Subject: [PATCH 34/52] fix: normalise the geometric tensor and gradient of
 VMC_SRRMSProp by the number of samples

Both were multiplied by the number of samples instead of divided by it, so that eps and
initial_scale had a sample-size dependent meaning.
---
 GPSKet/driver/VMC_SRRMSProp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 50f8d0b..6c184ed 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -25,13 +25,13 @@ def SRRMSProp(
     local_energies = local_energies.flatten()
     if e_mean is None:
         e_mean = nkstats.mean(local_energies)
-    local_energies_centered = -2*jnp.conj(local_energies - e_mean) * jnp.sqrt(N_mc)
+    local_energies_centered = -2*jnp.conj(local_energies - e_mean) / jnp.sqrt(N_mc)
     local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
     local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
     # Center jacobians
     O_mean = nkstats.mean(O_L, axis=0)
-    O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
+    O_L = (O_L - O_mean) / jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
     O_L = O_L.reshape(-1, *O_L.shape[2:])
 
-- 
2.43.0


From a970165a3b232b1d62905cf5864a0b1ac366cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 35/52] fix: keep own copies of reference sites and
 configurations in the supervised learning cache

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 880521d..8bcb3ed 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -100,7 +100,7 @@ class QGPSLearning:
                 self.epsilon.shape[1], dtype=int
             )
         else:
-            self._ref_sites = ref_sites_or_site
+            self._ref_sites = np.array(ref_sites_or_site)
         self._ref_sites_incr_dim = np.tile(
             self._ref_sites, (self.epsilon.shape[0], 1)
         ).T.flatten()
@@ -226,7 +226,7 @@ class QGPSLearning:
                 recompute_site_prod = True
 
             if recompute_site_prod:
-                self.confs = confs
+                self.confs = np.array(confs)
                 self.compute_site_prod()
                 self.K_per_sym = None
 
-- 
2.43.0


From a1d297bfb76035a9d308cde07766be4e68d60d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 36/52] fix: apply the weightings to configurations with
 vanishing target amplitude

---
 GPSKet/supervised/supervised_qgps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 8bcb3ed..7914925 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -589,6 +589,8 @@ class QGPSLearningExp(QGPSLearning):
 
         multiplicator = self.S_diag * self.fit_data
         multiplicator[self.exp_amps == 0.0] = -1 / 2
+        if weightings is not None:
+            multiplicator[self.exp_amps == 0.0] *= weightings[self.exp_amps == 0.0]
         self.y = _mpi_sum(self.K.conj().T.dot(multiplicator))
 
         if self.complex_expand and self.epsilon.dtype == complex:
-- 
2.43.0


From 9113e4db1a420a91f7948a8afc9c660afef60db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 37/52] fix: order of the regularisation parameters in complex
 fits with bias

---
 GPSKet/supervised/supervised_qgps.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 7914925..f6835d4 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -114,15 +114,22 @@ class QGPSLearning:
         else:
             full_alpha = self.alpha_mat[self._ref_sites_incr_dim, self.feature_ids]
         if self.include_bias:
-            full_alpha = np.concatenate((full_alpha, self.alpha_bias))
+            if self.complex_expand and self.epsilon.dtype == complex:
+                real, imag = np.split(full_alpha, 2)
+                full_alpha = np.concatenate(
+                    (real, self.alpha_bias[:1], imag, self.alpha_bias[1:])
+                )
+            else:
+                full_alpha = np.concatenate((full_alpha, self.alpha_bias))
         return full_alpha
 
     @alpha_mat_ref_sites.setter
     def alpha_mat_ref_sites(self, alpha):
         if self.include_bias:
             if self.complex_expand and self.epsilon.dtype == complex:
-                alpha_bias = alpha[-2:]
-                alpha_epsilon = alpha[:-2]
+                real, imag = np.split(alpha, 2)
+                alpha_bias = np.array([real[-1], imag[-1]])
+                alpha_epsilon = np.concatenate((real[:-1], imag[:-1]))
             else:
                 alpha_bias = alpha[-1:]
                 alpha_epsilon = alpha[:-1]
-- 
2.43.0


From a13815dc7c494ee0a6ff6819f8220b4bf76b15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 38/52] fix: sign of the trace term in the noise derivative of
 the log marginal likelihood

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index f6835d4..031e44e 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -780,11 +780,11 @@ class QGPSLearningExp(QGPSLearning):
         KtK_der = KtK_der[np.ix_(self.active_elements, self.active_elements)]
 
         if self.cholesky:
-            derivative_noise = np.trace(
+            derivative_noise = -np.trace(
                 KtK_der.dot(self.Sinv_L.conj().T.dot(self.Sinv_L))
             )
         else:
-            derivative_noise = np.trace(KtK_der.dot(self.Sinv))
+            derivative_noise = -np.trace(KtK_der.dot(self.Sinv))
 
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_noise *= 0.5
-- 
2.43.0


From 27597c95b067499766314d0bb4be216983e69603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 39/52] fix: apply the weightings to the data term of the
 log-space marginal likelihood

---
 GPSKet/supervised/supervised_qgps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 031e44e..a94b271 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1160,7 +1160,13 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             else:
                 log_lik = -(len(self.fit_data) * np.log(2 * np.pi * self.noise_tilde))
 
-        log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
+        if self.weightings is not None:
+            log_lik -= (
+                np.dot(self.fit_data.conj(), self.weightings * self.fit_data)
+                / self.noise_tilde
+            )
+        else:
+            log_lik -= np.dot(self.fit_data.conj(), self.fit_data) / self.noise_tilde
         log_lik = _MPI_comm.allreduce(log_lik)
 
         if self.cholesky:
-- 
2.43.0


From 24db89ce6829740c32d9f95286a2d4328174eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 40/52] fix: prediction of log-space fits with expanded complex
 features

---
 GPSKet/supervised/supervised_qgps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index a94b271..b4185d3 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1116,7 +1116,11 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             )
 
     def prediction_after_setup(self):
-        return self.K.dot(self.weights)
+        if self.complex_expand and self.epsilon.dtype == complex:
+            K = np.hstack((self.K, 1.0j * self.K))
+        else:
+            K = self.K
+        return K.dot(self.weights)
 
     def setup_fit(
         self, confset, log_amplitudes, ref_sites, weightings=None, prior_mean=0.0
-- 
2.43.0


From 8e0a63e60b9e4ef057db8b14613815278c5c5de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 41/52] fix: noise derivative of the log-space marginal
 likelihood

---
 GPSKet/supervised/supervised_qgps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index b4185d3..0dc8dd1 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1229,13 +1229,14 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             N = _mpi_sum(np.sum(self.weightings))
             squared_error = _mpi_sum(
                 np.sum(
-                    self.weightings * abs(self.fit_data - self.predict(self.confs)) ** 2
+                    self.weightings
+                    * abs(self.fit_data - self.prediction_after_setup()) ** 2
                 )
             )
         else:
             N = _mpi_sum(len(self.fit_data))
             squared_error = _mpi_sum(
-                np.sum(abs(self.fit_data - self.predict(self.confs)) ** 2)
+                np.sum(abs(self.fit_data - self.prediction_after_setup()) ** 2)
             )
 
         beta_derivative += N * self.noise_tilde
@@ -1244,7 +1245,7 @@ class QGPSLogSpaceFit(QGPSLearningExp):
         if self.epsilon.dtype == float:
             beta_derivative *= 0.5
 
-        return -(self.noise_tilde**2) * beta_derivative
+        return -beta_derivative / self.noise_tilde**2
 
     def fit_step(
         self,
-- 
2.43.0


From 8d61bce4bba361365bc2890de2180afa3bf41d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:00 +0000
Subject: [PATCH 42/52] fix: weightings in the log marginal likelihood with
 vanishing target amplitudes

---
 GPSKet/supervised/supervised_qgps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 0dc8dd1..21e4282 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -626,24 +626,24 @@ class QGPSLearningExp(QGPSLearning):
 
     def log_marg_lik(self):
         if self.weightings is not None:
+            weightings = self.weightings[self.exp_amps != 0.0]
             if self.epsilon.dtype == complex:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
-                            np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            np.pi / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
             else:
                 log_lik = -(
                     np.sum(
-                        self.weightings
+                        weightings
                         * np.log(
                             2
                             * np.pi
-                            / (self.S_diag[self.exp_amps != 0.0] / self.weightings)
+                            / (self.S_diag[self.exp_amps != 0.0] / weightings)
                         )
                     )
                 )
-- 
2.43.0


From a28e194cc5598b100b4d9c59c8d0d8329227f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:28 +0000
Subject: [PATCH 43/52] fix: complex quality factors in the growing RVM

---
 GPSKet/supervised/supervised_qgps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 21e4282..eedf492 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -916,11 +916,10 @@ class QGPSLearningExp(QGPSLearning):
         else:
             XXa = self.KtK[:, self.active_elements]
             XS = np.dot(XXa, self.Sinv)
-            S = bxx - self.beta**2 * np.sum(XS * XXa, 1)
+            S = bxx - self.beta**2 * np.sum(XS * XXa.conj(), 1)
             Q = bxy - self.beta**2 * np.dot(XS, self.y[self.active_elements])
 
         S = S.real
-        Q = Q.real
         # Use following:
         # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
         qi = np.copy(Q)
-- 
2.43.0


From 2ce8d75c5b04cf2c4355f5cef15bf9b2a2b4f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:28 +0000
Subject: [PATCH 44/52] fix: scale of the sparsity and quality factors of
 expanded complex features in the growing RVM

---
 GPSKet/supervised/supervised_qgps.py | 67 +++++++++-------------------
 1 file changed, 21 insertions(+), 46 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index eedf492..445112f 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -920,6 +920,10 @@ class QGPSLearningExp(QGPSLearning):
             Q = bxy - self.beta**2 * np.dot(XS, self.y[self.active_elements])
 
         S = S.real
+        if self.complex_expand and self.epsilon.dtype == complex:
+            # The real and imaginary parts of the data have half of the variance each
+            S = 2 * S
+            Q = 2 * Q
         # Use following:
         # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
         qi = np.copy(Q)
@@ -927,28 +931,16 @@ class QGPSLearningExp(QGPSLearning):
         #  If A is not np.PINF, then it should be 'active' feature => use (EQ 1)
         Qa, Sa = Q[self.active_elements], S[self.active_elements]
 
-        if self.complex_expand and self.epsilon.dtype == complex:
-            qi[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Qa
-                / (self.alpha_mat_ref_sites[self.active_elements] - 2 * Sa)
-            )
-            si[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Sa
-                / (self.alpha_mat_ref_sites[self.active_elements] - 2 * Sa)
-            )
-        else:
-            qi[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Qa
-                / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
-            )
-            si[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Sa
-                / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
-            )
+        qi[self.active_elements] = (
+            self.alpha_mat_ref_sites[self.active_elements]
+            * Qa
+            / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
+        )
+        si[self.active_elements] = (
+            self.alpha_mat_ref_sites[self.active_elements]
+            * Sa
+            / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
+        )
         return [si, qi, S, Q]
 
     def update_precisions(self, s, q, S, Q):
@@ -963,24 +955,12 @@ class QGPSLearningExp(QGPSLearning):
         # three groups identified above
         Qadd, Sadd = Q[add], S[add]
 
-        if self.complex_expand and self.epsilon.dtype == complex:
-            Qrec, Srec, Arec = (
-                Q[recompute],
-                S[recompute],
-                self.alpha_mat_ref_sites[recompute] / 2,
-            )
-            Qdel, Sdel, Adel = (
-                Q[delete],
-                S[delete],
-                self.alpha_mat_ref_sites[delete] / 2,
-            )
-        else:
-            Qrec, Srec, Arec = (
-                Q[recompute],
-                S[recompute],
-                self.alpha_mat_ref_sites[recompute],
-            )
-            Qdel, Sdel, Adel = Q[delete], S[delete], self.alpha_mat_ref_sites[delete]
+        Qrec, Srec, Arec = (
+            Q[recompute],
+            S[recompute],
+            self.alpha_mat_ref_sites[recompute],
+        )
+        Qdel, Sdel, Adel = Q[delete], S[delete], self.alpha_mat_ref_sites[delete]
 
         # compute new alpha's (precision parameters) for features that are
         # currently in model and will be recomputed
@@ -1005,12 +985,7 @@ class QGPSLearningExp(QGPSLearning):
 
         alpha = self.alpha_mat_ref_sites
         if theta[feature_index] > 0:
-            if self.complex_expand and self.epsilon.dtype == complex:
-                alpha[feature_index] = 2 * (
-                    s[feature_index] ** 2 / theta[feature_index]
-                )
-            else:
-                alpha[feature_index] = s[feature_index] ** 2 / theta[feature_index]
+            alpha[feature_index] = s[feature_index] ** 2 / theta[feature_index]
         else:
             # at least one active features
             if (
-- 
2.43.0


From b25531b58716dfccc73a6285663d3b7db77f9957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:56 +0000
Subject: [PATCH 45/52] fix: noise derivative of the log marginal likelihood
 with vanishing target amplitudes

---
 GPSKet/supervised/supervised_qgps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 445112f..b54aa7c 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -762,6 +762,10 @@ class QGPSLearningExp(QGPSLearning):
                     )
                 )
 
+        nonzero = self.exp_amps != 0.0
+        del_S = np.where(nonzero, del_S, 0.0)
+        fit_data = np.where(nonzero, self.fit_data, 0.0)
+
         Delta_S = -(self.S_diag**2 * del_S)
 
         if self.weightings is not None:
@@ -793,10 +797,10 @@ class QGPSLearningExp(QGPSLearning):
 
         weights = self.weights[self.active_elements]
 
-        derivative_noise -= self.fit_data.conj().dot(Delta_S * self.fit_data)
+        derivative_noise -= fit_data.conj().dot(Delta_S * fit_data)
         derivative_noise -= weights.conj().dot(KtK_der.dot(weights))
 
-        derivative_noise += 2 * self.fit_data.conj().dot(Delta_S * K.dot(weights))
+        derivative_noise += 2 * fit_data.conj().dot(Delta_S * K.dot(weights))
 
         derivative_noise = _MPI_comm.allreduce(derivative_noise)
 
-- 
2.43.0


From bd39ed3e90094ca94d373ec606cf964a38008ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:43 +0000
Subject: [PATCH 46/52] fix: imaginary time step for amplitudes which change
 their sign (real local energies)

---
 GPSKet/supervised/imag_time_step.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 2f4bbaa..06865a3 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -32,7 +32,8 @@ class ImagTimeStep:
         samples_reshaped = samples.reshape((-1, samples.shape[-1]))
         self.log_amps = self.vstate.log_value(samples_reshaped)
         self.local_energies = self.get_local_energies(samples_reshaped)
-        return self.log_amps + jnp.log(1 - tau * self.local_energies)
+        # The propagated amplitude can change its sign, the log must therefore be complex
+        return self.log_amps + jnp.log((1 - tau * self.local_energies).astype(complex))
 
 
 def get_imag_time_step_vstate(tau, hamiltonian, vstate):
@@ -69,7 +70,8 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
-        return log_amps + jnp.log(1 / tau - 1 * loc_ens) + jnp.log(tau)
+        # The propagated amplitude can change its sign, the log must therefore be complex
+        return log_amps + jnp.log((1 - tau * loc_ens).astype(complex))
 
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
-- 
2.43.0


From c0dabc48d46aa2ba4a8cf7746e9d7248dcef54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:53 +0000
Subject: [PATCH 47/52] fix: keep the masked convolutions causal for even
 kernel sizes

---
 GPSKet/nn/causal_conv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPSKet/nn/causal_conv.py b/GPSKet/nn/causal_conv.py
index 896392b..90188be 100644
--- a/GPSKet/nn/causal_conv.py
+++ b/GPSKet/nn/causal_conv.py
@@ -29,11 +29,16 @@ class MaskedConv2D(nn.Module):
             mask_ext = jnp.tile(mask_ext, (1, 1, x.shape[-1], self.features))
         else:
             mask_ext = self.mask
-        # Convolution with masking
+        # Convolution with masking, padded such that the kernel is centred at
+        # (kernel_size // 2), also for even kernel sizes
         x = nn.Conv(
             features=self.features,
             kernel_size=self.mask.shape[:2],
             kernel_dilation=self.dilation,
+            padding=[
+                (self.dilation * (k // 2), self.dilation * ((k - 1) // 2))
+                for k in self.mask.shape[:2]
+            ],
             mask=mask_ext,
             param_dtype=self.param_dtype,
             kernel_init=self.kernel_init,
-- 
2.43.0


From 5bf04c53ffbff79454097641c538b9cba9170ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:14 +0000
Subject: [PATCH 48/52] fix: shift real and imaginary parts separately in the
 on-the-fly RMSProp QGT

---
 GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py b/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
index 8b8fd43..575ff25 100644
--- a/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py
@@ -33,10 +33,18 @@ def mat_vec(jvp_fn, v, diag_shift, ema, eps):
     (res,) = tree_conj(vjp_fn(w.conjugate()))
     res = tree_map(lambda x: mpi.mpi_sum_jax(x)[0], res)
 
+    def scale(e_, v_):
+        if jnp.iscomplexobj(e_):
+            # Real and imaginary parts are averaged and shifted separately
+            return jax.lax.complex(
+                (jnp.sqrt(e_.real) + eps) * v_.real,
+                (jnp.sqrt(e_.imag) + eps) * v_.imag,
+            )
+        return (jnp.sqrt(e_) + eps) * v_
+
     # (1-diag_shift) * res + diag_shift * (sqrt(ema)+eps) * v
     return tree_map(
-        lambda r_, e_, v_: (1 - diag_shift) * r_
-        + diag_shift * (jnp.sqrt(e_) + eps) * v_,
+        lambda r_, e_, v_: (1 - diag_shift) * r_ + diag_shift * scale(e_, v_),
         res,
         ema,
         v,
-- 
2.43.0


From 83760430d02b1e8a831390b61214091ce2315f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 49/52] fix: count the electrons strictly between the sites in
 apply_hopping without cumulative counts

---
 GPSKet/operator/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..7e4944d 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,7 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(np.bool)
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From 6e5cac8483a12dca1c850f5cefc79cc370ad2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:22 +0000
Subject: [PATCH 50/52] fix: VMC_SRRMSProp on several processes (order of
 collectives, shapes on the other ranks)

---
 GPSKet/driver/VMC_SRRMSProp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 6c184ed..2226e6b 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -30,10 +30,11 @@ def SRRMSProp(
     local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
     # Center jacobians
-    O_mean = nkstats.mean(O_L, axis=0)
+    O_mean, token = mpi.mpi_mean_jax(jnp.mean(O_L, axis=0), token=token)
     O_L = (O_L - O_mean) / jnp.sqrt(N_mc)
+    O_shape = O_L.shape
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
-    O_L = O_L.reshape(-1, *O_L.shape[2:])
+    O_L = O_L.reshape(-1, *O_shape[1:])
 
     # Convert quantities to dense format
     if mode == "complex":
@@ -64,7 +65,7 @@ def SRRMSProp(
         if isinstance(updates, tuple):
             updates, _ = updates
     else:
-        updates = jnp.zeros(local_energies_centered.shape[0], dtype=jnp.float64)
+        updates = jnp.zeros(ema.shape[0], dtype=jnp.float64)
     updates, token = mpi.mpi_bcast_jax(updates, token=token, root=0)
     
     # If complex mode and we have complex parameters, we need
-- 
2.43.0


From 4fa3cb79ea03f75c91a0f8e2fcc3c7ddd095cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:22 +0000
Subject: [PATCH 51/52] fix: keep diag_shift in the partially applied
 QGTJacobianDenseUniqueSamples

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 8110760..1d6dbd8 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -38,7 +38,11 @@ def QGTJacobianDenseUniqueSamples(
     assert diag_scale is None  # Not yet implemented -> TODO: implement support!
     if vstate is None:
         return partial(
-            QGTJacobianDenseUniqueSamples, mode=mode, holomorphic=holomorphic
+            QGTJacobianDenseUniqueSamples,
+            mode=mode,
+            holomorphic=holomorphic,
+            diag_shift=diag_shift,
+            **kwargs
         )
 
     if mode is None:
-- 
2.43.0


From 6c1dbe6c281287d6fb691d1f129b320f54e6f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:38 +0000
Subject: [PATCH 52/52] fix: nn.initializers.normal follows the requested
 parameter type

---
 GPSKet/nn/initializers.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/GPSKet/nn/initializers.py b/GPSKet/nn/initializers.py
index 99074dc..fd708c6 100644
--- a/GPSKet/nn/initializers.py
+++ b/GPSKet/nn/initializers.py
@@ -16,19 +16,14 @@ def normal(sigma=0.1, dtype=jnp.float_):
     Returns:
         init function with signature `(key, shape, dtype) -> Array`
     """
-    if jnp.iscomplexobj(dtype):
-
-        def init_fun(key, shape, dtype=dtype):
+    def init_fun(key, shape, dtype=dtype):
+        if jnp.issubdtype(dtype, jnp.complexfloating):
             phase = jax.random.normal(key, shape, jnp.float32) * sigma
             eps = jnp.exp(1j * phase).astype(dtype)
-            return eps
-
-    else:
-
-        def init_fun(key, shape, dtype=dtype):
+        else:
             eps = jnp.ones(shape, dtype)
             eps += jax.random.normal(key, shape, dtype) * sigma
-            return eps
+        return eps
 
     return init_fun
 
-- 
2.43.0

