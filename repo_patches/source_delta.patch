From 7b7a99b2ae5b7a5092e225ebceb66784fa111770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:24 +0000
Subject: [PATCH 01/92] fix: mirror symmetric components when recovering a
 tensor from its matricial form without Kelvin notation

get_tensor_from_mf only filled the lower components of tensors stored with a
symmetric components order when the Kelvin notation was employed, such that the
recovered tensor was not symmetric otherwise.
---
 .../simulators/fetorch/math/matrixops.py      | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..09d53c8 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -378,11 +378,12 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
         raise RuntimeError('Duplicated component in strain/stress components '
                            'order.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Set Kelvin notation flag
+    # Set Kelvin notation and symmetric storage flags
     if len(comp_order) == n_dim**2:
         is_kelvin_notation = False
+        is_symmetric = False
     elif len(comp_order) == sum(range(n_dim + 1)):
-        pass
+        is_symmetric = True
     else:
         raise RuntimeError('Invalid number of components in strain/stress '
                            'components order.')
@@ -407,8 +408,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = mf_indexes[i]
             so_idx = tuple(so_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not so_idx[0] == so_idx[1]:
-                factor = math.sqrt(2)
+            if is_symmetric and not so_idx[0] == so_idx[1]:
+                factor = math.sqrt(2) if is_kelvin_notation else 1.0
                 tensor[so_idx[::-1]] = (1.0/factor)*tensor_mf[mf_idx]
             tensor[so_idx] = (1.0/factor)*tensor_mf[mf_idx]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -435,12 +436,13 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = tuple(mf_indexes[i])
             fo_idx = tuple(fo_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not (fo_idx[0] == fo_idx[1]
-                                           and fo_idx[2] == fo_idx[3]):
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[0] != fo_idx[1] else factor
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[2] != fo_idx[3] else factor
+            if is_symmetric and not (fo_idx[0] == fo_idx[1]
+                                     and fo_idx[2] == fo_idx[3]):
+                if is_kelvin_notation:
+                    factor = factor*math.sqrt(2) \
+                        if fo_idx[0] != fo_idx[1] else factor
+                    factor = factor*math.sqrt(2) \
+                        if fo_idx[2] != fo_idx[3] else factor
                 if fo_idx[0] != fo_idx[1] and fo_idx[2] != fo_idx[3]:
                     tensor[tuple(fo_idx[1::-1]+fo_idx[2:])] = \
                         (1.0/factor)*tensor_mf[mf_idx]
-- 
2.43.0


From f5bcbfad2dd85786adade195a35e4cd89fd4e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:45 +0000
Subject: [PATCH 02/92] fix: do not add the initial plastic strain twice in the
 Nadai-Ludwik hardening law

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..21bd989 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -367,7 +367,7 @@ class NadaiLudwikIHL(IsotropicHardeningLaw):
                                f'strain but got {acc_p_strain}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce non-negative accumulate plastic strain
-        acc_p_strain = torch.relu(acc_p_strain) + ep0
+        acc_p_strain = torch.relu(acc_p_strain)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute yield stress
         yield_stress = yield_stress_init + a*((acc_p_strain + ep0)**b)
-- 
2.43.0


From 0fcfa4a9a804eefbbe1760ef4c2186fd22e51842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:30 +0000
Subject: [PATCH 03/92] fix: convert nested dictionaries to tensors and keep
 remaining values when not in-place

---
 src/hookeai/utilities/type_conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..3624395 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,8 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value,
+                                                        is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,11 +70,14 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                # Keep value unchanged
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From e425a9671c88c54f4ebc4115a0abb4138c079348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:30 +0000
Subject: [PATCH 04/92] fix: do not modify nested dictionaries in out-of-place
 floating point conversions

---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 3624395..2ace3bd 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -146,7 +146,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = convert_dict_to_float32(
+                    value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -222,7 +223,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = convert_dict_to_float64(
+                    value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From 36356cf7aefe2df729bcae7c15f452581ad7d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:30 +0000
Subject: [PATCH 05/92] fix: normalize by the deviatoric trial strain in the
 Drucker-Prager consistent tangent

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 6cac667a87aa14d6f074ab8db4a512ec14d79ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 06/92] fix: accept the symmetric counterpart of a required
 elastic modulus

---
 .../fetorch/material/models/standard/elastic.py           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/elastic.py b/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
index 4b52215..2bdf0c2 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
@@ -431,7 +431,9 @@ class Elastic(ConstitutiveModel):
             elastic_moduli = {}
             # Extract elastic moduli from elastic properties
             for param in elastic_properties.keys():
-                if param in elastic_symmetries['triclinic']:
+                sym_param = 'E' + param[3:5] + param[1:3]
+                if (param in elastic_symmetries['triclinic']
+                        or sym_param in elastic_symmetries['triclinic']):
                     elastic_moduli[param] = elastic_properties[param]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Initialize independent elastic moduli
@@ -440,7 +442,7 @@ class Elastic(ConstitutiveModel):
             # Loop over required elastic moduli
             for modulus in required_moduli:
                 # Set symmetric modulus
-                sym_modulus = modulus[3:5] + modulus[1:3]
+                sym_modulus = 'E' + modulus[3:5] + modulus[1:3]
                 # Check if requires elastic modulus has been provided
                 if modulus in elastic_moduli.keys():
                     ind_moduli[modulus] = elastic_moduli[modulus]
@@ -572,7 +574,7 @@ class Elastic(ConstitutiveModel):
                 # Loop over required elastic moduli
                 for modulus in required_moduli:
                     # Set symmetric modulus
-                    sym_modulus = modulus[3:5] + modulus[1:3]
+                    sym_modulus = 'E' + modulus[3:5] + modulus[1:3]
                     # Check if requires elastic modulus has been provided
                     if modulus in elastic_properties.keys():
                         ind_moduli[modulus] = elastic_properties[modulus]
-- 
2.43.0


From eec5e9878020cf159a95e7cb50fcdad1e1fea9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:55 +0000
Subject: [PATCH 07/92] fix: scale the back-stress increment consistently with
 the return-mapping of the mixed hardening von Mises model

---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..5f49d8c 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                    *flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..fe3b125 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                *flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From f0207ac9bcb58d1ccdf4f1b0ae2ec1c3cde4d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:12 +0000
Subject: [PATCH 08/92] fix: return scalar yield stress and slope from the
 piecewise linear hardening law

---
 .../simulators/fetorch/material/models/standard/hardening.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 21bd989..7272104 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -237,6 +237,9 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
             acc_p_strain < a[0], 0.0, torch.where(
                 acc_p_strain >= a[-1], 0.0,
                 PiecewiseLinearIHL._hardening_slope(acc_p_strain, a, b)))
+        # Keep shape of accumulated plastic strain
+        yield_stress = yield_stress.reshape(acc_p_strain.shape)
+        hard_slope = hard_slope.reshape(acc_p_strain.shape)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return yield_stress, hard_slope
     # -------------------------------------------------------------------------
-- 
2.43.0


From 58cf0e71f61451340e25e00c1b201a3a24461e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:36 +0000
Subject: [PATCH 09/92] fix: evaluate the third invariant derivatives of the
 Lou model without inverting the deviatoric stress

---
 .../fetorch/material/models/standard/lou.py   | 22 +++++----------
 .../fetorch/material/models/vmap/lou.py       | 22 +++++----------
 .../simulators/fetorch/math/tensorops.py      | 28 ++++++++++++++++++-
 3 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 4127a6e..001ad86 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -30,7 +30,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dsquare_sym
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -897,28 +897,20 @@ class LouZhangYoon(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute derivative of square of deviatoric stress tensor w.r.t. itself
+        ddssq_dds = fo_dsquare_sym(dev_stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = self.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = ddot42_1(fodevprojsym,
+                               torch.matmul(dev_stress, dev_stress))
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index d7f3dcd..5bca7df 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -51,7 +51,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dsquare_sym
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -690,28 +690,20 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute derivative of square of deviatoric stress tensor w.r.t. itself
+        ddssq_dds = fo_dsquare_sym(dev_stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = cls.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = ddot42_1(fodevprojsym,
+                               torch.matmul(dev_stress, dev_stress))
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
diff --git a/src/hookeai/simulators/fetorch/math/tensorops.py b/src/hookeai/simulators/fetorch/math/tensorops.py
index b676f6d..7d24f2d 100644
--- a/src/hookeai/simulators/fetorch/math/tensorops.py
+++ b/src/hookeai/simulators/fetorch/math/tensorops.py
@@ -54,6 +54,8 @@ get_id_operators
     Set common second- and fourth-order identity operators.
 fo_dinv_sym(inv)
     Derivative of inverse of symmetric second-order tensor w.r.t. to itself.
+fo_dsquare_sym(tensor)
+    Derivative of square of symmetric second-order tensor w.r.t. to itself.
 """
 #
 #                                                                       Modules
@@ -241,4 +243,28 @@ def fo_dinv_sym(inv):
     # Compute fourth-order derivative
     dinv = -0.5*torch.stack(dinv_list).view(fo_shape)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    return dinv
\ No newline at end of file
+    return dinv
+# =============================================================================
+def fo_dsquare_sym(tensor):
+    """Derivative of square of symmetric second-order tensor w.r.t. to itself.
+    
+    Parameters
+    ----------
+    tensor : torch.Tensor(2d)
+        Symmetric second-order tensor.
+        
+    Returns
+    -------
+    dsquare : torch.Tensor(4d)
+        Derivative of square of symmetric second-order tensor w.r.t itself.
+    """
+    # Set second-order identity tensor
+    soid = torch.eye(tensor.shape[0], dtype=tensor.dtype,
+                     device=tensor.device)
+    # Compute fourth-order derivative
+    dsquare = 0.5*(torch.einsum('ik,lj->ijkl', soid, tensor)
+                   + torch.einsum('il,kj->ijkl', soid, tensor)
+                   + torch.einsum('ik,lj->ijkl', tensor, soid)
+                   + torch.einsum('il,kj->ijkl', tensor, soid))
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    return dsquare
-- 
2.43.0


From 5ddc64d06c4706d3b456512872621bb93e38ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:03 +0000
Subject: [PATCH 10/92] fix: return to the apex in the Lou model only if the
 trial pressure exceeds the apex pressure

---
 src/hookeai/simulators/fetorch/material/models/standard/lou.py | 2 +-
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 001ad86..53c5fb8 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -347,7 +347,7 @@ class LouZhangYoon(ConstitutiveModel):
         # Set state update maximum number of iterations
         su_max_n_iterations = 20
         # Set apex return-mapping switch tolerance
-        apex_switch_tol = 0.05
+        apex_switch_tol = 0.0
         # Set minimum threshold to handle values close or equal to zero
         small = 1e-8
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index 5bca7df..ad1ce90 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -386,7 +386,7 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # Set state update maximum number of iterations
         su_max_n_iterations = 10
         # Set apex return-mapping switch tolerance
-        apex_switch_tol = 0.05
+        apex_switch_tol = 0.0
         # Set minimum threshold to handle values close or equal to zero
         small = 1e-8
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From cf381cb9b1ea97cb3630013c3e60ce77da01c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:23 +0000
Subject: [PATCH 11/92] fix: compute the deviatoric invariants of the Lou model
 from the deviatoric stress

---
 .../simulators/fetorch/material/models/standard/lou.py     | 7 +++++--
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 53c5fb8..6e9afe5 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -842,12 +842,15 @@ class LouZhangYoon(ConstitutiveModel):
         # Compute third (principal) invariant of stress tensor.
         i3 = torch.det(stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Compute deviatoric stress tensor
+        dev_stress = stress - (1/3)*i1*torch.eye(3, dtype=stress.dtype,
+                                                 device=stress.device)
         # Compute first invariant of deviatoric stress tensor
         j1 = i1
         # Compute second invariant of deviatoric stress tensor
-        j2 = (1/3)*(i1**2) - i2
+        j2 = 0.5*torch.sum(dev_stress**2)
         # Compute third invariant of deviatoric stress tensor
-        j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+        j3 = torch.det(dev_stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3
     # -------------------------------------------------------------------------
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index ad1ce90..aa187ed 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -631,12 +631,15 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # Compute third (principal) invariant of stress tensor.
         i3 = torch.det(stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Compute deviatoric stress tensor
+        dev_stress = stress - (1/3)*i1*torch.eye(3, dtype=stress.dtype,
+                                                 device=stress.device)
         # Compute first invariant of deviatoric stress tensor
         j1 = i1
         # Compute second invariant of deviatoric stress tensor
-        j2 = (1/3)*(i1**2) - i2
+        j2 = 0.5*torch.sum(dev_stress**2)
         # Compute third invariant of deviatoric stress tensor
-        j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+        j3 = torch.det(dev_stress)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3
     # -------------------------------------------------------------------------
-- 
2.43.0


From 8b221f4c3b575bb03a389139fb65bd9aec4416e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:08 +0000
Subject: [PATCH 12/92] fix: include the kinematic hardening slope in the
 batch-mappable mixed von Mises consistent tangent

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index fe3b125..25c8074 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 72b41bbf6e2df17b9a5fd4f22b1ecd2c49edf0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:45 +0000
Subject: [PATCH 13/92] fix: avoid non-finite gradients of batch-mappable
 pressure dependent models at hydrostatic states

---
 .../fetorch/material/models/vmap/drucker_prager.py          | 4 +++-
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py  | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
index 51bc516..94f2b55 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
@@ -431,7 +431,9 @@ class DruckerPragerVMAP(ConstitutiveModel):
         # Compute deviatoric trial stress
         dev_trial_stress_mf = torch.matmul(fodevprojsym_mf, trial_stress_mf)
         # Compute second invariant of deviatoric trial stress
-        j2_dev_trial_stress = 0.5*torch.norm(dev_trial_stress_mf)**2
+        # (avoiding undefined derivative of square root at hydrostatic states)
+        j2_dev_trial_stress = torch.clamp(
+            0.5*torch.norm(dev_trial_stress_mf)**2, min=small**2)
         # Compute trial accumulated plastic strain
         acc_p_trial_strain = acc_p_strain_old
         # Compute trial cohesion
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index aa187ed..2959730 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -1042,6 +1042,12 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         init_yield_stress, _ = hardening_law(
             hardening_parameters,
             acc_p_strain=torch.tensor(0.0, device=device))
+        # If the return-mapping is not performed, then replace the (unused)
+        # trial strain to avoid undefined derivatives of hydrostatic states
+        e_trial_strain = torch.where(
+            is_avoid_return_mapping,
+            1e-3*torch.diag(torch.tensor([1.0, -0.4, -0.6], device=device)),
+            e_trial_strain)
         # Set unknowns initial iterative guess
         e_strain = e_trial_strain
         acc_p_strain = acc_p_strain_old
-- 
2.43.0


From e8825770ebdee55866f7abb76ef45eeb11263a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:50 +0000
Subject: [PATCH 14/92] fix: sum time series data set features without explicit
 weights

---
 src/hookeai/time_series_data/time_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..a83dbbb 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -390,6 +390,9 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
             raise RuntimeError(f'The feature "{label}" cannot be summed '
                                f'because it does not exist in the data set.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Set default features weights
+    if features_weights is None:
+        features_weights = {}
     # Initialize sum weights
     sum_weights = {}
     # Set sum weights
-- 
2.43.0


From da9485b1c9ee3b360329e112ff7492522df80401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:50 +0000
Subject: [PATCH 15/92] fix: update internal directory of stored time series
 data set

---
 src/hookeai/time_series_data/time_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index a83dbbb..00e55cd 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -832,8 +832,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From e70a5ebbe9fc847bd73417dc419dd76230169f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:50 +0000
Subject: [PATCH 16/92] fix: volumetric and deviatoric stress features
 definitions

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..cc0eccf 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = (1.0/3.0)*torch.trace(stress)
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = (1.0/3.0)*torch.trace(stress)
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From 8f560fbd8ea85ecc976262391285610a170bf1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:11 +0000
Subject: [PATCH 17/92] fix: change features labels of in-memory time series
 data sets

---
 src/hookeai/time_series_data/time_dataset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 00e55cd..40bef74 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -232,8 +232,6 @@ def change_dataset_features_labels(dataset, features_label_map):
             # Update data set sample
             if isinstance(dataset, TimeSeriesDataset):
                 dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From b17b0d6e7c10f77638dda142b58bf6d1c9f4f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:12 +0000
Subject: [PATCH 18/92] fix: account for elastic symmetry in batched elastic
 model

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..462a258 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -127,7 +127,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From f636079da11b2f9d2e910ba031ddfe8c2efb63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:12 +0000
Subject: [PATCH 19/92] fix: do not change input features in
 volumetric/deviatoric composition model

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 462a258..d8d7771 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From 266c9bc53366a5bd4a4b868824c0bc376570251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:48 +0000
Subject: [PATCH 20/92] fix: store new features of subsets of time series data
 sets in samples files

---
 .../materials/strain_features.py              |  6 +-
 .../materials/stress_features.py              |  6 +-
 src/hookeai/time_series_data/time_dataset.py  | 67 ++++++++++++++-----
 3 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/strain_features.py b/src/hookeai/model_architectures/materials/strain_features.py
index eae414e..1b15e46 100644
--- a/src/hookeai/model_architectures/materials/strain_features.py
+++ b/src/hookeai/model_architectures/materials/strain_features.py
@@ -19,7 +19,8 @@ import itertools
 # Third-party
 import torch
 # Local
-from time_series_data.time_dataset import TimeSeriesDataset, load_dataset
+from time_series_data.time_dataset import update_dataset_sample, \
+    load_dataset
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -109,8 +110,7 @@ def add_strain_features(dataset, strain_feature_label):
         sample[strain_feature_label] = strain_feature_path
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_dataset_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index cc0eccf..4238575 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -19,7 +19,8 @@ import itertools
 # Third-party
 import torch
 # Local
-from time_series_data.time_dataset import TimeSeriesDataset, load_dataset
+from time_series_data.time_dataset import update_dataset_sample, \
+    load_dataset
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -109,8 +110,7 @@ def add_stress_features(dataset, stress_feature_label):
         sample[stress_feature_label] = stress_feature_path
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_dataset_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 40bef74..eac5641 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -194,6 +194,49 @@ def load_dataset(dataset_file_path):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
+def get_parent_dataset(dataset, index=None):
+    """Get time series data set from which (nested) subset was extracted.
+
+    Parameters
+    ----------
+    dataset : torch.utils.data.Dataset
+        Time series data set or subset of time series data set.
+    index : int, default=None
+        Index of sample in data set.
+
+    Returns
+    -------
+    dataset : torch.utils.data.Dataset
+        Time series parent data set.
+    index : {int, None}
+        Index of sample in parent data set.
+    """
+    # Loop over nested subsets
+    while isinstance(dataset, torch.utils.data.Subset):
+        if index is not None:
+            index = dataset.indices[index]
+        dataset = dataset.dataset
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    return dataset, index
+# =============================================================================
+def update_dataset_sample(dataset, index, sample):
+    """Update sample file if time series data set is not stored in memory.
+
+    Parameters
+    ----------
+    dataset : torch.utils.data.Dataset
+        Time series data set or subset of time series data set.
+    index : int
+        Index of sample in data set.
+    sample : dict
+        Time series data set sample.
+    """
+    # Get parent data set and corresponding sample index
+    dataset, index = get_parent_dataset(dataset, index)
+    # Update data set sample
+    if isinstance(dataset, TimeSeriesDataset):
+        dataset.update_dataset_sample(index, sample)
+# =============================================================================
 def change_dataset_features_labels(dataset, features_label_map):
     """Change time series data set features labels.
     
@@ -230,8 +273,7 @@ def change_dataset_features_labels(dataset, features_label_map):
             sample[new_label] = sample.pop(old_label)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Update data set sample
-            if isinstance(dataset, TimeSeriesDataset):
-                dataset.update_dataset_sample(i, sample)
+            update_dataset_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -274,8 +316,7 @@ def add_dataset_feature_init(dataset, feature_label, feature_init):
         sample[str(feature_label)] = feature_init
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_dataset_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -318,10 +359,8 @@ def concatenate_dataset_features(dataset, new_feature_label,
                                f'because it does not exist in the data set.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set storage type
-    if isinstance(dataset, TimeSeriesDataset):
-        is_in_memory_dataset = False
-    else:
-        is_in_memory_dataset = True
+    parent_dataset, _ = get_parent_dataset(dataset)
+    is_in_memory_dataset = not isinstance(parent_dataset, TimeSeriesDataset)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Loop over samples
     for i in range(len(dataset)):
@@ -343,8 +382,7 @@ def concatenate_dataset_features(dataset, new_feature_label,
                 sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_dataset_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -401,10 +439,8 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
             sum_weights[feature_label] = 1.0
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set storage type
-    if isinstance(dataset, TimeSeriesDataset):
-        is_in_memory_dataset = False
-    else:
-        is_in_memory_dataset = True
+    parent_dataset, _ = get_parent_dataset(dataset)
+    is_in_memory_dataset = not isinstance(parent_dataset, TimeSeriesDataset)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Loop over samples
     for i in range(len(dataset)):
@@ -431,8 +467,7 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
                 sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_dataset_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From 7bf55d383105829a5f1d86f63e3a0186c420ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:16 +0000
Subject: [PATCH 21/92] fix: change features labels according with original
 labels

---
 src/hookeai/time_series_data/time_dataset.py | 33 ++++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index eac5641..542e87a 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -258,23 +258,22 @@ def change_dataset_features_labels(dataset, features_label_map):
         each feature (key, str) data is a torch.Tensor(2d) of shape
         (sequence_length, n_features).
     """
-    # Loop over features
-    for old_label, new_label in features_label_map.items():        
-        # Probe feature existence
-        if old_label not in tuple(dataset[0].keys()):
-            continue
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Loop over samples
-        for i in range(len(dataset)):
-            # Get sample
-            sample = dataset[i]
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Change feature label
-            sample[new_label] = sample.pop(old_label)
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Update data set sample
-            update_dataset_sample(dataset, i, sample)
-    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Loop over samples
+    for i in range(len(dataset)):
+        # Get sample
+        sample = dataset[i]
+
+        # Collect renamed features (mapping refers to original labels)
+        renamed_features = {
+            new_label: sample.pop(old_label)
+            for old_label, new_label in features_label_map.items()
+            if old_label in sample.keys()}
+        # Change features labels
+        sample.update(renamed_features)
+
+        # Update data set sample
+        update_dataset_sample(dataset, i, sample)
+
     return dataset
 # =============================================================================
 def add_dataset_feature_init(dataset, feature_label, feature_init):
-- 
2.43.0


From 9a3cd914b37e75b0c0122b2f5a77ece971f22632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:16 +0000
Subject: [PATCH 22/92] fix: update internal directory of nested subsets of
 time series data sets

---
 src/hookeai/time_series_data/time_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 542e87a..ca5d537 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -847,7 +847,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # Check data set type
         if isinstance(loaded_dataset, torch.utils.data.Subset):
             # Get parent data set
-            dataset = loaded_dataset.dataset
+            dataset, _ = get_parent_dataset(loaded_dataset)
         elif isinstance(loaded_dataset, TimeSeriesDataset):
             # Get data set
             dataset = loaded_dataset
-- 
2.43.0


From 5b8dc4323de1e3fff8c848a31119d8327e815299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 23/92] fix: set fitted model data scalers from given
 parameters

---
 .../model_architectures/procedures/model_data_scaling.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
-- 
2.43.0


From a393e380e51ae95c4f330ad3d376d46ba9b19484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 24/92] fix: normalize constant features with min-max data
 scaler

---
 src/hookeai/utilities/data_scalers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/data_scalers.py b/src/hookeai/utilities/data_scalers.py
index df5cfba..0f6c031 100644
--- a/src/hookeai/utilities/data_scalers.py
+++ b/src/hookeai/utilities/data_scalers.py
@@ -243,11 +243,16 @@ class TorchMinMaxScaler:
         # Get normalization bounds
         norm_minimum = self._norm_minimum
         norm_maximum = self._norm_maximum
+        # Get features range (null range is handled as unit range)
+        features_range = maximum - minimum
+        features_range = torch.where(features_range == 0,
+                                     torch.ones_like(features_range),
+                                     features_range)
         # Normalization features tensor
         transformed_tensor = \
             norm_minimum*torch.ones_like(tensor, device=input_device) \
             + torch.div((norm_maximum - norm_minimum)*torch.ones_like(
-                tensor, device=input_device), maximum - minimum)*(
+                tensor, device=input_device), features_range)*(
                     tensor - minimum)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Revert concatenation of sequential data
-- 
2.43.0


From 2ca037f373f1820d0fc45b74a686da66401ab5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 25/92] fix: set fitted data scalers of structure recurrent
 network material model

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..fff00e8 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -22,6 +22,8 @@ from simulators.fetorch.material.models.standard.von_mises_mixed import \
 from simulators.fetorch.material.models.standard.drucker_prager import \
     DruckerPrager
 from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
 from model_architectures.hybrid_base_model.model.hybrid_model import \
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From 26c7b6c26935b0d07712af0ee96772cc7de32f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 26/92] fix: scale features of hybridized models with data
 scaling procedures

---
 .../hybrid_base_model/model/hybrid_model.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..6226c75 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
-- 
2.43.0


From 80deee1aa4472ad100379b638c0083664619e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 27/92] fix: account for elastic symmetry in transfer learning
 batched elastic model

---
 .../hybrid_base_model/model/transfer_learning.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 4665e59..681db1f 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -478,7 +478,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From 959ebd4dd4ecc5b1dc4a25e52a4e15d84367883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:04 +0000
Subject: [PATCH 28/92] fix: set data scalers of hybridized models with data
 scaling procedures

---
 .../hybrid_base_model/model/hybridized_model.py     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
index c1961e0..4f471d8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
@@ -12,6 +12,8 @@ set_hybridized_model
 import os
 # Third-party
 import torch
+# Local
+from model_architectures.procedures.model_data_scaling import set_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -93,7 +95,8 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set hybridized model data scalers
     if data_scalers is not None:
-        if hasattr(model_class, 'set_data_scalers'):
+        if (hasattr(model_class, 'set_data_scalers')
+                or hasattr(hyb_model, '_data_scalers')):
             # Check data scalers
             if isinstance(data_scalers, dict):
                 # Check data scaler for input features
@@ -107,8 +110,12 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
                 else:
                     scaler_features_out = None
                 # Set hybridized model data scalers
-                hyb_model.set_data_scalers(scaler_features_in,
-                                           scaler_features_out)
+                if hasattr(model_class, 'set_data_scalers'):
+                    hyb_model.set_data_scalers(scaler_features_in,
+                                               scaler_features_out)
+                else:
+                    set_data_scalers(hyb_model, scaler_features_in,
+                                     scaler_features_out)
             else:
                 raise RuntimeError('Hybridized model data scalers must be '
                                    'provided as dictionary.') 
-- 
2.43.0


From 339aeb9c3880d5540fdf0807779a27c6316d4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:33 +0000
Subject: [PATCH 29/92] fix: recurrent model with vectorized state update
 returns strain state features

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..d5f80ac 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1519,7 +1519,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 959f7c52079cca883e34d2cb562004db550405af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:08 +0000
Subject: [PATCH 30/92] fix: convexity constraint with a single learnable Lou
 yield parameter

---
 .../rc_base_model/model/recurrent_model.py    |  7 +++--
 .../fetorch/material/models/standard/lou.py   | 28 +++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index d5f80ac..9af4512 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -868,8 +868,11 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             'yield_d_s0', yield_d_s0, mode='denormalize')
                 # Perform convexity return-mapping
                 is_convex, yield_c_s0, yield_d_s0 = \
-                    LouZhangYoon.convexity_return_mapping(yield_c_s0,
-                                                          yield_d_s0)
+                    LouZhangYoon.convexity_return_mapping(
+                        torch.as_tensor(yield_c_s0, device=self._device),
+                        torch.as_tensor(yield_d_s0, device=self._device),
+                        is_fixed_c=not is_learnable_yield_c,
+                        is_fixed_d=not is_learnable_yield_d)
                 # Update yielding parameters
                 if not is_convex:
                     # Normalize yielding parameters
diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 6e9afe5..01d18c8 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -1563,7 +1563,8 @@ class LouZhangYoon(ConstitutiveModel):
             print()
     # -------------------------------------------------------------------------
     @classmethod
-    def convexity_return_mapping(cls, yield_c, yield_d):
+    def convexity_return_mapping(cls, yield_c, yield_d, is_fixed_c=False,
+                                 is_fixed_d=False):
         """Perform convexity return-mapping.
         
         For a given set (c, d), the convexity return-mapping works as follows:
@@ -1574,6 +1575,8 @@ class LouZhangYoon(ConstitutiveModel):
         (2) If the yield parameters (c, d) lie outside the convexity domain
             (yield surface is not convex), then they are updated to the
             convexity domain boundary point along the same angular direction.
+            If one of the yield parameters is fixed, then only the other one is
+            updated (towards zero) to the convexity domain boundary.
 
         Parameters
         ----------
@@ -1581,6 +1584,10 @@ class LouZhangYoon(ConstitutiveModel):
             Yield parameter.
         yield_d : torch.Tensor(0d)
             Yield parameter.
+        is_fixed_c : bool, default=False
+            If True, then yield parameter c is kept unchanged.
+        is_fixed_d : bool, default=False
+            If True, then yield parameter d is kept unchanged.
 
         Returns
         -------
@@ -1595,7 +1602,24 @@ class LouZhangYoon(ConstitutiveModel):
         is_convex = cls.check_yield_surface_convexity(yield_c, yield_d)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Perform convexity return-mapping
-        if not is_convex:
+        if not is_convex and (is_fixed_c or is_fixed_d):
+            # Initialize scaling factor searching window
+            lower, upper = 0.0, 1.0
+            # Search convexity boundary point keeping fixed yield parameter
+            while upper - lower > 1e-6:
+                # Set searching window mean point
+                mean = (upper + lower)/2
+                # Check yield surface convexity
+                if cls.check_yield_surface_convexity(
+                        yield_c if is_fixed_c else mean*yield_c,
+                        yield_d if is_fixed_d else mean*yield_d):
+                    lower = mean
+                else:
+                    upper = mean
+            # Set convexity boundary point
+            yield_c = yield_c if is_fixed_c else lower*yield_c
+            yield_d = yield_d if is_fixed_d else lower*yield_d
+        elif not is_convex:
             # Compute angular direction
             theta = torch.atan2(yield_d, yield_c)
             # Compute convexity boundary point
-- 
2.43.0


From 9e2815aeccb91318cff24e55b37f294061b5b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 31/92] fix: normalized output of non-normalized learnable
 parameters

---
 .../rc_base_model/model/recurrent_model.py                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 9af4512..5f93153 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -517,9 +517,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                 self._model_parameters_bounds[param] = param_dict['bounds']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set normalization bounds
+            self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
+            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             if self.is_normalized_parameters:
-                # Set lower and upper bounds
-                self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
                 # Normalize initial value
                 init_val = self.transform_parameter(param, init_val,
                                                     mode='normalize')
-- 
2.43.0


From 85502e2b80bbe4179f361388c4d86821c1e85bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:48 +0000
Subject: [PATCH 32/92] fix: force normalization offset does not enter the
 force equilibrium loss

---
 .../model/material_discovery.py                | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..265a2f9 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1480,12 +1480,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize internal forces
             internal_forces_mesh = data_scaler_transform(self,
                 internal_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize total (external and reaction) forces
+            total_forces_mesh = data_scaler_transform(self,
+                external_forces_mesh + reaction_forces_mesh,
+                features_type='forces', mode='normalize')
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize reaction forces (free of normalization offset)
+            reaction_forces_mesh = total_forces_mesh - external_forces_mesh
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2719,12 +2722,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize internal forces
             internal_forces_mesh = data_scaler_transform(self,
                 internal_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize total (external and reaction) forces
+            total_forces_mesh = data_scaler_transform(self,
+                external_forces_mesh + reaction_forces_mesh,
+                features_type='forces', mode='normalize')
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize reaction forces (free of normalization offset)
+            reaction_forces_mesh = total_forces_mesh - external_forces_mesh
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From 705b83325cc0a299e07131bb6e11381030a105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:12 +0000
Subject: [PATCH 33/92] fix: stored force equilibrium loss history is
 normalized as the loss

---
 .../model/material_discovery.py               | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 265a2f9..fba9ccf 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2866,21 +2866,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2897,6 +2882,24 @@ class MaterialModelFinder(torch.nn.Module):
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+            # Normalize forces
+            if self._is_force_normalization:
+                # Normalize internal forces
+                internal_forces_mesh = data_scaler_transform(
+                    self, internal_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize total (external and reaction) forces
+                total_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh + reaction_forces_mesh,
+                    features_type='forces', mode='normalize')
+                # Normalize external forces
+                external_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize reaction forces (free of normalization offset)
+                reaction_forces_mesh = \
+                    total_forces_mesh - external_forces_mesh
+            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
                 # Force equilibrium strictly based on pointwise internal,
-- 
2.43.0


From a8eae88e8792f526b3094366c3b4bca2b4318430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:32 +0000
Subject: [PATCH 34/92] fix: Dirichlet sets loss of a specimen without free
 degrees of freedom

---
 .../model/material_discovery.py                   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index fba9ccf..bf4bc25 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2748,8 +2748,9 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
             dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-            # Get unique set labels
-            unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+            # Get unique set labels (including non-Dirichlet label)
+            unique_labels = torch.unique(torch.nn.functional.pad(
+                dirichlet_bc_mesh_flat, (1, 0)))
             # Set contiguous set labels
             dense_indices = \
                 torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
@@ -2921,8 +2922,9 @@ class MaterialModelFinder(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
                 dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-                # Get unique set labels
-                unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+                # Get unique set labels (including non-Dirichlet label)
+                unique_labels = torch.unique(torch.nn.functional.pad(
+                    dirichlet_bc_mesh_flat, (1, 0)))
                 # Set contiguous set labels
                 dense_indices = \
                     torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
@@ -3243,8 +3245,9 @@ class MaterialModelFinder(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Flatten mesh sets
         dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-        # Get unique set labels
-        unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+        # Get unique set labels (including non-Dirichlet label)
+        unique_labels = torch.unique(torch.nn.functional.pad(
+            dirichlet_bc_mesh_flat, (1, 0)))
         # Set contiguous set labels
         dense_indices = \
             torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
-- 
2.43.0


From 1210553e8ad5a099508506ce11bd34410b900c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:41 +0000
Subject: [PATCH 35/92] fix: vectorized forward propagation refuses different
 materials of the same type

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index bf4bc25..a029d25 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1717,7 +1717,7 @@ class MaterialModelFinder(torch.nn.Module):
         # Get elements material
         elements_material = specimen_material_state.get_elements_material()
         # Get element constitutive material model
-        if specimen_material_state.get_n_element_material_type() > 1:
+        if len({id(x) for x in elements_material.values()}) > 1:
             raise RuntimeError('Vectorized forward propagation requires that '
                                'all the elements share the same material.')  
         else:
-- 
2.43.0


From 36835387b8cbaf1ac05c57b2d6801cd769cd55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:08 +0000
Subject: [PATCH 36/92] fix: element-wise evaluation scales the features of
 normalized material models

---
 .../model/material_discovery.py                   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index a029d25..f3909d6 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1411,11 +1411,24 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        model_features_in = features_in
+        if self.check_model_in_normalized(constitutive_model):
+            # Normalize input features
+            model_features_in = data_scaler_transform(constitutive_model,
+                features_in, 'features_in', mode='normalize')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            # Denormalize output features
+            features_out = data_scaler_transform(constitutive_model,
+                features_out, 'features_out', mode='denormalize')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
             # Build and store strain and stress tensors
-- 
2.43.0


From 610505c2a080e1a0dd06d627f74fa2ca1eb0614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:16 +0000
Subject: [PATCH 37/92] fix: local strain paths of normalized material models
 are stored in physical units

---
 .../material_model_finder/model/material_discovery.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index f3909d6..557c1da 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2517,13 +2517,14 @@ class MaterialModelFinder(torch.nn.Module):
         features_in = torch.stack(features_in_data, dim=0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize input features tensor
+        model_features_in = features_in
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            model_features_in = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 8d804521e0805b624963c2379fa0d9040fb7e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:38 +0000
Subject: [PATCH 38/92] fix: elements with different quadratures are different
 element types

---
 src/hookeai/simulators/fetorch/structure/structure_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_mesh.py b/src/hookeai/simulators/fetorch/structure/structure_mesh.py
index 4160a8b..994d389 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_mesh.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_mesh.py
@@ -202,7 +202,8 @@ class StructureMesh:
         n_element_type : int
             Number of element types of finite element mesh.
         """
-        return len({type(x) for x in self._elements_type.values()})
+        return len({(type(x), x.get_n_gauss())
+                    for x in self._elements_type.values()})
     # -------------------------------------------------------------------------
     def get_connectivities(self):
         """Get finite element mesh elements connectivities.
-- 
2.43.0


From 8b0be5f809b26fda9ec50e1d237efef0f1031bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:43 +0000
Subject: [PATCH 39/92] fix: model state files are identified by their exact
 name

The model name was used as an unescaped and open ended pattern, such that
state files of other models were removed or misread, and a best state saved
without training epoch could not be loaded or replaced.
---
 .../procedures/model_state_files.py               | 15 ++++++++-------
 .../procedures/model_training.py                  | 10 +++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..b6a93be 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -293,8 +293,8 @@ def check_state_file(model, filename):
         is_state_file=True, None otherwise.
     """
     # Check if file is model epoch state file
-    is_state_file = bool(re.search(r'^' + model.model_name + r'-[0-9]+'
-                                   + r'\.pt', filename))
+    is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'-[0-9]+' + r'\.pt$', filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_state_file:
@@ -327,14 +327,15 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                        filename))
+    best_state_match = re.search(r'^' + re.escape(model.model_name)
+                                 + r'(-[0-9]+)?' + r'-best' + r'\.pt$',
+                                 filename)
+    is_best_state_file = bool(best_state_match)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and best_state_match.group(1) is not None:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        epoch = int(best_state_match.group(1)[1:])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c3ac12..031ef14 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -115,9 +115,9 @@ def save_training_state(model, optimizer, state_type, epoch=None,
             for filename in directory_list:
                 # Check if file is optimizer epoch best state file
                 is_best_state_file = \
-                    bool(re.search(r'^' + model.model_name + r'_optim'
-                                   + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                   filename))
+                    bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'_optim' + r'(-[0-9]+)?' + r'-best'
+                                   + r'\.pt$', filename))
                 # Delete state file
                 if is_best_state_file:
                     os.remove(os.path.join(model.model_directory, filename))
@@ -148,8 +148,8 @@ def remove_posterior_optim_state_files(model, epoch):
     # Loop over files in material patch model directory
     for filename in directory_list:
         # Check if file is optimizer epoch state file
-        is_state_file = bool(re.search(r'^' + model.model_name + r'_optim'
-                             + r'-[0-9]+' + r'\.pt', filename))
+        is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                             + r'_optim' + r'-[0-9]+' + r'\.pt$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state file posterior to given epoch
         if is_state_file:
-- 
2.43.0


From 84c3c11c1f95036b102b1e7500dcd444bd13ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:43 +0000
Subject: [PATCH 40/92] fix: failing to load a model state does not remove
 other states

Posterior state files were removed before checking that the requested state
file exists.
---
 .../procedures/model_state_files.py              | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index b6a93be..59d6138 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -176,20 +176,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -222,10 +214,6 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -269,6 +257,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return epoch
 # =============================================================================
 def check_state_file(model, filename):
-- 
2.43.0


From 82e465b155ecdd783da0a842315634d055ce3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:43 +0000
Subject: [PATCH 41/92] fix: seeded training and prediction data loaders

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..0d8c637 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..e5efff6 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..09fc5fd 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..fa3f833 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..ea4812c 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..bf46cd9 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From 7dbea1fff92809dd1f825007f8a5c31becf73b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:08 +0000
Subject: [PATCH 42/92] fix: early stopping validation of recurrent
 constitutive and hybrid models

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index e5efff6..691b695 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index fa3f833..5427d52 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From e3cdffec4311a42843f4fb85d74b6c6ac93a0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:08 +0000
Subject: [PATCH 43/92] fix: parameters convergence criterion does not override
 early stopping

---
 .../model_architectures/rc_base_model/train/training.py  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 5427d52..7dbeaf0 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -314,6 +314,8 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize validation loss history
     validation_loss_history = None
+    # Initialize training stopping flag
+    is_stop_training = False
     # Initialize early stopping criterion
     if is_early_stopping:
         if is_verbose:
@@ -321,9 +323,6 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize early stopping criterion
         early_stopper = EarlyStopper(**early_stopping_kwargs)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Initialize early stopping flag
-        is_stop_training = False
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Training data set size: {len(dataset)}')
@@ -530,10 +529,12 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
+            # Preserve early stopping criterion
+            is_stop_training = is_stop_training or is_params_converged
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check training process flow
         if epoch >= n_max_epochs:
-- 
2.43.0


From e521c3edf3a7946d3cb3c2f99aeab2d68068872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:08 +0000
Subject: [PATCH 44/92] fix: training for a single epoch

---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 691b695..520e634 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 7dbeaf0..cdd4e30 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -598,7 +598,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index bf46cd9..047f5c6 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From d9252c2ff64f38df489d62059a7c6a3f16c8429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:16 +0000
Subject: [PATCH 45/92] fix: prediction without ground-truth and summary of
 zero loss

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 src/hookeai/model_architectures/procedures/model_prediction.py  | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 0d8c637..daf5f35 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -207,7 +207,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/procedures/model_prediction.py b/src/hookeai/model_architectures/procedures/model_prediction.py
index 0760016..a88aa3f 100644
--- a/src/hookeai/model_architectures/procedures/model_prediction.py
+++ b/src/hookeai/model_architectures/procedures/model_prediction.py
@@ -168,7 +168,7 @@ def write_prediction_summary_file(
         dataset_file_path if dataset_file_path else None
     summary_data['Prediction data set size'] = len(dataset)
     summary_data['Avg. prediction loss per sample'] = \
-        f'{avg_predict_loss:.8e}' if avg_predict_loss else None
+        f'{avg_predict_loss:.8e}' if avg_predict_loss is not None else None
     summary_data['Total prediction time'] = \
         str(datetime.timedelta(seconds=int(total_time_sec)))
     summary_data['Avg. prediction time per sample'] = \
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index 09fc5fd..90c1b02 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -208,7 +208,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index ea4812c..0bc6b55 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -212,7 +212,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 hidden_features_in = None
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
-- 
2.43.0


From 62276e34246339f27a33f9d775fadd4135d012ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:29 +0000
Subject: [PATCH 46/92] fix: k-fold cross-validation of recurrent neural
 network model

---
 .../rnn_base_model/train/cross_validation.py  | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index f9a50da..02a7e17 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -33,9 +33,9 @@ __status__ = 'Beta'
 # =============================================================================
 def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
                            dataset, model_init_args, lr_init,
-                           opt_algorithm='adam', lr_scheduler_type='steplr',
+                           opt_algorithm='adam', lr_scheduler_type=None,
                            lr_scheduler_kwargs={},
-                           loss_nature='node_features_out',
+                           loss_nature='features_out',
                            loss_type='mse', loss_kwargs={}, batch_size=1,
                            is_sampler_shuffle=False,
                            is_early_stopping=False, early_stopping_kwargs={},
@@ -84,13 +84,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
 
     lr_scheduler_kwargs : dict, default={}
         Arguments of torch.optim.lr_scheduler.LRScheduler initializer.
-    loss_nature : {'node_features_out', 'global_features_out'}, \
-                  default='node_features_out'
+    loss_nature : {'features_out',}, default='features_out'
         Loss nature:
         
-        'node_features_out' : Based on node output features
-
-        'global_features_out' : Based on global output features
+        'features_out' : Based on output features
 
     loss_type : {'mse',}, default='mse'
         Loss function type:
@@ -124,10 +121,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
         data_array[i, 0] stores the best training loss and data_array[i, 1]
         stores the average prediction loss per sample.
     """
+    start_time_sec = time.time()
     if is_verbose:
         print('\nRecurrent Neural Network model: k-fold cross-validation'
               '\n-------------------------------------------------------')
-        start_time_sec = time.time()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Check cross-validation directory
     if not os.path.isdir(cross_validation_dir):
@@ -153,10 +150,6 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     folds_training_losses = []
     folds_validation_losses = []
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Get model input and output features normalization
-    is_model_in_normalized = model.is_model_in_normalized
-    is_model_out_normalized = model.is_model_out_normalized
-    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print('\n\n> Starting k-fold cross-validation process...')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -194,6 +187,9 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
             is_early_stopping=is_early_stopping,
             early_stopping_kwargs=early_stopping_kwargs,
             device_type=device_type, seed=None, is_verbose=False)
+        # Get model input and output features normalization
+        is_model_in_normalized = model.is_model_in_normalized
+        is_model_out_normalized = model.is_model_out_normalized
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with recurrent neural network model
         _, avg_valid_loss_sample = predict(
-- 
2.43.0


From 8da697c3fed32301dba9889494481af50f33fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:06 +0000
Subject: [PATCH 47/92] fix: mean relative error loss gradient with null target
 values

With zero_handling='absolute', the relative error branch discarded by
torch.where for null targets still contributed 0*inf to the gradient,
turning all trained parameters into NaN.
---
 src/hookeai/utilities/loss_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/utilities/loss_functions.py b/src/hookeai/utilities/loss_functions.py
index 79b2fca..3665711 100644
--- a/src/hookeai/utilities/loss_functions.py
+++ b/src/hookeai/utilities/loss_functions.py
@@ -130,12 +130,12 @@ class MeanRelativeErrorLoss(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute relative error
         if zero_handling == 'absolute':
+            # Set unit denominator (absolute error) for target values below
+            # minimum threshold, avoiding undefined gradients for null targets
+            denominator = torch.where(target.abs() < small,
+                                      torch.ones_like(target), target.abs())
             # Compute relative error
-            relative_error = absolute_error/target.abs()
-            # Assign absolute error to target values below minimum threshold
-            relative_error = \
-                torch.where(target.abs() < small, absolute_error,
-                            relative_error)
+            relative_error = absolute_error/denominator
         elif zero_handling == 'clip':
             # Clip target values below minimum threshold
             clipped_target = torch.maximum(
-- 
2.43.0


From c58aa5969f7de12699dd1a79cf9c2fc73da72bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 48/92] fix: random strain paths satisfy both strain bounds

---
 .../strain_paths/random_path.py               | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..c5394b0 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,23 +245,20 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
-                    if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
-                    if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                    # Initialize linear scale factor
+                    scale_factor = 1.0
+                    # Account for lower bound
+                    if min_strain < lbound < 0:
+                        scale_factor = min(scale_factor, lbound/min_strain)
+                    # Account for upper bound
+                    if max_strain > ubound > 0:
+                        scale_factor = min(scale_factor, ubound/max_strain)
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
+                    # Enforce null bounds, which cannot be met by scaling
+                    if lbound == 0 or ubound == 0:
+                        strain_comp_hist = \
+                            np.clip(strain_comp_hist, lbound, ubound)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Assemble strain component path
             strain_path_trial[:, j] = strain_comp_hist
-- 
2.43.0


From 174fd74fc0d2c869c39a1df985c5901c7b267973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:50 +0000
Subject: [PATCH 49/92] fix: proportional strain path with prescribed
 incremental norm

---
 .../strain_paths/proportional_path.py         | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/proportional_path.py b/src/hookeai/data_generation/strain_paths/proportional_path.py
index ef542a4..f6d7714 100644
--- a/src/hookeai/data_generation/strain_paths/proportional_path.py
+++ b/src/hookeai/data_generation/strain_paths/proportional_path.py
@@ -168,7 +168,9 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
             strain_path_trial[:, j] = strain_comp_hist
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize strain path
-        strain_path = strain_path_trial[:, :]
+        strain_path = strain_path_trial.copy()
+        # Initialize strain path noise
+        strain_path_noise = np.zeros_like(strain_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over time
         for i in range(1, n_time_forward):
@@ -179,15 +181,19 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
                     raise RuntimeError('Prescribed incremental strain norm '
                                        'must be positive value.')
                 # Get strain tensors
-                strain = StrainPathGenerator.build_strain_tensor(
-                    self._n_dim, strain_path[i, :], strain_comps_order,
+                strain_trial = StrainPathGenerator.build_strain_tensor(
+                    self._n_dim, strain_path_trial[i, :], strain_comps_order,
+                    is_symmetric=self._strain_formulation == 'infinitesimal')
+                strain_trial_old = StrainPathGenerator.build_strain_tensor(
+                    self._n_dim, strain_path_trial[i - 1, :],
+                    strain_comps_order,
                     is_symmetric=self._strain_formulation == 'infinitesimal')
                 strain_old = StrainPathGenerator.build_strain_tensor(
                     self._n_dim, strain_path[i - 1, :], strain_comps_order,
                     is_symmetric=self._strain_formulation == 'infinitesimal')
                 # Compute strain increment
                 if self._strain_formulation == 'infinitesimal':
-                    inc_strain = strain - strain_old
+                    inc_strain = strain_trial - strain_trial_old
                 else:
                     raise RuntimeError('Not implemented.')
                 # Compute strain increment unit vector
@@ -205,11 +211,11 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
                     raise RuntimeError('Prescribed strain noise standard '
                                        'deviation must be non-negative value.')
                 # Sample strain components noise
-                strain_comps_noise = \
+                strain_path_noise[i, :] = \
                     np.random.normal(loc=0.0, scale=strain_noise_std,
-                                        size=len(strain_comps_order))
-                # Add strain components noise
-                strain_path[i, :] += strain_comps_noise
+                                     size=len(strain_comps_order))
+        # Add strain components noise
+        strain_path += strain_path_noise
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Generate cyclic strain loading path
         if is_cyclic_loading:
-- 
2.43.0


From 81882be3c3fc6b416c046f2f0de4d8d1eef84abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:03 +0000
Subject: [PATCH 50/92] fix: error message of incomplete strain tensor
 components

---
 src/hookeai/data_generation/strain_paths/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 3130c53..86e5800 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -137,8 +137,8 @@ class StrainPathGenerator(ABC):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check strain components completeness
         if is_symmetric and len(strain_comp_order) != 0.5*n_dim*(n_dim + 1):
-            raise RuntimeError(f'Expecting {0.5*n_dim(n_dim + 1)} independent '
-                               f'strain components under symmetry, but '
+            raise RuntimeError(f'Expecting {0.5*n_dim*(n_dim + 1)} '
+                               f'independent strain components under symmetry, but '
                                f'{len(strain_comp_order)} were provided.')
         elif not is_symmetric and len(strain_comp_order) != n_dim**2:
             raise RuntimeError(f'Expecting {n_dim**2} independent strain '
-- 
2.43.0


From 84ff0279d7231b33ce53654075fe838c68840bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:03 +0000
Subject: [PATCH 51/92] fix: denoising of time series of any floating-point
 type

---
 src/hookeai/utilities/data_denoisers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..8d28460 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size, dtype=tensor.dtype,
+                            device=tensor.device)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,9 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(
+            coeffs, dtype=tensor.dtype,
+            device=tensor.device).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From 2a64f3a1b98e7a472127cd8782edc25adf54e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:57 +0000
Subject: [PATCH 52/92] fix: deformed patch without rigid body motions

---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From a1866158851ae0939ffa0f2fbcd421e9acd41423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:40 +0000
Subject: [PATCH 53/92] fix: fixed corners of patch edges with zero order
 deformation

---
 src/hookeai/data_generation/spdg/patch_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..36dd335 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -947,15 +947,15 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
-                                # If non-null intersection range, then sample
+                            if min_max >= max_min:
+                                # If non-empty intersection, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
                                 bounds = (max_min, min_max)
                                 disp = np.random.uniform(low=bounds[0],
                                                          high=bounds[1])
                             else:
-                                # If null intersection range, then sample
+                                # If empty intersection, then sample
                                 # random displacement along dimension on each
                                 # range (uniform distribution) and take the
                                 # average value
-- 
2.43.0


From f0b825f6c7036ebc4a0bf582066e9f719b486efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:40 +0000
Subject: [PATCH 54/92] fix: interpolation of displacements of patch faces
 nodes

---
 .../data_generation/spdg/patch_generator.py        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 36dd335..105a37f 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1958,9 +1958,9 @@ class FiniteElementPatchGenerator:
                     n_node_1, n_node_2 = face_nodes.shape
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Loop over face nodes
-                    for j in range(1, n_node_2):
+                    for j in range(1, n_node_2 - 1):
                         # Loop over face nodes
-                        for i in range(1, n_node_1):
+                        for i in range(1, n_node_1 - 1):
                             # Get face node label
                             label = str(face_nodes[i, j])
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -1969,16 +1969,18 @@ class FiniteElementPatchGenerator:
                                 continue
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
+                            w_1 = i/(n_node_1 - 1)
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - w_1)*mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + w_1*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
+                            w_2 = j/(n_node_2 - 1)
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - w_2)*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + w_2*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From 2aaf4d1aa77b0fc0540944ecbfcf4782eb19827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 55/92] fix: Links input data file of nodes with free degrees
 of freedom

---
 src/hookeai/simulators/links/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 57e6790..136eb59 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -622,7 +622,8 @@ class LinksSimulator:
             write_lines += \
                 [' ' + '{:>3s}'.format(str(node)) + ' ' \
                  + ''.join(['{:^1d}'.format(i) for i in code]) \
-                 + ' '.join(['{:16.8e}'.format(val) for val in disp]) + '\n']         
+                 + ' '.join(['{:16.8e}'.format(0.0 if val is None else val)
+                             for val in disp]) + '\n']         
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~       
         # Write Links input data file
         links_file.writelines(write_lines)
-- 
2.43.0


From 56d12568ba9afdb34dffe986d05ef9815897c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 56/92] fix: negative prescribed displacements in specimen
 Dirichlet file

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..4642334 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
-- 
2.43.0


From 26789652a82fa990a312f76243079adc7bf70d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 57/92] fix: specimen reaction nodes under negative prescribed
 displacement

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 4642334..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From c12b3749bef91cd123aee234669532962331e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 58/92] fix: simulation names with special characters in file
 name search

---
 src/hookeai/simulators/links/links.py                         | 4 ++--
 src/hookeai/simulators/links/utilities/links_data_to_adimu.py | 2 +-
 .../simulators/links/utilities/links_nodedata_to_csv.py       | 2 +-
 .../simulators/links/utilities/links_plot_force_disp.py       | 2 +-
 .../global_model_update/material_finder/gen_specimen_data.py  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 136eb59..f2e37d5 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -369,7 +369,7 @@ class LinksSimulator:
             for filename in directory_list:
                 # Check if is node data file
                 is_node_data_file = \
-                    bool(re.search(r'^' + simulation_name + r'(.*)'
+                    bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                    + r'\.nodedata$', filename))
                 if is_node_data_file:
                     # Get node data file time step
@@ -427,7 +427,7 @@ class LinksSimulator:
             for filename in directory_list:
                 # Check if is global data file
                 is_global_data_file = \
-                    bool(re.search(r'^' + simulation_name + r'(.*)'
+                    bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                    + r'\.globaldata$', filename))
                 if is_global_data_file:
                     # Get global data file time step
diff --git a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
index 355de00..387d0b6 100644
--- a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
+++ b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
@@ -423,7 +423,7 @@ def collect_node_data_files_from_links_data(links_output_dir):
     # Loop over files
     for filename in directory_list:
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
+        is_node_data_file = bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                            + r'\.nodedata$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
diff --git a/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py b/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
index ae7e29c..61af555 100644
--- a/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
+++ b/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
@@ -54,7 +54,7 @@ def links_node_output_to_csv(links_output_dir):
     # Loop over files
     for filename in directory_list:
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
+        is_node_data_file = bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                            + r'\.nodedata$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
diff --git a/src/hookeai/simulators/links/utilities/links_plot_force_disp.py b/src/hookeai/simulators/links/utilities/links_plot_force_disp.py
index 42d6b5f..2c96fda 100644
--- a/src/hookeai/simulators/links/utilities/links_plot_force_disp.py
+++ b/src/hookeai/simulators/links/utilities/links_plot_force_disp.py
@@ -91,7 +91,7 @@ if __name__ == '__main__':
     # Loop over files
     for filename in directory_list:    
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
+        is_node_data_file = bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                            + r'\.nodedata$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..fc3c230 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -370,7 +370,7 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv',
+            re.search(r'^' + re.escape(specimen_name) + r'_tstep_[0-9]+' + r'\.csv',
                       filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
-- 
2.43.0


From a18b0e99db9b8497aaabcf1ca15f10013cb127fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 59/92] fix: read non-finite values from mean prediction
 metrics file

---
 src/hookeai/utilities/output_prediction_metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2df140d..c79130e 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -375,9 +375,10 @@ def read_mean_metrics_results_file(file_path, n_sample=None):
             # Collect metric data (assumes values are formatted in scientific
             # notation)
             prefix_pattern = r'^\s*>\s*(\w+):\s*'
+            number_pattern = r'(?:-?(?:inf|nan|\d*\.?\d*(?:e[-+]?\d+)?))'
             number_list_pattern = (r'\[\s*'
-                                   r'((?:-?\d*\.?\d*(?:e[-+]?\d+)'
-                                   r'?(?:\s*,\s*-?\d*\.?\d*(?:e[-+]?\d+)?)*))'
+                                   r'(' + number_pattern
+                                   + r'(?:\s*,\s*' + number_pattern + r')*)'
                                    r'\s*\]')
             metric_data = \
                 re.search(prefix_pattern + number_list_pattern, line)
-- 
2.43.0


From 7788d202b06aac54976d4c13b5390bcd1240a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 60/92] fix: ignore processes not labelled by training data set
 size

---
 src/hookeai/utilities/output_prediction_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index c79130e..1ae1c68 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -480,7 +480,7 @@ def plot_prediction_metrics_convergence(
         # Check if process label is training data set size
         training_size = re.search(r'^n([0-9]+)$', process_label)
         # Store prediction process training data set size
-        if id is not None:
+        if training_size is not None:
             # Get training data set size
             training_size = int(training_size.groups()[0])
             # Store training data set size
-- 
2.43.0


From 8bd7fc69755b800ec4adcae969498348e006700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:40 +0000
Subject: [PATCH 61/92] fix: check pruning testing data set size against its
 minimum

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..b517709 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -710,7 +710,7 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
         step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+    elif len(test_dataset) < n_prun_test_min:
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
-- 
2.43.0


From af665bf6d70ca2a6937fdfe2ee6bffde7864e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:40 +0000
Subject: [PATCH 62/92] fix: save pruning testing data set in its own directory

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index b517709..e464fde 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From c180a9c2ef064ffa3247f7ef516abde352f25b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 63/92] fix: specimen data set generation without saving files

---
 .../global_model_update/material_finder/gen_specimen_data.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index fc3c230..e439fd2 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -134,6 +134,9 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         nodes_disps_mesh_hist, reaction_forces_mesh_hist,
         dirichlet_bc_mesh_hist, time_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize specimen data file paths
+    specimen_data_path = None
+    specimen_material_state_path = None
     # Save specimen data
     if is_save_specimen_data:
         # Set specimen numerical data file path
-- 
2.43.0


From 043e1fb76a016c4968963e480f075cedcf8a1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:49 +0000
Subject: [PATCH 64/92] fix: ignore files whose name only starts as a specimen
 history file

---
 .../global_model_update/material_finder/gen_specimen_data.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index e439fd2..993ea6c 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -373,7 +373,7 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + re.escape(specimen_name) + r'_tstep_[0-9]+' + r'\.csv',
+            re.search(r'^' + re.escape(specimen_name) + r'_tstep_[0-9]+' + r'\.csv$',
                       filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
-- 
2.43.0


From 20db309b63a5e4c2a6f9f9dac725ce2525d8d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 65/92] fix: import of noisy response data set generator

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..d5d3652 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,8 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import \
+    generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 2848b7bd6d6c917f0f6c8d3ae948549cc7fde2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 66/92] fix: heteroscedastic noise of response data set
 (undefined names, normalizer of each path)

---
 .../synthetic_data/gen_noisy_response_dataset.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index d5d3652..3d20b97 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -403,16 +403,19 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order,
+                            is_symmetric=(self._strain_formulation
+                                          == 'infinitesimal'))
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        path_normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        path_normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/path_normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 53825d8be5aa0169ff573215f89566464e6245dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 67/92] fix: ignore unavailable state variables in noisy
 response data set

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 3d20b97..982e172 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -610,7 +610,7 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    state_path.pop(state_var, None)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From d364113c9502244108909656e71cc6f4a9ed3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 68/92] fix: initial strain of denoised path when noise is
 defined in the normalized space

---
 .../synthetic_data/gen_noisy_response_dataset.py           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 982e172..d7bad53 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -428,11 +428,12 @@ class NoisyMaterialResponseDatasetGenerator:
                 strain_noise_path[0, :] = 0.0
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Normalize strain path
+                strain_path = noiseless_strain_path
                 if strain_data_scaler:
-                    noiseless_strain_path = strain_data_scaler.transform(
-                        torch.tensor(noiseless_strain_path)).numpy()
+                    strain_path = strain_data_scaler.transform(
+                        torch.tensor(strain_path)).numpy()
                 # Set noisy strain path
-                strain_path = noiseless_strain_path + strain_noise_path
+                strain_path = strain_path + strain_noise_path
                 # Denormalize strain path
                 if strain_data_scaler:
                     strain_path = strain_data_scaler.inverse_transform(
-- 
2.43.0


From bbd907b8156f69ac7d6314461c421c25fc9a66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 69/92] fix: response data set stored in files from .csv files
 (undefined base name)

---
 .../user_scripts/synthetic_data/gen_response_dataset.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..cdee637 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -577,7 +577,8 @@ class MaterialResponseDatasetGenerator():
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
                                       dataset_directory=None, save_dir=None,
-                                      is_save_fig=False, is_verbose=False):
+                                      is_save_fig=False, is_verbose=False,
+                                      dataset_basename=None):
         """Generate strain-stress path data set from set of .csv files.
         
         Parameters
-- 
2.43.0


From c14f9c2270456f3cf46ad0170070534388295ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 70/92] fix: equivalent strain and stress of plotted response
 path

---
 .../user_scripts/synthetic_data/gen_response_dataset.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index cdee637..83a2558 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1093,9 +1093,9 @@ class MaterialResponseDatasetGenerator():
                 # Compute equivalent strain and stress
                 if strain_formulation == 'infinitesimal':
                     eq_strain[i, 0] = np.sqrt(2.0/3.0)*np.linalg.norm(
-                        strain - (1.0/3.0)*np.trace(strain))
+                        strain - (1.0/3.0)*np.trace(strain)*np.eye(n_dim))
                     eq_stress[i, 0] = np.sqrt(3.0/2.0)*np.linalg.norm(
-                        stress - (1.0/3.0)*np.trace(stress))
+                        stress - (1.0/3.0)*np.trace(stress)*np.eye(n_dim))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store equivalent strain and stress path
             eq_strain_paths.append(eq_strain)
-- 
2.43.0


From af5b51717625748e1f02d9d5c097463612e8fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:52 +0000
Subject: [PATCH 71/92] fix: components of stress state variables in response
 data sets (matricial form coefficients)

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index d7bad53..fc3cdaa 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -615,7 +615,7 @@ class NoisyMaterialResponseDatasetGenerator:
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-                if 'strain_mf' in state_var:
+                if 'strain_mf' in state_var or 'stress_mf' in state_var:
                     # Build strain tensor
                     if self._strain_formulation == 'infinitesimal':
                         strain = get_tensor_from_mf(
diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 83a2558..e383cd3 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -491,7 +491,7 @@ class MaterialResponseDatasetGenerator():
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-                if 'strain_mf' in state_var:
+                if 'strain_mf' in state_var or 'stress_mf' in state_var:
                     # Build strain tensor
                     if self._strain_formulation == 'infinitesimal':
                         strain = get_tensor_from_mf(
-- 
2.43.0


From 26358051594c185790c85bafda406f530cb14636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:32 +0000
Subject: [PATCH 72/92] fix: local paths data set of material patches (missing
 node forces, incompatible force equilibrium loss)

---
 .../material_finder/gen_specimen_local_paths.py  |  8 +++++---
 .../synthetic_data/build_local_paths_dataset.py  | 16 ++++++++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
index ed74588..0feaa0c 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
@@ -40,7 +40,8 @@ __status__ = 'Stable'
 def gen_specimen_local_dataset(specimen_data_path,
                                specimen_material_state_path,
                                model_directory, is_plot_dataset=False,
-                               device_type='cpu', is_verbose=False):
+                               device_type='cpu', is_verbose=False,
+                               force_equilibrium_loss_type='dirichlet_sets'):
     """Generate specimen local strain-stress paths data set.
     
     Parameters
@@ -59,6 +60,9 @@ def gen_specimen_local_dataset(specimen_data_path,
         Type of device on which torch.Tensor is allocated.
     is_verbose : bool, default=False
         If True, enable verbose output.
+    force_equilibrium_loss_type : {'pointwise', 'dirichlet_sets'}, \
+                                  default='dirichlet_sets'
+        Type of force equilibrium loss.
         
     Returns
     -------
@@ -78,8 +82,6 @@ def gen_specimen_local_dataset(specimen_data_path,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set material model finder name
     model_finder_name = 'material_model_finder'
-    # Set force equilibrium loss type
-    force_equilibrium_loss_type = 'dirichlet_sets'
     # Set force normalization
     is_force_normalization = False
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index 8952798..fd460ce 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -46,9 +46,8 @@ from user_scripts.global_model_update.material_finder. \
     gen_specimen_local_paths import gen_specimen_local_dataset
 from user_scripts.synthetic_data.gen_response_dataset import \
     generate_dataset_plots
-from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
-from simulators.links.utilities.links_nodedata_to_csv import \
-    links_node_output_to_csv
+from simulators.links.utilities.links_data_to_adimu import \
+    gen_adimu_data_from_links
 from ioput.iostandard import make_directory
 #
 #                                                          Authorship & Credits
@@ -249,10 +248,10 @@ def gen_patch_formatted_data(patch_data_dir, patch_name):
     links_output_dir = \
         os.path.join(os.path.normpath(simulations_dir), f'{patch_name}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Convert Links input data file to Abaqus input data file    
-    abaqus_inp_file_path = links_dat_to_abaqus_inp(links_input_file_path)
-    # Convert Links node output data files to '.csv' files
-    node_data_csv_dir = links_node_output_to_csv(links_output_dir)
+    # Convert Links input data file to Abaqus input data file and Links node
+    # output data files to '.csv' files
+    abaqus_inp_file_path, node_data_csv_dir = gen_adimu_data_from_links(
+        links_input_file_path, links_output_dir, simulations_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return abaqus_inp_file_path, node_data_csv_dir
 # =============================================================================
@@ -460,7 +459,8 @@ def gen_patch_local_dataset(model_finder_dir, patch_data_path,
     # Generate material patch local strain-stress paths data set
     local_dataset, _ = gen_specimen_local_dataset(
         patch_data_path, patch_material_state_path, model_directory,
-        device_type=device_type, is_verbose=is_verbose)
+        device_type=device_type, is_verbose=is_verbose,
+        force_equilibrium_loss_type='pointwise')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return local_dataset
 # =============================================================================
-- 
2.43.0


From 41ac0d36f0160261c379826adfe938a43722549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:32 +0000
Subject: [PATCH 73/92] fix: material patch analysis directories when patch
 name has special characters

---
 .../user_scripts/synthetic_data/build_local_paths_dataset.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index fd460ce..c9c7b05 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -196,7 +196,7 @@ def get_patch_analysis_dirs(patches_data_dir, patch_name):
     # Get material patches analysis data directories
     for dirname in directory_list:
         # Check if directory is material patch analysis data directory
-        id = re.search(r'^' + f'{patch_name}' + r'_([0-9]+)$', dirname)
+        id = re.search(r'^' + re.escape(patch_name) + r'_([0-9]+)$', dirname)
         # Store material patch analysis data directory
         if id is not None:
             patch_data_dirs.append(
-- 
2.43.0


From 1bd1f463194f0f4ab2284a4b422c95bbe5c4364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:35 +0000
Subject: [PATCH 74/92] fix: hardening slope at first point of piecewise linear
 hardening law (state update non-convergence)

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 7272104..aa5c880 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -277,7 +277,7 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
         hard_slope = (y1 - y0)/(x1 - x0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce null hardening slope when extrapolating
-        lower_mask = torch.relu(acc_p_strain - a[0]).sign()
+        lower_mask = torch.ge(acc_p_strain, a[0])
         upper_mask = torch.relu(a[-1] - acc_p_strain).sign()
         mask = lower_mask*upper_mask
         # Enforce extrapolation masking
-- 
2.43.0


From 85c1b3e6a44fef4fc2eddc30d4f26e95ba9eff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 75/92] fix: check the target directory, not an undefined
 global, when creating a temperature-composition directory

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..b0930bc 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -679,7 +679,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From a86c1b427628ee9cf7984716ac61e4d9acb43a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 76/92] fix: accept the documented default of random strain
 paths only when generating material data

---
 .../user_scripts/complete_pipelines/local_model_update.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index b0930bc..b5af197 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -146,6 +146,8 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
         set_strain_path_generator(strain_formulation, n_dim,
                                   strain_comps_order,
                                   strain_path_type='proportional')
+    # Copy ratio of random strain path samples (avoid changing input argument)
+    rnd_strain_path_ratio = dict(rnd_strain_path_ratio)
     # Set default ratio of random strain path samples for each data set type
     # (remaining samples will be proportional strain path samples)
     for dataset_type in n_sample_type.keys():
@@ -162,7 +164,7 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
                                f'1. Please increase the total number of '
                                f'samples or the ratio of random strain path '
                                f'samples.')
-        if n_prp_sample < 1:
+        if n_prp_sample < 1 and rnd_strain_path_ratio[dataset_type] < 1.0:
             raise RuntimeError(f'Number of proportional strain path samples '
                                f'for data set type "{dataset_type}" is less '
                                f'than 1. Please increase the total number of '
-- 
2.43.0


From ff4a5acbf60bdc31fcd358615415613eeb97ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 77/92] fix: keep close temperatures and compositions in
 different directories

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index b5af197..aaa3909 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -686,7 +686,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set dependencies directory basename
-    dirname = f'T{temperature:.2f}_C{composition:.2f}'
+    dirname = f'T{float(temperature)!r}_C{float(composition)!r}'
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set dependencies directory
     dependencies_dir = os.path.join(os.path.normpath(target_dir), dirname)
-- 
2.43.0


From 130238febe2bb1198c18ebf3dba385ef1e3bdddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 78/92] fix: refuse unknown data set types when assembling
 material data sets

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index aaa3909..fb0d35e 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -460,6 +460,8 @@ def assemble_material_datasets(lmu_dir, strain_formulation, problem_type,
             dataset_dirname = '2_validation_dataset'
         elif dataset_type == 'testing_id':
             dataset_dirname = '5_testing_id_dataset'
+        else:
+            raise RuntimeError(f'Unknown data set type: {dataset_type}')
         # Set data set directory
         dataset_dir = set_dataset_type_dir(
             lmu_dir, dataset_type, dir_basename=dataset_dirname)
-- 
2.43.0


From c01b8cc67d8643a88270d75b99d4eb7d822075be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 79/92] fix: plot only the requested number of model samples

---
 .../hybrid_material_model/uncertainty_quantification.py         | 2 ++
 .../rc_material_model/uncertainty_quantification.py             | 2 ++
 .../rnn_material_model/uncertainty_quantification.py            | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
index c792851..72d3eb6 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
@@ -218,6 +218,8 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
     model_sample_dirs = \
         sorted(model_sample_dirs,
                key=lambda x: int(re.search(r'(\d+)\D*$', x).groups()[-1]))
+    # Keep required number of model samples
+    model_sample_dirs = model_sample_dirs[:n_model_sample]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set prediction types and corresponding labels
     prediction_types = {}
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
index 1571023..a0096c3 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
@@ -223,6 +223,8 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
     model_sample_dirs = \
         sorted(model_sample_dirs,
                key=lambda x: int(re.search(r'(\d+)\D*$', x).groups()[-1]))
+    # Keep required number of model samples
+    model_sample_dirs = model_sample_dirs[:n_model_sample]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot model best parameters uncertainty quantification
     plot_best_parameters_uq(model_sample_dirs, plot_data_dir=plot_data_dir,
diff --git a/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
index 5714ed3..84fea96 100644
--- a/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
@@ -219,6 +219,8 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
     model_sample_dirs = \
         sorted(model_sample_dirs,
                key=lambda x: int(re.search(r'(\d+)\D*$', x).groups()[-1]))
+    # Keep required number of model samples
+    model_sample_dirs = model_sample_dirs[:n_model_sample]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set prediction types and corresponding labels
     prediction_types = {}
-- 
2.43.0


From a67195bd57b8c8534ed6bace2b0a0cba379e97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:21 +0000
Subject: [PATCH 80/92] fix: import prediction processing from this package in
 the RC material model prediction script

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


From 9c0117dc55362ce81ebf8d47e152c3ef735057c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:33 +0000
Subject: [PATCH 81/92] fix: show the data set labels in histogram legends

---
 src/hookeai/ioput/plots.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/plots.py b/src/hookeai/ioput/plots.py
index 101a42d..8d601d1 100644
--- a/src/hookeai/ioput/plots.py
+++ b/src/hookeai/ioput/plots.py
@@ -2092,9 +2092,15 @@ def plot_histogram(data, data_labels=None, bins=None, bins_range=None,
         axes.grid(which='minor', axis=axis_option[xy_scale], linestyle='-',
                   linewidth=0.5, color='0.5', zorder=-20)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Set histogram labels
+    if all([x is None for x in data_labels]):
+        hist_labels = None
+    else:
+        hist_labels = [tex_str(x, is_latex) for x in data_labels]
     # Plot histogram
     bins_vals, bins_edges, _ = axes.hist(data, bins=bins, range=bins_range,
-                                         density=density, zorder=10)
+                                         density=density, label=hist_labels,
+                                         zorder=10)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set legend
     if not all([x is None for x in data_labels]):
-- 
2.43.0


From 86bc7f4d9fd3e44b0999541cfa2ad59fe7e21310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 82/92] fix: use the requested colormap in surface plots

---
 src/hookeai/ioput/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/plots.py b/src/hookeai/ioput/plots.py
index 8d601d1..d543af2 100644
--- a/src/hookeai/ioput/plots.py
+++ b/src/hookeai/ioput/plots.py
@@ -1001,7 +1001,7 @@ def plot_surface_xyz_data(x_mesh, y_mesh, z_mesh, colormap='viridis',
               color='0.5', zorder=-20)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot surface data
-    axes.plot_surface(x_mesh, y_mesh, z_mesh, cmap='viridis',
+    axes.plot_surface(x_mesh, y_mesh, z_mesh, cmap=colormap,
                       edgecolor='k', linewidth=0.5, shade=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Overlay mesh grid points
-- 
2.43.0


From b37c2249d901a1d6d7eb83d8a7fd66f75c1bc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 83/92] fix: scatter the data points when no error bars are
 requested

---
 src/hookeai/ioput/plots.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hookeai/ioput/plots.py b/src/hookeai/ioput/plots.py
index d543af2..2f49918 100644
--- a/src/hookeai/ioput/plots.py
+++ b/src/hookeai/ioput/plots.py
@@ -1573,6 +1573,11 @@ def scatter_xny_data(
                               ecolor='k', elinewidth=1.0, capsize=2,
                               linestyle='-',
                               label=tex_str(data_labels[i], is_latex))
+        else:
+            # Plot all data points
+            x = np.repeat(data_xy[:, [0]], data_xy.shape[1] - 1, axis=1)
+            axes.scatter(x, data_xy[:, 1:], s=10, edgecolor='k', linewidth=0.5,
+                         label=tex_str(data_labels[i], is_latex), zorder=10)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits
     axes.set_xlim(x_lims)
-- 
2.43.0


From aed652c500f1e06add120eb4b78496f0a18e3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:34 +0000
Subject: [PATCH 84/92] fix: normalize time series predictions of different
 lengths

---
 .../model_architectures/procedures/model_prediction.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_prediction.py b/src/hookeai/model_architectures/procedures/model_prediction.py
index a88aa3f..23657e2 100644
--- a/src/hookeai/model_architectures/procedures/model_prediction.py
+++ b/src/hookeai/model_architectures/procedures/model_prediction.py
@@ -285,17 +285,17 @@ def plot_time_series_prediction(prediction_sets, is_reference_data=False,
         # Normalize prediction data
         if is_normalize_data:
             # Get minimum and maximum prediction values
-            min_pred = np.min(data_xy[:, 1::2])
-            max_pred = np.max(data_xy[:, 1::2])
+            min_pred = min([x[:, 1].min() for x in prediction_sets.values()])
+            max_pred = max([x[:, 1].max() for x in prediction_sets.values()])
             # Normalize data array
-            for i in range(n_processes):
+            for i, val in enumerate(prediction_sets.values()):
                 # Get prediction process sequence length
                 n_time = val.shape[0]
                 # Normalize time
                 data_xy[:n_time, 2*i] = np.linspace(0, 1.0, num=n_time)
                 # Normalize predictions
                 data_xy[:n_time, 2*i+1] = \
-                    (data_xy[:, 2*i+1] - min_pred)/(max_pred - min_pred)
+                    (val[:, 1] - min_pred)/(max_pred - min_pred)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits
     if is_normalize_data:
-- 
2.43.0


From fdce5ad66fb100e0445dbc16c913b12eb049f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 85/92] fix: plot stress space metrics of paths of different
 lengths

---
 .../synthetic_data/gen_response_dataset.py     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index e383cd3..f8c2cda 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1239,7 +1239,7 @@ class MaterialResponseDatasetGenerator():
         # Compute stress invariants
         for k in range(n_path):
             # Initialize principal stresses
-            stress_eigen = np.zeros((n_time_max, n_dim))
+            stress_eigen = np.zeros((len(time_hist[k]), n_dim))
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get stress tensor
@@ -1303,7 +1303,7 @@ class MaterialResponseDatasetGenerator():
                     stress_paths_principal[k][:, np.random.permutation(3)]
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Initialize stresses in pi-stress space
-                stress_pi = np.zeros((n_time_max, n_dim))
+                stress_pi = np.zeros((len(time_hist[k]), n_dim))
                 # Loop over discrete time
                 for i in range(len(time_hist[k])):
                     # Get principal stresses
@@ -1352,8 +1352,8 @@ class MaterialResponseDatasetGenerator():
         # Compute stress invariants
         for k in range(n_path):
             # Initialize stress invariants
-            stress_invar = np.zeros((n_time_max, 3))
-            stress_invar_dev = np.zeros((n_time_max, 3))
+            stress_invar = np.zeros((len(time_hist[k]), 3))
+            stress_invar_dev = np.zeros((len(time_hist[k]), 3))
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get stress tensor
@@ -1414,8 +1414,8 @@ class MaterialResponseDatasetGenerator():
         # Compute triaxiality and Lode parameter
         for k in range(n_path):
             # Initialize stress invariants
-            stress_triax = np.zeros((n_time_max, 1))
-            stress_lode = np.zeros((n_time_max, 1))
+            stress_triax = np.zeros((len(time_hist[k]), 1))
+            stress_lode = np.zeros((len(time_hist[k]), 1))
             # Get stress path stress invariants
             stress_invar = stress_paths_invar[k]
             stress_invar_dev = stress_paths_invar_dev[k]
@@ -1440,7 +1440,8 @@ class MaterialResponseDatasetGenerator():
         # Plot stress triaxiality and Lode parameter paths
         if is_plot_stress_path_triax_lode:
             # Set stress triaxiality data array
-            triax_data_xy = np.zeros((n_time_max, 2*n_path))
+            triax_data_xy = np.full((n_time_max, 2*n_path),
+                                    fill_value=np.nan)
             for k in range(n_path):
                 triax_data_xy[:len(time_hist[k]), 2*k] = time_hist[k]
                 triax_data_xy[:len(time_hist[k]), 2*k+1] = \
@@ -1458,7 +1459,8 @@ class MaterialResponseDatasetGenerator():
                             save_dir=save_dir)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set stress Lode parameter data array
-            lode_data_xy = np.zeros((n_time_max, 2*n_path))
+            lode_data_xy = np.full((n_time_max, 2*n_path),
+                                   fill_value=np.nan)
             for k in range(n_path):
                 lode_data_xy[:len(time_hist[k]), 2*k] = time_hist[k]
                 lode_data_xy[:len(time_hist[k]), 2*k+1] = \
-- 
2.43.0


From df34897981810b3a61c9d72a05565e1cd78cbafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 86/92] fix: plot strain paths of different lengths

---
 src/hookeai/data_generation/strain_paths/interface.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 86e5800..7c2f64c 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -275,7 +275,7 @@ class StrainPathGenerator(ABC):
             for k in range(min(n_path, 5)):
                 # Set strain data array
                 strain_data_xy = \
-                    np.zeros((n_time_max, 2*len(strain_comps_order)))
+                    np.zeros((len(time_hist[k]), 2*len(strain_comps_order)))
                 for j in range(len(strain_comps_order)):
                     strain_data_xy[:, 2*j] = time_hist[k].reshape(-1)
                     strain_data_xy[:, 2*j+1] = strain_path[k][:, j]
@@ -409,9 +409,12 @@ class StrainPathGenerator(ABC):
         # Plot strain increment norm (path and distribution)
         if (is_plot_inc_strain_norm or is_plot_inc_strain_norm_hist):
             # Initialize strain increment norm data array
-            inc_strain_norm_data_xy = np.zeros((n_time_max, 2*n_path))
+            inc_strain_norm_data_xy = np.full((n_time_max, 2*n_path),
+                                              fill_value=np.nan)
             # Loop over strain paths
             for k in range(n_path):     
+                # Set initial time step (no increment)
+                inc_strain_norm_data_xy[0, 2*k:2*k+2] = (time_hist[k][0], 0.0)
                 # Loop over time steps
                 for i in range(1, len(time_hist[k])):
                     # Assemble discrete time history
-- 
2.43.0


From be799f3d1a9684a3a0b0222af7403cb0684232eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 87/92] fix: plot the history of every optimization process

---
 .../optimization/hydra_optimization_plots.py              | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
index f4f6899..0c76826 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
@@ -201,9 +201,9 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
         # Assemble optimization process history to data array
         data_xy[:n_jobs, 2*i] = tuple([*range(0, n_jobs)])
         if is_log_metric:
-            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(metric_hist))
+            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(data_hist))
         else:
-            data_xy[:n_jobs, 2*i + 1] = tuple(metric_hist)
+            data_xy[:n_jobs, 2*i + 1] = tuple(data_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits and scale
     x_lims = (0, max_n_jobs)
@@ -231,6 +231,10 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
     data_min_xy = np.copy(data_xy)
     data_min = data_xy[0, 1]
     for i in range(data_min_xy.shape[0]):
+        # Stop at the last job of the process
+        if data_xy[i, 1] is None:
+            break
+        # Update best metric
         if data_xy[i, 1] < data_min:
             data_min = data_xy[i, 1]
         data_min_xy[i, 1] = data_min
-- 
2.43.0


From 50daae12d05298f5a5aadfd236f2afcd4ccad568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 88/92] fix: plot model parameters of integer temperatures
 without truncation

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index fb0d35e..a96eb8e 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -984,7 +984,7 @@ def plot_model_parameters(model_name, temperatures=[], compositions=[],
         # Loop over plotting parameters
         for param, param_label in plotting_params.items():
             # Initialize parameter meshgrid
-            p_mesh = np.zeros_like(t_mesh)
+            p_mesh = np.zeros_like(t_mesh, dtype=float)
             # Loop over temperature and composition values
             for i, temperature in enumerate(temperatures):
                 for j, composition in enumerate(compositions):
-- 
2.43.0


From 03974c9c80d7c0132a33565c8aa472235a258e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 89/92] fix: direct loss estimator error bounds (collinear
 features, fit of rounding noise)

---
 src/hookeai/ioput/plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/ioput/plots.py b/src/hookeai/ioput/plots.py
index 2f49918..53baff7 100644
--- a/src/hookeai/ioput/plots.py
+++ b/src/hookeai/ioput/plots.py
@@ -1315,8 +1315,10 @@ def scatter_xy_data(data_xy, data_labels=None, is_identity_line=False,
         # Compute absolute error between predicted data and monitored model
         # predictions
         abs_error = abs(pred_data - pred_data_monitored)
-        # Build input features and targets to predict absolute error
-        features_matrix = np.hstack((ref_data, pred_data_monitored))
+        # Build input features and targets to predict absolute error (monitored
+        # model predictions are a linear function of reference data, hence
+        # collinear and not included to avoid ill-conditioned fit)
+        features_matrix = ref_data
         targets_matrix = abs_error.reshape(-1, 1)
         # Fit linear regression model (predict absolute error)
         abs_error_model = sklearn.linear_model.LinearRegression()
-- 
2.43.0


From 2995232ca04bed584a0048057cf7627355e11969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:36 +0000
Subject: [PATCH 90/92] fix: prediction and uncertainty plots of test sets with
 fewer than five samples

---
 .../hybrid_material_model/predict.py             |  9 +++++++--
 .../uncertainty_quantification.py                | 13 ++++++++++++-
 .../rc_material_model/predict.py                 |  9 +++++++--
 .../uncertainty_quantification.py                | 16 +++++++++++++++-
 .../uncertainty_quantification.py                | 13 ++++++++++++-
 5 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
index 669aa00..ab6aafb 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
@@ -211,8 +211,13 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     if not os.path.isdir(plot_dir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Load testing data set
+    testing_dataset = load_dataset(dataset_file_path)
+    # Get testing data set size
+    n_sample = len(testing_dataset)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    probe_response_path = testing_dataset[0]
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -255,7 +260,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # Set plot reference prediction data
         is_reference_data = False
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
index 72d3eb6..ffffd60 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
@@ -248,8 +248,19 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
                             is_stdout_display=is_stdout_display,
                             is_latex=is_latex)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Get testing data set file path
+    regex = (r'^ss_paths_dataset_n[0-9]+.pkl$',)
+    is_file_found, test_dataset_file_path = \
+        find_unique_file_with_regex(testing_dataset_dir, regex)
+    # Check testing data set file
+    if not is_file_found:
+        raise RuntimeError(f'Testing data set file has not been found '
+                           f'in data set directory:\n\n'
+                           f'{testing_dataset_dir}')
+    # Get testing data set size
+    n_sample = len(load_dataset(test_dataset_file_path))
     # Set samples for which time series data is plotted
-    samples_ids = list(np.arange(5, dtype=int))
+    samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot time series model uncertainty quantification
     plot_time_series_uq(model_sample_dirs, sample_testing_dirs,
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 5b83ff4..fccb7a3 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -165,8 +165,13 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     if not os.path.isdir(plot_dir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Load testing data set
+    testing_dataset = load_dataset(dataset_file_path)
+    # Get testing data set size
+    n_sample = len(testing_dataset)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    probe_response_path = testing_dataset[0]
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -210,7 +215,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
         # Build times series predictions data arrays
         prediction_data_dicts = build_time_series_predictions_data(
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
index a0096c3..30dfa69 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
@@ -261,10 +261,24 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
                             is_stdout_display=is_stdout_display,
                             is_latex=is_latex)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Get testing data set file path
+    regex = (r'^ss_paths_dataset_n[0-9]+.pkl$',)
+    is_file_found, test_dataset_file_path = \
+        find_unique_file_with_regex(testing_dataset_dir, regex)
+    # Check testing data set file
+    if not is_file_found:
+        raise RuntimeError(f'Testing data set file has not been found '
+                           f'in data set directory:\n\n'
+                           f'{testing_dataset_dir}')
+    # Get testing data set size
+    n_sample = len(load_dataset(test_dataset_file_path))
+    # Set samples for which time series data is plotted
+    samples_ids = list(np.arange(np.min((3, n_sample)), dtype=int))
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot time series model uncertainty quantification
     plot_time_series_uq(model_sample_dirs, sample_testing_dirs,
                         sample_prediction_dirs, prediction_types,
-                        samples_ids=list(np.arange(3, dtype=int)),
+                        samples_ids=samples_ids,
                         filename=filename + '_prediction',
                         save_dir=plots_dir, is_save_fig=is_save_fig,
                         is_stdout_display=is_stdout_display,
diff --git a/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
index 84fea96..5267759 100644
--- a/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
@@ -250,8 +250,19 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
                             is_stdout_display=is_stdout_display,
                             is_latex=is_latex)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Get testing data set file path
+    regex = (r'^ss_paths_dataset_n[0-9]+.pkl$',)
+    is_file_found, test_dataset_file_path = \
+        find_unique_file_with_regex(testing_dataset_dir, regex)
+    # Check testing data set file
+    if not is_file_found:
+        raise RuntimeError(f'Testing data set file has not been found '
+                           f'in data set directory:\n\n'
+                           f'{testing_dataset_dir}')
+    # Get testing data set size
+    n_sample = len(load_dataset(test_dataset_file_path))
     # Set samples for which time series data is plotted
-    samples_ids = list(np.arange(5, dtype=int))
+    samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot time series model uncertainty quantification
     plot_time_series_uq(model_sample_dirs, sample_testing_dirs,
-- 
2.43.0


From 95ed603e4c392dd7ce93adab928fc890afb01730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:36 +0000
Subject: [PATCH 91/92] fix: material finder training script passes loss time
 weights that are applied

---
 .../global_model_update/material_finder/train_model.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py b/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py
index e57b365..0abf942 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/train_model.py
@@ -125,7 +125,8 @@ def perform_model_standard_training(specimen_data_path,
     is_loss_time_weights = True
     # Set loss time weights
     if is_loss_time_weights:
-        loss_time_weights = 201*[0.005,]
+        loss_time_weights = torch.full((len(specimen_data.time_hist),), 0.005,
+                                       device=device_type)
     else:
         loss_time_weights = None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 3f51bc3069c0b8897ebced52404c9df68ae72db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:36 +0000
Subject: [PATCH 92/92] fix: Dirichlet sets loss of imported (strided) specimen
 data

---
 .../model/material_discovery.py               | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 557c1da..d9280e5 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2756,12 +2756,12 @@ class MaterialModelFinder(torch.nn.Module):
                                          reaction_forces_mesh, 0.0))**2)
         elif self._force_equilibrium_loss_type == 'dirichlet_sets':
             # Flatten mesh data
-            internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-            external_forces_mesh_flat = external_forces_mesh.view(-1)
-            reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+            internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+            external_forces_mesh_flat = external_forces_mesh.reshape(-1)
+            reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
-            dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+            dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
             # Get unique set labels (including non-Dirichlet label)
             unique_labels = torch.unique(torch.nn.functional.pad(
                 dirichlet_bc_mesh_flat, (1, 0)))
@@ -2930,12 +2930,12 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             elif self._force_equilibrium_loss_type == 'dirichlet_sets':
                 # Flatten mesh data
-                internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-                external_forces_mesh_flat = external_forces_mesh.view(-1)
-                reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+                internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+                external_forces_mesh_flat = external_forces_mesh.reshape(-1)
+                reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
-                dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+                dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
                 # Get unique set labels (including non-Dirichlet label)
                 unique_labels = torch.unique(torch.nn.functional.pad(
                     dirichlet_bc_mesh_flat, (1, 0)))
@@ -3254,11 +3254,11 @@ class MaterialModelFinder(torch.nn.Module):
             dimension.
         """
         # Flatten mesh data
-        internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-        external_forces_mesh_flat = external_forces_mesh.view(-1)
+        internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+        external_forces_mesh_flat = external_forces_mesh.reshape(-1)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Flatten mesh sets
-        dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+        dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
         # Get unique set labels (including non-Dirichlet label)
         unique_labels = torch.unique(torch.nn.functional.pad(
             dirichlet_bc_mesh_flat, (1, 0)))
-- 
2.43.0

