From cdf62d5c6c51b1acef126bbe77db7f05245615ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 01/62] fix: unterminated f-string in the GYRE lambda helper
 made the package unimportable

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 33fb0144ebf5ae18d754da5724861cd99fec42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/62] fix: pairing functions could not be inverted and lost
 precision for large integers

---
 .../pairing_functions/cantor_pairing.py          | 16 ++++++++--------
 .../pairing_functions/symmetric_pairing.py       | 14 +++++++-------
 py-combinations/pairing_functions/xie_pairing.py | 12 ++++++------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/py-combinations/pairing_functions/cantor_pairing.py b/py-combinations/pairing_functions/cantor_pairing.py
index 11c5d77..c41a9f5 100644
--- a/py-combinations/pairing_functions/cantor_pairing.py
+++ b/py-combinations/pairing_functions/cantor_pairing.py
@@ -3,7 +3,7 @@
 Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
-from math import floor
+from math import isqrt
 import numpy as np
 
 
@@ -24,11 +24,11 @@ def cantor_pair(my_pair, lowest_integer=0):
         The paired/mapped integer.
     """
     # adjust the mapping pair: subtract the lowest integer considered
-    mapping_pair = my_pair - lowest_integer
+    mapping_pair = np.array(my_pair) - lowest_integer
     # compute the sum of the mapping integer pair
-    int_sum = mapping_pair.sum()
+    int_sum = int(mapping_pair.sum())
     # compute and return the paired/mapped integer
-    return int((int_sum * (int_sum + 1)) / 2) + mapping_pair[1]
+    return (int_sum * (int_sum + 1)) // 2 + int(mapping_pair[1])
 
 
 # inverse of the Cantor pairing function
@@ -49,9 +49,9 @@ def invert_cantor_pair(cantor_integer, lowest_integer=0):
     """
     # For a tuple (x,y), w = x + y, t = (w^2 + w) / 2, cantor_integer = t + y
     # - intermediate variable definitions
-    _w = floor(0.5 * np.sqrt(8.0 * cantor_integer + 1.0) - 0.5)
-    _t = int(((_w * _w) + _w) / 2)
+    _w = (isqrt(8 * int(cantor_integer) + 1) - 1) // 2
+    _t = ((_w * _w) + _w) // 2
     # - tuple generation
-    reconstructed_tuple = (_w - cantor_integer + _t, cantor_integer - _t)
+    reconstructed_tuple = (_w - int(cantor_integer) + _t, int(cantor_integer) - _t)
     # - return result
-    return reconstructed_tuple + lowest_integer  # type: ignore
+    return tuple(_x + lowest_integer for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/symmetric_pairing.py b/py-combinations/pairing_functions/symmetric_pairing.py
index 5c1f8cd..529bd95 100644
--- a/py-combinations/pairing_functions/symmetric_pairing.py
+++ b/py-combinations/pairing_functions/symmetric_pairing.py
@@ -4,7 +4,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
 import numpy as np
-from math import floor
+from math import isqrt
 
 
 # implementation of a simplistic symmetric pairing function
@@ -27,9 +27,9 @@ def symmetric_pair(my_pair, lowest_integer=0):
     if my_pair[0] >= my_pair[1]:
         my_pair = my_pair[::-1]
     # compute the members of the mapping pair
-    a, b = np.array(my_pair) - lowest_integer + 1
+    a, b = (int(_x) for _x in np.array(my_pair) - lowest_integer + 1)
     # return the mapped integer
-    return a + int((b * (b - 1)) / 2)
+    return a + (b * (b - 1)) // 2
 
 
 # inversion of the simplistic symmetric pairing function
@@ -49,9 +49,9 @@ def invert_symmetric_pair(my_sym_number, lowest_integer=0):
         The tuple/list that was mapped by the simplistic symmetric pairing function.
     """
     # compute intermediate quantities
-    _w = floor(0.5 * np.sqrt(8.0 * my_sym_number + 1.0) - 0.5)
-    _t = int(((_w * _w) + _w) / 2)
+    _w = (isqrt(8 * (int(my_sym_number) - 1) + 1) - 1) // 2
+    _t = ((_w * _w) + _w) // 2
     # compute the paired integers
-    reconstructed_tuple = (my_sym_number - _t, _w + 1)
+    reconstructed_tuple = (int(my_sym_number) - _t, _w + 1)
     # return the previously mapped tuple
-    return reconstructed_tuple + lowest_integer - 1
+    return tuple(_x + lowest_integer - 1 for _x in reconstructed_tuple)
diff --git a/py-combinations/pairing_functions/xie_pairing.py b/py-combinations/pairing_functions/xie_pairing.py
index 773e51e..facef9f 100644
--- a/py-combinations/pairing_functions/xie_pairing.py
+++ b/py-combinations/pairing_functions/xie_pairing.py
@@ -8,7 +8,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import modules
 import numpy as np
-from math import floor
+from math import isqrt
 
 
 # accented sign function defined by Xie
@@ -50,11 +50,11 @@ def xie_symmetric_pair(my_pair, lowest_integer):
     # adjust radial orders to generate the mapping pair
     map_pair: np.ndarray = np.array(my_pair) - lowest_integer + 1
     # compute intermediate values, following Xie
-    int_sum = map_pair.sum() - 1
-    minint = int((map_pair.sum() - np.abs(map_pair[0] - map_pair[1])) / 2)
+    int_sum = int(map_pair.sum()) - 1
+    minint = int(map_pair.min())
     mod_int = int_sum % 2
     # return the mapping result
-    return int(((int_sum * int_sum) - mod_int) / 4) + minint
+    return ((int_sum * int_sum) - mod_int) // 4 + minint
 
 
 # inverted Xie pairing function
@@ -74,7 +74,7 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
         The tuple/list that was mapped by the Xie pairing function.
     """
     # compute intermediate values
-    _t = floor(np.sqrt(xie_number))
+    _t = isqrt(int(xie_number))
     _tsq = _t * _t
     _a = int(np.sign(xie_number - _tsq))
     _b = sgn_accent(xie_number - _tsq - _t)
@@ -83,4 +83,4 @@ def invert_xie_symmetric_pair(xie_number, lowest_integer):
     m = _first_fac + _a * ((_t + 1) * (_t + 1 + _b) - xie_number)
     n = _first_fac + _a * (xie_number - (_t * (_t + _b)))
     # return the reconstructed pair
-    return (m, n) + lowest_integer - 1
+    return (int(m) + lowest_integer - 1, int(n) + lowest_integer - 1)
-- 
2.43.0


From 53b92a82ad65262ae5763f0826d7798ae1b0b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 03/62] fix: pre-checks computed meridional orders of the wrong
 modes for repeated modes in a triad

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index 813cfb5..b4fc592 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -173,8 +173,7 @@ class PreCheckQuadratic:
         _m_list = self._m_list[lm_index]
         # return the meridional order list
         return [
-            self._compute_k_grav_in(_l_list[mnr - 1], _m_list[mnr - 1])
-            for mnr in my_mode_nrs
+            self._compute_k_grav_in(_l, _m) for _l, _m in zip(_l_list, _m_list)
         ]
 
     # utility method used to perform 'm' conjugation
-- 
2.43.0


From deea79991544710bb7204818272de825349ee71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 04/62] fix: signs and daughter terms of the fixed-point
 jacobians contradicted the amplitude equations

---
 .../hyperbolicity/hyperbolicity_checker.py    | 41 ++++++++-----------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
index 678efa8..7af90c9 100644
--- a/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
+++ b/aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py
@@ -88,32 +88,21 @@ def jacobian_in_fp_real_four_ae_system(
     gplus = gammas.sum()  # gplus
     qf = qsqrt / deta  # q*sqrt(1+q^2) / (2*eta)
     qsq_over_qf = q**2.0 / qf  # (2*eta*q) / sqrt(1+q^2)
+    sg = np.sign(gammas)  # signs of the rates: in the fixed point the nonlinear term of mode x equals -gx * Ax
     # fill up the jacobian elements
     jac[np.diag_indices(3)] = gammas  # (g1,g2,g3)
-    jac[0, 1] = (
-        omegas[0] * sqrt12
-    )  # o1 * sqrt((-g1*g2)/(o1*o2)) = sqrt(-g1*o1*g2/o2)
-    jac[0, 2] = (
-        omegas[0] * sqrt13
-    )  # o1 * sqrt((-g1*g3)/(o1*o3)) = sqrt(-g1*o1*g3/o3)
+    jac[0, 1] = -sg[0] * omegas[0] * sqrt12  # -g1 * A1 / A2
+    jac[0, 2] = -sg[0] * omegas[0] * sqrt13  # -g1 * A1 / A3
     jac[0, 3] = (
         qf * gammas[0] * sqrt23
     )  # (q*sqrt(1+q^2)/(2*eta))*(g1)*sqrt((g2*g3)/(o2*o3)) = (q*g1/(2*eta))*sqrt((1+q^2)*g2*g3/(o2*o3))
-    jac[1, 0] = (
-        -omegas[1] * sqrt12
-    )  # -o2 * sqrt((-g1*g2)/(o1*o2)) = -sqrt(-g1*o2*g2/o1)
-    jac[1, 2] = (
-        -omegas[1] * sqrt23
-    )  # -o2 * sqrt((g2*g3)/(o2*o3)) = -sqrt(g2*o3*g3/o2)
+    jac[1, 0] = -sg[1] * omegas[1] * sqrt12  # -g2 * A2 / A1
+    jac[1, 2] = -sg[1] * omegas[1] * sqrt23  # -g2 * A2 / A3
     jac[1, 3] = (
         qf * gammas[1] * sqrt13
     )  # (q*sqrt(1+q^2)/(2*eta))*(g2)*sqrt((-g1*g3)/(o1*o3)) = (q*g2/(2*eta))*sqrt((1+q^2)*(-g1*g3)/(o1*o3))
-    jac[2, 0] = (
-        -omegas[2] * sqrt13
-    )  # -o3 * sqrt((-g1*g3)/(o1*o3)) = -sqrt(-g1*o3*g3/o1)
-    jac[2, 1] = (
-        -omegas[2] * sqrt23
-    )  # -o3 * sqrt((g2*g3)/(o2*o3)) = -sqrt(g2*o3*g3/o2)
+    jac[2, 0] = -sg[2] * omegas[2] * sqrt13  # -g3 * A3 / A1
+    jac[2, 1] = -sg[2] * omegas[2] * sqrt23  # -g3 * A3 / A2
     jac[2, 3] = (
         qf * gammas[2] * sqrt12
     )  # (q*sqrt(1+q^2)/(2*eta))*(g3)*sqrt((-g1*g2)/(o1*o2)) = (q*g3/(2*eta))*sqrt((1+q^2)*(-g1*g2)/(o1*o2))
@@ -174,18 +163,22 @@ def jacobian_in_fp_real_three_ae_system(
     gplus = gammas.sum()  # gplus
     qf = qsqrt / deta  # q*sqrt(1+q^2) / (2*eta)
     qsq_over_qf = q**2.0 / qf  # (2*eta*q) / sqrt(1+q^2)
+    sg = np.sign(gammas[0])  # sign convention of the daughter amplitude
     # fill up the jacobian elements
-    jac[np.diag_indices(2)] = gammas[:-1]  # (g1,g2)
-    jac[0, 1] = np.sqrt(-og[0] * inv_quality[1])  # sqrt(-g1*o1 * g2 / o2)
+    jac[0, 0] = gammas[0]  # g1
+    jac[1, 1] = 0.0  # g2 - g2: the nonlinear daughter term is linear in its own amplitude
+    jac[0, 1] = (
+        -2.0 * np.abs(gammas[0]) * inv_quality[1] / sqrt12
+    )  # -2 * g1 * A1 / A2
     jac[0, 2] = (
         qf * gammas[0] * inv_quality[1]
     )  # (q*sqrt(1+q^2)/(2*eta))*(g1*g2/o2)
-    jac[1, 0] = -np.sqrt(
+    jac[1, 0] = -sg * np.sqrt(
         (-2.0 * inv_quality[0] * og[1])
-    )  # -sqrt((-2*g1*g2*o2)/(o1))
+    )  # -g2 * A2 / A1
     jac[1, 2] = (
-        gammas[1] * qf * sqrt12
-    )  # g1 * (q*sqrt(1+q^2)/(2*eta)) * sqrt(-2*g1*g2/(o1*o2))
+        sg * gammas[1] * qf * sqrt12
+    )  # g2 * (q*sqrt(1+q^2)/(2*eta)) * sqrt(-2*g1*g2/(o1*o2))
     jac[2, 0] = (
         qsq_over_qf * (gplus - (2.0 * gammas[0])) / inv_quality[1]
     )  # 2*q*sqrt(1+q^2)*(2*g2-g1)*(o2/g2)
-- 
2.43.0


From 17357590222cc2c343dfb8ba45caa2a8ec7b4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 05/62] fix: default conjugation of the pre-checks covered only
 the first of several triads

---
 .../aesolver/pre_checks/generic/generic_quadratic_checks.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
index b4fc592..eaf24fd 100644
--- a/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
+++ b/aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py
@@ -58,7 +58,7 @@ class PreCheckQuadratic:
         if triads is None:
             triads = [(1, 2, 3)]
         if conjugation is None or isinstance(conjugation[0], bool):
-            conjugation = [(True, False, False)]
+            conjugation = [(True, False, False)] * len(triads)
         # store the boolean that dictates how outputs are generated
         self._all_fulfilled = all_fulfilled
         # store the mode info object
-- 
2.43.0


From 69f74c2ff3aa5ba4085036108f0a29d4e3b46da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 06/62] fix: cyclic co-rotating frequencies were uninitialised
 for inertial input in angular units

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index 641d8a8..b0dcb56 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -876,7 +876,7 @@ class FrequencyHandler:
                     self._corot_mode_omegas[_i] = _convert_freq_omega.real - (
                         _m * self._rot_freq
                     )
-                    self._corot_mode_freqs[_i] = self._corot_mode_freqs[_i] / (
+                    self._corot_mode_freqs[_i] = self._corot_mode_omegas[_i] / (
                         2.0 * np.pi
                     )
                 else:
-- 
2.43.0


From a7b2b84872a47d85f7400ed5a890d2a281d8295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 07/62] fix: dimensionless frequencies were scaled by the
 inverse unit factor for units other than Hz

---
 .../enumeration_freq_converter_normalization.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..0e10696 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -383,7 +383,7 @@ class EnumerationGYREFreqConverter(Enum):
         # compose the dimensioning factor conversion function
         if is_angular:
             # the conversion factor needs to be in the correct cyclic frequency unit: therefore one needs to divide by the nr. of radians included in the angular frequency conversion factor
-            return lambda dim_fac: _req_fac(dim_fac) / (2.0 * np.pi)
+            return lambda dim_fac: dim_fac * (2.0 * np.pi) / _req_fac(1.0)
         else:
-            # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd)
-            return _req_fac
+            # no conversion needs to be done with respect to angularity of the frequency (conversion only needs to take care of difference between Hz and cpd): the dimensioning factor is a time scale, and is thus divided by the frequency conversion factor
+            return lambda dim_fac: dim_fac / _req_fac(1.0)
-- 
2.43.0


From 67f29a7e646c68aed546ee8778ec24e652188e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 08/62] fix: dimensionless non-adiabatic frequencies ended the
 run when their units differed from the adiabatic ones

---
 aesolver/aesolver/frequency_handling/frequency_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/frequency_handling/frequency_handler.py b/aesolver/aesolver/frequency_handling/frequency_handler.py
index b0dcb56..a1efd66 100644
--- a/aesolver/aesolver/frequency_handling/frequency_handler.py
+++ b/aesolver/aesolver/frequency_handling/frequency_handler.py
@@ -1039,7 +1039,7 @@ class FrequencyHandler:
             # obtain the additional conversion functions for nonadiabatic input
             enummeta_nad = EnumGYREFreqConv.factor_from_dict
             return [
-                enummeta_nad(_m_dict_n, self._requested_units)
+                enummeta_nad(_m_dict_n, self._requested_units, no_exit=True)
                 for _m_dict_n in gyre_nad_dicts
             ]
 
-- 
2.43.0


From 429dfabedae8bf609131c2eddd2dcb8f9dac74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 09/62] fix: TAR validity masking failed when one frequency
 hierarchy held everywhere and the other nowhere

---
 aesolver/aesolver/solver/quadratic_profile.py | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..d61c496 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -172,29 +172,21 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
         ):
             # find reason why there are no TAR validity zones and warn about this!
             if (
-                (
-                    my_individual_uni := np.unique(tar_individual_freq_check)
-                ).shape[0]
-                == 1
-            ) & (
-                (my_rot_uni := np.unique(tar_rotation_check)).shape[0] != 1
-            ) and not my_individual_uni[0]:
+                not tar_individual_freq_check.any()
+                and tar_rotation_check.any()
+            ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
                 )
             elif (
-                (my_individual_uni.shape[0] != 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
+                tar_individual_freq_check.any()
+                and not tar_rotation_check.any()
             ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, the Coriolis frequency is not much smaller than any local Brunt-Väisälä frequency!'
                 )
-            elif (
-                (my_individual_uni.shape[0] == 1)
-                and (my_rot_uni.shape[0] == 1)
-                and not my_rot_uni[0]
-                and not my_individual_uni[0]
+            elif not (
+                tar_individual_freq_check.any() or tar_rotation_check.any()
             ):
                 logger.warning(
                     'No zone found in which the TAR approximation holds according to frequency hierarchies. Specifically, both the Coriolis frequency and the individual mode frequencies in the co-rotating frame are not much smaller than any local Brunt-Väisälä frequency!'
-- 
2.43.0


From 560829c1ca06542c5635b531d41d03e59f23bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 10/62] fix: polling for a combination number crashed on
 non-integers and accepted numbers out of range

---
 .../input_user/user_poller.py                       | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/input_user/user_poller.py b/aesolver/aesolver/solver/profile_helper_classes/input_user/user_poller.py
index cc13025..dd9e622 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/input_user/user_poller.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/input_user/user_poller.py
@@ -68,11 +68,12 @@ def poll_user_profile_for_combination_number(
     while not_ok:
         # select a radial order combo
         try:
-            my_rad_ord_combo = int(
-                input(
-                    f'Please specify a radial order combination number between 0 and {nr_loaded_data - 1}: '
-                )
+            my_input = input(
+                f'Please specify a radial order combination number between 0 and {nr_loaded_data - 1}: '
             )
+            my_rad_ord_combo = int(my_input)
+            if not 0 <= my_rad_ord_combo < nr_loaded_data:
+                raise ValueError('Not the number of a loaded data set.')
             print(
                 f"You have selected the number {my_rad_ord_combo}, corresponding to the combination of radial orders {mode_info_object.combinations_radial_orders[my_rad_ord_combo]} for the modes with quantum numbers 'l' {mode_info_object.mode_l} and 'm' {mode_info_object.mode_m} ."
             )
@@ -82,11 +83,11 @@ def poll_user_profile_for_combination_number(
             not_ok = not ok_input
         except ValueError:
             print(
-                f'Unknown integer input {my_rad_ord_combo}. Please give a valid integer!'
+                f'Unknown integer input {my_input}. Please give a valid integer!'
             )
         except TypeError:
             print(
-                f'Unknown integer input {my_rad_ord_combo}. Please give a valid integer!'
+                f'Unknown integer input {my_input}. Please give a valid integer!'
             )
     # return the combination number/selection integer
     return my_rad_ord_combo
-- 
2.43.0


From 20743eb064adb7280185095c209e048b7e04cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 11/62] fix: solve runs crashed because the save-name argument
 was never registered

---
 aesolver/aerunners/solve_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..6f221e5 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -63,7 +63,7 @@ class QuadraticSolveParser(GenericParser):
         )
 
     # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From 76c45fa620e9997f6797714a51baf33a9a3b8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 12/62] fix: an inlist whose name holds more than one dot was
 replaced by another file

---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..4b85011 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.name.rsplit('.', 1)[0]  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0


From b921eda70a611d334ad97d0738690d1b9834c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 13/62] fix: looking up a key below an emptied table crashed
 and plain string keys were never found

---
 util-tools/generic_parser/generic_parser.py | 27 ++++++++++-----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 4b85011..825d786 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -517,20 +517,19 @@ class GenericParser:
         int | str | float | list
             Requested value.
         """
-        try:
-            # key list
-            if (first_key := index_val[0]) not in ha_dict:
-                # element not present, return None
-                return None
-            elif len(index_val) == 1:
-                # return the element given for the key in the dict
-                return ha_dict[first_key]
-            else:
-                # recursively retrieve deeper elements in the dict
-                return self.get_ha(ha_dict[first_key], index_val[1:])
-        except IndexError:
-            # key string
-            return ha_dict[index_val]
+        # key string
+        if isinstance(index_val, str):
+            index_val = [index_val]
+        # key list
+        if not isinstance(ha_dict, dict) or (first_key := index_val[0]) not in ha_dict:
+            # element not present, return None
+            return None
+        elif len(index_val) == 1:
+            # return the element given for the key in the dict
+            return ha_dict[first_key]
+        else:
+            # recursively retrieve deeper elements in the dict
+            return self.get_ha(ha_dict[first_key], index_val[1:])
 
     def read_args(self):
         """Generic method used to read relevant arguments from the parsed information. The output of this method is dependent on the overloading of the read_toml_args or read_custom_args methods."""
-- 
2.43.0


From 0f512bdc62b607241d0e48115e37409729e63b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 14/62] fix: a list of two-level keys was read as keys with
 negation flags

---
 util-tools/generic_parser/generic_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 825d786..1c6e62d 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -489,14 +489,15 @@ class GenericParser:
         list
             The list of data containing the requested parsed arguments values.
         """
-        try:
+        # a second value is a negating bool only if it is a boolean: two-level key lists also hold two elements
+        if all(len(_arg) == 2 and isinstance(_arg[1], bool) for _arg in argument_list):
             return [
                 not self.get_ha(self._data_read_dictionary, _my_val)
                 if _negating_bool
                 else self.get_ha(self._data_read_dictionary, _my_val)
                 for _my_val, _negating_bool in argument_list
             ]
-        except ValueError:
+        else:
             return [
                 self.get_ha(self._data_read_dictionary, _my_val)
                 for _my_val in argument_list
-- 
2.43.0


From 35853b9bc739c934359c51820b34a35c4bd8dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 15/62] fix: negative numbers in exponent notation crashed the
 reading of custom inlists

---
 util-tools/inlist_handler/inlist_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index acd0be6..8473896 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -84,7 +84,7 @@ class InlistHandler:
     # define and compile the regular expression used to select the defaults inlist
     compiled_regex_defaults = re.compile(r'(.*)\/.*\/(.*)\..*')
     # define and compile the regular expression used to parse floats
-    compiled_float_regex = re.compile(r'\d+[eE]-*\d+')
+    compiled_float_regex = re.compile(r'-?\d+[eE]-*\d+')
 
     @classmethod
     def _typer(cls, value_string):
-- 
2.43.0


From 123592c5c06413d62e63527e12eb4f96a29690b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 16/62] fix: lists and tuples of booleans in custom inlists
 were read as a single boolean

---
 util-tools/inlist_handler/inlist_handler.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/util-tools/inlist_handler/inlist_handler.py b/util-tools/inlist_handler/inlist_handler.py
index 8473896..499d41a 100644
--- a/util-tools/inlist_handler/inlist_handler.py
+++ b/util-tools/inlist_handler/inlist_handler.py
@@ -112,6 +112,14 @@ class InlistHandler:
                     f'with {_de_quoted_string}.'
                 )
                 typed_value = str(_de_quoted_string)
+        # check for a list input
+        elif cls.__dict__['list_check'].__get__(cls)(value_string):
+            logger.debug(f'{value_string} is considered a list.')
+            typed_value = ast.literal_eval(value_string)
+        # check for a tuple input
+        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
+            logger.debug(f'{value_string} is considered a tuple.')
+            typed_value = ast.literal_eval(value_string)
         # check for input that is reminiscent of a boolean value
         elif cls.__dict__['bool_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
@@ -123,14 +131,6 @@ class InlistHandler:
         elif cls.__dict__['none_check'].__get__(cls)(value_string):
             logger.debug(f'{value_string} is considered a boolean.')
             typed_value = None
-        # check for a list input
-        elif cls.__dict__['list_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a list.')
-            typed_value = ast.literal_eval(value_string)
-        # check for a tuple input
-        elif cls.__dict__['tuple_check'].__get__(cls)(value_string):
-            logger.debug(f'{value_string} is considered a tuple.')
-            typed_value = ast.literal_eval(value_string)
         # check for a decimal point in the input
         elif cls.__dict__['float_check'].__get__(cls)(value_string) or (
             cls.compiled_float_regex.match(value_string)
-- 
2.43.0


From d9daeabc444be990aeac470a08dcd47750d4a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 17/62] fix: scale the surface perturbations by the
 normalization factors

Index -3 of the coupling information tuple is the adiabatic flag, so that
the surface luminosity and radial perturbations were multiplied by 1 or 0.
---
 aesolver/aesolver/solver/quadratic_solver.py                  | 4 ++--
 .../aesolver/solver/solver_base_classes/quadratic_solver.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/solver/quadratic_solver.py b/aesolver/aesolver/solver/quadratic_solver.py
index c59b88a..aed485a 100644
--- a/aesolver/aesolver/solver/quadratic_solver.py
+++ b/aesolver/aesolver/solver/quadratic_solver.py
@@ -1043,7 +1043,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -1071,7 +1071,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # print mode information
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..7b5dc2c 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -808,7 +808,7 @@ class QuadraticAESolver:
         # perform the normalization for Lag(L)/L
         _lag_rad_lum_norm = (
             _lag_rad_lum_gyre_surface
-            * self._coupling_info[radial_order_combo_nr][-3]
+            * self._coupling_info[radial_order_combo_nr][5]
         )
         # compute the radiative luminosity at the surface L_rad/L
         _rad_lum = np.array(
@@ -836,7 +836,7 @@ class QuadraticAESolver:
         )  # based on the adiabatic eigenfunction
         # renormalize
         self._xir_terms_norm = (
-            _xir_terms * self._coupling_info[radial_order_combo_nr][-3]
+            _xir_terms * self._coupling_info[radial_order_combo_nr][5]
         )
 
     # load 1 specific mode triad and compute the necessary details and  coupling coefficients (NOT THE COUPLING COEFFICIENT PROFILE)
-- 
2.43.0


From 8b333d37b591931f1d8dc92e18dc766eb0dfeeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 18/62] fix: store the Wu difference statistic as
 mode_statistics/wu

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From f73e72ed2ad83d6792bd6fdce4858f1b14770b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 19/62] fix: store the moduli of the coupling coefficients as
 |kappa|, |kappa_norm|, |eta|

---
 aesolver/aesolver/data_handling/unpacker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 0e808cc..442ae02 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -225,9 +225,9 @@ class UnPacker:
         # - unpack and store the actual values
         for _i, _mode_dat in enumerate(self._couple_data):
             # store coupling coefficients
-            self._abs_ccs[_i] = _mode_dat[0]
-            self._abs_nccs[_i] = _mode_dat[1]
-            self._abs_etas[_i] = _mode_dat[2]
+            self._abs_ccs[_i] = np.abs(_mode_dat[0])
+            self._abs_nccs[_i] = np.abs(_mode_dat[1])
+            self._abs_etas[_i] = np.abs(_mode_dat[2])
             # store coupling coefficient terms
             self._cc_terms[_i, :] = _mode_dat[8]
             # store normalization factors for the modes (radial eigenfunction norm)
-- 
2.43.0


From f83d9f2e46ee5b3e239420fea1939ddaeb553d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 20/62] fix: store files inside the generated sub-directory

---
 aesolver/aesolver/data_handling/storer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..5e2612b 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -202,7 +202,7 @@ class NumericalSaver:
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f'{_sub_directory_name.rstrip("/")}/{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 989f21ec344d7c0254cf3ffedd76ec9c8d7ddf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 21/62] fix: absent sub-directory no longer becomes a folder
 named None

---
 .../aesolver/data_handling/enumeration_files/enum_generic.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py b/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py
index 43e3e48..2c3694e 100644
--- a/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py
+++ b/aesolver/aesolver/data_handling/enumeration_files/enum_generic.py
@@ -123,7 +123,7 @@ class SaveSubDirectory:
         """
         match self.sub_directory:
             case '' | None:
-                return self.sub_directory
+                return ''
             case str() as my_sub if my_sub[-1] == '/':
                 return f'{self.sub_directory[:-1]}'
             case str() as my_sub if my_sub[0] == '/':
-- 
2.43.0


From 02a1cfdcb8203f98dc9ff78960490ccc963a1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 22/62] fix: quantum numbers enter every save name, whatever
 characters it holds

---
 .../aesolver/data_handling/data_specific/hdf5_saver.py     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..9497c30 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -4,7 +4,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
-import re
+import os
 import h5py as h5
 import numpy as np
 
@@ -82,9 +82,8 @@ class HDF5Saver:
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
         # substitute this string into the file path name
-        self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
-        )
+        _path_without_suffix, _suffix = os.path.splitext(self._file_path)
+        self._file_path = f'{_path_without_suffix}{_qnr_string}{_suffix}'
 
     def _create_base_attribute(
         self,
-- 
2.43.0


From 2fbbf5001e9796b28fb76f29bb6262f0f4423a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 23/62] fix: overwriting a dataset no longer broadcasts values
 of another shape

---
 .../data_specific/hdf5_specific/overwrite_dataset.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
index 0be167d..33356c5 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
@@ -37,7 +37,10 @@ def overwrite_dataset(
         # overwrite for empty data or when data types are the same
         if (is_ds := isinstance(_previous_data, h5.Dataset)) and (
             isinstance(overwrite_value, h5.Empty)
-            or (_previous_data.dtype == overwrite_value.dtype)
+            or (
+                _previous_data.dtype == overwrite_value.dtype
+                and _previous_data.shape == overwrite_value.shape
+            )
         ):
             # overwrite it
             _previous_data[...] = overwrite_value
-- 
2.43.0


From d8343d2cd4dda38109c4ff11bc3c3a44791471e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 24/62] fix: isolation of the only triad of a parent no longer
 raises

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..1a202c5 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a single triad has no competitors for its parent
+        if len(_threshs) < 2:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..3a2e090 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a single triad has no competitors for its parent
+        if len(_threshs) < 2:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From 4dde3f5ff1eaac8c6954f7dbd741bc10b2ec8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 25/62] fix: a triad is isolated only when its own threshold is
 the lowest of its daughters

---
 aesolver/ae_analyzer/library_functions/masking.py | 2 ++
 aesolver/aeplotter/library_functions/masking.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a202c5..cb42fe8 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # the lowest threshold shared by all modes needs to be the threshold of the triad itself
+    _all_same &= _lowest_thresh_surf[:, 0] == _valued_thresh
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 3a2e090..57c274b 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -158,6 +158,8 @@ def _get_isolation_mask_lowest_thresh_amp(data_dict):
     )
     # look for mode triads that have the same surface threshold luminosities: THESE ARE ISOLATED MODE TRIADS (IF OTHER TRIADS HAVE HIGHER THRESHOLDS)!
     _all_same = _get_isolation_mask(lowest_thresholds=_lowest_thresh_surf)
+    # the lowest threshold shared by all modes needs to be the threshold of the triad itself
+    _all_same &= _lowest_thresh_surf[:, 0] == _valued_thresh
     # get original-size mask
     og_size_mask = np.zeros_like(_is_valued_and_parametric, dtype=np.bool_)
     og_size_mask[_is_valued_and_parametric] = _all_same
-- 
2.43.0


From 9f982865235a246a8807ab6dcce9d7b7a598cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 26/62] fix: map dimensionless inertial frequencies to their
 own datasets

---
 aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py | 5 +++++
 aesolver/aeplotter/data_files/hdf5_data_path_mapper.py   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py b/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
index d6e3cb8..bbf9d41 100644
--- a/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
+++ b/aesolver/ae_analyzer/data_files/hdf5_data_path_mapper.py
@@ -28,6 +28,7 @@ if TYPE_CHECKING:
         inert_mode_omegas: tuple[str, str]
         inert_mode_freqs: tuple[str, str]
         inert_dimless_mode_freqs: tuple[str, str]
+        inert_dimless_mode_omegas: tuple[str, str]
         kappa: tuple[str, str]
         kappa_norm: tuple[str, str]
         stationary_relative_luminosity_phase: tuple[str, str]
@@ -103,6 +104,10 @@ class HDF5MappingsArrays:
         '',
     )
     inert_dimless_mode_freqs: tuple[str, str] = (
+        'mode_frequency_info/inert_dimless_mode_freqs',
+        '',
+    )
+    inert_dimless_mode_omegas: tuple[str, str] = (
         'mode_frequency_info/inert_dimless_mode_omegas',
         '',
     )
diff --git a/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py b/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
index d6b5972..3d1996b 100644
--- a/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
+++ b/aesolver/aeplotter/data_files/hdf5_data_path_mapper.py
@@ -30,6 +30,7 @@ if TYPE_CHECKING:
         inert_mode_omegas: tuple[str, str]
         inert_mode_freqs: tuple[str, str]
         inert_dimless_mode_freqs: tuple[str, str]
+        inert_dimless_mode_omegas: tuple[str, str]
         kappa: tuple[str, str]
         kappa_norm: tuple[str, str]
         stationary_relative_luminosity_phase: tuple[str, str]
@@ -105,6 +106,10 @@ class HDF5MappingsArrays:
         '',
     )
     inert_dimless_mode_freqs: tuple[str, str] = (
+        'mode_frequency_info/inert_dimless_mode_freqs',
+        '',
+    )
+    inert_dimless_mode_omegas: tuple[str, str] = (
         'mode_frequency_info/inert_dimless_mode_omegas',
         '',
     )
-- 
2.43.0


From c028a5f49bff54cfd3f06f9091ba284871956e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 27/62] fix: files of separate models are no longer joined into
 one table

---
 .../quadratic_stationary_analyzer.py          | 23 ++-----------------
 aesolver/aeplotter/quadratic_plotter.py       | 23 ++-----------------
 2 files changed, 4 insertions(+), 42 deletions(-)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index 133a7c0..e2932e1 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -147,27 +147,8 @@ class QuadraticAEStationaryAnalyzer:
         ]
 
     @multimethod
-    def _load_analysis_data(
-        self, my_file_name_or_names: list[str]
-    ) -> None:
-        # load the data for each of the individual files
-        loaded_data_files = [
-            self._load_specific_file_data(file_path=_linked_name)
-            for _linked_name in my_file_name_or_names
-        ]
-        # load the file data and store it in the data dictionary
-        self._list_data_dict = [
-            {
-                _k: np.concatenate([_d[_k] for _d in loaded_data_files], axis=0)
-                for _k in self._load_mappings_arrays
-            }
-        ]
-
-    @multimethod
-    def _load_analysis_data(
-        self, my_file_name_or_names: list[list[str]]
-    ) -> None:
-        # load the data for each of the individual files
+    def _load_analysis_data(self, my_file_name_or_names: list) -> None:
+        # load the data for each of the models: each of them is stored in a single file or in a list of files
         self._list_data_dict = []
         for _linked_name_or_list in my_file_name_or_names:
             if isinstance(_linked_name_or_list, str):
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..bd6ad11 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -231,27 +231,8 @@ class QuadraticAEPlotter:
         ]
 
     @multimethod
-    def _load_sharpness_overview_data(
-        self, my_file_name_or_names: list[str]
-    ) -> None:
-        # load the data for each of the individual files
-        loaded_data_files = [
-            self._load_specific_file_data(file_path=_linked_name)
-            for _linked_name in my_file_name_or_names
-        ]
-        # load the file data and store it in the data dictionary
-        self._list_data_dict = [
-            {
-                _k: np.concatenate([_d[_k] for _d in loaded_data_files], axis=0)
-                for _k in self._load_mappings_arrays
-            }
-        ]
-
-    @multimethod
-    def _load_sharpness_overview_data(
-        self, my_file_name_or_names: list[list[str]]
-    ) -> None:
-        # load the data for each of the individual files
+    def _load_sharpness_overview_data(self, my_file_name_or_names: list) -> None:
+        # load the data for each of the models: each of them is stored in a single file or in a list of files
         self._list_data_dict = []
         for _linked_name_or_list in my_file_name_or_names:
             if isinstance(_linked_name_or_list, str):
-- 
2.43.0


From 99eedcf7b522395f79c9a5b21c1c9ee5b78b4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 28/62] fix: rotation frequency accounts for the azimuthal
 order it is read from

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 9 ++++++---
 aesolver/aeplotter/quadratic_plotter.py               | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index e2932e1..c5ea169 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -217,7 +217,7 @@ class QuadraticAEStationaryAnalyzer:
         self, og_shape: bool = True, additional_frequencies: bool = True
     ) -> None:
         # ASSUMES FREQUENCIES ARE STORED IN HZ --> TODO: generalize using frequency handler object!!!
-        for _dd in self._list_data_dict:
+        for _i, _dd in enumerate(self._list_data_dict):
             # corotating mode omegas
             _my_corot_omegas = _dd['corot_mode_omegas']
             # - parent modes
@@ -257,9 +257,12 @@ class QuadraticAEStationaryAnalyzer:
             )
             # compute and store the rotation frequency
             _my_inert_omegas = _dd['inert_mode_omegas']
+            # --- using a mode whose frequency is shifted by the rotation
+            _my_m = np.ravel(self._m[_i])[:3]
+            _m_idx = np.argmax(_my_m != 0)
             _my_rotation_freqs = (_my_inert_omegas - _my_corot_omegas)[
-                :, 1
-            ]  # m is 1 for this daughter mode!
+                :, _m_idx
+            ] / _my_m[_m_idx]
             _dd['rotation_freqs'] = _my_rotation_freqs
             _dd['rotation_freqs_muHz'] = hz_to_muhz(_my_rotation_freqs)
             _dd['rotation_freqs_cpd'] = hz_to_cpd(_my_rotation_freqs)
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index bd6ad11..39fedfd 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -301,7 +301,7 @@ class QuadraticAEPlotter:
         self, og_shape: bool = True, additional_frequencies: bool = True
     ) -> None:
         # ASSUMES FREQUENCIES ARE STORED IN HZ --> TODO: generalize using frequency handler object!!!
-        for _dd in self._list_data_dict:
+        for _i, _dd in enumerate(self._list_data_dict):
             # corotating mode omegas
             _my_corot_omegas = _dd['corot_mode_omegas']
             # - parent modes
@@ -341,9 +341,12 @@ class QuadraticAEPlotter:
             )
             # compute and store the rotation frequency
             _my_inert_omegas = _dd['inert_mode_omegas']
+            # --- using a mode whose frequency is shifted by the rotation
+            _my_m = np.ravel(self._m[_i])[:3]
+            _m_idx = np.argmax(_my_m != 0)
             _my_rotation_freqs = (_my_inert_omegas - _my_corot_omegas)[
-                :, 1
-            ]  # m is 1 for this daughter mode!
+                :, _m_idx
+            ] / _my_m[_m_idx]
             _dd['rotation_freqs'] = _my_rotation_freqs
             _dd['rotation_freqs_muHz'] = hz_to_muhz(_my_rotation_freqs)
             _dd['rotation_freqs_cpd'] = hz_to_cpd(_my_rotation_freqs)
-- 
2.43.0


From 8bce22527ebff709f4e2a23305fdf628ec01637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 29/62] fix: alias of a negative frequency beyond three Nyquist
 zones

---
 aesolver/aeplotter/quadratic_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 39fedfd..3f2a0aa 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -745,7 +745,7 @@ class QuadraticAEPlotter:
                 & neg_mask
             )
             _dd['min_inertial_freq_stack'][three_mirror] = (
-                -3.0 * kepler_notional_nyquist
+                -2.0 * kepler_notional_nyquist
             ) - my_minimal_frequency[three_mirror]
             # --- 4 mirroring operations ---
             four_mirror = (
-- 
2.43.0


From e9ce49fd93bd4673e6daf243d9df58a4badb5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 30/62] fix: blow-up protection of angular integrals also
 covers negative results

---
 .../rotating_tar_angular/hough_integration.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 81ce013..271366c 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -219,7 +219,7 @@ class HoughIntegration(Enum):
                     use_parallel,
                 )
                 # check for blow-ups
-                if regular_result > cheby_blow_up_factor:
+                if abs(regular_result) > cheby_blow_up_factor:
                     # BLOW-UP: perform CG quadrature
                     if not div_by_sin:
                         my_interpolator = interp1d(
-- 
2.43.0


From c6ed1db4cdaf2facf4a8baececfa6420beeee6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 31/62] fix: internal refinement of the numerical derivative
 keeps every input point

---
 num-tools/num_deriv/num_deriv.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/num-tools/num_deriv/num_deriv.py b/num-tools/num_deriv/num_deriv.py
index 3705dd7..756085e 100644
--- a/num-tools/num_deriv/num_deriv.py
+++ b/num-tools/num_deriv/num_deriv.py
@@ -271,10 +271,13 @@ class NumericalDifferentiator:
         if self._perform_interpolation:
             # get the linear 1D interpolation
             _interpolator = interp1d(x, y)
-            _x = np.linspace(
-                x.min(),
-                x.max(),
-                num=((x.shape[0]) * self._interpolation_factor) - 1,
+            # divide each of the grid cells into '_interpolation_factor' parts,
+            # so that the grid points themselves are retained, in order
+            _x = np.interp(
+                np.arange((x.shape[0] - 1) * self._interpolation_factor + 1)
+                / self._interpolation_factor,
+                np.arange(x.shape[0]),
+                x,
             )
             _y = _interpolator(_x)
         else:
@@ -291,7 +294,7 @@ class NumericalDifferentiator:
         # check if sub-sampling needs to be done after interpolation
         if self._perform_interpolation:
             # perform the mapping from one to the other
-            _map_idx = np.in1d(_x, x).nonzero()[0]
+            _map_idx = np.s_[:: self._interpolation_factor]
             der_sub_sample = []
             # perform sub-sampling
             for _my_der in derivatives[0]:
-- 
2.43.0


From 3d0e723c7744d1bc837ba807a3e3a3faf4a75aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 32/62] fix: compute coupling coefficient profiles (the terms
 are floats, which have no copy method)

---
 .../quadratic_coupling_coefficient_rotating.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 775fa1a..3b57037 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1917,10 +1917,10 @@ class QuadraticCouplingCoefficientRotating(CCR):
                     assert isinstance(self._cc_term_4, np.ndarray)
                 self._coupling_coefficient_integrated[
                     _i - 1
-                ] = self.coupling_coefficient.copy()
-                self._cc_term_1_integrated[_i - 1] = self._cc_term_1.copy()
-                self._cc_term_2_integrated[_i - 1] = self._cc_term_2.copy()
-                self._cc_term_3_integrated[_i - 1] = self._cc_term_3.copy()
+                ] = self.coupling_coefficient
+                self._cc_term_1_integrated[_i - 1] = self._cc_term_1
+                self._cc_term_2_integrated[_i - 1] = self._cc_term_2
+                self._cc_term_3_integrated[_i - 1] = self._cc_term_3
                 self._cc_term_4_integrated[_i - 1] = self._cc_term_4.copy()            
         else:
             for _i in range(2, self._x.shape[0] + 1):
@@ -1936,11 +1936,11 @@ class QuadraticCouplingCoefficientRotating(CCR):
                     assert isinstance(self._cc_term_4, np.ndarray)
                 self._coupling_coefficient_integrated[
                     _i - 1
-                ] = self.coupling_coefficient.copy()
-                self._cc_term_1_integrated[_i - 1] = self._cc_term_1.copy()
-                self._cc_term_2_integrated[_i - 1] = self._cc_term_2.copy()
-                self._cc_term_3_integrated[_i - 1] = self._cc_term_3.copy()
-                self._cc_term_4_integrated[_i - 1] = self._cc_term_4.copy()
+                ] = self.coupling_coefficient
+                self._cc_term_1_integrated[_i - 1] = self._cc_term_1
+                self._cc_term_2_integrated[_i - 1] = self._cc_term_2
+                self._cc_term_3_integrated[_i - 1] = self._cc_term_3
+                self._cc_term_4_integrated[_i - 1] = self._cc_term_4
         # print the debug information, if requested
         if self._store_debug:
             self.print_all_debug_properties()
-- 
2.43.0


From ac5593dc202bfad00ff5873ed073743fc69bce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 33/62] fix: self coupling applies the angular and radial
 factors of each term

---
 ...quadratic_coupling_coefficient_rotating.py | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 3b57037..4582aa0 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1109,12 +1109,12 @@ class QuadraticCouplingCoefficientRotating(CCR):
             ):
                 _ang_integration_result = 0.0
                 # compute the angular integration result
-                for _ang_term, _div_by_sin_term in zip(
-                    angular_terms, div_by_sin
+                for _ang_term, _div_by_sin_term, _ang_fac in zip(
+                    angular_terms, div_by_sin, ang_factor
                 ):
                     if TYPE_CHECKING:
                         assert isinstance(_ang_term, list)
-                    _ang_integration_result += HI.quadratic_angular_integral(
+                    _ang_integration_result += _ang_fac * HI.quadratic_angular_integral(
                         my_obj=self,
                         m_list_for_azimuthal_check=self._m_list,
                         conj=self._conj_cc,
@@ -1132,7 +1132,9 @@ class QuadraticCouplingCoefficientRotating(CCR):
             else:
                 if TYPE_CHECKING:
                     assert isinstance(div_by_sin, bool)
-                _ang_integration_result = HI.quadratic_angular_integral(
+                _ang_integration_result = ang_factor[
+                    0
+                ] * HI.quadratic_angular_integral(
                     my_obj=self,
                     m_list_for_azimuthal_check=self._m_list,
                     conj=self._conj_cc,
@@ -1153,19 +1155,19 @@ class QuadraticCouplingCoefficientRotating(CCR):
                 return 0.0
             else:
                 # -- compute the radial integral part
-                if isinstance(radial_terms[0], list):
+                if isinstance(radial_terms[0], (list, tuple)):
                     _rad_integration_result = 0.0
                     # compute the radial integration result
-                    for _rad_term in radial_terms:
+                    for _rad_term, _rad_fac in zip(radial_terms, rad_factor):
                         if TYPE_CHECKING:
-                            assert isinstance(_rad_term, list)
-                        _rad_integration_result += self._rad_int(
+                            assert isinstance(_rad_term, (list, tuple))
+                        _rad_integration_result += _rad_fac * self._rad_int(
                             radial_terms=_rad_term,
                             indexer=rad_indexer,
                             multiplying_term=radial_multiplier,
                         )
                 else:
-                    _rad_integration_result = self._rad_int(
+                    _rad_integration_result = rad_factor[0] * self._rad_int(
                         radial_terms=radial_terms,  # type: ignore (I don't know how to convince pyright this is of the right type!)
                         indexer=rad_indexer,
                         multiplying_term=radial_multiplier,
-- 
2.43.0


From ee6aea4fd05fbe1032c6cac4f1b9823e3a052fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 34/62] fix: normalisation check with Python booleans, and
 iteration limit zero

---
 gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
index d52b4b0..6ed4d15 100644
--- a/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
+++ b/gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py
@@ -209,10 +209,12 @@ class GYREEigenFunctionNormalizer:
                 self._refine_mode_obj(mode_nr=_rnr)
         else:
             # compute the percentage deviation from full normalization if refinement fails, and issue a warning.
-            self._log_debug_if_not_fully_successful(
-                refine_mode_nrs=_refine_mode_nrs,  # type: ignore
-                optional_additional_message=f'(even after {self._iteration_nr} iterations!).)',
-            )
+            _refine_mode_nrs = self._check_array.nonzero()[0] + 1
+            if _refine_mode_nrs.size > 0:
+                self._log_debug_if_not_fully_successful(
+                    refine_mode_nrs=_refine_mode_nrs,
+                    optional_additional_message=f'(even after {self._iteration_nr} iterations!).)',
+                )
 
     def _log_debug_if_not_fully_successful(
         self, refine_mode_nrs, optional_additional_message=''
@@ -343,7 +345,7 @@ class GYREEigenFunctionNormalizer:
         # perform the check of the normalization factor for a specific mode, and store the result of that check in the appropriate place. NOTE: False outcome of the check results in True: result for the check array!
         self._check_array[
             mode_nr - 1
-        ] = ~EnumNormConvFactors.check_value_from_object(
+        ] = not EnumNormConvFactors.check_value_from_object(
             my_obj=self._data_obj,
             normalization_action_string=self._norm_conv,
             my_mode_nr=mode_nr,
-- 
2.43.0


From f8b190c2d02a0c85e9c8d17e346f73e3c37ec14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 35/62] fix: coupling coefficient profiles with a progress bar

---
 .../quadratic_coupling_coefficient_rotating.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 4582aa0..675f26b 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -1923,7 +1923,7 @@ class QuadraticCouplingCoefficientRotating(CCR):
                 self._cc_term_1_integrated[_i - 1] = self._cc_term_1
                 self._cc_term_2_integrated[_i - 1] = self._cc_term_2
                 self._cc_term_3_integrated[_i - 1] = self._cc_term_3
-                self._cc_term_4_integrated[_i - 1] = self._cc_term_4.copy()            
+                self._cc_term_4_integrated[_i - 1] = self._cc_term_4
         else:
             for _i in range(2, self._x.shape[0] + 1):
                 # compute the coupling coefficient profile parts
-- 
2.43.0


From 7b1543087d81a9285d59e4fba77a3f0e28174e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 36/62] fix: the second derivative of the radial Hough function
 has the parity of the function itself

---
 hough-func-tools/hough_function/hough_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 113c5d7..521825b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -332,7 +332,7 @@ class HoughFunction:
             Parity-adjusted (second derivative of radial Hough function) part of the theta-space ranging from mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
@@ -345,7 +345,7 @@ class HoughFunction:
             Parity-adjusted second theta derivative of the radial Hough function for mu = -1 to 0.
         """
         return check_if_none(
-            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav_1()
+            value=self._hrpp_theta, my_func_if_not_none=self._mul_kgrav()
         )
 
     @property
-- 
2.43.0


From c8aa6ad669ddc468ae82dfe28e78bdee487b6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 37/62] fix: azimuthal derivative terms of the Hough functions
 with the azimuthal order of their definition

---
 .../hough_function/hough_function.py          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 521825b..136a79b 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -241,6 +241,17 @@ class HoughFunction:
         """
         return self._nu
 
+    @property
+    def _m_azimuthal(self) -> float:
+        """Returns the azimuthal order, with the sign that belongs to the definition of the azimuthal Hough function.
+
+        Returns
+        -------
+        float
+            The azimuthal order m (Prat et al. 2019), or -m for the definitions that flip the sign of the azimuthal Hough function (e.g. Lee 2012).
+        """
+        return -self._m if self._my_instructions['adjust_phi_sign'] else self._m
+
     @property
     def k_grav(self) -> int:
         """Return the mode identification parameter k for gravito-inertial modes (see Lee & Saio, 1997).
@@ -603,9 +614,9 @@ class HoughFunction:
             and self.neg_mu_hp is not None
         ):
             # get positive mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            pos_mu_part = ((self._m * self._ht) - (self._mu * self._hp))[::-1]
+            pos_mu_part = ((self._m_azimuthal * self._ht) - (self._mu * self._hp))[::-1]
             # get negative mu part (NOTE the negative sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
-            neg_mu_part = (self._m * self.neg_mu_ht) - (
+            neg_mu_part = (self._m_azimuthal * self.neg_mu_ht) - (
                 self.neg_mu * self.neg_mu_hp
             )
             return np.concatenate([neg_mu_part, pos_mu_part])
@@ -629,11 +640,11 @@ class HoughFunction:
         ):
             # get positive mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             pos_mu_part = (
-                ((self._mu * self._ht) - (self._m * self._hp)) / self._s
+                ((self._mu * self._ht) - (self._m_azimuthal * self._hp)) / self._s
             )[::-1]
             # get negative mu part (NOTE the positive sign for the m-term, because of different definitions of 'm' in Lee(2012) and Prat et al. (2019))
             neg_mu_part = (
-                (self.neg_mu * self.neg_mu_ht) - (self._m * self.neg_mu_hp)
+                (self.neg_mu * self.neg_mu_ht) - (self._m_azimuthal * self.neg_mu_hp)
             ) / self._s
             # return complete part
             return np.concatenate([neg_mu_part, pos_mu_part])
-- 
2.43.0


From f739d6fcac12bd942611d20f7d79719a1e4085ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 38/62] fix: sign of the derivative of the azimuthal Hough
 function in definitions that flip the function

---
 hough-func-tools/hough_function/hough_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hough-func-tools/hough_function/hough_function.py b/hough-func-tools/hough_function/hough_function.py
index 136a79b..e124389 100644
--- a/hough-func-tools/hough_function/hough_function.py
+++ b/hough-func-tools/hough_function/hough_function.py
@@ -880,6 +880,9 @@ class HoughFunction:
                 )
                 / self._s**3.0
             )
+            # adjust sign, if necessary, as was done for the azimuthal Hough function
+            if self._my_instructions['adjust_phi_sign']:
+                self._hpp *= -1.0
             # adjust form if necessary (GYRE definition)
             if self._my_instructions['sin_factor']:
                 self._hpp = (self._s * self._hpp) - (
-- 
2.43.0


From 315ccbe7e3c21c0d458256d321d552b4a16ab010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 39/62] fix: a structure file ends in its suffix and no GYRE
 output is taken for a MESA profile

---
 aesolver/aesolver/model_handling/subselection_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..2bc7f15 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,8 +187,8 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
-                'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
+                'not_gyre': re.compile(r'.*(gyre|GYRE).*'),
             },
         )
 
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From f0e3e2d78186903f26cee4e3099d7fe6e144b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:21 +0000
Subject: [PATCH 40/62] fix: unit conversion of loaded models for any spelling
 of the unit system

---
 .../model_handling/enumeration_files/enumeration_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
index 3806998..1477b23 100644
--- a/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
+++ b/aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py
@@ -79,7 +79,7 @@ class BaseFileInfo(Enum):
         # compile the dictionary containing the mappings of the values to the unit-converted values, and return it
         return {
             _key: cls._return_input
-            if (_my_action := _val.get(unit_system)) is None
+            if (_my_action := _val.get(unit_system.upper())) is None
             else partial(mul, _my_action)
             for _attr in cls.__members__
             for _key, _val in cls.__getitem__(_attr).value.items()
-- 
2.43.0


From 528d0e48925c104c18b658d750a40618bdf7dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 41/62] fix: likelihood functions of equal-width histograms
 take the bin width under its own name

---
 histogram_maker/hogg_jacky/blas_jacky.py            | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 histogram_maker/hogg_jacky/numpy_iterator_jacky.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 265854f..9d39add 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -592,7 +592,7 @@ def hogg_jackknife_likelihood_blas(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..4a8a6c6 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index aca69e0..05c5151 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -550,7 +550,7 @@ def hogg_jackknife_likelihood_numexpr(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index 66b77ef..e4d82bc 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -342,7 +342,7 @@ def hogg_jackknife_likelihood_numpy(
                 # if verbose: print output
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=max_bin_width, max_combo=_max_combo
+                        max_bin_width_edges=max_bin_width, max_combo=_max_combo
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
@@ -516,7 +516,7 @@ def hogg_jackknife_likelihood_iterator(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width, max_combo=my_combination
+                        max_bin_width_edges=my_bin_width, max_combo=my_combination
                     )
                 # compute the optimal histogram and corresponding bin edges
                 hist_counts, hist_edges = np.histogram(
-- 
2.43.0


From 41e336908e0c245ed19452f18db00c94cad808ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 42/62] fix: numexpr and cython histograms of a given bin width
 can be computed

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 4a8a6c6..8605311 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 05c5151..17ac80f 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -838,7 +838,7 @@ def histogram_numexpr_spec_width(
         # get the histogram counts
         hist_counts = _numexpr_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From 674ebe50e65e8a056d4bba2e1f046a5ac7dd3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 43/62] fix: cython likelihood normalisation sums over the bins

---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 8605311..48f4e88 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -451,8 +451,8 @@ def hogg_jackknife_likelihood_cython(
                         use_parallel=use_parallel,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood
                     _my_jackknife_likelihood = _my_jacky_func(
@@ -644,8 +644,8 @@ def hogg_jackknife_likelihood_cython_log(
                         bin_phase=0.0,
                     )
                     # compute the empirical probability conversion factor
-                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_no_loop(
-                        _my_bin_values.shape[0], _my_alpha
+                    _ep_cf = cj_ep_cf.cython_empirical_probability_conversion_serial_loop(
+                        _my_bin_values, _my_alpha
                     )
                     # compute the jackknife likelihood in a parallel or serial way
                     _my_jackknife_likelihood = _my_jacky_func(
-- 
2.43.0


From 26efa6fd938b8a8fc109a697b603e39161f43b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 44/62] fix: parts of a logarithmic numexpr histogram refer to
 the valid data

---
 histogram_maker/hogg_jacky/numexpr_jacky.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 17ac80f..192adb7 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -745,9 +745,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / empirical_probability_conversion_fac',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
-                                    0
-                                ],
+                                'empirical_probability_conversion_fac': _valued_data.shape[0],
                             },
                         ),
                         hist_edges,
@@ -763,9 +761,7 @@ def hogg_jackknife_likelihood_numexpr_log(
                             'hist_counts / (empirical_probability_conversion_fac * (ha - hb))',
                             {
                                 'hist_counts': hist_counts,
-                                'empirical_probability_conversion_fac': my_data.shape[
-                                    0
-                                ],
+                                'empirical_probability_conversion_fac': _valued_data.shape[0],
                                 'ha': hist_edges[1:],
                                 'hb': hist_edges[:-1],
                             },
-- 
2.43.0


From 58e0d8c30db3e43aae1600a1c181e00b612285a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 45/62] fix: histograms keep their trailing empty bins

---
 histogram_maker/hogg_jacky/blas_jacky.py                        | 2 +-
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py             | 2 +-
 histogram_maker/hogg_jacky/numexpr_jacky.py                     | 2 +-
 .../hogg_jacky/shared/shared_computation_functions.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 9d39add..fc24d0f 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -277,7 +277,7 @@ def _blas_histogram_counts(
                 )
                 sys.exit()
         # return the bin counts
-        return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+        return np.bincount(_binning_result, minlength=max(min_nr_bins, nr_bins)).astype(
             np.float64, copy=False
         )
 
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 48f4e88..933524e 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -276,7 +276,7 @@ def _cython_histogram_counts(
                 )
                 sys.exit()
         # return the bin counts
-        return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+        return np.bincount(_binning_result, minlength=max(min_nr_bins, nr_bins)).astype(
             np.float64, copy=False
         )
 
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 192adb7..3ce8853 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -228,7 +228,7 @@ def _numexpr_histogram_counts(
                 )
                 sys.exit()
         # return the bin counts
-        return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+        return np.bincount(_binning_result, minlength=max(min_nr_bins, nr_bins)).astype(
             np.float64, copy=False
         )
 
diff --git a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
index dc02c41..5090eb7 100644
--- a/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_computation_functions.py
@@ -189,7 +189,7 @@ def histogram_log_counts(
         f'Cannot use a constant binning phase ({binning_phase}), when generating log-transformed data histograms (whose bins are not of equal width).'
     )
     # return the histogram bin counts and edges
-    return np.bincount(_binning_result, minlength=min_nr_bins).astype(
+    return np.bincount(_binning_result, minlength=max(min_nr_bins, bin_nr)).astype(
         np.float64, copy=False
     )
 
-- 
2.43.0


From e23431764c0b759e17e0c0376d69a65162ad5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 46/62] fix: density of a logarithmic blas histogram can be
 computed

---
 histogram_maker/hogg_jacky/blas_jacky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index fc24d0f..992ac23 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -211,11 +211,11 @@ def empirical_density_histogram_blas(
     # compute empirical density histogram and return it together with the bin edges
     try:
         return (
-            dscal(1.0 / (my_data.shape[0] * bin_width), count_histogram),
+            count_histogram / (my_data.shape[0] * bin_width),
             bin_edges,
             bin_width,
         )
-    except AttributeError:
+    except (AttributeError, TypeError):
         # returned value from histogram_blas = None, None, None
         return None, None, None
 
-- 
2.43.0


From dd227b6406de5397a271d075ec1f91f10934a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 47/62] fix: single valid data points amid missing values can
 be put into a histogram

---
 histogram_maker/hogg_jacky/blas_jacky.py       | 12 ++++++++++--
 .../hogg_jacky/cython_jacky/cy_jacky.py        | 12 ++++++++++--
 histogram_maker/hogg_jacky/numexpr_jacky.py    | 12 ++++++++++--
 .../hogg_jacky/numpy_iterator_jacky.py         | 18 +++++++++++++++---
 .../shared/shared_handling_functions.py        |  3 ++-
 5 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/histogram_maker/hogg_jacky/blas_jacky.py b/histogram_maker/hogg_jacky/blas_jacky.py
index 992ac23..5031ecb 100644
--- a/histogram_maker/hogg_jacky/blas_jacky.py
+++ b/histogram_maker/hogg_jacky/blas_jacky.py
@@ -521,7 +521,11 @@ def hogg_jackknife_likelihood_blas(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -704,7 +708,11 @@ def hogg_jackknife_likelihood_blas_log(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 933524e..47498ed 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -396,7 +396,11 @@ def hogg_jackknife_likelihood_cython(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -597,7 +601,11 @@ def hogg_jackknife_likelihood_cython_log(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/numexpr_jacky.py b/histogram_maker/hogg_jacky/numexpr_jacky.py
index 3ce8853..b3736f7 100644
--- a/histogram_maker/hogg_jacky/numexpr_jacky.py
+++ b/histogram_maker/hogg_jacky/numexpr_jacky.py
@@ -479,7 +479,11 @@ def hogg_jackknife_likelihood_numexpr(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -659,7 +663,11 @@ def hogg_jackknife_likelihood_numexpr_log(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
index e4d82bc..82f0f26 100644
--- a/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
+++ b/histogram_maker/hogg_jacky/numpy_iterator_jacky.py
@@ -272,7 +272,11 @@ def hogg_jackknife_likelihood_numpy(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -454,7 +458,11 @@ def hogg_jackknife_likelihood_iterator(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
@@ -626,7 +634,11 @@ def hogg_jackknife_likelihood_iterator_log(
                 print_single_value(
                     custom_bin_width=my_custom_bin_width, ones_combo=_ones_combo
                 )
-            return *np.histogram(my_data, bins=1), my_custom_bin_width, None
+            return (
+                *np.histogram(my_data[~np.isnan(my_data)], bins=1),
+                my_custom_bin_width,
+                None,
+            )
         else:
             # get NaN mask
             _nan_mask = np.isnan(my_data)
diff --git a/histogram_maker/hogg_jacky/shared/shared_handling_functions.py b/histogram_maker/hogg_jacky/shared/shared_handling_functions.py
index 3e61f33..53be3d0 100644
--- a/histogram_maker/hogg_jacky/shared/shared_handling_functions.py
+++ b/histogram_maker/hogg_jacky/shared/shared_handling_functions.py
@@ -5,6 +5,7 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 # import modules
 import logging
 import sys
+import numpy as np
 
 # import type aliases from separate modules
 from ..typing_info import D_arr, D_list, D_var, I_var
@@ -32,7 +33,7 @@ def handle_single_data_point(
     tuple[D_var, tuple[D_var, I_var]] | tuple[None, None]
         Returns parameters for the single data point case or None.
     """
-    if my_data.shape[0] == 1:
+    if np.count_nonzero(~np.isnan(my_data)) == 1:
         return custom_bin_width[0], (1.0, 1)
     else:
         return (None, None)
-- 
2.43.0


From 3ed4af7aae576f0066b28c43b9305a83265859f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 48/62] fix: sharpness histogram of a single triad can be drawn

---
 aesolver/aeplotter/resonance_sharpness/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/resonance_sharpness/histogram.py b/aesolver/aeplotter/resonance_sharpness/histogram.py
index a04b2d9..755dce1 100644
--- a/aesolver/aeplotter/resonance_sharpness/histogram.py
+++ b/aesolver/aeplotter/resonance_sharpness/histogram.py
@@ -91,7 +91,7 @@ def get_sharpness_histogram_plot_data(
         empirical_density=False,
     )
     # get the minimal number of bins (GUARD)
-    my_min_nr_bins = 1 if log_bin_width_all is None else len(log_bin_width_all)
+    my_min_nr_bins = 1 if log_bin_width_all is None else np.size(log_bin_width_all)
     # compute sharpness histogram for isolated triads
     log_hist_prob_isolated_all = histogram_blas_log_spec_edges(
         my_data=np.abs(resonance_sharpness_object.sharpness_isolated),
-- 
2.43.0


From 290c30d71da1373029a2576e762ba4210f1092c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 49/62] fix: numerical derivatives of complex-valued profiles
 can be computed

---
 .../super_coupling_coefficients.py                          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..e884676 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1418,14 +1418,14 @@ class SuperCouplingCoefficient:
                 num_der_list, _num_der_string = differentiator.differentiate(
                     x, y, **kwargs_diff
                 )
+            # log information if necessary (i.e. if verbose printing is enabled, and the logical "print_statement" input variable is True)
+            if print_statement:
+                logger.debug(_num_der_string)
         else:
             logger.error(
                 'Numerical derivation not implemented for other data types! Now exiting.'
             )
             sys.exit()
-        # log information if necessary (i.e. if verbose printing is enabled, and the logical "print_statement" input variable is True)
-        if print_statement:
-            logger.debug(_num_der_string)  # type: ignore
         # return the list containing numerical derivatives
         return num_der_list
 
-- 
2.43.0


From da7dc786ffc118f223152570458d2e7e4e711bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:40 +0000
Subject: [PATCH 50/62] fix: structure common to the modes is taken on the mesh
 to which the modes are interpolated

---
 .../quadratic_coupling_coefficient_rotating.py              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
index 675f26b..a81cbb4 100644
--- a/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
+++ b/aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py
@@ -339,14 +339,16 @@ class QuadraticCouplingCoefficientRotating(CCR):
             store_debug=store_debug,
             analytic_polytrope=analytic_polytrope,
         )
-        # store the common attributes for all the modes
-        super()._extract_common_info_dictionary(my_dict=first_dict)
         # store the mode-dependent information stored in the information dictionaries as attributes
         dict_list: 'list[dict[str, Any]]' = [
             first_dict,
             second_dict,
             third_dict,
         ]
+        # store the common attributes for all the modes, on the (longest) mesh to which the mode profiles are interpolated
+        super()._extract_common_info_dictionary(
+            my_dict=dict_list[np.argmax([_d['n'] for _d in dict_list])]
+        )
         for _i, _dict in enumerate(dict_list):
             super()._extract_mode_dependent_info_dictionary(
                 my_dict=_dict, mode_number=_i + 1
-- 
2.43.0


From d8d494be44289dc787b40513be4406cb9b5a7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 51/62] fix: polytropic structure on a mesh other than that of
 the modes is interpolated

---
 .../super_coupling_coefficients.py             | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index e884676..32bf8a1 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -793,7 +793,7 @@ class SuperCouplingCoefficient:
                     or isinstance(_v, int)
                 ):
                     # no profile --> no interpolation
-                    setattr(self, f'_{_k}', _v)
+                    setattr(self, f'_{_k}_profile', _v)
                 else:
                     # profile --> needs interpolation
                     if self._use_polytropic:
@@ -1206,17 +1206,13 @@ class SuperCouplingCoefficient:
         if interp_necessary:
             # get the attribute
             _my_att = my_dict.get(my_attr)
-            # try interpolation to return GYRE-fitted attribute
-            if typing.TYPE_CHECKING:
-                assert isinstance(_my_att, np.ndarray)
-            if np.isnan(
-                my_interp := np.interp(
-                    self._x, radial_structure_profile, _my_att
-                )
-            ):  # if it is NaN, _my_att is None!
+            # interpolate to return GYRE-fitted attribute
+            if _my_att is None:
                 return None
             else:
-                return my_interp
+                return np.interp(
+                    self._x, radial_structure_profile, _my_att
+                )
         else:
             # no interpolation necessary: directly return attribute
             my_att = my_dict.get(my_attr)
@@ -1239,7 +1235,7 @@ class SuperCouplingCoefficient:
             The dictionary containing the attributes that need to be unpacked and stored in the object.
         """
         # compute the helper normalized radius model grid for possibly necessary interpolations
-        _help_r = self._r_profile / self._R_star
+        _help_r = my_dict['r'] / my_dict['r'].max()
         # check if interpolations are needed
         _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
         # store common kwargs for interpolation
-- 
2.43.0


From 94a8676899d37c4eabc7fdc2de29f3a143b7b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 52/62] fix: density gradient of a polytrope without the
 buoyancy frequency uses the polytropic density

---
 .../coefficient_support_classes/super_coupling_coefficients.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 32bf8a1..29f4c8b 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1054,7 +1054,7 @@ class SuperCouplingCoefficient:
                 _, self._drho = self._compute_der(
                     _grad,
                     x=self._r_profile,
-                    y=self._rho,
+                    y=self._rho_profile,
                     kwargs_diff=kwargs_diff,
                 )
         else:
-- 
2.43.0


From d0ba6c38fbb92a3604a1e27f0f34b54dd119bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 53/62] fix: structure profiles on another mesh with as many
 points are interpolated

---
 .../super_coupling_coefficients.py            | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 29f4c8b..8726596 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -757,7 +757,7 @@ class SuperCouplingCoefficient:
             _exclude_list = []
         # NOTE: have to reverse the MESA data arrays to fit GYRE convention
         # check if length is ok, otherwise perform interpolation
-        if _norm_rad.shape[0] == self._x.shape[0]:
+        if self._is_on_mode_mesh(_norm_rad):
             logger.debug(
                 'NO interpolations needed for POLYTROPIC STRUCTURE profiles.'
                 if self._use_polytropic
@@ -808,6 +808,27 @@ class SuperCouplingCoefficient:
                 else 'Interpolations performed for MESA profiles, where necessary.'
             )
 
+    # method that verifies if a structure mesh is the mesh of the modes
+    def _is_on_mode_mesh(self, norm_radius: 'np.ndarray') -> bool:
+        """Internal initialization method used to verify if the mesh of the structure profiles is the mesh of the mode profiles, so that no interpolation is needed.
+
+        Parameters
+        ----------
+        norm_radius : np.ndarray
+            The normalized radius coordinates of the structure profiles.
+
+        Returns
+        -------
+        bool
+            True if the meshes are the same, False if not.
+        """
+        if norm_radius.shape != self._x.shape:
+            return False
+        # interpolation between meshes of the same size is only possible if radii increase outward
+        return np.allclose(norm_radius, self._x) or bool(
+            np.any(np.diff(norm_radius) <= 0.0)
+        )
+
     # method that sets the normalization factors
     def _set_normalization_factors(
         self, P: 'np.ndarray | float', rho: 'np.ndarray | float'
@@ -1237,7 +1258,7 @@ class SuperCouplingCoefficient:
         # compute the helper normalized radius model grid for possibly necessary interpolations
         _help_r = my_dict['r'] / my_dict['r'].max()
         # check if interpolations are needed
-        _interp_needed = not (_help_r.shape[0] == self._x.shape[0])
+        _interp_needed = not self._is_on_mode_mesh(_help_r)
         # store common kwargs for interpolation
         _common_kwargs = {
             'my_dict': my_dict,
-- 
2.43.0


From 80cfaa4cbe8dec72a8606fbfbf497bf78812a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 54/62] fix: MESA profiles are read with the full extent of
 every column

---
 aesolver/aesolver/model_handling/read_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..423680f 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -140,7 +140,7 @@ class ModelReader:
         # initialize the data dictionary
         my_data = {}
         # open the MESA profile.dat file and read into a dataframe
-        _my_df = pd.read_fwf(file_path, skiprows=5)
+        _my_df = pd.read_csv(file_path, sep=r'\s+', skiprows=5)
         if TYPE_CHECKING:
             assert isinstance(_my_df, pd.DataFrame)
         # read the header information in a pandas series
-- 
2.43.0


From da8108d08d8ed285f25f005b96b2ce712425b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 55/62] fix: a model in which the TAR is valid everywhere is
 one valid zone

---
 aesolver/aesolver/solver/quadratic_profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index d61c496..eb1cb10 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -167,6 +167,12 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
             raise PhysicsError(
                 msg='The modes in the triad are not on the slow manifold (i.e. the absolute values of their quality factors = co-rotating angular mode frequencies / linear driving or damping rates are not all greater than 10.0). This triad cannot be described using amplitude equations!'
             )
+        elif tar_valid.all():
+            # TAR VALID EVERYWHERE: no zone needs to be masked
+            validity_zone_masks = [np.s_[:]]
+            non_validity_indices = []
+            non_validity_zone_masks = []
+            fully_invalid = False
         elif ((start_len := len(_mask_start_validity)) == 0) & (
             (end_len := len(_mask_end_validity)) == 0
         ):
-- 
2.43.0


From 07cc8afda09ce25b32789245e5bf5cd1e113d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 56/62] fix: only what accumulated below a TAR-valid zone is
 removed from it

---
 .../plot_template.py                          | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
index c8d8920..e49caab 100644
--- a/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
+++ b/aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py
@@ -216,6 +216,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
     use_legend: bool = False,
     y_legend_entries: None | list[str] = None,
 ) -> 'tuple[float, float, figure.Figure, list[float]] | tuple[list[float], list[float], figure.Figure, list[list[float]]]':
+    # a TAR-valid core is not preceded by a TAR-invalid zone, so that no contribution is to be removed from it
+    _valid_core = (
+        len(convection_zone_selection_indices) == 0
+        or convection_zone_selection_indices[0][0] > 0
+    )
     # ACTIONS FOR MULTIPLE Y AXIS DATA:
     if isinstance(y_ax_data, list):
         # -- compute contributions due TAR-invalid regions
@@ -231,6 +236,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
         ]
         # get the summed contributions
         _summed_contributions = [np.cumsum(_cont) for _cont in contributions]
+        # get the contributions to be removed from each of the TAR-valid zones
+        _removed_contributions = [
+            np.concatenate(([0.0], _summed)) if _valid_core else _summed
+            for _summed in _summed_contributions
+        ]
         # get the values of the (integrated) y-axis data in the TAR-invalid zones (i.e. the indices of the values right before those zones)
         _y_invalid = [
             [y_ax[x[0]] for x in convection_zone_selection_indices]
@@ -238,7 +248,7 @@ def double_masking_integrated_radial_profile_figure_template_function(
         ]
         # compute a y-profile that masks the core
         _adjusted_core_profile = [np.zeros_like(y_ax) for y_ax in y_ax_data]
-        if not fully_invalid:
+        if not fully_invalid and not _valid_core:
             _core_contribution = [x[0] for x in _summed_contributions]
             _core_mask = [
                 np.s_[convection_zone_selection_indices[0][1] + 1 :]
@@ -266,11 +276,11 @@ def double_masking_integrated_radial_profile_figure_template_function(
                         )
                     else:
                         _adj_tar[_convection_mask] = _conv
-            for _y_ax, _adj_tar, _summed_contrib in zip(
-                y_ax_data, _adjusted_tar_profile, _summed_contributions
+            for _y_ax, _adj_tar, _removed_contrib in zip(
+                y_ax_data, _adjusted_tar_profile, _removed_contributions
             ):
                 for _adjustment_value, _valid_mask in zip(
-                    _summed_contrib, validity_zone_masks
+                    _removed_contrib, validity_zone_masks
                 ):
                     _adj_tar[_valid_mask] = (
                         _y_ax[_valid_mask] - _adjustment_value
@@ -322,9 +332,9 @@ def double_masking_integrated_radial_profile_figure_template_function(
         return (
             [y_ax[-1] for y_ax in y_ax_data],
             [
-                y_ax[-1] - _summed_contrib[-1]
-                for y_ax, _summed_contrib in zip(
-                    y_ax_data, _summed_contributions
+                y_ax[-1] - _removed_contrib[-1]
+                for y_ax, _removed_contrib in zip(
+                    y_ax_data, _removed_contributions
                 )
             ],
             coupling_fig,
@@ -342,13 +352,19 @@ def double_masking_integrated_radial_profile_figure_template_function(
         ]
         # get the summed contributions
         _summed_contributions = np.cumsum(contributions)
+        # get the contributions to be removed from each of the TAR-valid zones
+        _removed_contributions = (
+            np.concatenate(([0.0], _summed_contributions))
+            if _valid_core
+            else _summed_contributions
+        )
         # get the values of the (integrated) y-axis data in the TAR-invalid zones (i.e. the indices of the values right before those zones)
         _y_invalid = [
             y_ax_data[x[0]] for x in convection_zone_selection_indices
         ]
         # compute a y-profile that masks the core
         _adjusted_core_profile = np.zeros_like(y_ax_data)
-        if not fully_invalid:
+        if not fully_invalid and not _valid_core:
             _core_contribution = _summed_contributions[0]
             _core_mask = np.s_[convection_zone_selection_indices[0][1] + 1 :]
             _adjusted_core_profile[_core_mask] = (
@@ -367,7 +383,7 @@ def double_masking_integrated_radial_profile_figure_template_function(
                 else:
                     _adjusted_tar_profile[_convection_mask] = _conv
             for _adjustment_value, _valid_mask in zip(
-                _summed_contributions, validity_zone_masks
+                _removed_contributions, validity_zone_masks
             ):
                 _adjusted_tar_profile[_valid_mask] = (
                     y_ax_data[_valid_mask] - _adjustment_value
@@ -414,7 +430,7 @@ def double_masking_integrated_radial_profile_figure_template_function(
         # return the adjusted integrated y-term value
         return (
             y_ax_data[-1],
-            y_ax_data[-1] - _summed_contributions[-1],
+            y_ax_data[-1] - _removed_contributions[-1],
             coupling_fig,
             contributions,
         )
-- 
2.43.0


From 2555c8e832aa2e83d4be74cc5b36fac4121bace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 57/62] fix: angular kernels of the figures are scaled as their
 labels say

---
 .../angular_kernels/angular_kernel_helper.py        | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index e5d91f9..87bf741 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -193,17 +193,14 @@ class AngularKernelData:
         """
         match (mul_with_mu, div_by_sin):
             case (False, False):
-                my_kernel = my_kernel * multiplying_factor
+                my_kernel *= multiplying_factor
             case (True, False):
-                my_kernel = my_kernel * multiplying_factor * self._mu_vals
+                my_kernel *= multiplying_factor * self._mu_vals
             case (False, True):
-                my_kernel = (
-                    my_kernel * multiplying_factor * self._div_by_sin_scaling
-                )
+                my_kernel *= multiplying_factor * self._div_by_sin_scaling
             case (True, True):
-                my_kernel = (
-                    my_kernel
-                    * multiplying_factor
+                my_kernel *= (
+                    multiplying_factor
                     * self._mu_vals
                     * self._div_by_sin_scaling
                 )
-- 
2.43.0


From d860202106f629ba4fe3d2f325689ee6f37174e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 58/62] fix: kernels of the third term with no sine in their
 label are not divided by it

---
 .../angular_kernels/angular_kernel_helper.py                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
index 87bf741..dca9f38 100644
--- a/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
+++ b/aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py
@@ -466,7 +466,7 @@ class AngularKernelData:
         self.angular_kernel_terms['term_18'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'phi_phi', 'phi_phi'],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_19'] = self._load_angular_kernel_term(
             symmetrized_term_list=[
@@ -475,7 +475,7 @@ class AngularKernelData:
                 'theta_der_ht_theta',
             ],
             mul_with_mu=False,
-            div_by_sin=True,
+            div_by_sin=False,
         )
         self.angular_kernel_terms['term_20'] = self._load_angular_kernel_term(
             symmetrized_term_list=['hr', 'hr', 'theta_der_ht_theta'],
-- 
2.43.0


From 3844d147815ceb5e5374929ad8fd35b31aa2b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:37 +0000
Subject: [PATCH 59/62] fix: plotting and analysis runs find their inlist in
 the repository directory

---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From af5b5a82453ebf980afdc099889a1e5794fcdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:35 +0000
Subject: [PATCH 60/62] fix: angular integrals and norms of Hough functions
 respect the spacing of their mesh

---
 .../rotating_tar_angular/hough_integration.py | 23 +++++++++++++++++--
 .../hough_function/hough_normalizer.py        |  2 +-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
index 271366c..18255b2 100644
--- a/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
+++ b/aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py
@@ -73,6 +73,25 @@ class HoughIntegration(Enum):
         """
         return sum(m_list) == 0
 
+    # method that verifies if the cos(theta) mesh is equally spaced
+    @staticmethod
+    def _equally_spaced(mu: np.ndarray) -> bool:
+        """Internal method that verifies if the cos(theta) mesh is equally spaced. (The Chebyshev mesh of the Hough functions is not.)
+
+        Parameters
+        ----------
+        mu : np.ndarray
+            The cos(theta) mesh.
+
+        Returns
+        -------
+        bool
+            True if the mesh is equally spaced.
+        """
+        return bool(
+            np.allclose(np.diff(mu), mu[1] - mu[0], rtol=1.0e-8, atol=0.0)
+        )
+
     # method that defines chebyshev-gauss quadrature for integrals of type 1: \int_{-1}^{1} (f(x)/sqrt(1-x^2)) dx, which is what we have for angular integrals that are divided by sin(x)!!!
     @staticmethod
     def _chebyshev_gauss_quad(f: 'Callable', order: int = 500) -> float | None:
@@ -212,7 +231,7 @@ class HoughIntegration(Enum):
                 # perform usual integration method
                 regular_result = cni.integrate(
                     num_integ_method,
-                    True,
+                    cls._equally_spaced(_mu_arr),
                     _new_integrand,
                     _mu_arr,
                     nr_omp_threads,
@@ -252,7 +271,7 @@ class HoughIntegration(Enum):
                 # compute integral in mu-space
                 return cni.integrate(
                     num_integ_method,
-                    True,
+                    cls._equally_spaced(_mu_arr),
                     _integrand,
                     _mu_arr,
                     nr_omp_threads,
diff --git a/hough-func-tools/hough_function/hough_normalizer.py b/hough-func-tools/hough_function/hough_normalizer.py
index e83980c..46a7130 100644
--- a/hough-func-tools/hough_function/hough_normalizer.py
+++ b/hough-func-tools/hough_function/hough_normalizer.py
@@ -137,7 +137,7 @@ class HoughNormalizer(Enum):
         _integrand = hr**2.0
         # compute the normalization integral numerically
         _norm_integral = cni.integrate(
-            'trapz', True, _integrand, mu, nr_omp_threads, use_parallel
+            'trapz', False, _integrand, mu, nr_omp_threads, use_parallel
         )
         # use that value to compute and return the normalizing (multiplicative) factor
         return 1.0 / np.sqrt(2.0 * np.pi * _norm_integral)
-- 
2.43.0


From 87bb6df96ad07b89cef4884e300e177af862172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:14 +0000
Subject: [PATCH 61/62] fix: disc integrals respect the spacing of the mu mesh

---
 .../disc_integrator/disc_integrals.cpp         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cpp-disc-integrator/disc_integrator/disc_integrals.cpp b/cpp-disc-integrator/disc_integrator/disc_integrals.cpp
index 2047bad..973795a 100644
--- a/cpp-disc-integrator/disc_integrator/disc_integrals.cpp
+++ b/cpp-disc-integrator/disc_integrator/disc_integrals.cpp
@@ -73,14 +73,28 @@ void DiscIntegration::compute_ld_function(string ldfunction_string) {
   my_ld.compute();
 };
 
+/**
+ * @brief Verify if the mesh is equally spaced (the Chebyshev mesh of the Hough
+ * functions is not).
+ */
+static bool equally_spaced(const vector<double> &mesh) {
+  for (size_t i = 2; i < mesh.size(); i++) {
+    double first = mesh[1] - mesh[0];
+    if (fabs(mesh[i] - mesh[i - 1] - first) > (1.0e-8 * fabs(first))) {
+      return false;
+    }
+  }
+  return true;
+}
+
 /**
  * @brief Perform integration based on selection string.
  */
 double DiscIntegration::perform_integration(vector<double> &my_integrand) {
   // create a numerical integrator object
   NumericalDoubleInputIntegrator my_num_inter(
-      this->vecsize, my_integrand.data(), this->mymus_b.data(), true,
-      this->integration_string, this->numthreads, this->paral);
+      this->vecsize, my_integrand.data(), this->mymus_b.data(),
+      equally_spaced(this->mymus_b), this->integration_string, this->numthreads, this->paral);
   // switch statement between the different integrations
   return my_num_inter.integrate();
 };
-- 
2.43.0


From 2704e9c93dd3d1321dbac56b601f4c2ca3d59f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:37 +0000
Subject: [PATCH 62/62] fix: tables of eigenvalues of negative azimuthal and
 ordering numbers are found

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index ec90460..9d15d6b 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -106,7 +106,7 @@ class GyreLambdas:
         str
             The string representing the sign of the input number.
         """
-        return f'+{number}' if (number >= 0) else f'-{number}'
+        return f'+{number}' if (number >= 0) else f'{number}'
 
     @staticmethod
     def get_k(degree, azimuthal):
-- 
2.43.0

