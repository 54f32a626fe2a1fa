From 21f93468f57cdb1a30f07203f26df5b314a15282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:01 +0000
Subject: [PATCH 01/62] fix: apply postproc_substitution_dict to CSE
 temporaries without assigning into a tuple

---
 nrpy/c_codegen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..ec977ae 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -592,8 +592,12 @@ def c_codegen(
                 )
             else:
                 if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
+                    common_subexpression = (
+                        common_subexpression[0],
+                        apply_substitution_dict(
+                            common_subexpression[1],
+                            CCGParams.postproc_substitution_dict,
+                        ),
                     )
                 outstring += (
                     full_type_string
-- 
2.43.0


From a7f4b7f71adb939539d67b4428aa29c3d3e9f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 02/62] fix: declare _Integer_1 for SIMD negative half-integer
 powers

---
 nrpy/helpers/simd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..c5ceb1f 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -338,6 +338,15 @@ def expr_convert_to_simd_intrins(
         if func == Pow:
             one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
+            if exponent in (-Rational(1, 2), -Rational(3, 2), -Rational(5, 2)):
+                # DivSIMD(one, ...) below needs _Integer_1 to be declared.
+                try:
+                    map_rat_to_sym[sympify(1)]
+                except KeyError:
+                    symbol_to_Rational_dict[one], map_rat_to_sym[sympify(1)] = (
+                        S.One,
+                        one,
+                    )
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
-- 
2.43.0


From 4b022457c76ab89eb6b7dd4227b4fc6b11d8d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 03/62] fix: keep _NegativeOne_ declared when SIMD common
 subexpressions use it

---
 nrpy/c_codegen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index ec977ae..1ba90e2 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -628,7 +628,9 @@ def c_codegen(
                     CCGParams.symbol_to_Rational_dict,
                     varprefix,
                     CCGParams.simd_find_more_FMAsFMSs,
-                    clean_NegativeOnes_after_processing=CCGParams.simd_clean_NegativeOnes_after_processing,
+                    clean_NegativeOnes_after_processing=CCGParams.simd_clean_NegativeOnes_after_processing
+                    # Common subexpressions output above may still use _NegativeOne_:
+                    and f"{varprefix}_NegativeOne_" not in outstring,
                     debug=CCGParams.simd_debug,
                 )
                 outstring += f"{varnames_excluding_SCALAR_TMPs[i]} = {simd_expr};\n"
-- 
2.43.0


From 2cbd8501656642a39cd70b6733ba0f6a4ec40152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:33 +0000
Subject: [PATCH 04/62] fix: declare _Integer_1 when (-1)**2 collapses during
 SIMD CSE preprocessing

---
 nrpy/helpers/cse_preprocess_postprocess.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/helpers/cse_preprocess_postprocess.py b/nrpy/helpers/cse_preprocess_postprocess.py
index 4f9eea6..3caaac5 100644
--- a/nrpy/helpers/cse_preprocess_postprocess.py
+++ b/nrpy/helpers/cse_preprocess_postprocess.py
@@ -220,6 +220,15 @@ def cse_preprocess(
                         )
                         tree.build(subtree)
                         changed_expr = True
+                        # _One_ must be declared if it has just been introduced
+                        if (
+                            subtree.expr == _One_
+                            and map_rat_to_sym.get(sp.S.One) is None
+                        ):
+                            symbol_to_Rational_dict[_One_], map_rat_to_sym[sp.S.One] = (
+                                sp.S.One,
+                                _One_,
+                            )
             if changed_expr:
                 expr = tree.reconstruct()
 
-- 
2.43.0


From 527bb93cd1a63878af5ae6bafb41a9e656b98c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:25 +0000
Subject: [PATCH 05/62] fix: keep SIMD finite-difference outputs in scope when
 no gridfunction is read

---
 nrpy/c_codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index 1ba90e2..a6e9ec9 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -1181,6 +1181,7 @@ const REAL_SIMD_ARRAY upwind_Integer_{n} = ConstSIMD(tmp_upwind_Integer_{n});
     kwargs_FDPart3.update(
         {
             "cse_varprefix": "FDPart3",
+            "include_braces": False,
         }
     )
 
-- 
2.43.0


From 36e91ad6a8c30b1ee396257afdf20ec5d2161c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:55 +0000
Subject: [PATCH 06/62] fix: give diagnostic_output_gfs2 storage when
 MoL_method is Euler

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..22589e2 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -135,6 +135,9 @@ def generate_gridfunction_names(
                 # Allocate memory for diagonal Butcher tables that aren't Euler
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
+            else:
+                # Euler needs no k_i, but diagnostic_output_gfs2 needs storage.
+                non_y_n_gridfunctions_list.append("k_odd_gfs")
             diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
             diagnostic_gridfunctions2_point_to = "k_odd_gfs"
 
-- 
2.43.0


From fc8b73449cd6dd8ab9eaec7fb1a40bf8a03248e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:55 +0000
Subject: [PATCH 07/62] fix: keep SymTP Cart_to_xx[1] finite at the equator

The closed form in terms of rSph, thSph subtracts nearly equal numbers; on the
equatorial plane (odd Nxx1) the sqrt argument could become negative, giving NaN
and an out-of-bounds read in bcstruct_set_up().
---
 nrpy/reference_metric.py | 42 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 34 deletions(-)

diff --git a/nrpy/reference_metric.py b/nrpy/reference_metric.py
index 1e59528..4669969 100644
--- a/nrpy/reference_metric.py
+++ b/nrpy/reference_metric.py
@@ -1172,24 +1172,11 @@ class ReferenceMetric:
                 * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
-            # The sign() function in the following expression ensures the correct root is taken.
+            # z = sqrt(AA^2 + bScale^2) * cos(xx1), where AA = Cart_to_xx[0]. Unlike the equivalent closed form in terms of
+            #   rSph and thSph, this has no cancellation that would make acos() see a NaN at the equator.
             self.Cart_to_xx[1] = sp.acos(
-                sp.sign(self.Cartz)
-                * (
-                    sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
-                        )
-                        / bScale**2
-                    )
-                    * SQRT1_2
-                )
-            )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
+                self.Cartz / sp.sqrt(self.Cart_to_xx[0] ** 2 + bScale**2)
+            )
 
             self.Cart_to_xx[2] = phSph
 
@@ -1221,24 +1208,11 @@ class ReferenceMetric:
                 * SQRT1_2
             )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
 
-            # The sign() function in the following expression ensures the correct root is taken.
+            # z = sqrt(AA^2 + bScale^2) * cos(xx1), where AA = Cart_to_xx[0]. Unlike the equivalent closed form in terms of
+            #   rSph and thSph, this has no cancellation that would make acos() see a NaN at the equator.
             self.Cart_to_xx[1] = sp.acos(
-                sp.sign(self.Cartz)
-                * (
-                    sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
-                        )
-                        / bScale**2
-                    )
-                    * SQRT1_2
-                )
-            )  # SQRT1_2 = 1/sqrt(2); define this way for UnitTesting
+                self.Cartz / sp.sqrt(self.Cart_to_xx[0] ** 2 + bScale**2)
+            )
 
             self.Cart_to_xx[2] = phSph
         else:
-- 
2.43.0


From 69cadaeeb0a087e2b47df6f3c8c7907ac5193149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:55 +0000
Subject: [PATCH 08/62] fix: keep radiation-BC partial_r x^i finite on the
 z-axis of Cartesian-like grids

Jac_dUrfm_dDSphUD[i][0] evaluates to 0/0 at x=y=0, so Cartesian grids with odd
Nxx0 and Nxx1 got NaN right-hand sides on the z faces.
---
 .../CurviBoundaryConditions.py                      | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
index 7f7afde..31371e3 100644
--- a/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py
@@ -880,14 +880,15 @@ def setup_Cfunction_r_and_partial_xi_partial_r_derivs(
     const REAL xx0,const REAL xx1,const REAL xx2,    REAL *r,
     REAL *partial_x0_partial_r,REAL *partial_x1_partial_r,REAL *partial_x2_partial_r"""
     rfm = refmetric.reference_metric[CoordSystem]
+    # As x^i are orthogonal coordinates, partial_r x^i = (partial_i r) / h_i^2. This is identical to
+    #    Jac_dUrfm_dDSphUD[i][0], but remains finite on the z-axis in Cartesian-like coordinates.
     # sp.simplify(expr) is too slow here for SinhCylindrical
+    partial_xi_partial_r = [
+        sp.diff(rfm.xxSph[0], rfm.xx[i]) / rfm.scalefactor_orthog[i] ** 2
+        for i in range(3)
+    ]
     body = ccg.c_codegen(
-        [
-            rfm.xxSph[0],
-            rfm.Jac_dUrfm_dDSphUD[0][0],
-            rfm.Jac_dUrfm_dDSphUD[1][0],
-            rfm.Jac_dUrfm_dDSphUD[2][0],
-        ],
+        [rfm.xxSph[0]] + partial_xi_partial_r,
         [
             "*r",
             "*partial_x0_partial_r",
-- 
2.43.0


From 53884b19dfc1dc799e6c862eef56ff7f48928d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:14 +0000
Subject: [PATCH 09/62] fix: balance braces in
 Cart_to_xx_and_nearest_i0i1i2_global_grid_center()

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..6199a59 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,8 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
 """
+    body += "  {\n"
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
-- 
2.43.0


From 57c575b68120b541a8e6138460654ce7c18ee46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 10/62] fix: apply command-line parameter overrides even if the
 parfile sets nothing

The overrides sat inside the loop over parfile lines, so an empty (or
fully unrecognized) parameter file made the program ignore them silently.
---
 .../BHaH/cmdline_input_and_parfiles.py             | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..96f0138 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -598,12 +598,14 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             fprintf(stderr, "Error: Unknown parameter index for %s.\n", param_name);
             exit(1);
         }
+      }
     }
-}
+  } // END WHILE LOOP over all lines in the file
+  fclose(file); // Close the parameter file.
 
-    // Handling options 3 and 4: Overwriting steerable parameters
-    if (option == 3 || option == 4) {
-        // For options 3 and 4, we extract the last arguments as steerable parameters
+  // Handling options 3 and 4: Overwriting steerable parameters
+  if (option == 3 || option == 4) {
+    // For options 3 and 4, we extract the last arguments as steerable parameters
 """
     # Handle steerable parameters overwriting
     steerable_body = ""
@@ -623,9 +625,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 steerable_body += f'        read_boolean(argv[argc - number_of_steerable_parameters + {i}], &commondata->{key}, "{key}");\n'
     body += steerable_body
     body += """
-    } // END IF (option == 3 || option == 4)
-  } // END WHILE LOOP over all lines in the file
-  fclose(file); // Close the parameter file.
+  } // END IF (option == 3 || option == 4)
 """
 
     # Register the C function with the constructed components
-- 
2.43.0


From 114114932206e28d0b5f7ad42e449d5b63459363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 11/62] fix: bound the array-size field when parsing parfile
 parameter names

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 96f0138..68bf7c5 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -258,6 +258,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
     }
     char size_str[16];
     size_t size_len = bracket_end - bracket_start - 1;
+    if (size_len >= sizeof(size_str)) {
+      fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
+      exit(1);
+    }
     strncpy(size_str, bracket_start + 1, size_len);
     size_str[size_len] = '\0';
     *array_size = atoi(size_str);
-- 
2.43.0


From 8ddc181252c85bbb91e2d5dc057906d345096ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 12/62] fix: reject parfile integers that do not fit in an int

They were silently truncated from long to int.
---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 68bf7c5..c7e4d75 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -324,7 +324,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val < INT_MIN || int_val > INT_MAX) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
@@ -639,6 +639,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             "<string.h>",
             "<ctype.h>",
             "<errno.h>",
+            "<limits.h>",
             "<stdbool.h>",
         ],
         prefunc=prefunc,
-- 
2.43.0


From 56cbd3911a5ce966b8f692bd6a3bafc9ff4a5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 13/62] fix: read bool parameters from parameter files

bool parameters are written to the default parameter file, but the
generated parser did not recognize them, and a bool among the
command-line inputs referred to an undefined read_boolean().
---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index c7e4d75..ec13b68 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY, PARAM_BOOL } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -572,6 +575,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From 9514e0cb0f5af61f5b27c49ae5c07350dceee566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 14/62] fix: accept parfile array values longer than 127
 characters

The generated default parameter file of an array parameter with more than
about 25 elements was rejected by the generated parser.
---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index ec13b68..220bfa9 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -298,12 +298,12 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char *saveptr;
     val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
+      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
+      count++;
       val_token = strtok_r(NULL, ",", &saveptr);
     }
     *value_count = count;
@@ -473,7 +473,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE];
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
-- 
2.43.0


From c025036059c0625d5c800a478c786fbfb7c4e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 15/62] fix: do not cut parfile values at an embedded equals
 sign

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 220bfa9..c61bbb6 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -488,7 +488,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     char *p = strtok(line, "=");
     if (p) {{
       safe_copy(param, trim_space(p), sizeof(param));
-      p = strtok(NULL, "=");
+      p = strtok(NULL, ""); // The value is everything after the first '='
       if (p) {{
         safe_copy(value, trim_space(p), sizeof(value));
 
-- 
2.43.0


From b096d04460eef87cd82aee5d210f448a124f68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:15 +0000
Subject: [PATCH 16/62] fix: do not parse the tail of an overlong parfile
 comment as a new line

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index c61bbb6..abe1d9c 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -478,6 +478,17 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   // Iterate through each line of the parameter file.
   while (fgets(line, sizeof(line), file)) {{
+    // If the line does not fit in the buffer, discard the rest of it; only comments may be that long.
+    if (strchr(line, '\n') == NULL && !feof(file)) {{
+      if (strchr(line, '#') == NULL) {{
+        fprintf(stderr, "Error: Line exceeds maximum length in parameter file.\n");
+        exit(1);
+      }}
+      int c;
+      while ((c = fgetc(file)) != '\n' && c != EOF)
+        ;
+    }}
+
     // Remove comments from the line.
     char *comment_start = strchr(line, '#');
     if (comment_start != NULL) {{
-- 
2.43.0


From 69123f66bc75567a10df7ee8df6e2c668d7aabb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 17/62] fix: generate CarpetX BSSN RHSs from any working
 directory

register_CFunction_rhs_eval() always compared against trusted files located
relative to the working directory, so it raised outside the repository root
and wrote new trusted files inside it, even with validate_expressions=False.
---
 .../CarpetX/general_relativity/rhs_eval.py        | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index cfadab8..0a9f584 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -324,19 +324,10 @@ def register_CFunction_rhs_eval(
         betaU[i] = vetU[i] * rfm.ReU[i]
 
     # Perform validation of BSSN_RHSs against trusted version.
-    results_dictionary = ve.process_dictionary_of_expressions(
-        local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
-    )
     if validate_expressions:
-        return results_dictionary
-    ve.compare_or_generate_trusted_results(
-        os.path.abspath(__file__),
-        os.getcwd(),
-        # File basename. If this is set to "trusted_module_test1", then
-        #   trusted results_dict will be stored in tests/trusted_module_test1.py
-        f"{os.path.splitext(os.path.basename(__file__))[0]}_{LapseEvolutionOption}_{ShiftEvolutionOption}_{CoordSystem}_T4munu{enable_T4munu}_KO{enable_KreissOliger_dissipation}_improvements{enable_SSL}",
-        results_dictionary,
-    )
+        return ve.process_dictionary_of_expressions(
+            local_BSSN_RHSs_varname_to_expr_dict, fixed_mpfs_for_free_symbols=True
+        )
 
     body += lp.simple_loop(
         loop_body=ccg.c_codegen(
-- 
2.43.0


From 920ed21ec500e5e35069ea5cb8e041895198fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 18/62] fix: write cache files atomically

A crash while a cache file was being written, or another process reading it
at that moment, left a truncated pickle that made every later run fail.
---
 nrpy/helpers/cached_functions.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..8ad0e07 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,7 +11,9 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
+import tempfile
 from pathlib import Path
 from typing import Any, cast
 
@@ -64,6 +66,23 @@ def NRPy_params_checksum() -> str:
     return get_hash(str(pickle.dumps(dict(sorted(par.glb_params_dict.items())))))
 
 
+def _write_atomically(path: Path, data: Any) -> None:
+    """
+    Pickle data into path, so that other processes see either no file or a complete one.
+
+    :param path: The cache file path.
+    :param data: The data to be written to the cache.
+    """
+    fd, tmp_name = tempfile.mkstemp(dir=str(path.parent), prefix=path.name)
+    try:
+        with os.fdopen(fd, "wb") as file:
+            pickle.dump(data, file)
+        os.replace(tmp_name, path)
+    except BaseException:
+        os.unlink(tmp_name)
+        raise
+
+
 def is_cached(unique_id: str) -> bool:
     """
     Check if the file with the given unique ID exists in cache.
@@ -110,9 +129,7 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    _write_atomically(cache_file(unique_id), data)
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +158,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            _write_atomically(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From 86e2d8fd3722b88a93d0074111b695dcddc0e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 19/62] fix: keep griddata members that parallel codegen
 workers add to the same module

---
 nrpy/helpers/parallel_codegen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/helpers/parallel_codegen.py b/nrpy/helpers/parallel_codegen.py
index ec351e5..0756417 100644
--- a/nrpy/helpers/parallel_codegen.py
+++ b/nrpy/helpers/parallel_codegen.py
@@ -90,6 +90,10 @@ def deep_update(d: Dict[Any, Any], u: Dict[Any, Any]) -> None:
         if isinstance(v, dict):
             d[k] = d.get(k, {})
             deep_update(d[k], v)
+        elif isinstance(v, list) and isinstance(d.get(k), list):
+            # Lists (e.g., of griddata_struct members) may have been extended by several workers.
+            known = [getattr(item, "__dict__", item) for item in d[k]]
+            d[k] += [x for x in v if getattr(x, "__dict__", x) not in known]
         else:
             d[k] = v
 
-- 
2.43.0


From a0de36f3e1e2c12914683a4fa28983bcb197dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 20/62] fix: do not overwrite a file with partial content when
 its generation fails

---
 nrpy/helpers/conditional_file_updater.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index a89dc80..3d6db70 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -77,6 +77,10 @@ class ConditionalFileUpdater:
         :param exception_value: Exception value if an exception was raised within the context.
         :param traceback: Traceback object if an exception was raised within the context.
         """
+        if exception_type is not None:
+            # Generation failed part way: leave the existing file alone.
+            return
+
         print(f"Checking {self.fname}...", end="")
         new_content = self.fd.getvalue()
         if self.do_format:
-- 
2.43.0


From 1fe3f8521832d1ea363a4134c728d21e750f8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:54 +0000
Subject: [PATCH 21/62] fix: merge parallel codegen results in registration
 order

They were merged in completion order, so that e.g. the order of griddata_struct
members in BHaH_defines.h changed from run to run.
---
 nrpy/helpers/parallel_codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/helpers/parallel_codegen.py b/nrpy/helpers/parallel_codegen.py
index 0756417..3f4d53e 100644
--- a/nrpy/helpers/parallel_codegen.py
+++ b/nrpy/helpers/parallel_codegen.py
@@ -255,7 +255,10 @@ def do_parallel_codegen() -> None:
             ],
         )
 
-    unpack_NRPy_environment_dict(dict(NRPy_environment_to_unpack))
+    # Unpack in registration order, so that the result does not depend on which worker finishes first.
+    unpack_NRPy_environment_dict(
+        {key: NRPy_environment_to_unpack[key] for key in ParallelCodeGen_dict}
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b1615682bfdb68812fabc593375b7da66b62f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 22/62] fix: keep parameter changes made by a parallel codegen
 task when other tasks are unpacked

---
 nrpy/helpers/parallel_codegen.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nrpy/helpers/parallel_codegen.py b/nrpy/helpers/parallel_codegen.py
index 3f4d53e..98861c2 100644
--- a/nrpy/helpers/parallel_codegen.py
+++ b/nrpy/helpers/parallel_codegen.py
@@ -218,7 +218,21 @@ def wrapper_func(args: Tuple[Dict[str, Any], str, Any]) -> Any:
     start_time = time.time()
     try:
         # logging.debug(f"Starting task with key: {key}")
+        params_before = [
+            {name: dict(vars(param)) for name, param in params_dict.items()}
+            for params_dict in (par.glb_params_dict, par.glb_code_params_dict)
+        ]
         result = parallel_function_call(value)
+        # Pass on only those parameters that this task registered or changed; otherwise
+        # unpacking this task's stale copies would undo changes made by other tasks.
+        result = tuple(
+            {
+                name: param
+                for name, param in params_dict.items()
+                if before.get(name) != vars(param)
+            }
+            for before, params_dict in zip(params_before, result[:2])
+        ) + tuple(result[2:])
         # logging.debug(f"Task {key} completed: {result}")
         shared_dict[key] = result
         funcname_args = value.function_name
-- 
2.43.0


From 39888cfcfd58bf256b16005c6429b301b4430ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 23/62] fix: create a generated file even if its content is
 blank, and replace one holding undecodable bytes

---
 nrpy/helpers/conditional_file_updater.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index 3d6db70..43035d1 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -86,14 +86,20 @@ class ConditionalFileUpdater:
         if self.do_format:
             new_content = clang_format(new_content)
 
-        # Determine if the file exists and read its content if it does.
+        # Determine if the file exists and read its content if it does. Bytes that
+        # cannot be decoded (e.g., left by an interrupted write) never match.
         old_content = ""
-        if os.path.exists(self.fname):
-            with open(self.fname, encoding=self.encoding) as file_descriptor:
+        file_exists = os.path.exists(self.fname)
+        if file_exists:
+            with open(
+                self.fname, encoding=self.encoding, errors="replace"
+            ) as file_descriptor:
                 old_content = file_descriptor.read()
 
         # Decide whether to write based on a comparison of stripped content.
-        should_write = new_content.strip() != old_content.strip()
+        should_write = (
+            not file_exists or new_content.strip() != old_content.strip()
+        )
 
         if should_write:
             if verbose:
-- 
2.43.0


From 37b3da7338350b3f2739cf6ef483a4ea5973ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 24/62] fix: leave the caller's list of CFLAGS alone when
 writing a shared library's Makefile

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 902f91d..4ddf553 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -98,7 +98,8 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
                 addl_CFLAGS = []
             for flag in ["-fPIC", "-shared"]:
                 if flag not in addl_CFLAGS:
-                    addl_CFLAGS.append(flag)
+                    # Do not modify the caller's list.
+                    addl_CFLAGS = addl_CFLAGS + [flag]
     else:
         if os_name not in ["Linux", "Darwin"]:
             raise ValueError(f"Unsupported operating system: {os_name}")
-- 
2.43.0


From 8aa76b79c18bab4fd7d472012d76e47f71a41e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 25/62] fix: name object files after their sources even in
 directories whose name contains the source extension

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 4ddf553..901938c 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -155,7 +155,7 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
     # Object files
     OBJ_FILES_str = "OBJ_FILES = " + " ".join(
-        c_file.replace(f".{src_code_file_ext}", ".o")
+        str(Path(c_file).with_suffix(".o"))
         for c_file in sorted(Makefile_list_of_files, key=str.lower)
     )
 
-- 
2.43.0


From aa8656614c2c85e99c50c0680957c58579f97f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:50 +0000
Subject: [PATCH 26/62] fix: use the requested C compiler, which make's
 predefined CC used to override

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 901938c..5f171ea 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -199,7 +199,11 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
     Makefile_str = (
         rf"CC = {CC}  # Locally overwrites CC to {CC}\n"
         if CC == "nvcc"
-        else f"CC ?= {CC}  # assigns the value CC to {CC} only if environment variable CC is not already set\n"
+        else f"""# Set CC to {CC} only if it is not already set. (CC ?= {CC} would never do so, as make predefines CC.)
+ifeq ($(origin CC),default)
+CC = {CC}
+endif
+"""
     )
     Makefile_str += f"""
 CFLAGS = {CFLAGS_dict[compiler_opt_option]}
-- 
2.43.0


From 762fa5625bfa1d5953e3324b604a186172f1993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:18 +0000
Subject: [PATCH 27/62] fix: zero only derivatives across symmetry axes, not
 every quantity with _d in its name

---
 nrpy/indexedexp.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/nrpy/indexedexp.py b/nrpy/indexedexp.py
index e57bbf6..fb97b35 100644
--- a/nrpy/indexedexp.py
+++ b/nrpy/indexedexp.py
@@ -5,6 +5,7 @@ Authors: Zachariah Etienne, Kenneth Sible, Steven Brandt
 """
 
 # Step 1: Load needed modules
+import re
 import string
 import sys  # Standard Python module for multiplatform OS-level functions
 from typing import Any, List, Optional, Sequence, Tuple, Union, cast
@@ -546,24 +547,17 @@ def zero_out_derivatives_across_symmetry_axes(
         )
 
     def performs_derivative_across_symmetry_axis(idxobj_str: str) -> bool:
-        if "_d" in idxobj_str:
-            # First we find the order of the derivative:
-            deriv_order = 1
-            for i in range(len(idxobj_str) - 1):
-                if idxobj_str[i : i + 2] == "_d":
-                    # The order of the derivative is given by the number of D's in a row after the _d:
-                    if "DDD" in idxobj_str[i + 2 :]:
-                        raise ValueError(
-                            f"Error. Derivative order > 2 not supported. Failed expression: {idxobj_str}"
-                        )
-                    if "DD" in idxobj_str[i + 2 :]:
-                        deriv_order = 2
-            end_idx_of_idxobj_str = len(idxobj_str) - 1
-            for j in range(
-                end_idx_of_idxobj_str, end_idx_of_idxobj_str - deriv_order, -1
-            ):
-                if idxobj_str[j] in symmetry_axes:
-                    return True
+        # A derivative's name ends in, e.g., _dD1, _dDD12, _dupD0, or _dKOD2. Any other
+        #   "_d" is just part of the name (e.g., of my_dataU0).
+        deriv = re.search(r"_d(?:KO|(?:full)?(?:up|dn))?(D+)\d+$", idxobj_str)
+        if deriv:
+            # The order of the derivative is given by the number of D's:
+            deriv_order = len(deriv.group(1))
+            if deriv_order > 2:
+                raise ValueError(
+                    f"Error. Derivative order > 2 not supported. Failed expression: {idxobj_str}"
+                )
+            return any(idx in symmetry_axes for idx in idxobj_str[-deriv_order:])
         return False
 
     if rank == 1:
-- 
2.43.0


From 6466fc3a0f9fe303666c4f2be237f40ca92b0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:37 +0000
Subject: [PATCH 28/62] fix: register all components of a rank-1 gridfunction
 whatever its dimension

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..ba8c5dd 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -890,7 +890,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From cdacc9a0f140237ed200985447b0d053f7097042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:37 +0000
Subject: [PATCH 29/62] fix: give four-vector components the parity of a scalar
 and a three-vector

---
 nrpy/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index ba8c5dd..2392c3b 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -204,7 +204,10 @@ class GridFunction:
                     if gf.rank == 0:
                         parity_type.append(0)
                     elif gf.rank == 1:
-                        parity_type.append(int(gf.name[-1]) + 1)
+                        # In 4 dimensions, component 0 is a scalar & components 1, 2, 3 form a vector.
+                        parity_type.append(
+                            int(gf.name[-1]) + (0 if gf.dimension == 4 else 1)
+                        )
                     elif gf.rank == 2:
                         idx0 = gf.name[-2]
                         idx1 = gf.name[-1]
-- 
2.43.0


From 93387b4c29bdfc0496096c301e44a959425c5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 30/62] fix: register rank-N gridfunctions in component order
 instead of set order

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index 2392c3b..8ca8562 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -1065,7 +1065,7 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(set(map(str, flat_list)))
+    unique_gf_list = list(dict.fromkeys(map(str, flat_list)))
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From 808496acf2c6822c4c4f12e05a71b587338bc692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 31/62] fix: register only the independent components of
 antisymmetric gridfunctions

---
 nrpy/grid.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index 8ca8562..c5f6a57 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -940,12 +940,10 @@ def register_gridfunctions_for_single_rank2(
     gf_list: List[str] = []
     for i in range(dimension):
         for j in range(dimension):
-            save = True
-            for gf in gf_list:
-                if gf == str(IDX_OBJ_TMP[i][j]):
-                    save = False
-            if save:
-                gf_list.append(str(IDX_OBJ_TMP[i][j]))
+            # Components may be zero or minus another component, e.g., in antisymmetric tensors.
+            for sym in sp.sympify(IDX_OBJ_TMP[i][j]).free_symbols:
+                if str(sym) not in gf_list:
+                    gf_list.append(str(sym))
 
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 2.
@@ -1065,7 +1063,13 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(dict.fromkeys(map(str, flat_list)))
+    # Components may be zero or minus another component, e.g., in antisymmetric tensors;
+    #    each independent component is a gridfunction.
+    unique_gf_list = list(
+        dict.fromkeys(
+            str(sym) for item in flat_list for sym in sp.sympify(item).free_symbols
+        )
+    )
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From eb032e812a97ec6ad4d881bb91097de983212e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:55 +0000
Subject: [PATCH 32/62] fix: reject unknown gridfunction groups in ETLegacy,
 which would silently drop the gridfunction

---
 nrpy/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index c5f6a57..24a6ddf 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -480,6 +480,7 @@ class ETLegacyGridFunction(GridFunction):
             is_basename,
         )
         _gf_array_name = gf_array_name
+        self.verify_gridfunction_group_is_valid()
 
     def verify_gridfunction_group_is_valid(self) -> None:
         """
-- 
2.43.0


From 6ef5e9a9cd3bec65fbd520f89fe1315c250f0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:56 +0000
Subject: [PATCH 33/62] fix: refuse gridfunctions whose names differ only in
 case, which silently shared one index in BHaH

---
 nrpy/grid.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index 24a6ddf..5671376 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -408,6 +408,7 @@ class BHaHGridFunction(GridFunction):
         and the values should be instances of classes derived from GridFunction.
 
         :return: The resulting string representation of the GridFunction definitions.
+        :raises ValueError: If the names of two gridfunctions differ only in case.
         """
 
         def define_gfs(name: str, gfs: List[str]) -> str:
@@ -430,6 +431,17 @@ class BHaHGridFunction(GridFunction):
             auxevol_variables_list,
         ) = BHaHGridFunction.gridfunction_lists()
 
+        # Gridfunction macros are upper case; names differing only in case would share one.
+        gf_of_macro: Dict[str, str] = {}
+        for gf_name in (
+            evolved_variables_list + auxiliary_variables_list + auxevol_variables_list
+        ):
+            other_gf_name = gf_of_macro.setdefault(gf_name.upper(), gf_name)
+            if other_gf_name != gf_name:
+                raise ValueError(
+                    f"Gridfunctions {other_gf_name} and {gf_name} differ only in case, so both would be {gf_name.upper()}GF in the C code; rename one."
+                )
+
         outstr = f"{define_gfs('EVOL', evolved_variables_list)}"
 
         if evolved_variables_list:
-- 
2.43.0


From c25ebd74e426c4629ce027478b73cffd70981959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:43 +0000
Subject: [PATCH 34/62] fix: do not leak the evolved gridfunctions when
 restarting from a checkpoint

---
 nrpy/infrastructures/BHaH/checkpointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..ae853ea 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -78,6 +78,8 @@ def register_CFunction_read_checkpoint(
     FREAD(out_data_indices, sizeof(int), count, cp_file);
     FREAD(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
 
+    // y_n_gfs have already been allocated; free them first so as not to leak memory.
+    MoL_free_memory_y_n_gfs(&griddata[grid].gridfuncs);
     MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 #pragma omp parallel for
     for (int i = 0; i < count; i++) {
-- 
2.43.0


From 53ac4250b11359632d60d14bed62e4cca8a516b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:05 +0000
Subject: [PATCH 35/62] fix: keep the previous checkpoint if writing a new one
 fails or is interrupted

---
 nrpy/infrastructures/BHaH/checkpointing.py | 43 ++++++++++++++++------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index ae853ea..d852775 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -130,6 +130,9 @@ def register_CFunction_write_checkpoint(
         "REAL", __name__, "checkpoint_every", default_checkpoint_every, commondata=True
     )
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
+    prefunc = r"""
+#define FWRITE(ptr, size, nmemb, stream) { if (fwrite((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) write_failed = true; }
+"""
     desc = "Write a checkpoint file"
     cfunc_type = "void"
     name = "write_checkpoint"
@@ -145,22 +148,31 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
-  fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
+  // Write to a temporary file, and rename it to the checkpoint file only once it is complete. Thus
+  //   if writing fails or is interrupted, the previous checkpoint is still there to restart from.
+  char tmp_filename[256 + 4];
+  snprintf(tmp_filename, sizeof(tmp_filename), "%s.tmp", filename);
+  bool write_failed = false;
+  FILE *cp_file = fopen(tmp_filename, "w+");
+  if (cp_file == NULL) {
+    fprintf(stderr, "WARNING: could not open %s; NOT writing a checkpoint.\n", tmp_filename);
+    return;
+  }
+  FWRITE(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
     if enable_bhahaha:
         body += r"""
   for (int i = 0; i < commondata->bah_num_horizons; i++) {
-    fwrite(&commondata->bhahaha_params_and_data[i], sizeof(bhahaha_params_and_data_struct), 1, cp_file);
-    fwrite(commondata->bhahaha_params_and_data[i].prev_horizon_m1, sizeof(REAL), 64 * 32, cp_file);
-    fwrite(commondata->bhahaha_params_and_data[i].prev_horizon_m2, sizeof(REAL), 64 * 32, cp_file);
-    fwrite(commondata->bhahaha_params_and_data[i].prev_horizon_m3, sizeof(REAL), 64 * 32, cp_file);
+    FWRITE(&commondata->bhahaha_params_and_data[i], sizeof(bhahaha_params_and_data_struct), 1, cp_file);
+    FWRITE(commondata->bhahaha_params_and_data[i].prev_horizon_m1, sizeof(REAL), 64 * 32, cp_file);
+    FWRITE(commondata->bhahaha_params_and_data[i].prev_horizon_m2, sizeof(REAL), 64 * 32, cp_file);
+    FWRITE(commondata->bhahaha_params_and_data[i].prev_horizon_m3, sizeof(REAL), 64 * 32, cp_file);
   }
 """
     body += r"""
   for(int grid=0; grid<commondata->NUMGRIDS; grid++) {
-    fwrite(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
+    FWRITE(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
     const int ntot = ( griddata[grid].params.Nxx_plus_2NGHOSTS0*
                        griddata[grid].params.Nxx_plus_2NGHOSTS1*
                        griddata[grid].params.Nxx_plus_2NGHOSTS2 );
@@ -175,7 +187,7 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
     for(int i=0;i<ntot;i++) {
       if(maskval >= +0) count++;
     }
-    fwrite(&count, sizeof(int), 1, cp_file);
+    FWRITE(&count, sizeof(int), 1, cp_file);
 
     int  *restrict out_data_indices = (int  *restrict)malloc(sizeof(int)                 * count);
     REAL *restrict compact_out_data = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * count);
@@ -189,19 +201,26 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
       }
     }
     //printf("HEY which_el = %d | count = %d\n", which_el, count);
-    fwrite(out_data_indices, sizeof(int) , count               , cp_file);
-    fwrite(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
+    FWRITE(out_data_indices, sizeof(int) , count               , cp_file);
+    FWRITE(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
     free(out_data_indices); free(compact_out_data);
     MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 #pragma omp parallel for
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
-  fclose(cp_file);
-  fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
+  if (fclose(cp_file) != 0)
+    write_failed = true;
+  if (write_failed || rename(tmp_filename, filename) != 0) {
+    fprintf(stderr, "WARNING: could not write checkpoint file %s; keeping the previous one, if any.\n", filename);
+    remove(tmp_filename);
+  } else {
+    fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
+  }
 }
 """
     cfc.register_CFunction(
         includes=includes,
+        prefunc=prefunc,
         desc=desc,
         cfunc_type=cfunc_type,
         name=name,
-- 
2.43.0


From 286646229a32d076ee3ddcf620932463ca0e54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:49 +0000
Subject: [PATCH 36/62] fix: refuse to restart from an incomplete checkpoint or
 one written for another grid

---
 nrpy/infrastructures/BHaH/checkpointing.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index d852775..ff4b040 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -28,7 +28,8 @@ def register_CFunction_read_checkpoint(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     prefunc = r"""
-#define FREAD(ptr, size, nmemb, stream) { MAYBE_UNUSED const int numitems=fread((ptr), (size), (nmemb), (stream)); }
+#define CHECKPOINT_ERROR(msg) { fprintf(stderr, "ERROR: cannot restart from checkpoint file %s: %s.\n", filename, msg); exit(1); }
+#define FREAD(ptr, size, nmemb, stream) { if (fread((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) CHECKPOINT_ERROR("it is incomplete or unreadable"); }
 """
     desc = "Read a checkpoint file"
     cfunc_type = "int"
@@ -45,8 +46,13 @@ def register_CFunction_read_checkpoint(
     return 0;
 
   FILE *cp_file = fopen(filename, "r");
+  if (cp_file == NULL)
+    CHECKPOINT_ERROR("could not open it");
+  const int NUMGRIDS = commondata->NUMGRIDS;
   FREAD(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
+  if (commondata->NUMGRIDS != NUMGRIDS)
+    CHECKPOINT_ERROR("it was written by a different program or with different parameters");
 """
     if enable_bhahaha:
         body += r"""
@@ -62,10 +68,17 @@ def register_CFunction_read_checkpoint(
 """
     body += r"""
   for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
+    // Grid coordinates, boundary conditions, etc., have been set up for this many points:
+    const int N0 = griddata[grid].params.Nxx_plus_2NGHOSTS0;
+    const int N1 = griddata[grid].params.Nxx_plus_2NGHOSTS1;
+    const int N2 = griddata[grid].params.Nxx_plus_2NGHOSTS2;
     FREAD(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
 
     int count;
     FREAD(&count, sizeof(int), 1, cp_file);
+    if (griddata[grid].params.Nxx_plus_2NGHOSTS0 != N0 || griddata[grid].params.Nxx_plus_2NGHOSTS1 != N1 ||
+        griddata[grid].params.Nxx_plus_2NGHOSTS2 != N2 || count < 0 || count > N0 * N1 * N2)
+      CHECKPOINT_ERROR("it was written by a different program or with different parameters");
 
     int *restrict out_data_indices = (int *restrict)malloc(sizeof(int) * count);
     REAL *restrict compact_out_data = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * count);
@@ -90,6 +103,8 @@ def register_CFunction_read_checkpoint(
     free(out_data_indices);
     free(compact_out_data);
   }
+  if (fgetc(cp_file) != EOF)
+    CHECKPOINT_ERROR("it was written by a different program or with different parameters");
   fclose(cp_file);
   fprintf(stderr, "FINISHED WITH READING\n");
 
-- 
2.43.0


From fa5de3cd5b001916da01f68ae5b8af0847403baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:48 +0000
Subject: [PATCH 37/62] fix: reject spin-weighted harmonics with |m|>l instead
 of returning those of a larger l

---
 .../special_functions/spin_weight_minus2_spherical_harmonics.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py b/nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py
index 5622045..9e52558 100644
--- a/nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py
+++ b/nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py
@@ -78,6 +78,7 @@ def register_CFunction_spin_weight_minus2_sph_harmonics() -> (
             body += "       }\n"
             body += "      return;\n"
         body += f"    }}  // END switch(l == {l})\n"
+        body += "    break;\n"
     body += "  } // END switch blocks\n"
     body += rf"""
   fprintf(stderr, "ERROR: SpinWeight_minus2_SphHarmonics handles only l=[0,swm2sh_maximum_l_mode_generated={swm2sh_maximum_l_mode_generated}] and only m=[-l,+l] is defined.\n");
-- 
2.43.0


From 77f48f07eac69b6af13986bb652ef2e299fa3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:53 +0000
Subject: [PATCH 38/62] fix: make a Lorentz boost with zero velocity the
 identity instead of 0/0

---
 nrpy/equations/general_relativity/LorentzBoost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/equations/general_relativity/LorentzBoost.py b/nrpy/equations/general_relativity/LorentzBoost.py
index 6e9dc1d..5c42843 100644
--- a/nrpy/equations/general_relativity/LorentzBoost.py
+++ b/nrpy/equations/general_relativity/LorentzBoost.py
@@ -63,8 +63,9 @@ class LorentzBoost:
         # Step 2.c: Compute LorentzMatrix[i + 1][j + 1]
         for i in range(3):
             for j in range(i, 3):
+                # (gamma-1)/v^2 = gamma^2/(gamma+1), which is well defined at v=0
                 LorentzMatrix[i + 1][j + 1] = (
-                    (gamma_lorentz - 1) * vBoost[i] * vBoost[j] / vBoost2
+                    gamma_lorentz**2 / (gamma_lorentz + 1) * vBoost[i] * vBoost[j]
                 )
                 if i == j:  # Add 1 to diagonal term
                     LorentzMatrix[i + 1][j + 1] += sp.sympify(1)
-- 
2.43.0


From 48bacc4a4a2581f31d8fe9b3e76310d14242b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 39/62] fix: no ETA before the first time step (inf to int
 conversion), no division by output_progress_every=0

---
 .../BHaH/diagnostics/progress_indicator.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
index 2330bf8..fb56f2c 100644
--- a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
+++ b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
@@ -82,7 +82,7 @@ def register_CFunction_progress_indicator(
     body += """
   // Proceed only if progress output is enabled (output_progress_every > 0)
   // and the current iteration (nn) is a multiple of the output frequency (output_progress_every)
-  if (! (commondata->output_progress_every >= 0 && (commondata->nn % commondata->output_progress_every == 0)) )
+  if (! (commondata->output_progress_every > 0 && (commondata->nn % commondata->output_progress_every == 0)) )
     return;"""
     if compute_ETA:
         body += """
@@ -93,16 +93,16 @@ def register_CFunction_progress_indicator(
   const REAL seconds_elapsed = time_in_ns / 1e9;
   const REAL phys_time_per_sec = (commondata->time - commondata->t_0) / seconds_elapsed;
   // const REAL RHS_pt_evals_per_sec = num_RHS_pt_evals / (time_in_ns / 1.0e9);
-  const REAL seconds_remaining = (int)((commondata->t_final - commondata->time) / phys_time_per_sec);
-  int time_remaining__hrs  = (int)(seconds_remaining / 3600.0);
-  int time_remaining__mins = (int)(seconds_remaining / 60.0) % 60;
-  int time_remaining__secs = (int)(seconds_remaining) - time_remaining__mins * 60 - time_remaining__hrs * 3600;
-  if (commondata->nn == 0) {
-    // Just display zeros for ETA at the zeroth iteration
-    time_remaining__hrs = 0;
-    time_remaining__mins = 0;
-    time_remaining__secs = 0;
-  }"""
+  // Just display zeros for ETA until the solution has advanced in time; at
+  // the first iteration phys_time_per_sec is zero.
+  REAL seconds_remaining = 0.0;
+  if (commondata->time > commondata->t_0) {
+    // Upper bound ensures the ETA can be stored in an int.
+    seconds_remaining = fmin((commondata->t_final - commondata->time) / phys_time_per_sec, 2.0e9);
+  }
+  const int time_remaining__hrs  = (int)(seconds_remaining / 3600.0);
+  const int time_remaining__mins = (int)(seconds_remaining / 60.0) % 60;
+  const int time_remaining__secs = (int)(seconds_remaining) - time_remaining__mins * 60 - time_remaining__hrs * 3600;"""
 
     body += rf"""
   // Output simulation progress:
-- 
2.43.0


From 7dc96ed8b93e9690d7205b922b79a3eadf7e499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:34 +0000
Subject: [PATCH 40/62] fix: SEOBNRv5 unwrap must not read before the start of
 its arrays

---
 .../BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
index e7c1f0a..0c629ca 100644
--- a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
@@ -33,7 +33,7 @@ def register_CFunction_SEOBNRv5_aligned_spin_unwrap() -> Union[None, pcg.NRPyEnv
     body = """
 angles_out[0] = angles_in[0];
 REAL diff;
-for (size_t i = 0; i < nsteps_arr; i++){
+for (size_t i = 1; i < nsteps_arr; i++){
   diff = angles_in[i] - angles_in[i-1];
   diff = fabs(diff) > M_PI ? (diff < - M_PI ? diff + 2 * M_PI : diff - 2 * M_PI) : diff;
   angles_out[i] = angles_out[i - 1] + diff;
-- 
2.43.0


From 37e913d5d1cc1ddf1885465d157c3e419d8f5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:14 +0000
Subject: [PATCH 41/62] fix: free the orbital-frequency array in the SEOBNRv5
 NQC corrections

---
 .../BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
index 0c629ca..57e33e9 100644
--- a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
@@ -256,6 +256,7 @@ free(Q3);
 free(P1);
 free(P2);
 free(r);
+free(Omega);
 free(hamp);
 free(phase);
 free(phase_unwrapped);
-- 
2.43.0


From b7dfd5bd4abbe8c00c389eed92f1d23b4819c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:43 +0000
Subject: [PATCH 42/62] fix: use the limit of the spherical Gaussian wave at
 the origin instead of 0/0

---
 .../wave_equation/wave_equation_C_codegen_library.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py b/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py
index e467260..580327b 100644
--- a/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py
@@ -72,6 +72,18 @@ def register_CFunction_exact_solution_single_Cartesian_point(
         verbose=False,
         include_braces=False,
     )
+    if WaveType == "SphericalGaussian":
+        # The spherical Gaussian is 0/0 at the origin; use its limit there.
+        body_r0 = ccg.c_codegen(
+            [exactsoln.uu_exactsoln_r0, exactsoln.vv_exactsoln_r0],
+            ["*exact_soln_UUGF", "*exact_soln_VVGF"],
+            verbose=False,
+            include_braces=False,
+        )
+        body = f"""if(xCart0*xCart0 + xCart1*xCart1 + xCart2*xCart2 > 1e-20) {{
+{body}}} else {{
+{body_r0}}}
+"""
     cfc.register_CFunction(
         includes=includes,
         desc=desc,
-- 
2.43.0


From aa8716c2b5fbe7da3cbd0f9c7e147bbd166dc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:48 +0000
Subject: [PATCH 43/62] fix: 1D output along an axis without grid points must
 not write to zero-length arrays

---
 nrpy/infrastructures/BHaH/simple_loop.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/simple_loop.py b/nrpy/infrastructures/BHaH/simple_loop.py
index 9b69c29..578d074 100644
--- a/nrpy/infrastructures/BHaH/simple_loop.py
+++ b/nrpy/infrastructures/BHaH/simple_loop.py
@@ -324,11 +324,14 @@ def simple_loop_1D(
         or (i1_pts and i1_pts[0] == -1)
         or (i2_pts and i2_pts[0] == -1)
     ):
-        numpts = [0, 0, 0]
-    else:
-        numpts[0] = len(i0_pts) if i0_pts else Nxx[0]
-        numpts[1] = len(i1_pts) if i1_pts else Nxx[1]
-        numpts[2] = len(i2_pts) if i2_pts else Nxx[2]
+        # No points to output: declaring (and writing to) zero-length arrays is undefined behavior in C.
+        return (
+            "",
+            f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n",
+        )
+    numpts[0] = len(i0_pts) if i0_pts else Nxx[0]
+    numpts[1] = len(i1_pts) if i1_pts else Nxx[1]
+    numpts[2] = len(i2_pts) if i2_pts else Nxx[2]
 
     pragma = "#pragma omp parallel for\n"
     out_string = f"""// Define points for output along the {axis}-axis in {CoordSystem} coordinates.
@@ -356,10 +359,6 @@ dp1d.xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
     for i in range(3):
         if numpts[i] == Nxx[i]:
             out_string += f"{pragma}for(int i{i}=NGHOSTS; i{i}<Nxx{i} + NGHOSTS; i{i}++) i{i}_pts[i{i}-NGHOSTS] = i{i};\n"
-        elif numpts == [0, 0, 0] and i == 0:
-            out_string += (
-                f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
-            )
         else:
             for j, pt in enumerate(i012_pts[i]):
                 out_string += f"i{i}_pts[{j}] = (int)({sp.ccode(pt)});\n"
-- 
2.43.0


From e0fd1d5f32e40f0936ce09c2b73eb01a16cbac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:07 +0000
Subject: [PATCH 44/62] fix: report an unsupported Cart_to_xx inversion instead
 of returning (0,0,0)

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 6199a59..bf4feb7 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -66,7 +66,13 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartz -= Cart_originz;
 """
     body += "  {\n"
-    if "theta_adj" in CoordSystem:
+    if all(expr == 0 for expr in rfm.Cart_to_xx):
+        # E.g., SinhSphericalv2n2: no closed-form inverse is available.
+        body += f"""
+  fprintf(stderr, "Error: {name}() does not support CoordSystem = {CoordSystem}, as it has no closed-form Cart_to_xx.\\n");
+  exit(1);
+"""
+    elif "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
             ["xx[0]", "const REAL target_th", "xx[2]"],
-- 
2.43.0


From e2bb37338bb50f1084863fd14fa8e4bd05527317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:12 +0000
Subject: [PATCH 45/62] fix: pass lapse and shift to psi4_tetrad(), which
 use_metric_to_construct_unit_normal needs

---
 .../BHaH/general_relativity/psi4_C_codegen_library.py       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py b/nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py
index 5d8ee59..a743c13 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py
@@ -83,6 +83,10 @@ psi4_tetrad(commondata, params,
     in_gfs[IDX4pt(HDD11GF, idx3)],
     in_gfs[IDX4pt(HDD12GF, idx3)],
     in_gfs[IDX4pt(HDD22GF, idx3)],
+    in_gfs[IDX4pt(ALPHAGF, idx3)],
+    in_gfs[IDX4pt(VETU0GF, idx3)],
+    in_gfs[IDX4pt(VETU1GF, idx3)],
+    in_gfs[IDX4pt(VETU2GF, idx3)],
     &mre4U0,&mre4U1,&mre4U2,&mre4U3,&mim4U0,&mim4U1,&mim4U2,&mim4U3,&n4U0,&n4U1,&n4U2,&n4U3,
     xx, i0,i1,i2);
 
@@ -224,6 +228,8 @@ def register_CFunction_psi4_tetrad(
     list_of_metricvarnames = ["cf"] + [
         f"hDD{i}{j}" for i in range(3) for j in range(i, 3)
     ]
+    # alpha and vetU are used only if use_metric_to_construct_unit_normal=True.
+    list_of_metricvarnames += ["alpha"] + [f"vetU{i}" for i in range(3)]
     params += ", ".join([f"const REAL {var}" for var in list_of_metricvarnames])
     params += ", " + ", ".join([f"REAL {var}" for var in list_of_vrnms])
     params += ", REAL *restrict xx[3], const int i0, const int i1, const int i2"
-- 
2.43.0


From 96e714946abe6f4703e93df0125eb3a5ae8c3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:51 +0000
Subject: [PATCH 46/62] fix: declare invdxx in the non-SIMD ETLegacy Ricci and
 constraint kernels

---
 .../ETLegacy/general_relativity/BSSN_constraints.py          | 5 ++++-
 .../ETLegacy/general_relativity/Ricci_eval.py                | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 3cb2fbf..067526c 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -70,7 +70,10 @@ def register_CFunction_BSSN_constraints(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
index 680dfbe..922f590 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
@@ -66,7 +66,10 @@ def register_CFunction_Ricci_eval(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
-- 
2.43.0


From 40c9746345c534652e852c6118e6f5d46b432202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:51 +0000
Subject: [PATCH 47/62] fix: ET thorns request the parameter PI exactly when
 they use it

---
 .../CarpetX/general_relativity/BSSN_constraints.py        | 7 +++++--
 .../CarpetX/general_relativity/rhs_eval.py                | 8 +++++---
 .../ETLegacy/general_relativity/BSSN_constraints.py       | 7 +++++--
 .../ETLegacy/general_relativity/rhs_eval.py               | 8 +++++---
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
index a680ad5..6c4fd92 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
@@ -58,11 +58,14 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTSX_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 
 """
diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 0a9f584..0bf1fbe 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -94,10 +94,12 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
         if enable_CAKO:
             body += f"""
@@ -367,7 +369,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 067526c..430b557 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -61,11 +61,14 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTS_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 
 """
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 4666531..51683a1 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -98,10 +98,12 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
     else:
         body += """
@@ -408,7 +410,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
-- 
2.43.0


From aa2114d0c09fb008e1182577cc7775d163b9d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:51 +0000
Subject: [PATCH 48/62] fix: list the dissipation strengths of ET thorns only
 if dissipation is enabled

---
 .../CarpetX/general_relativity/rhs_eval.py               | 9 +++++----
 .../ETLegacy/general_relativity/rhs_eval.py              | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 0bf1fbe..27175d8 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -358,10 +358,11 @@ if(FD_order == {fd_order}) {{
 """
 
     params = ["eta", "FD_order"]
-    if enable_CAKO:
-        params += ["diss_strength_gauge", "diss_strength_nongauge"]
-    else:
-        params += ["diss_strength"]
+    if enable_KreissOliger_dissipation:
+        if enable_CAKO:
+            params += ["diss_strength_gauge", "diss_strength_nongauge"]
+        else:
+            params += ["diss_strength"]
     if enable_SSL:
         params += ["SSL_h", "SSL_sigma"]
     if enable_CAHD:
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 51683a1..bf77743 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -399,10 +399,11 @@ if(FD_order == {fd_order}) {{
 """
 
     params = ["eta", "FD_order"]
-    if enable_CAKO:
-        params += ["diss_strength_gauge", "diss_strength_nongauge"]
-    else:
-        params += ["diss_strength"]
+    if enable_KreissOliger_dissipation:
+        if enable_CAKO:
+            params += ["diss_strength_gauge", "diss_strength_nongauge"]
+        else:
+            params += ["diss_strength"]
     if enable_SSL:
         params += ["SSL_h", "SSL_sigma"]
     if enable_CAHD:
-- 
2.43.0


From cbff9374544a5e75542ae45dbca16f10d2201b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:00 +0000
Subject: [PATCH 49/62] fix: the conformal factor phi tends to 0, not 1, at
 infinity

---
 nrpy/equations/general_relativity/BSSN_quantities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/equations/general_relativity/BSSN_quantities.py b/nrpy/equations/general_relativity/BSSN_quantities.py
index 15c0f52..88f6afc 100644
--- a/nrpy/equations/general_relativity/BSSN_quantities.py
+++ b/nrpy/equations/general_relativity/BSSN_quantities.py
@@ -76,9 +76,13 @@ class BSSNQuantities:
             )
 
             # Step 2.b: Register scalar quantities, using gri.register_gridfunctions()
+            #            At infinity W = chi = 1, but phi = 0.
+            cf_infinity = (
+                0.0 if par.parval_from_str("EvolvedConformalFactor_cf") == "phi" else 1.0
+            )
             self.trK, self.cf, self.alpha = gri.register_gridfunctions(
                 ["trK", "cf", "alpha"],
-                f_infinity=[0.0, 1.0, 1.0],
+                f_infinity=[0.0, cf_infinity, 1.0],
                 wavespeed=[1.0, 1.0, sp.sqrt(2.0)],
             )
 
-- 
2.43.0


From 6c563c6bd7578a43708ddfbbe65520d022cf98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:38 +0000
Subject: [PATCH 50/62] fix: attach the BOB ringdown to the inspiral without a
 phase jump

The loop that aligns the ringdown phase overwrote ringdown_phase[0], the reference
it subtracts, in its first iteration.
---
 .../BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
index 57e33e9..fbb1685 100644
--- a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
@@ -454,8 +454,9 @@ for(i = 0; i < nsteps_ringdown; i++){
 }
 status = BOB_aligned_spin_waveform_from_times(ringdown_time,ringdown_amp,ringdown_phase,nsteps_ringdown,commondata);
 const REAL true_sign = phase_match /  fabs(phase_match);
+const REAL ringdown_phase_start = ringdown_phase[0];
 for(i = 0; i < nsteps_ringdown; i++){
-  ringdown_phase[i] = true_sign * fabs(ringdown_phase[i] - ringdown_phase[0]) + phase_match;
+  ringdown_phase[i] = true_sign * fabs(ringdown_phase[i] - ringdown_phase_start) + phase_match;
 }
 commondata->nsteps_IMR = idx_match + 1 + nsteps_ringdown;
 commondata->waveform_IMR = malloc(NUMMODES * commondata->nsteps_IMR*sizeof(REAL));
-- 
2.43.0


From 8d178a490d7fe976bc59a2801fcadc652e229f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:12 +0000
Subject: [PATCH 51/62] fix: do not truncate the inspiral to whole M when
 resampling it

The cast applied to the duration, not to the number of samples, so up to 1M of the
inspiral, including the attachment point, could be dropped.
---
 .../BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
index fbb1685..8277fc3 100644
--- a/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py
@@ -330,7 +330,7 @@ def register_CFunction_SEOBNRv5_aligned_spin_interpolate_modes() -> (
     body = """
 size_t i;
 const size_t nsteps_inspiral_old = commondata->nsteps_inspiral;
-const size_t nsteps_new = (size_t) (commondata->waveform_inspiral[IDX_WF(commondata->nsteps_inspiral - 1,TIME)] - commondata->waveform_inspiral[IDX_WF(0,TIME)]) / dT;
+const size_t nsteps_new = (size_t) ((commondata->waveform_inspiral[IDX_WF(commondata->nsteps_inspiral - 1,TIME)] - commondata->waveform_inspiral[IDX_WF(0,TIME)]) / dT);
 // build the complex inspiral modes
 REAL *restrict times_old = (REAL *)malloc(nsteps_inspiral_old * sizeof(REAL));
 REAL *restrict orbital_phases = (REAL *)malloc(nsteps_inspiral_old * sizeof(REAL));
-- 
2.43.0


From b3eb85c368dfc138b53122b866e77c9fff4fdb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:24 +0000
Subject: [PATCH 52/62] fix: give NRPyPN each black hole's own spin

NRPyPN_quasicircular_momenta() maps the less massive hole to NRPyPN's object 1,
but fed object 1 the spin of the more massive hole and vice versa.
---
 .../NRPyPN_quasicircular_momenta.py                  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py b/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
index 262f004..96f8cc8 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
@@ -96,12 +96,12 @@ if(commondata->initial_p_t == -1.0 && commondata->initial_p_r == -1.0) {
     // In NRPyPN, q = m2/m1 = mass_M/mass_m. So mass_m = object 1, and mass_M is object 2.
     const REAL q = commondata->mass_ratio;
     const REAL r = commondata->initial_sep;
-    const REAL chi1U0 = commondata->bbhxy_BH_M_chix;
-    const REAL chi1U1 = commondata->bbhxy_BH_M_chiy;
-    const REAL chi1U2 = commondata->bbhxy_BH_M_chiz;
-    const REAL chi2U0 = commondata->bbhxy_BH_m_chix;
-    const REAL chi2U1 = commondata->bbhxy_BH_m_chiy;
-    const REAL chi2U2 = commondata->bbhxy_BH_m_chiz;
+    const REAL chi1U0 = commondata->bbhxy_BH_m_chix;
+    const REAL chi1U1 = commondata->bbhxy_BH_m_chiy;
+    const REAL chi1U2 = commondata->bbhxy_BH_m_chiz;
+    const REAL chi2U0 = commondata->bbhxy_BH_M_chix;
+    const REAL chi2U1 = commondata->bbhxy_BH_M_chiy;
+    const REAL chi2U2 = commondata->bbhxy_BH_M_chiz;
 
     const REAL mass_M =   q / (1.0 + q);
     const REAL mass_m = 1.0 / (1.0 + q);
-- 
2.43.0


From bafcce045c389923817e8b31c56cdc8b81b054d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:24 +0000
Subject: [PATCH 53/62] fix: apply TwoPunctures' center_offset along the line
 joining the punctures

center_offset is given in the TwoPunctures frame (punctures on its x axis), but
TP_Interp() subtracted it after rotating to the destination frame, displacing
unequal-mass binaries perpendicular to the line joining them.
---
 .../BHaH/general_relativity/TwoPunctures/TP_interp.py  | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
index 625a4eb..6037abd 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
@@ -116,12 +116,10 @@ static inline void swap(REAL *restrict const a, REAL *restrict const b) {
   // z_dest = x_src; x_dest = y_src; y_dest = z_src
   REAL xx, yy, zz;
   {
-    const REAL x_dest = x - ID_persist->center_offset[0];
-    const REAL y_dest = y - ID_persist->center_offset[1];
-    const REAL z_dest = z - ID_persist->center_offset[2];
-    xx = z_dest;
-    yy = x_dest;
-    zz = y_dest;
+    // center_offset is specified in the (unrotated) TwoPunctures frame.
+    xx = z - ID_persist->center_offset[0];
+    yy = x - ID_persist->center_offset[1];
+    zz = y - ID_persist->center_offset[2];
   }
 
   // We implement swapping the x and z coordinates as follows.
-- 
2.43.0


From 4cafd13a2e4062d1928f689f574abbcae007b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:51 +0000
Subject: [PATCH 54/62] fix: keep TOVola's interpolation stencil off the
 refined points near the surface

The solver's radial step drops abruptly by a factor 10^4 near the surface.
Lagrange stencils straddling that jump are ill-conditioned on its coarse side, so
a shell of the star received metric and lapse values with errors near 1%.
---
 .../BHaH/general_relativity/TOVola/TOVola_interp.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py b/nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py
index 7a748a2..2673738 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py
@@ -83,6 +83,19 @@ static void TOVola_TOV_interpolate_1D(REAL rr_iso, const commondata_struct *rest
     //  -> idxmin at most can be R_idx - commondata->interpolation_stencil_size + 1
     idxmin = MIN(idxmin, R_idx - commondata->interpolation_stencil_size + 1);
 
+    // -= Do not allow the interpolation stencil to extend into points sampled far more densely than those around rr_iso =-
+    //    The radial sampling is refined abruptly near the star's surface; a Lagrange stencil straddling the
+    //    refinement is hopelessly ill-conditioned on its coarse side.
+    {
+      const int idx_lo = (r_iso_arr[idx_mid] > rr_iso) ? MAX(0, idx_mid - 1) : MIN(idx_mid, R_idx - 1);
+      const REAL dr_iso_local = r_iso_arr[idx_lo + 1] - r_iso_arr[idx_lo];
+      int idxmax = idxmin + commondata->interpolation_stencil_size - 1;
+      while (idxmin > 0 && idxmax > idx_lo + 1 && r_iso_arr[idxmax] - r_iso_arr[idxmax - 1] < 0.1 * dr_iso_local) {
+        idxmin--;
+        idxmax--;
+      }
+    }
+
     // Ensure that commondata->interpolation_stencil_size does not exceed the maximum
     if (commondata->interpolation_stencil_size > commondata->max_interpolation_stencil_size) {
       fprintf(stderr, "Interpolation stencil size exceeds maximum allowed.\n");
-- 
2.43.0


From f7446e7ece06646319e4119df2a5f427943d7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:50 +0000
Subject: [PATCH 55/62] fix: weight NRPyElliptic's residual norm with the
 volume element

compute_L2_norm_of_gridfunction() used det(gammahat) where the variable
sqrtdetgamma, and a volume integral, require its square root.
---
 .../BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py   | 2 +-
 .../superB/nrpyelliptic/conformally_flat_C_codegen_library.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
index 1d7e383..84d2a0b 100644
--- a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -368,7 +368,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const DOUBLE r",
diff --git a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
index e2f64f7..a991233 100644
--- a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -11,6 +11,8 @@ from inspect import currentframe as cfr
 from types import FrameType as FT
 from typing import Dict, Tuple, Union, cast
 
+import sympy as sp
+
 import nrpy.c_codegen as ccg
 import nrpy.c_function as cfc
 import nrpy.helpers.parallel_codegen as pcg
@@ -45,7 +47,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const REAL r",
-- 
2.43.0


From 954c46e03ba31a2b2fd0589f608f513feb7a1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 56/62] fix: superB takes nonlocal inner boundary data from
 each source chare in turn

A chare counted messages from any source, so the data a fast source chare
had already sent for the next stage could be taken in place of the data
of a slower one.
---
 nrpy/infrastructures/superB/timestepping_chare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index bb09298..a84d0de 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -51,7 +51,8 @@ def generate_process_nonlocalinnerbc_code() -> str:
     return """
       if (griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares > 0) {
         for (iter = 0; iter < griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares; iter++) {
-          when receiv_nonlocalinnerbc_data(int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
+          // One message from each source chare: a faster source chare may already have sent its data for a later stage.
+          when receiv_nonlocalinnerbc_data[griddata_chare[grid].nonlocalinnerbcstruct.idx3_of_src_chares[iter]](int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
             serial {
               set_tmpBuffer_innerbc_receiv(src_chare_idx3, len_tmpBuffer, tmpBuffer, grid);
               type_gfs_nonlocal_innerbc = type_gfs;
-- 
2.43.0


From 35e270f25cedb16830f2d28358a5c7cce2db4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 57/62] fix: pack superB's maps from chares to inner-boundary
 partners in full

They have one entry per chare, but only as many entries as there are
source (destination) chares were saved and restored.
---
 nrpy/infrastructures/superB/superB/superB_pup.py | 16 +++++++++-------
 .../superB/superB_pup_function_prototypes.h      |  4 ++--
 .../infrastructures/superB/timestepping_chare.py |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..fe7193c 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -378,16 +378,18 @@ void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const para
 }
 
 // PUP routine for struct nonlocalinnerbc_struct
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const commondata_struct &commondata) {
+  // idx3chare_to_src_chare_id and idx3chare_to_dst_chare_id have an entry for every chare
+  const int tot_num_chares = commondata.Nchare0 * commondata.Nchare1 * commondata.Nchare2;
   p | nonlocal.tot_num_src_chares;
   p | nonlocal.tot_num_dst_chares;
   if (p.isUnpacking()) {
     nonlocal.idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
-    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
+    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
 
     nonlocal.idx3_of_dst_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
-    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
+    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_tosend_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
 
     nonlocal.map_srcchare_and_srcpt_id_to_linear_id = (int **)malloc(sizeof(int *) * nonlocal.tot_num_src_chares);
@@ -396,11 +398,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
     nonlocal.globalidx3_srcpts_tosend = (int **)malloc(sizeof(int *) * nonlocal.tot_num_dst_chares);
   }
   PUParray(p, nonlocal.idx3_of_src_chares, nonlocal.tot_num_src_chares);
-  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_src_chares);
+  PUParray(p, nonlocal.idx3chare_to_src_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_each_chare, nonlocal.tot_num_src_chares);
 
   PUParray(p, nonlocal.idx3_of_dst_chares, nonlocal.tot_num_dst_chares);
-  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_dst_chares);
+  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_tosend_each_chare, nonlocal.tot_num_dst_chares);
 
   for (int src_chare = 0; src_chare < nonlocal.tot_num_src_chares; src_chare++) {
@@ -438,7 +440,7 @@ void pup_griddata(PUP::er &p, griddata_struct &gd) {
 
 // PUP routine for struct griddata_chare
 // For unpacking order is important, unpacked structs are used for unpacking the subsequent structs
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params) {
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const commondata_struct &commondata) {
 
   pup_params_struct(p, gd.params);
 
@@ -457,7 +459,7 @@ void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &pa
 
   pup_bc_struct(p, gd.bcstruct);
 
-  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct);
+  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct, commondata);
 
   pup_MoL_gridfunctions_struct(p, gd.gridfuncs, gd.params);
 
diff --git a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
index e83da9e..cdb1832 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
+++ b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
@@ -9,7 +9,7 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &mol_gfs,
 void pup_charecomm_struct(PUP::er &p, charecomm_struct &cc, const params_struct &params, const params_struct &params_chare);
 void pup_diagnostic_struct(PUP::er &p, diagnostic_struct &ds, const int num_diagnostics_chare);
 void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const params_struct &params, const nonlocalinnerbc_struct &nonlocalinnerbc);
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal);
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const commondata_struct &commondata);
 void pup_griddata(PUP::er &p, griddata_struct &gd);
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params);
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const commondata_struct &commondata);
 
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index a84d0de..d85cc89 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -250,7 +250,7 @@ void Timestepping::pup(PUP::er &p) {
     griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   }
   for (int i = 0; i < commondata.NUMGRIDS; i++) {
-    pup_griddata_chare(p, griddata_chare[i], griddata[i].params);
+    pup_griddata_chare(p, griddata_chare[i], griddata[i].params, commondata);
   }
   p | is_boundarychare;
   p | time_start;
-- 
2.43.0


From 9f2e12387e58480f51478dcc6e6f59e77c068f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 58/62] fix: superB must not initialise a zero-length array

A chare without nonlocal inner boundary points zeroed the first element
of an array of length 0.
---
 nrpy/infrastructures/superB/CurviBoundaryConditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/CurviBoundaryConditions.py b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
index 818d30b..a500f5e 100644
--- a/nrpy/infrastructures/superB/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
@@ -207,7 +207,7 @@ def register_CFunction_bcstruct_chare_set_up(CoordSystem: str) -> None:
       nonlocalinnerbcstruct->globalidx3_srcpts[src_chare_id] = (int *restrict)malloc(sizeof(int) * nonlocalinnerbcstruct->num_srcpts_each_chare[src_chare_id]);
     }
     // Set globalidx3_srcpts and bcstruct_chare->inner_bc_array_nonlocal
-    int count_nonlocalinnerbc_srcpt_each_src_chare[nonlocalinnerbcstruct->tot_num_src_chares] = {0};
+    int count_nonlocalinnerbc_srcpt_each_src_chare[nonlocalinnerbcstruct->tot_num_src_chares + 1] = {0}; // never of length zero
     for (int pt = 0; pt < bcstruct->bc_info.num_inner_boundary_points; pt++) {
       const int dstpt = bcstruct->inner_bc_array[pt].dstpt;
       const int srcpt = bcstruct->inner_bc_array[pt].srcpt;
-- 
2.43.0


From 6f421bc2b50bd7a865f8f620d685f0b47a94a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 59/62] fix: superB's psi4 diagnostics start out empty

Without psi4 diagnostics the lengths and pointers that checkpointing and
the destructor use were never set.
---
 nrpy/infrastructures/superB/timestepping_chare.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index d85cc89..9692b98 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -654,6 +654,15 @@ Timestepping::Timestepping(CommondataObject &&inData) {
   // Step 1.c: Allocate NUMGRIDS griddata arrays, each containing data specific to an individual grid.
   griddata = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
+  // The psi4 diagnostics, which are not set up on every grid, start out empty.
+  for (int grid = 0; grid < commondata.NUMGRIDS; grid++) {
+    griddata_chare[grid].diagnosticstruct.num_of_R_exts_chare = 0;
+    griddata_chare[grid].diagnosticstruct.psi4_spinweightm2_sph_harmonics_max_l = 0;
+    griddata_chare[grid].diagnosticstruct.length_localsums_for_psi4_decomp = 0;
+    griddata_chare[grid].diagnosticstruct.list_of_R_exts_chare = NULL;
+    griddata_chare[grid].diagnosticstruct.localsums_for_psi4_decomp = NULL;
+    griddata_chare[grid].diagnosticstruct.globalsums_for_psi4_decomp = NULL;
+  }
 
   // Step 1.d: Set each CodeParameter in griddata.params to default.
   params_struct_set_to_default(&commondata, griddata);
-- 
2.43.0


From e79162013bb49877a93f95bff64d7bee206b483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:27 +0000
Subject: [PATCH 60/62] fix: superB's diagnostics wait until every chare has
 reached the output step

A chare writes its share of the output when asked to by chare (0,0,0),
even if it has not finished the previous time step.
---
 nrpy/infrastructures/superB/timestepping_chare.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 9692b98..05855d1 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -1401,7 +1401,14 @@ def output_timestepping_ci(
               write_chckpt_this_step = fabs(round(commondata.time / commondata.checkpoint_every) * commondata.checkpoint_every -
                                              commondata.time) < 0.5 * commondata.dt;"""
         file_output_str += r"""
-            }"""
+            }
+        // Every chare runs the diagnostics as soon as it is asked to: wait until all chares have reached this step.
+        if (write_diagnostics_this_step) {
+          serial {
+            contribute(CkCallback(CkReductionTarget(Timestepping, start_diagnostics), thisProxy));
+          }
+          when start_diagnostics() { }
+        }"""
     if enable_psi4_diagnostics:
         file_output_str += r"""
         if (write_diagnostics_this_step) {
@@ -1673,6 +1680,9 @@ def output_timestepping_ci(
       }
     }
     entry void receiv_wavespeed_at_outer_boundary(REAL wavespeed_at_outer_boundary);"""
+    else:
+        file_output_str += r"""
+    entry [reductiontarget] void start_diagnostics(); // reduction: all chares have reached the step to be output"""
     if enable_psi4_diagnostics:
         file_output_str += r"""
     entry void recvMsg_to_contribute_localsums_for_psi4_decomp(sectionBcastMsg *msg){
-- 
2.43.0


From fc06acc9582da329fe59fc278ac45554f5ab6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:56 +0000
Subject: [PATCH 61/62] fix: superB applies the outer boundary condition after
 every Runge-Kutta substep

---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..e300ea2 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From 01374020d200d992c3e82c12ed39f988df90be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:56 +0000
Subject: [PATCH 62/62] fix: superB's Euler step belongs to the first
 Runge-Kutta substep

---
 nrpy/infrastructures/superB/MoL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index e300ea2..507d7bb 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -700,6 +700,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += """
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -714,6 +718,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0

