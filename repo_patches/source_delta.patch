From 56a99feb585b4c4d28eaefe1a92d6d5e49492f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 01/52] fix: size_control_valve_l raised NameError when not
 converging without full_output

---
 fluids/control_valve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..30a6e7e 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,7 +742,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                if full_output and (MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE):
                     ans["warning"] = "Not converged in inner loop"
                 if full_output:
                     ans["FLP"] = FLP
-- 
2.43.0


From 4d0752ac89a4cf37f1c071e7f2d60408a5d51019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 02/52] fix: v_lift_valve_Crane raised UnboundLocalError when
 the diameters it needs were missing

---
 fluids/fittings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..416fa96 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -4675,6 +4675,8 @@ def v_lift_valve_Crane(rho: float, D1: float | None=None, D2: float | None=None,
     if D1 is not None and D2 is not None:
         beta = D1/D2
         beta2 = beta*beta
+    elif style.startswith("lift check") or style.startswith("stop check"):
+        raise ValueError("D1 and D2 are required for lift check and stop check valves")
     if style == "swing check angled":
         return 45.0*sqrt(specific_volume)
     elif style == "swing check straight":
-- 
2.43.0


From efde3a9cb6bddfb0c84cdc8df0344460a7034b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 03/52] fix: roughness_Farshad raised UnboundLocalError on an
 unknown material

---
 fluids/friction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/friction.py b/fluids/friction.py
index c6fa5a6..989f5e0 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -4101,6 +4101,8 @@ def roughness_Farshad(ID: str | None=None, D: float | None=None, coeffs: tuple[f
     # Case 2, lookup parameters
     if ID in _Farshad_roughness: # numba: delete
         dat = _Farshad_roughness[ID] # numba: delete
+    else: # numba: delete
+        raise KeyError("ID was not in _Farshad_roughness.") # numba: delete
 #    try: # numba: uncomment
 #        dat = _Farshad_roughness_values[_Farshad_roughness_keys.index(ID)] # numba: uncomment
 #    except: # numba: uncomment
-- 
2.43.0


From cd50d46232e9168e9c168ed2967f240f10559592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 04/52] fix: tank_from_two_specs_err raised UnboundLocalError
 on an unknown specification

---
 fluids/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..24316c9 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3148,6 +3148,8 @@ def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec
         err0 = obj.SA_from_h(h) - spec0
     elif spec0_name == "A_cross":
         err0 = obj.A_cross_sectional(h) - spec0
+    else:
+        raise ValueError("Specification name not recognized")
 
     if spec1_name == "V":
         err1 = obj.V_total - spec1
@@ -3159,6 +3161,8 @@ def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec
         err1 = obj.SA_from_h(h) - spec1
     elif spec1_name == "A_cross":
         err1 = obj.A_cross_sectional(h) - spec1
+    else:
+        raise ValueError("Specification name not recognized")
 #    print(err0, err1, D, L_over_D, h)
     return [err0, err1]
 
-- 
2.43.0


From 82b091c4ba4da1b63ac1d8665fc15134ab49d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 05/52] fix: nearest_pipe raised UnboundLocalError when no
 dimension was given

---
 fluids/piping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/piping.py b/fluids/piping.py
index 10a27f5..ba3d6c0 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -750,6 +750,8 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
         nums = Do_lookup(Do, NPSes, Dis, Dos, ts)
     elif NPS is not None:
         nums = NPS_lookup(float(NPS), NPSes, Dis, Dos, ts)
+    else:
+        raise ValueError("One of Di, Do, or NPS must be specified")
 
     _nps, _di, _do, _t = nums
     return _nps, _di*1e-3, _do*1e-3, _t*1e-3
-- 
2.43.0


From 739c171ffb87208614adf975ac7b588f889ac6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 06/52] fix: CSA_motor_efficiency raised UnboundLocalError for
 an unsupported number of poles

---
 fluids/pump.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/pump.py b/fluids/pump.py
index d3a4134..e52db90 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -389,6 +389,8 @@ def CSA_motor_efficiency(P: float, closed: bool=False, poles: int=2, high_effici
        https://www.nrcan.gc.ca/energy/regulations-codes-standards/products/6885
     """
     P = P/hp
+    if poles not in (2, 4, 6) and (high_efficiency or poles != 8):
+        raise ValueError("Efficiencies are available for 2, 4, or 6 poles only (and 8 poles without high efficiency)")
     # This could be replaced by a dict and a jump list
     if high_efficiency:
         if closed:
-- 
2.43.0


From 566f61d87a859fc89326e0f9b9fd7fae1a70e4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 07/52] fix: best_bounding_bounds compared the wrong bound when
 only negative history was given

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..7148b21 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2631,7 +2631,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From 96abd78f4807be34b6dc1e0f5f84432d20e86ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 08/52] fix: halley did not pass keyword arguments to the
 function

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 7148b21..0ebd84e 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3363,7 +3363,7 @@ def halley(func, x0, args=(), maxiter=100,
     hit_low, hit_high = 0, 0
 
     for it in range(maxiter):
-        fval, fder, fder2 = func(p0, *args)
+        fval, fder, fder2 = func(p0, *args, **kwargs)
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-- 
2.43.0


From 703bb9a90e992f6a1df09d8720addb1b0ac7b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:15 +0000
Subject: [PATCH 09/52] fix: TANK.from_two_specs raised TypeError without `h`
 for specifications which do not need it

---
 fluids/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 24316c9..86e7338 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3135,8 +3135,11 @@ def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec
          sideA=sideA, sideB=sideB, sideA_a=sideA_a, sideB_a=sideB_a,
          sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k,
          sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)
-    # ensure h is always under the top
-    h = min(h, obj.h_max)
+    if h is not None:
+        # ensure h is always under the top
+        h = min(h, obj.h_max)
+    elif spec0_name not in ("V", "SA") or spec1_name not in ("V", "SA"):
+        raise ValueError("`h` is required for the provided specifications")
 
     if spec0_name == "V":
         err0 = obj.V_total - spec0
-- 
2.43.0


From e426c0c65714b93145204e885f763ed8bd7cc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 10/52] fix: SolverInterface raised UnboundLocalError for an
 unrecognized Jacobian or Hessian method

---
 fluids/numerics/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 0ebd84e..fb8e55f 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5905,6 +5905,8 @@ class SolverInterface:
                     h = nd.Hessian(objf, method="reverse")(x)
                 elif hessian_method == "numdifftools_central":
                     h = nd.Hessian(objf, method="central")(x)
+                else:
+                    raise ValueError(f"Unrecognized Hessian method {hessian_method}")
 
         # Up the hessian fval count, set the fval back
         self.hess_fval_count += self.fval_iter - fval_iter
@@ -5995,6 +5997,8 @@ class SolverInterface:
                     j = jacobi(objf, x, method=0)[0]
                 elif jacobian_method == "jacobi_backward":
                     j = jacobi(objf, x, method=1)[0]
+                else:
+                    raise ValueError(f"Unrecognized Jacobian method {jacobian_method}")
 
         # Up the jacobian fval count, set the fval back
         self.jac_fval_count += self.fval_iter - fval_iter
-- 
2.43.0


From 380d022c88b98b64bcdd4fedb544c72e6e8f43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:58 +0000
Subject: [PATCH 11/52] fix: liquid_jet_pump results depended on the state of
 the global random number generator

---
 fluids/jet_pump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..76ab801 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -413,7 +413,8 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
     .. [4] Ejectors and Jet Pumps. Design and Performance for Incompressible
        Liquid Flow. 85032. ESDU International PLC, 1985.
     """
-    from random import uniform
+    from random import Random
+    uniform = Random(0).uniform # same sequence of guesses on every call
     solution_vars = ["d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5"]
     unknown_vars = []
     for i in solution_vars:
-- 
2.43.0


From 49c5bce1fec17cc1cfe6bdde8773b89cc483568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 12/52] fix: gas_liquid_viscosity_methods returned the
 module-level list itself

---
 fluids/two_phase_voidage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase_voidage.py b/fluids/two_phase_voidage.py
index 4e61c1e..82392a2 100644
--- a/fluids/two_phase_voidage.py
+++ b/fluids/two_phase_voidage.py
@@ -2753,7 +2753,7 @@ def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=Non
     """
     methods = ["McAdams", "Cicchitti", "Lin Kwok"]
     if rhol is not None and rhog is not None:
-        methods = liquid_gas_viscosity_correlations_list
+        methods = list(liquid_gas_viscosity_correlations_list)
     return methods
 _gas_liquid_viscosity_method_unknown = f"Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}"
 
-- 
2.43.0


From 84f2752333fd2fe4dfceb20e130e8d18b80c5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 13/52] fix: unit-aware wrapping modified the cached parsed
 documentation

---
 fluids/units.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/units.py b/fluids/units.py
index a661e79..0e08dc9 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -351,8 +351,8 @@ def wraps_numpydoc(ureg, strict=True):
         for i, j in zip(in_vars, in_units):
             in_vars_to_dict[i] = j
 
-        out_units = parsed_info["Returns"]["units"]
-        out_vars = parsed_info["Returns"]["vars"]
+        out_units = copy(parsed_info["Returns"]["units"])
+        out_vars = copy(parsed_info["Returns"]["vars"])
         # Handle the case of dict answers - require the first line's args to be
         # parsed as 'results'
         if out_vars and "results" == out_vars[0]:
@@ -511,8 +511,8 @@ class UnitAwareClass:
 
 
 def clean_parsed_info(parsed_info):
-    in_vars = parsed_info["Parameters"]["vars"]
-    in_units = parsed_info["Parameters"]["units"]
+    in_vars = copy(parsed_info["Parameters"]["vars"])
+    in_units = copy(parsed_info["Parameters"]["units"])
     if "Other Parameters" in parsed_info:
         in_vars += parsed_info["Other Parameters"]["vars"]
         in_units += parsed_info["Other Parameters"]["units"]
@@ -520,8 +520,8 @@ def clean_parsed_info(parsed_info):
     for i, j in zip(in_vars, in_units):
         in_vars_to_dict[i] = j
 
-    out_units = parsed_info["Returns"]["units"]
-    out_vars = parsed_info["Returns"]["vars"]
+    out_units = copy(parsed_info["Returns"]["units"])
+    out_vars = copy(parsed_info["Returns"]["vars"])
     # Handle the case of dict answers - require the first line's args to be
     # parsed as 'results'
     if out_vars and "results" == out_vars[0]:
-- 
2.43.0


From d1d3387ac5f16bd03d8352d4220909de4d22e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 14/52] fix: cached unit expressions were shared between unit
 registries

---
 fluids/units.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluids/units.py b/fluids/units.py
index 0e08dc9..e3b22a2 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -300,10 +300,11 @@ def convert_input(val, unit, ureg, strict=True):
 pint_expression_cache = {}
 
 def parse_expression_cached(unit, ureg):
-    if unit in pint_expression_cache:
-        return pint_expression_cache[unit]
+    key = (unit, ureg)
+    if key in pint_expression_cache:
+        return pint_expression_cache[key]
     ans = ureg.parse_expression(unit)
-    pint_expression_cache[unit] = ans
+    pint_expression_cache[key] = ans
     return ans
 
 
-- 
2.43.0


From 2f60a7316d85a8a8453d3bc2741e518167a5166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 15/52] fix: PSDInterpolated mixed up the cached basis
 integrals of fractional orders

---
 fluids/particle_size_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..7afb966 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2351,6 +2351,6 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             basis_integral = ds**float(n)*pdf_vals
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
-                self.basis_integrals[int(n)] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
-        return max(float(self.basis_integrals[int(n)](d)), 0.0)
+                self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From 35485d53223ae48ac68fc26395e7d9f3993343a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 16/52] fix: the compiled variant of newton used an undefined
 name for the second derivative

---
 fluids/numerics/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index fb8e55f..54219e4 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3173,10 +3173,10 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
     did_additional_guesses = False
     while it < maxiter:
 #        if fprime2_included: # numba: uncomment
-#            fval, fder, fder2 = func(p0, *args) # numba: uncomment
+#            fval, fder, fcurv = func(p0, *args) # numba: uncomment
 #        else: # numba: uncomment
 #            fval, fder = func(p0, *args) # numba: uncomment
-#            fder2 = 0.0 # numba: uncomment
+#            fcurv = 0.0 # numba: uncomment
 
         if fprime2_included: # numba: DELETE
             fval, fder, fcurv = func2(p0, *args, **kwargs) # numba: DELETE
@@ -3251,10 +3251,10 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
                 # print(f"Guess={guess} value={fval} derivative={fder}")
 
 #                if fprime2_included: # numba: uncomment
-#                    fval, fder, fder2 = func(guess, *args) # numba: uncomment
+#                    fval, fder, fcurv = func(guess, *args) # numba: uncomment
 #                else: # numba: uncomment
 #                    fval, fder = func(guess, *args) # numba: uncomment
-#                    fder2 = 0.0 # numba: uncomment
+#                    fcurv = 0.0 # numba: uncomment
                 if require_bracket and fval*fval1 >= 0.0:
                     continue
                 if isnan(fval) or isinf(fval) or fder == 0.0:
-- 
2.43.0


From 713da4839ae34d9907d0243caf5c3119b9089427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:40 +0000
Subject: [PATCH 17/52] fix: units: find documentation of methods and
 properties in -OO mode too

---
 fluids/units.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fluids/units.py b/fluids/units.py
index e3b22a2..0e820e3 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -88,6 +88,15 @@ def get_docstring(f):
         return cleandoc(src.split('"""')[1])
 
 
+def get_attribute_docstring(attr):
+    """Returns the docstring of a method or a property, working in -OO mode
+    also.
+    """
+    if type(attr) is property and attr.__doc__ is None:
+        attr = attr.fget
+    return get_docstring(attr)
+
+
 def func_args(func):
     """Basic function which returns a tuple of arguments of a function or
     method.
@@ -557,12 +566,12 @@ def wrap_numpydoc_obj(obj_to_wrap):
                 #name = attr.fget.__name__
             else:
                 name = prop # Do not use attr.__name__ here to allow aliases, use whatever it was assigned to
-            found_doc = hasattr(attr, "__doc__") and attr.__doc__ is not None
+            found_doc = get_attribute_docstring(attr) is not None
             if not found_doc and other_bases:
                 for base in other_bases:
                     if hasattr(base, prop):
                         base_prop = getattr(base, prop)
-                        found_doc = hasattr(base_prop, "__doc__") and base_prop.__doc__ is not None
+                        found_doc = get_attribute_docstring(base_prop) is not None
                         if found_doc:
                             attr = base_prop
                             break
@@ -571,9 +580,7 @@ def wrap_numpydoc_obj(obj_to_wrap):
             if found_doc:
                 if type(attr) is property:
                     try:
-                        docstring = attr.__doc__
-                        if docstring is None:
-                            docstring = attr.fget.__doc__
+                        docstring = get_attribute_docstring(attr)
                         # docstring = docstring.replace('`units`', obj_to_wrap.units)
                         # Is it a full style string?
                         if "Returns" in docstring and "-------" in docstring:
-- 
2.43.0


From 59e374190864002a3411a45c29828457f07d818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:59 +0000
Subject: [PATCH 18/52] fix: nelder_mead: pass args to the objective function

---
 fluids/numerics/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 54219e4..571eb1c 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5513,7 +5513,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
 
     for k in range(N + 1):
-        fsim[k] = func(sim[k])
+        fsim[k] = func(sim[k], *args)
 
 #     print(sim, fsim)
     sim, fsim = sort_fun(sim, fsim)
@@ -5559,13 +5559,13 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         if has_bounds:
             xr = bounds_clip_naive(xr, low, high)
 
-        fxr = func(xr)
+        fxr = func(xr, *args)
         if fxr < fsim[0]:
 #            xe = rhochip1*xbar - rhochi*sim_last # numba: uncomment
             xe = [rhochip1*xbar[i] - rhochi*sim_last[i] for i in range(N)] # numba: delete
             if has_bounds:
                 xe = bounds_clip_naive(xe, low, high)
-            fxe = func(xe)
+            fxe = func(xe, *args)
             if fxe < fxr:
                 sim[-1] = xe
                 fsim[-1] = fxe
@@ -5582,7 +5582,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xc = [rhopsip1*xbar[i] - rhopsi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xc = bounds_clip_naive(xc, low, high)
-                    fxc = func(xc)
+                    fxc = func(xc, *args)
 
                     sim[-1] = xc
                     fsim[-1] = fxc
@@ -5592,7 +5592,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xcc = [onempsi*xbar[i] + psi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xcc = bounds_clip_naive(xcc, low, high)
-                    fxcc = func(xcc)
+                    fxcc = func(xcc, *args)
                     sim[-1] = xcc
                     fsim[-1] = fxcc
 
-- 
2.43.0


From d2b990766631018b29054db2deafa73dbb45e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:59 +0000
Subject: [PATCH 19/52] fix: newton_system: pass args when approximating the
 jacobian

---
 fluids/numerics/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 571eb1c..607bd48 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3544,7 +3544,7 @@ def solve_4_direct(mat, vec):
     ans[3] = x12*(-q*x35 - x10*x33 + x19*x32 + x34*x5)
     return ans
 
-def check_jacobian(x, j, func, jac_error_allowed=False):
+def check_jacobian(x, j, func, jac_error_allowed=False, args=()):
     """Basic function to check a jacobian for inf and nan, and approximate it
     if it does contain those elements.
     """
@@ -3557,7 +3557,7 @@ def check_jacobian(x, j, func, jac_error_allowed=False):
         if bad_jacobian:
             break
     if jac_error_allowed:
-        j = jacobian(func, x, scalar=False)
+        j = jacobian(func, x, scalar=False, args=args)
         bad_jacobian = False
         for jrow in j:
             for jval in jrow:
@@ -3598,7 +3598,7 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
     if not jac_also:  # numba: delete
         j = jac(x, *args)  # numba: delete
     if check_numbers:# numba: delete
-        j = check_jacobian(x=x0, j=j, func=f, jac_error_allowed=jac_error_allowed)# numba: delete
+        j = check_jacobian(x=x0, j=j, func=f, jac_error_allowed=jac_error_allowed, args=args)# numba: delete
     factors = newton_line_search_factors if line_search else newton_line_search_factors_disabled
     jac_updated = True # numba: delete
     iteration = 1
@@ -3607,7 +3607,7 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
             dx = solve_func(j, [-v for v in fcur]) # numba: delete
         except Exception as e:# numba: delete
             if jac_error_allowed:# numba: delete
-                j = jacobian(f, x, scalar=False) # numba: delete
+                j = jacobian(f, x, scalar=False, args=args) # numba: delete
                 dx = solve_func(j, [-v for v in fcur]) # numba: delete
             else:# numba: delete
                 raise e# numba: delete
@@ -3706,7 +3706,7 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         if not jac_updated: # numba: delete
             jnew = jac(x, *args) # numba: delete
         if check_numbers:# numba: delete
-            jnew = check_jacobian(x=xnew, j=jnew, func=f, jac_error_allowed=jac_error_allowed) # numba: delete
+            jnew = check_jacobian(x=xnew, j=jnew, func=f, jac_error_allowed=jac_error_allowed, args=args) # numba: delete
         # print('jnew', jnew)
         j = jnew
         jac_updated = False
-- 
2.43.0


From 001663db8cfcb302409d109232b6341c90f40239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:59 +0000
Subject: [PATCH 20/52] fix: SolverInterface: pass args to the objective in
 numdifftools and jacobi derivatives

---
 fluids/numerics/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 607bd48..b1514f2 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5900,11 +5900,11 @@ class SolverInterface:
                                 zero_offset=self.jacobian_zero_offset, args=args)
 
                 elif hessian_method == "numdifftools_forward":
-                    h = nd.Hessian(objf, method="forward")(x)
+                    h = nd.Hessian(objf, method="forward")(x, *args)
                 elif hessian_method == "numdifftools_reverse":
-                    h = nd.Hessian(objf, method="reverse")(x)
+                    h = nd.Hessian(objf, method="reverse")(x, *args)
                 elif hessian_method == "numdifftools_central":
-                    h = nd.Hessian(objf, method="central")(x)
+                    h = nd.Hessian(objf, method="central")(x, *args)
                 else:
                     raise ValueError(f"Unrecognized Hessian method {hessian_method}")
 
@@ -5985,18 +5985,18 @@ class SolverInterface:
                                 zero_offset=self.jacobian_zero_offset, args=args)
 
                 elif jacobian_method == "numdifftools_forward":
-                    j = numdifftools_func(objf, method="forward", order=self.jacobian_order, step=step)(x)
+                    j = numdifftools_func(objf, method="forward", order=self.jacobian_order, step=step)(x, *args)
                 elif jacobian_method == "numdifftools_reverse":
-                    j = numdifftools_func(objf, method="reverse", order=self.jacobian_order, step=step)(x)
+                    j = numdifftools_func(objf, method="reverse", order=self.jacobian_order, step=step)(x, *args)
                 elif jacobian_method == "numdifftools_central":
-                    j = numdifftools_func(objf, method="central", order=self.jacobian_order, step=step)(x)
+                    j = numdifftools_func(objf, method="central", order=self.jacobian_order, step=step)(x, *args)
 
                 elif jacobian_method == "jacobi_forward":
-                    j = jacobi(objf, x, method=1)[0]
+                    j = jacobi(objf, x, *args, method=1)[0]
                 elif jacobian_method == "jacobi_central":
-                    j = jacobi(objf, x, method=0)[0]
+                    j = jacobi(objf, x, *args, method=0)[0]
                 elif jacobian_method == "jacobi_backward":
-                    j = jacobi(objf, x, method=1)[0]
+                    j = jacobi(objf, x, *args, method=1)[0]
                 else:
                     raise ValueError(f"Unrecognized Jacobian method {jacobian_method}")
 
-- 
2.43.0


From a8aa3c5354f669eb3aa2c6e06b783dde3108ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:25 +0000
Subject: [PATCH 21/52] fix: SolverInterface.hessian: accept extra arguments
 the way the solvers pass them

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index b1514f2..9a3331f 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5840,7 +5840,7 @@ class SolverInterface:
 
 
 
-    def hessian(self, x, base=None, args=()):
+    def hessian(self, x, *args):
         self.hess_iter += 1
         fval_iter, hessian_method, objf_numpy, hessian_numpy = self.fval_iter, self.hessian_method, self.objf_numpy, self.hessian_numpy
         return_numpy = type(x) is not list
-- 
2.43.0


From 28985ee1b0125d143248393de5a7a80ccd5fda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 22/52] fix: broyden2: raise UnconvergedError instead of
 returning an unconverged point

---
 fluids/numerics/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 9a3331f..c2b63fa 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3907,6 +3907,8 @@ def broyden2(xs, fun, jac, xtol=1e-7, maxiter=100, jac_has_fun=False,
         for fi in fcur:
             err += abs(fi)
 
+    if not err <= xtol:
+        raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={xs} ")
     return xs, iter
 
 def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
-- 
2.43.0


From 2b94e276487f7ca01ed249440d416fa69f4e998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 23/52] fix: fixed_point_anderson: the final convergence test
 compared a point with itself

---
 fluids/numerics/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index c2b63fa..f5370c5 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4781,11 +4781,10 @@ def fixed_point_anderson(
 
         x = x_acc
 
-    # Check final convergence
-    x_err = max(abs((a - b) / abs(b)) for a, b in zip(x_acc, x))
-    if xtol is not None and x_err > xtol:
+    # Check final convergence, with the errors of the last iteration
+    if xtol is not None and not x_err <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {x_err}")
-    if ytol is not None and err1 > ytol:
+    if ytol is not None and not err1 <= ytol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {err1}")
 
     return x, iteration
-- 
2.43.0


From 9abdd69b7741831fc27895f213fd8126acd0c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 24/52] fix: halley: raise when the derivative vanishes away
 from a root and no ytol is given

---
 fluids/numerics/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f5370c5..b42c9f4 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3367,7 +3367,7 @@ def halley(func, x0, args=(), maxiter=100,
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-            if ytol is None or abs(fval) < ytol:
+            if ytol is not None and abs(fval) < ytol:
                 return p0
             else:
                 raise UnconvergedError(f"Derivative became zero; maxiter ({maxiter}) reached, value={p0:f} ")
@@ -3402,7 +3402,7 @@ def halley(func, x0, args=(), maxiter=100,
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return low
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3411,7 +3411,7 @@ def halley(func, x0, args=(), maxiter=100,
         if high is not None and p > high:
             hit_high += 1
             if p0 == high and hit_high > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return high
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
-- 
2.43.0


From 1686cb7d0aa6b10373a143da9839e554061e3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 25/52] fix: system and fixed point solvers: do not accept a
 residual which is not a number

---
 fluids/numerics/__init__.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index b42c9f4..065f1ec 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3714,14 +3714,14 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         # if not jac_also:  # numba: delete
         #     j = jac(x, *args)  # numba: delete
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
 #        raise UnconvergedError("Failed to converge; maxiter (%d) reached, value=%s" %(maxiter, x))
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
 #            raise UnconvergedError("Failed to converge; maxiter (%d) reached, value=%s" %(maxiter, x))
             raise UnconvergedError("Failed to converge")
     if with_point: # numba: delete
@@ -3769,9 +3769,9 @@ def newton_minimize(f, x0, jac, hess, xtol=None, ytol=None, maxiter=100, damping
         if ytol is not None and err(j) < ytol:
             break
 
-    if xtol is not None and norm2(j) > xtol:
+    if xtol is not None and not norm2(j) <= xtol:
         raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={x} ")
-    if ytol is not None and err(j) > ytol:
+    if ytol is not None and not err(j) <= ytol:
         raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={x} ")
 
     return x, iter
@@ -3944,13 +3944,13 @@ def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
 
 
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4008,13 +4008,13 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4111,13 +4111,13 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4907,9 +4907,9 @@ def fixed_point_anderson_residual(
 
         x = x_new
 
-    if xtol is not None and err1 > xtol:
+    if xtol is not None and not err1 <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations")
-    if ytol is not None and err1 > ytol:
+    if ytol is not None and not err1 <= ytol:
         raise ValueError(f"Failed to converge after {maxiter} iterations")
 
     return x, iteration
-- 
2.43.0


From 96b90368485eb9253a17a68f7a0ef7eb76ecee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 26/52] fix: API520_A_l refuses a missing Kv and mu instead of
 failing in arithmetic on None

---
 fluids/safety_valve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 91c727a..e2cd039 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1078,7 +1078,9 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
     P_set = P_set_guage + atm
     if Kw is None:
         Kw = API520_W(P_set, P2)
-    if Kv is None and mu is not None:
+    if Kv is None:
+        if mu is None:
+            raise ValueError("Either `Kv` or `mu` must be provided")
         A0 = API520_A_l(m=m, rho=rho, P1=P1, P2=P2, overpressure=overpressure, Kd=Kd, Kc=Kc, Kv=1.0, Kw=Kw)
         D = sqrt(A0*4.0/pi)
         v = (Q/60000.0)/A0
-- 
2.43.0


From e604c01ebb979ab648f0110e1810db7174ead853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 27/52] fix: StationDataGSOD statistics accept their default
 (open) year range

---
 fluids/design_climate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 5d7c014..b6c980e 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -477,7 +477,7 @@ class StationDataGSOD:
         year_month_counts = {}
 
         for year, data in self.parsed_data.items():
-            if not (older_year <= year <= newer_year):
+            if (older_year is not None and year < older_year) or (newer_year is not None and year > newer_year):
                 continue # Ignore out-of-range years easily
             year_month_averages[year] = [0.0]*12
             year_month_counts[year] = [0]*12
@@ -486,7 +486,7 @@ class StationDataGSOD:
                 if day is None:
                     continue
                 # Don't do these comparisons to make it fast
-                if day.DATE.year < older_year or day.DATE.year > newer_year:
+                if (older_year is not None and day.DATE.year < older_year) or (newer_year is not None and day.DATE.year > newer_year):
                     continue # Ignore out-of-range days as possible
 
                 T = day.TEMP
@@ -541,7 +541,7 @@ class StationDataGSOD:
         year_month_counts = {}
 
         for year, data in self.parsed_data.items():
-            if not (older_year <= year <= newer_year):
+            if (older_year is not None and year < older_year) or (newer_year is not None and year > newer_year):
                 continue # Ignore out-of-range years easily
             year_month_averages[year] = [0.0]*12
             year_month_counts[year] = [0]*12
@@ -550,7 +550,7 @@ class StationDataGSOD:
                 if day is None:
                     continue
                 # Don't do these comparisons to make it fast
-                if day.DATE.year < older_year or day.DATE.year > newer_year:
+                if (older_year is not None and day.DATE.year < older_year) or (newer_year is not None and day.DATE.year > newer_year):
                     continue # Ignore out-of-range days as possible
 
                 wind_speed = day.WDSP
@@ -604,7 +604,7 @@ class StationDataGSOD:
         # Or could just randomly drop data and try to fill it in.
         accepted_values = []
         for year in self.parsed_data.keys():
-            if not (older_year <= year <= newer_year):
+            if (older_year is not None and year < older_year) or (newer_year is not None and year > newer_year):
                 continue # Ignore out-of-range years easily
 
 
-- 
2.43.0


From 1e5140b165ab4af5bcc0a3b4b26e7c013c151d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 28/52] fix: SA_tank refuses unknown head types, as the volume
 functions do

---
 fluids/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 86e7338..0bac0b6 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1524,6 +1524,10 @@ def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None,
     ... sideB_a=0.5)[0]
     18.8495559215
     """
+    if sideA is not None and sideA not in ("conical", "ellipsoidal", "torispherical", "spherical", "guppy"):
+        raise ValueError("Unsupported head type for side A")
+    if sideB is not None and sideB not in ("conical", "ellipsoidal", "torispherical", "spherical", "guppy"):
+        raise ValueError("Unsupported head type for side B")
     # Side A
     if sideA == "conical":
         sideA_SA = SA_conical_head(D=D, a=sideA_a)
-- 
2.43.0


From 0b5aa7390478933e0f326f6bebe9b6b8db51a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 29/52] fix: TANK.A_cross_sectional uses its method argument

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 0bac0b6..a1241d4 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3797,7 +3797,7 @@ class TANK:
         # Analytical formulations can be done, but will be lots of code
         if h in (self.h_max, 0.0):
             return 0.0
-        return derivative(lambda h: self.V_from_h(h), h, dx=1e-7*h, order=3, n=1)
+        return derivative(lambda h: self.V_from_h(h, method), h, dx=1e-7*h, order=3, n=1)
 
     def set_table(self, n: int=100, dx: None=None) -> None:
         r"""Method to set an interpolation table of liquids levels versus
-- 
2.43.0


From c1751aaad559d53cac21e959a56f56ef5c4b0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 30/52] fix: two_phase_dP_methods lists Beggs-Brill only when
 the angle it needs is given

---
 fluids/two_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index 1d7c92c..23a857b 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2355,7 +2355,7 @@ two_phase_correlations = {
 _unknown_msg_two_phase = f"Unknown method; available methods are {list(two_phase_correlations.keys())}"
 
 def two_phase_dP_methods(m: float, x: float, rhol: float, D: float, L: float=1.0, rhog: float | None=None, mul: float | None=None, mug: float | None=None,
-                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float=0,
+                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float | None=None,
                          check_ranges: bool=False) -> list[str]:
     r"""This function returns a list of names of correlations for two-phase
     liquid-gas pressure drop for flow inside channels.
-- 
2.43.0


From 67120334a3ef24ccc001889e346a8f20bb632d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 31/52] fix: differential_pressure_meter_dP documents only the
 meter types it supports

---
 fluids/flow_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 3893cab..0e66f62 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2877,10 +2877,10 @@ def differential_pressure_meter_dP(D: float, D2: float, P1: float, P2: float, C:
         'ISO 5167 orifice', 'Miller quarter circle orifice', 'Hollingshead venturi sharp',
         'segmental orifice', 'Miller conical orifice', 'Miller segmental orifice',
         'quarter circle orifice', 'Hollingshead v cone', 'wedge meter', 'eccentric orifice',
-        'venturi nozzle', 'rough welded convergent venturi tube', 'ISA 1932 nozzle',
+        'rough welded convergent venturi tube', 'ISA 1932 nozzle',
         'ISO 15377 quarter-circle orifice', 'Hollingshead venturi smooth',
         'Hollingshead orifice', 'cone meter', 'Hollingshead wedge', 'Miller orifice',
-        'long radius nozzle', 'ISO 15377 conical orifice', 'unspecified meter',
+        'long radius nozzle', 'ISO 15377 conical orifice',
         'as cast convergent venturi tube', 'Miller eccentric orifice',
         'ISO 15377 eccentric orifice'}, [-]
 
-- 
2.43.0


From aa8336534ca53fe1a40f20f09c3bc0a33e55a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 32/52] fix: documented units of Dean and of Re in the fitting
 loss functions

---
 fluids/core.py     |  6 +++---
 fluids/fittings.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fluids/core.py b/fluids/core.py
index 9700ed9..18feb87 100644
--- a/fluids/core.py
+++ b/fluids/core.py
@@ -2279,11 +2279,11 @@ def Dean(Re: float, Di: float, D: float) -> float:
     Parameters
     ----------
     Re : float
-        Reynolds number []
+        Reynolds number [-]
     Di : float
-        Inner diameter []
+        Inner diameter [m]
     D : float
-        Diameter of curvature or outer spiral or other dimension []
+        Diameter of curvature or outer spiral or other dimension [m]
 
     Returns
     -------
diff --git a/fluids/fittings.py b/fluids/fittings.py
index 416fa96..e661193 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1164,7 +1164,7 @@ def bend_rounded_Miller(Di: float, angle: float, Re: float, rc: float | None=Non
         Angle of bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     rc : float, optional
         Radius of curvature of the entrance, [m]
     bend_diameters : float, optional
@@ -1567,7 +1567,7 @@ def bend_miter_Miller(Di: float, angle: float, Re: float, roughness: float=0.0,
         Angle of miter bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     roughness : float, optional
         Roughness of bend wall, [m]
     L_unimpeded : float, optional
@@ -1937,7 +1937,7 @@ def contraction_sharp(Di1: float, Di2: float, fd: float | None=None, Re: float |
         Darcy friction factor in original pipe; used only in the Hooper method
         and will be  calculated from `Re` if not given, [-]
     Re : float, optional
-        Reynolds number of the pipe (used in Hooper method, [m]
+        Reynolds number of the pipe (used in Hooper method), [-]
     roughness : float, optional
         Roughness of original pipe (used in Hooper method only if no friction
         factor given), [m]
@@ -2323,7 +2323,7 @@ def contraction_conical(Di1: float, Di2: float, fd: float | None=None, l: float
         optional [degrees]
     Re : float, optional
         Reynolds number of the pipe (used in `Rennels` and `Hooper` method only
-        if no friction factor given), [m]
+        if no friction factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
@@ -2829,7 +2829,7 @@ def diffuser_conical(Di1: float, Di2: float, l: float | None=None, angle: float
         Darcy friction factor [-]
     Re : float, optional
         Reynolds number of the pipe (used in Rennels method only if no friction
-        factor given), [m]
+        factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
-- 
2.43.0


From 0f5df910a45616ba02bc956c8af1784ba388f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 33/52] fix: documented units of tank head ratios, wetted area,
 channel area, specific area and blockage ratio

---
 fluids/geometry.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index a1241d4..49b5cd8 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1489,13 +1489,13 @@ def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None,
         The distance the head as specified by sideB extends up or to the right
         from the main cylindrical section, [m]
     sideA_f : float, optional
-        Dish-radius parameter for side A; fD  = dish radius [1/m]
+        Dish-radius parameter for side A; fD  = dish radius [-]
     sideA_k : float, optional
-        knuckle-radius parameter for side A; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side A; kD = knuckle radius [-]
     sideB_f : float, optional
-        Dish-radius parameter for side B; fD  = dish radius [1/m]
+        Dish-radius parameter for side B; fD  = dish radius [-]
     sideB_k : float, optional
-        knuckle-radius parameter for side B; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side B; kD = knuckle radius [-]
 
     Returns
     -------
@@ -3011,7 +3011,7 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
     Returns
     -------
     SA : float
-        Wetted wall surface area up to h [m^3]
+        Wetted wall surface area up to h [m^2]
 
     Examples
     --------
@@ -4370,10 +4370,10 @@ class RectangularFinExchanger:
     blockage_ratio : float
         The fraction of the layer which is blocked to flow by the fins,
         :math:`\text{blockage ratio} = \frac{s\cdot h - s\cdot t - t(h-t)}{s\cdot h}`,
-        [m]
+        [-]
     A_channel : float
         Flow area of a single channel in a single layer,
-        :math:`\text{channel area} = (s-t)(h-t)`, [m]
+        :math:`\text{channel area} = (s-t)(h-t)`, [m^2]
     P_channel : float
         Wetted perimeter of a single channel in a single layer,
         :math:`\text{channel perimeter} = 2(s-t) + 2(h-t)`, [m]
@@ -4398,7 +4398,7 @@ class RectangularFinExchanger:
         The product of the height, width, and length of the HX, [m^3]
     A_specific_HX : float
         The specific surface area of the heat exchanger - square meters per
-        meter cubed, [m^3]
+        meter cubed, [1/m]
 
     Notes
     -----
-- 
2.43.0


From a4e56732ba5b8b65094766e59c0bb1de1bb5ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 34/52] fix: documented units of the PSD densities and of the
 specific diameter

---
 fluids/particle_size_distribution.py | 6 +++---
 fluids/pump.py                       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 7afb966..aecfa25 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -611,7 +611,7 @@ def pdf_lognormal(d: float, d_characteristic: float, s: float) -> float:
     Returns
     -------
     pdf : float
-        Lognormal probability density function, [-]
+        Lognormal probability density function, [1/m]
 
     Notes
     -----
@@ -791,7 +791,7 @@ def pdf_Gates_Gaudin_Schuhman(d: float, d_characteristic: float, m: float) -> fl
     Returns
     -------
     pdf : float
-        GGS probability density function, [-]
+        GGS probability density function, [1/m]
 
     Notes
     -----
@@ -935,7 +935,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     Returns
     -------
     pdf : float
-        RR probability density function, [-]
+        RR probability density function, [1/m]
 
     Notes
     -----
diff --git a/fluids/pump.py b/fluids/pump.py
index e52db90..677544d 100644
--- a/fluids/pump.py
+++ b/fluids/pump.py
@@ -556,7 +556,7 @@ def specific_diameter(Q: float, H: float, D: float) -> float:
     Returns
     -------
     Ds : float
-        Specific diameter, [m^0.25/s^0.5]
+        Specific diameter, [s^0.5/m^0.25]
 
     Notes
     -----
-- 
2.43.0


From 92e8b350bf89f72819daafc45c54d35151c8e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 35/52] fix: document the sideA_a_ratio and sideB_a_ratio
 parameters of TANK.from_two_specs

fluids.units converts keyword arguments by their documented unit, so an
undocumented parameter raised KeyError there.
---
 fluids/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 49b5cd8..0282a70 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3583,7 +3583,12 @@ class TANK:
             Dimensionless knuckle-radius parameter for side B; also commonly given
             as the product of `k` and `D` (`kD`), which is called the knuckle
             radius and has units of length, [-]
-
+        sideA_a_ratio : float, optional
+            Ratio for `a` parameter of side A; can be used instead of specifying
+            an absolute value, [-]
+        sideB_a_ratio : float, optional
+            Ratio for `a` parameter of side B; can be used instead of specifying
+            an absolute value, [-]
 
         Returns
         -------
-- 
2.43.0


From 0e3112011414ac7b48fc69778cae64a807c3f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 36/52] fix: document the HelicalCoil parameters in the order
 of its signature

fluids.units converts positional arguments by the documented order, so the
number of turns was converted as a length.
---
 fluids/geometry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 0282a70..67db203 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3953,23 +3953,23 @@ class HelicalCoil:
     Do : float
         Diameter of the spiral as measured from the center of the coil on one
         side to the center of the coil on the other side, [m]
-    Do_total : float, optional
-        Diameter of the spiral as measured from one edge of the tube to the
-        other edge; equal to Do + Dt; either `Do` or `Do_total` may be
-        specified and the other will be calculated [m]
     pitch : float, optional
         Height change from one coil to the next as measured from the middles
         of the tube, [m]
     H : float, optional
         Height of the spiral, as measured from the middle of the bottom of the
         tube to the middle of the top of the tube, [m]
+    N : float, optional
+        Number of coil turns; may be specified along with `pitch` instead of
+        specifying `H` or `H_total`, [-]
     H_total : float, optional
         Height of the spiral as measured from one edge of the tube to the other
         edge; equal to `H_total` + `Dt`; either may be specified and the other
         will be calculated [m]
-    N : float, optional
-        Number of coil turns; may be specified along with `pitch` instead of
-        specifying `H` or `H_total`, [-]
+    Do_total : float, optional
+        Diameter of the spiral as measured from one edge of the tube to the
+        other edge; equal to Do + Dt; either `Do` or `Do_total` may be
+        specified and the other will be calculated [m]
     Di : float, optional
         Inner diameter of the tube; if specified, inside and annulus properties
         will be calculated, [m]
-- 
2.43.0


From e2017a4fa0cea4be87abb1c53614f1ac4517bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 37/52] fix: document H_throat of HyperbolicCoolingTower under
 its name and in order

The parameter was documented as h_throat, so fluids.units raised KeyError on
it; positional arguments were converted by the wrong entry; and the number of
support columns was documented in metres.
---
 fluids/geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 67db203..124bc7f 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4551,19 +4551,19 @@ class HyperbolicCoolingTower:
     D_throat : float, optional
         The diameter of the cooling tower at its minimum section, called its
         throat; where the two hyperbolas meet, [m]
-    h_throat : float, optional
+    H_throat : float, optional
         The elevation of the cooling tower's throat (its minimum section; where
         the two hyperbolas meet), [m]
-    inlet_rounding : float, optional
-        Radius of an optional rounded protrusion from the lip of the cooling
-        tower shell base, which curves upwards from the lip (used to reduce
-        the dead zone area rather than having a flat lip), [m]
     H_support : float, optional
         The height of each support column, [m]
     D_support : float, optional
         The diameter of each support column, [m]
     n_support : int, optional
-        The number of support columns of the cooling tower, [m]
+        The number of support columns of the cooling tower, [-]
+    inlet_rounding : float, optional
+        Radius of an optional rounded protrusion from the lip of the cooling
+        tower shell base, which curves upwards from the lip (used to reduce
+        the dead zone area rather than having a flat lip), [m]
 
     Attributes
     ----------
-- 
2.43.0


From a18d9968c405544f7139f0977bc38ee7ff87be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:17 +0000
Subject: [PATCH 38/52] fix: document the results of functions returning
 dictionaries for fluids.units

liquid_jet_pump and the full_output dictionaries of size_control_valve_l and
size_control_valve_g could not be converted, as their entries were not
documented; entries which are None, bool or str now stay as they are.
---
 fluids/control_valve.py | 50 ++++++++++++++++++++++++++++++++++++++++-
 fluids/jet_pump.py      | 30 +++++++++++++++++++++++--
 fluids/units.py         |  2 ++
 3 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 30a6e7e..272efda 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -653,7 +653,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
     full_output : bool, optional
         If True, returns intermediate calculation values as
         well as Kv in the form of a dictionary containing 'Kv', 'Rev', 'choked',
-        'FL', 'FLP', 'FR', 'FP', and 'laminar'. Some may be None if they are
+        'FF', 'FLP', 'FR', 'FP', and 'laminar'. Some may be None if they are
         not used in the calculation.
 
     Returns
@@ -661,6 +661,30 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
     Kv : float
         Metric Kv valve flow coefficient (flow rate of water at a pressure drop
         of 1 bar) [m^3/hr]
+    FF : float
+        Liquid critical pressure ratio factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    FP : float
+        Piping geometry factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    FLP : float
+        Combined piping geometry and recovery factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    FR : float
+        Reynolds number factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    Rev : float
+        Valve Reynolds number (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    choked : bool
+        Whether or not the flow is choked (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    laminar : bool
+        Whether or not the flow is laminar (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    warning : str
+        Warning if the calculation did not converge (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
 
     Notes
     -----
@@ -844,6 +868,30 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
     Kv : float
         Metric Kv valve flow coefficient (flow rate of water at a pressure drop
         of 1 bar) [m^3/hr]
+    Y : float
+        Expansion factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    FP : float
+        Piping geometry factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    xTP : float
+        Pressure difference ratio factor with fittings (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    FR : float
+        Reynolds number factor (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    Rev : float
+        Valve Reynolds number (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    choked : bool
+        Whether or not the flow is choked (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    laminar : bool
+        Whether or not the flow is laminar (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
+    warning : str
+        Warning if the calculation did not converge (only as an entry of the
+        dictionary returned if `full_output` is True), [-]
 
     Notes
     -----
diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 76ab801..4d4a26f 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -325,8 +325,34 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
 
     Returns
     -------
-    solution : dict
-        Dictionary of calculated parameters, [-]
+    results : dict
+        Dictionary of calculated parameters, with the following entries, [-]
+    P1 : float
+        The pressure of the primary fluid entering its nozzle, [Pa]
+    P2 : float
+        The pressure of the secondary fluid at the entry of the ejector, [Pa]
+    P5 : float
+        The pressure at the exit of the diffuser, [Pa]
+    d_nozzle : float
+        The inside diameter of the primary fluid's nozzle, [m]
+    d_mixing : float
+        The diameter of the mixing chamber, [m]
+    d_diffuser : float
+        The diameter of the diffuser at its exit, [m]
+    Qs : float
+        The volumetric flow rate of the secondary fluid, [m^3/s]
+    Qp : float
+        The volumetric flow rate of the primary fluid, [m^3/s]
+    N : float
+        Pressure ratio, [-]
+    M : float
+        Volumetric flow ratio, [-]
+    R : float
+        Ratio of the nozzle area to the mixing chamber area, [-]
+    alpha : float
+        Ratio of the mixing chamber area to the diffuser area, [-]
+    efficiency : float
+        Jet pump efficiency, [-]
 
     Notes
     -----
diff --git a/fluids/units.py b/fluids/units.py
index 0e820e3..1d36569 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -326,6 +326,8 @@ def convert_output(result, out_units, out_vars, ureg):
         return result
     elif t is dict:
         for key, ans in result.items():
+            if ans is None or type(ans) in (str, bool):
+                continue
             unit = out_units[out_vars.index(key)]
             result[key] = ans*parse_expression_cached(unit, ureg)
         return result
-- 
2.43.0


From e13fd2d707c34438f63b52cc3efb07e96a50f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:05 +0000
Subject: [PATCH 39/52] fix: document V_sideA, V_sideB and V_lateral of TANK
 under their names

fluids.units could not attach units to them.
---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 124bc7f..e9f6f75 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3235,11 +3235,11 @@ class TANK:
         Height of the tank, [m]
     V_total : float
         Total volume of the tank as calculated [m^3]
-    sideA_V : float
+    V_sideA : float
         Volume of only `sideA` [m^3]
-    sideB_V : float
+    V_sideB : float
         Volume of only `sideB` [m^3]
-    lateral_V : float
+    V_lateral : float
         Volume of cylindrical section of tank [m^3]
     A : float
         Total surface area of the tank, [m^2]
-- 
2.43.0


From 5b6a8e5e72895fa57391f374922ae7d63507390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 40/52] fix: ASTM E11 sieve openings in inches and maximum
 openings were stored in the wrong units

---
 fluids/particle_size_distribution.py | 112 +++++++++++++--------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index aecfa25..f108d8c 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -242,62 +242,62 @@ class Sieve:
         self.d_wire_max = d_wire_max
 
 
-ASTM_E11_sieves = {"0.02": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=2e-08, inspection_sd=4.51, calibration_sd=4.75, old_designation="No. 635", opening=2e-05, compliance_samples=1000.0, opening_inch=8e-07, inspection_samples=100.0, designation="0.02", d_wire_max=2e-08, max_opening=0.035, X_variation_max=1.5e-05, Y_variation_avg=2.3e-06, compliance_sd=5.33),
- "0.025": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=3e-08, inspection_sd=4.82, calibration_sd=5.06, old_designation="No. 500", opening=2.5e-05, compliance_samples=1000.0, opening_inch=1e-06, inspection_samples=100.0, designation="0.025", d_wire_max=3e-08, max_opening=0.041, X_variation_max=1.6e-05, Y_variation_avg=2.5e-06, compliance_sd=5.71),
- "0.032": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=3e-08, inspection_sd=5.42, calibration_sd=5.71, old_designation="No. 450", opening=3.2e-05, compliance_samples=1000.0, opening_inch=1.2e-06, inspection_samples=100.0, designation="0.032", d_wire_max=3e-08, max_opening=0.05, X_variation_max=1.8e-05, Y_variation_avg=2.7e-06, compliance_sd=6.42),
- "0.038": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=3e-08, inspection_sd=5.99, calibration_sd=6.31, old_designation="No. 400", opening=3.8e-05, compliance_samples=1000.0, opening_inch=1.5e-06, inspection_samples=100.0, designation="0.038", d_wire_max=3e-08, max_opening=0.058, X_variation_max=2e-05, Y_variation_avg=2.9e-06, compliance_sd=7.09),
- "0.045": Sieve(calibration_samples=250.0, d_wire_min=3e-08, d_wire=3e-08, inspection_sd=6.56, calibration_sd=6.84, old_designation="No. 325", opening=4.5e-05, compliance_samples=1000.0, opening_inch=1.7e-06, inspection_samples=100.0, designation="0.045", d_wire_max=4e-08, max_opening=0.067, X_variation_max=2.2e-05, Y_variation_avg=3.1e-06, compliance_sd=7.76),
- "0.053": Sieve(calibration_samples=250.0, d_wire_min=3e-08, d_wire=4e-08, inspection_sd=7.13, calibration_sd=7.44, old_designation="No. 270", opening=5.3e-05, compliance_samples=1000.0, opening_inch=2.1e-06, inspection_samples=100.0, designation="0.053", d_wire_max=4e-08, max_opening=0.077, X_variation_max=2.4e-05, Y_variation_avg=3.4e-06, compliance_sd=8.44),
- "0.063": Sieve(calibration_samples=250.0, d_wire_min=4e-08, d_wire=5e-08, inspection_sd=7.76, calibration_sd=8.09, old_designation="No. 230", opening=6.3e-05, compliance_samples=1000.0, opening_inch=2.5e-06, inspection_samples=100.0, designation="0.063", d_wire_max=5e-08, max_opening=0.089, X_variation_max=2.6e-05, Y_variation_avg=3.7e-06, compliance_sd=9.18),
- "0.075": Sieve(calibration_samples=250.0, d_wire_min=4e-08, d_wire=5e-08, inspection_sd=8.64, calibration_sd=9.02, old_designation="No. 200", opening=7.5e-05, compliance_samples=1000.0, opening_inch=2.9e-06, inspection_samples=100.0, designation="0.075", d_wire_max=6e-08, max_opening=0.104, X_variation_max=2.9e-05, Y_variation_avg=4.1e-06, compliance_sd=10.23),
- "0.09": Sieve(calibration_samples=200.0, d_wire_min=5e-08, d_wire=6e-08, inspection_sd=9.53, calibration_sd=9.8, old_designation="No. 170", opening=9e-05, compliance_samples=1000.0, opening_inch=3.5e-06, inspection_samples=100.0, designation="0.09", d_wire_max=7e-08, max_opening=0.122, X_variation_max=3.2e-05, Y_variation_avg=4.6e-06, compliance_sd=11.27),
- "0.106": Sieve(calibration_samples=200.0, d_wire_min=6e-08, d_wire=7e-08, inspection_sd=10.47, calibration_sd=10.77, old_designation="No. 140", opening=0.000106, compliance_samples=1000.0, opening_inch=4.1e-06, inspection_samples=100.0, designation="0.106", d_wire_max=8e-08, max_opening=0.141, X_variation_max=3.5e-05, Y_variation_avg=5.2e-06, compliance_sd=12.39),
- "0.125": Sieve(calibration_samples=200.0, d_wire_min=8e-08, d_wire=9e-08, inspection_sd=11.41, calibration_sd=11.74, old_designation="No. 120", opening=0.000125, compliance_samples=1000.0, opening_inch=4.9e-06, inspection_samples=100.0, designation="0.125", d_wire_max=1e-07, max_opening=0.163, X_variation_max=3.8e-05, Y_variation_avg=5.8e-06, compliance_sd=13.51),
- "0.15": Sieve(calibration_samples=200.0, d_wire_min=9e-08, d_wire=1e-07, inspection_sd=12.93, calibration_sd=13.3, old_designation="No. 100", opening=0.00015, compliance_samples=1000.0, opening_inch=5.9e-06, inspection_samples=100.0, designation="0.15", d_wire_max=1.2e-07, max_opening=0.193, X_variation_max=4.3e-05, Y_variation_avg=6.6e-06, compliance_sd=15.3),
- "0.18": Sieve(calibration_samples=200.0, d_wire_min=1.1e-07, d_wire=1.2e-07, inspection_sd=14.24, calibration_sd=14.65, old_designation="No. 80", opening=0.00018, compliance_samples=1000.0, opening_inch=7e-06, inspection_samples=100.0, designation="0.18", d_wire_max=1.5e-07, max_opening=0.227, X_variation_max=4.7e-05, Y_variation_avg=7.6e-06, compliance_sd=16.85),
- "0.212": Sieve(calibration_samples=160.0, d_wire_min=1.2e-07, d_wire=1.4e-07, inspection_sd=15.59, calibration_sd=16.08, old_designation="No. 70", opening=0.000212, compliance_samples=800.0, opening_inch=8.3e-06, inspection_samples=80.0, designation="0.212", d_wire_max=1.7e-07, max_opening=0.264, X_variation_max=5.2e-05, Y_variation_avg=8.7e-06, compliance_sd=18.79),
- "0.25": Sieve(calibration_samples=160.0, d_wire_min=1.3e-07, d_wire=1.6e-07, inspection_sd=17.44, calibration_sd=17.99, old_designation="No. 60", opening=0.00025, compliance_samples=800.0, opening_inch=9.8e-06, inspection_samples=80.0, designation="0.25", d_wire_max=1.9e-07, max_opening=0.308, X_variation_max=5.8e-05, Y_variation_avg=9.9e-06, compliance_sd=21.02),
- "0.3": Sieve(calibration_samples=160.0, d_wire_min=1.7e-07, d_wire=2e-07, inspection_sd=19.66, calibration_sd=20.29, old_designation="No. 50", opening=0.0003, compliance_samples=800.0, opening_inch=1.17e-05, inspection_samples=80.0, designation="0.3", d_wire_max=2.3e-07, max_opening=0.365, X_variation_max=6.5e-05, Y_variation_avg=1.15e-05, compliance_sd=23.7),
- "0.355": Sieve(calibration_samples=160.0, d_wire_min=1.9e-07, d_wire=2.2e-07, inspection_sd=21.95, calibration_sd=22.64, old_designation="No. 45", opening=0.000355, compliance_samples=800.0, opening_inch=1.39e-05, inspection_samples=80.0, designation="0.355", d_wire_max=2.6e-07, max_opening=0.427, X_variation_max=7.2e-05, Y_variation_avg=1.33e-05, compliance_sd=26.45),
- "0.425": Sieve(calibration_samples=120.0, d_wire_min=2.4e-07, d_wire=2.8e-07, inspection_sd=24.2, calibration_sd=25.08, old_designation="No. 40", opening=0.000425, compliance_samples=600.0, opening_inch=1.65e-05, inspection_samples=60.0, designation="0.425", d_wire_max=3.2e-07, max_opening=0.506, X_variation_max=8.1e-05, Y_variation_avg=1.55e-05, compliance_sd=29.95),
- "0.5": Sieve(calibration_samples=120.0, d_wire_min=2.7e-07, d_wire=3.2e-07, inspection_sd=26.85, calibration_sd=27.82, old_designation="No. 35", opening=0.0005, compliance_samples=600.0, opening_inch=1.97e-05, inspection_samples=60.0, designation="0.5", d_wire_max=3.6e-07, max_opening=0.589, X_variation_max=8.9e-05, Y_variation_avg=1.8e-05, compliance_sd=33.23),
- "0.6": Sieve(calibration_samples=100.0, d_wire_min=3.4e-07, d_wire=4e-07, inspection_sd=30.14, calibration_sd=31.32, old_designation="No. 30", opening=0.0006, compliance_samples=500.0, opening_inch=2.34e-05, inspection_samples=50.0, designation="0.6", d_wire_max=4.6e-07, max_opening=0.701, X_variation_max=0.000101, Y_variation_avg=2.12e-05, compliance_sd=38.0),
- "0.71": Sieve(calibration_samples=100.0, d_wire_min=3.8e-07, d_wire=4.5e-07, inspection_sd=33.82, calibration_sd=35.14, old_designation="No. 25", opening=0.00071, compliance_samples=500.0, opening_inch=2.78e-05, inspection_samples=50.0, designation="0.71", d_wire_max=5.2e-07, max_opening=0.822, X_variation_max=0.000112, Y_variation_avg=2.47e-05, compliance_sd=42.63),
- "0.85": Sieve(calibration_samples=80.0, d_wire_min=4.3e-07, d_wire=5e-07, inspection_sd=37.73, calibration_sd=39.36, old_designation="No. 20", opening=0.00085, compliance_samples=400.0, opening_inch=3.31e-05, inspection_samples=40.0, designation="0.85", d_wire_max=5.8e-07, max_opening=0.977, X_variation_max=0.000127, Y_variation_avg=2.91e-05, compliance_sd=48.76),
- "1": Sieve(calibration_samples=80.0, d_wire_min=0.00048, d_wire=0.00056, inspection_sd=0.042, calibration_sd=0.044, old_designation="No. 18", opening=0.001, compliance_samples=400.0, opening_inch=3.94e-05, inspection_samples=40.0, designation="1", d_wire_max=0.00064, max_opening=1.14, X_variation_max=0.00014, Y_variation_avg=3.4e-05, compliance_sd=0.055),
- "1.18": Sieve(calibration_samples=80.0, d_wire_min=0.00054, d_wire=0.00063, inspection_sd=0.049, calibration_sd=0.051, old_designation="No. 16", opening=0.00118, compliance_samples=400.0, opening_inch=4.69e-05, inspection_samples=40.0, designation="1.18", d_wire_max=0.00072, max_opening=1.34, X_variation_max=0.00016, Y_variation_avg=4e-05, compliance_sd=0.063),
- "1.4": Sieve(calibration_samples=80.0, d_wire_min=0.0006, d_wire=0.00071, inspection_sd=0.055, calibration_sd=0.057, old_designation="No. 14", opening=0.0014, compliance_samples=400.0, opening_inch=5.55e-05, inspection_samples=40.0, designation="1.4", d_wire_max=0.00082, max_opening=1.58, X_variation_max=0.00018, Y_variation_avg=4.6e-05, compliance_sd=0.071),
- "1.7": Sieve(calibration_samples=50.0, d_wire_min=0.00068, d_wire=0.0008, inspection_sd=0.059, calibration_sd=0.062, old_designation="No. 12", opening=0.0017, compliance_samples=250.0, opening_inch=6.61e-05, inspection_samples=25.0, designation="1.7", d_wire_max=0.00092, max_opening=1.9, X_variation_max=0.0002, Y_variation_avg=5.6e-05, compliance_sd=0.081),
- "100": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="4 in.", opening=0.1, compliance_samples=20.0, opening_inch=0.004, designation="100", d_wire_max=0.0072, max_opening=103.82, X_variation_max=0.00382, Y_variation_avg=0.00294),
- "106": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="4.24 in.", opening=0.106, compliance_samples=20.0, opening_inch=0.00424, designation="106", d_wire_max=0.0072, max_opening=109.99, X_variation_max=0.00399, Y_variation_avg=0.00312),
- "11.2": Sieve(calibration_samples=30.0, d_wire_min=0.0021, d_wire=0.0025, inspection_sd=0.256, calibration_sd=0.274, old_designation="7/16 in.", opening=0.0112, compliance_samples=150.0, opening_inch=0.000438, inspection_samples=15.0, designation="11.2", d_wire_max=0.0029, max_opening=11.97, X_variation_max=0.00077, Y_variation_avg=0.000346, compliance_sd=0.382),
- "12.5": Sieve(calibration_samples=30.0, d_wire_min=0.0021, d_wire=0.0025, inspection_sd=0.283, calibration_sd=0.302, old_designation="1/2 in.", opening=0.0125, compliance_samples=150.0, opening_inch=0.0005, inspection_samples=15.0, designation="12.5", d_wire_max=0.0029, max_opening=13.33, X_variation_max=0.00083, Y_variation_avg=0.000385, compliance_sd=0.421),
- "125": Sieve(d_wire_min=0.0068, d_wire=0.008, old_designation="5 in.", opening=0.125, compliance_samples=20.0, opening_inch=0.005, designation="125", d_wire_max=0.0092, max_opening=129.51, X_variation_max=0.00451, Y_variation_avg=0.00366),
- "13.2": Sieve(calibration_samples=30.0, d_wire_min=0.0024, d_wire=0.0028, inspection_sd=0.296, calibration_sd=0.316, old_designation="0.530 in.", opening=0.0132, compliance_samples=150.0, opening_inch=0.00053, inspection_samples=15.0, designation="13.2", d_wire_max=0.0032, max_opening=14.06, X_variation_max=0.00086, Y_variation_avg=0.000406, compliance_sd=0.441),
- "16": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.354, calibration_sd=0.378, old_designation="5/8 in.", opening=0.016, compliance_samples=150.0, opening_inch=0.000625, inspection_samples=15.0, designation="16", d_wire_max=0.0036, max_opening=16.99, X_variation_max=0.00099, Y_variation_avg=0.00049, compliance_sd=0.527),
- "19": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.418, calibration_sd=0.446, old_designation="3/4 in.", opening=0.019, compliance_samples=150.0, opening_inch=0.00075, inspection_samples=15.0, designation="19", d_wire_max=0.0035, max_opening=20.13, X_variation_max=0.00113, Y_variation_avg=0.000579, compliance_sd=0.622),
- "2": Sieve(calibration_samples=50.0, d_wire_min=0.00077, d_wire=0.0009, inspection_sd=0.068, calibration_sd=0.072, old_designation="No. 10", opening=0.002, compliance_samples=250.0, opening_inch=7.87e-05, inspection_samples=25.0, designation="2", d_wire_max=0.00104, max_opening=2.23, X_variation_max=0.00023, Y_variation_avg=6.5e-05, compliance_sd=0.094),
- "2.36": Sieve(calibration_samples=40.0, d_wire_min=0.00085, d_wire=0.001, inspection_sd=0.073, calibration_sd=0.077, old_designation="No. 8", opening=0.00236, compliance_samples=200.0, opening_inch=9.37e-05, inspection_samples=20.0, designation="2.36", d_wire_max=0.00115, max_opening=2.61, X_variation_max=0.00025, Y_variation_avg=7.6e-05, compliance_sd=0.104),
- "2.8": Sieve(calibration_samples=40.0, d_wire_min=0.00095, d_wire=0.00112, inspection_sd=0.085, calibration_sd=0.09, old_designation="No. 7", opening=0.0028, compliance_samples=200.0, opening_inch=0.00011, inspection_samples=20.0, designation="2.8", d_wire_max=0.0013, max_opening=3.09, X_variation_max=0.00029, Y_variation_avg=9e-05, compliance_sd=0.121),
- "22.4": Sieve(d_wire_min=0.003, d_wire=0.00355, inspection_sd=0.493, old_designation="7/8 in.", opening=0.0224, compliance_samples=150.0, opening_inch=0.000875, inspection_samples=15.0, designation="22.4", d_wire_max=0.0041, max_opening=23.67, X_variation_max=0.00127, Y_variation_avg=0.000681, compliance_sd=0.734),
- "25": Sieve(d_wire_min=0.003, d_wire=0.00355, inspection_sd=0.553, old_designation="1.00 in.", opening=0.025, compliance_samples=20.0, opening_inch=0.001, inspection_samples=15.0, designation="25", d_wire_max=0.0041, max_opening=26.38, X_variation_max=0.00138, Y_variation_avg=0.000758, compliance_sd=0.823),
- "26.5": Sieve(d_wire_min=0.003, d_wire=0.00355, inspection_sd=0.584, old_designation="1.06 in.", opening=0.0265, compliance_samples=20.0, opening_inch=0.00106, inspection_samples=15.0, designation="26.5", d_wire_max=0.0041, max_opening=27.94, X_variation_max=0.00144, Y_variation_avg=0.000802, compliance_sd=0.869),
- "3.35": Sieve(calibration_samples=40.0, d_wire_min=0.00106, d_wire=0.00125, inspection_sd=0.097, calibration_sd=0.103, old_designation="No. 6", opening=0.00335, compliance_samples=200.0, opening_inch=0.000132, inspection_samples=20.0, designation="3.35", d_wire_max=0.0015, max_opening=3.67, X_variation_max=0.00032, Y_variation_avg=0.000107, compliance_sd=0.138),
- "31.5": Sieve(d_wire_min=0.0034, d_wire=0.004, old_designation="1 1/4 in.", opening=0.0315, compliance_samples=20.0, opening_inch=0.00125, designation="31.5", d_wire_max=0.0046, max_opening=33.13, X_variation_max=0.00163, Y_variation_avg=0.00095, compliance_sd=1.066),
- "37.5": Sieve(d_wire_min=0.0038, d_wire=0.0045, old_designation="1 1/2 in.", opening=0.0375, compliance_samples=20.0, opening_inch=0.0015, designation="37.5", d_wire_max=0.0052, max_opening=39.35, X_variation_max=0.00185, Y_variation_avg=0.00113, compliance_sd=1.374),
- "4": Sieve(calibration_samples=30.0, d_wire_min=0.0012, d_wire=0.0014, inspection_sd=0.108, calibration_sd=0.115, old_designation="No. 5", opening=0.004, compliance_samples=150.0, opening_inch=0.000157, inspection_samples=15.0, designation="4", d_wire_max=0.0017, max_opening=4.37, X_variation_max=0.00037, Y_variation_avg=0.000127, compliance_sd=0.161),
- "4.75": Sieve(calibration_samples=30.0, d_wire_min=0.0013, d_wire=0.0016, inspection_sd=0.123, calibration_sd=0.131, old_designation="No. 4", opening=0.00475, compliance_samples=150.0, opening_inch=0.000187, inspection_samples=15.0, designation="4.75", d_wire_max=0.0019, max_opening=5.16, X_variation_max=0.00041, Y_variation_avg=0.00015, compliance_sd=0.182),
- "45": Sieve(d_wire_min=0.0038, d_wire=0.0045, old_designation="1 3/4 in.", opening=0.045, compliance_samples=20.0, opening_inch=0.00175, designation="45", d_wire_max=0.0052, max_opening=47.12, X_variation_max=0.00212, Y_variation_avg=0.00135),
- "5.6": Sieve(calibration_samples=30.0, d_wire_min=0.0013, d_wire=0.0016, inspection_sd=0.142, calibration_sd=0.151, old_designation="No. 3 1/2", opening=0.0056, compliance_samples=150.0, opening_inch=0.000223, inspection_samples=15.0, designation="5.6", d_wire_max=0.0019, max_opening=6.07, X_variation_max=0.00047, Y_variation_avg=0.000176, compliance_sd=0.211),
- "50": Sieve(d_wire_min=0.0043, d_wire=0.005, old_designation="2 in.", opening=0.05, compliance_samples=20.0, opening_inch=0.002, designation="50", d_wire_max=0.0058, max_opening=52.29, X_variation_max=0.00229, Y_variation_avg=0.00149),
- "53": Sieve(d_wire_min=0.0043, d_wire=0.005, old_designation="2.12 in.", opening=0.053, compliance_samples=20.0, opening_inch=0.00212, designation="53", d_wire_max=0.0058, max_opening=55.39, X_variation_max=0.00239, Y_variation_avg=0.00158),
- "6.3": Sieve(calibration_samples=30.0, d_wire_min=0.0015, d_wire=0.0018, inspection_sd=0.157, calibration_sd=0.167, old_designation="1/4 in.", opening=0.0063, compliance_samples=150.0, opening_inch=0.00025, inspection_samples=15.0, designation="6.3", d_wire_max=0.0021, max_opening=6.81, X_variation_max=0.00051, Y_variation_avg=0.000197, compliance_sd=0.233),
- "6.7": Sieve(calibration_samples=30.0, d_wire_min=0.0015, d_wire=0.0018, inspection_sd=0.164, calibration_sd=0.175, old_designation="0.265 in.", opening=0.0067, compliance_samples=150.0, opening_inch=0.000265, inspection_samples=15.0, designation="6.7", d_wire_max=0.0021, max_opening=7.23, X_variation_max=0.00053, Y_variation_avg=0.00021, compliance_sd=0.245),
- "63": Sieve(d_wire_min=0.0048, d_wire=0.0056, old_designation="2 1/2 in.", opening=0.063, compliance_samples=20.0, opening_inch=0.0025, designation="63", d_wire_max=0.0064, max_opening=65.71, X_variation_max=0.00271, Y_variation_avg=0.00187),
- "75": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="3 in.", opening=0.075, compliance_samples=20.0, opening_inch=0.003, designation="75", d_wire_max=0.0072, max_opening=78.09, X_variation_max=0.00309, Y_variation_avg=0.00222),
- "8": Sieve(calibration_samples=30.0, d_wire_min=0.0017, d_wire=0.002, inspection_sd=0.191, calibration_sd=0.204, old_designation="5/16 in.", opening=0.008, compliance_samples=150.0, opening_inch=0.000312, inspection_samples=15.0, designation="8", d_wire_max=0.0023, max_opening=8.6, X_variation_max=0.0006, Y_variation_avg=0.000249, compliance_sd=0.284),
- "9.5": Sieve(calibration_samples=30.0, d_wire_min=0.0019, d_wire=0.00224, inspection_sd=0.222, calibration_sd=0.237, old_designation="3/8 in.", opening=0.0095, compliance_samples=150.0, opening_inch=0.000375, inspection_samples=15.0, designation="9.5", d_wire_max=0.0026, max_opening=10.18, X_variation_max=0.00068, Y_variation_avg=0.000295, compliance_sd=0.33),
- "90": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="3 1/2 in.", opening=0.09, compliance_samples=20.0, opening_inch=0.0035, designation="90", d_wire_max=0.0072, max_opening=93.53, X_variation_max=0.00353, Y_variation_avg=0.00265)
+ASTM_E11_sieves = {"0.02": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=2e-08, inspection_sd=4.51, calibration_sd=4.75, old_designation="No. 635", opening=2e-05, compliance_samples=1000.0, opening_inch=0.0008, inspection_samples=100.0, designation="0.02", d_wire_max=2e-08, max_opening=3.5e-05, X_variation_max=1.5e-05, Y_variation_avg=2.3e-06, compliance_sd=5.33),
+ "0.025": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=3e-08, inspection_sd=4.82, calibration_sd=5.06, old_designation="No. 500", opening=2.5e-05, compliance_samples=1000.0, opening_inch=0.001, inspection_samples=100.0, designation="0.025", d_wire_max=3e-08, max_opening=4.1e-05, X_variation_max=1.6e-05, Y_variation_avg=2.5e-06, compliance_sd=5.71),
+ "0.032": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=3e-08, inspection_sd=5.42, calibration_sd=5.71, old_designation="No. 450", opening=3.2e-05, compliance_samples=1000.0, opening_inch=0.0012, inspection_samples=100.0, designation="0.032", d_wire_max=3e-08, max_opening=5e-05, X_variation_max=1.8e-05, Y_variation_avg=2.7e-06, compliance_sd=6.42),
+ "0.038": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_wire=3e-08, inspection_sd=5.99, calibration_sd=6.31, old_designation="No. 400", opening=3.8e-05, compliance_samples=1000.0, opening_inch=0.0015, inspection_samples=100.0, designation="0.038", d_wire_max=3e-08, max_opening=5.8e-05, X_variation_max=2e-05, Y_variation_avg=2.9e-06, compliance_sd=7.09),
+ "0.045": Sieve(calibration_samples=250.0, d_wire_min=3e-08, d_wire=3e-08, inspection_sd=6.56, calibration_sd=6.84, old_designation="No. 325", opening=4.5e-05, compliance_samples=1000.0, opening_inch=0.0017, inspection_samples=100.0, designation="0.045", d_wire_max=4e-08, max_opening=6.7e-05, X_variation_max=2.2e-05, Y_variation_avg=3.1e-06, compliance_sd=7.76),
+ "0.053": Sieve(calibration_samples=250.0, d_wire_min=3e-08, d_wire=4e-08, inspection_sd=7.13, calibration_sd=7.44, old_designation="No. 270", opening=5.3e-05, compliance_samples=1000.0, opening_inch=0.0021, inspection_samples=100.0, designation="0.053", d_wire_max=4e-08, max_opening=7.7e-05, X_variation_max=2.4e-05, Y_variation_avg=3.4e-06, compliance_sd=8.44),
+ "0.063": Sieve(calibration_samples=250.0, d_wire_min=4e-08, d_wire=5e-08, inspection_sd=7.76, calibration_sd=8.09, old_designation="No. 230", opening=6.3e-05, compliance_samples=1000.0, opening_inch=0.0025, inspection_samples=100.0, designation="0.063", d_wire_max=5e-08, max_opening=8.9e-05, X_variation_max=2.6e-05, Y_variation_avg=3.7e-06, compliance_sd=9.18),
+ "0.075": Sieve(calibration_samples=250.0, d_wire_min=4e-08, d_wire=5e-08, inspection_sd=8.64, calibration_sd=9.02, old_designation="No. 200", opening=7.5e-05, compliance_samples=1000.0, opening_inch=0.0029, inspection_samples=100.0, designation="0.075", d_wire_max=6e-08, max_opening=0.000104, X_variation_max=2.9e-05, Y_variation_avg=4.1e-06, compliance_sd=10.23),
+ "0.09": Sieve(calibration_samples=200.0, d_wire_min=5e-08, d_wire=6e-08, inspection_sd=9.53, calibration_sd=9.8, old_designation="No. 170", opening=9e-05, compliance_samples=1000.0, opening_inch=0.0035, inspection_samples=100.0, designation="0.09", d_wire_max=7e-08, max_opening=0.000122, X_variation_max=3.2e-05, Y_variation_avg=4.6e-06, compliance_sd=11.27),
+ "0.106": Sieve(calibration_samples=200.0, d_wire_min=6e-08, d_wire=7e-08, inspection_sd=10.47, calibration_sd=10.77, old_designation="No. 140", opening=0.000106, compliance_samples=1000.0, opening_inch=0.0041, inspection_samples=100.0, designation="0.106", d_wire_max=8e-08, max_opening=0.000141, X_variation_max=3.5e-05, Y_variation_avg=5.2e-06, compliance_sd=12.39),
+ "0.125": Sieve(calibration_samples=200.0, d_wire_min=8e-08, d_wire=9e-08, inspection_sd=11.41, calibration_sd=11.74, old_designation="No. 120", opening=0.000125, compliance_samples=1000.0, opening_inch=0.0049, inspection_samples=100.0, designation="0.125", d_wire_max=1e-07, max_opening=0.000163, X_variation_max=3.8e-05, Y_variation_avg=5.8e-06, compliance_sd=13.51),
+ "0.15": Sieve(calibration_samples=200.0, d_wire_min=9e-08, d_wire=1e-07, inspection_sd=12.93, calibration_sd=13.3, old_designation="No. 100", opening=0.00015, compliance_samples=1000.0, opening_inch=0.0059, inspection_samples=100.0, designation="0.15", d_wire_max=1.2e-07, max_opening=0.000193, X_variation_max=4.3e-05, Y_variation_avg=6.6e-06, compliance_sd=15.3),
+ "0.18": Sieve(calibration_samples=200.0, d_wire_min=1.1e-07, d_wire=1.2e-07, inspection_sd=14.24, calibration_sd=14.65, old_designation="No. 80", opening=0.00018, compliance_samples=1000.0, opening_inch=0.007, inspection_samples=100.0, designation="0.18", d_wire_max=1.5e-07, max_opening=0.000227, X_variation_max=4.7e-05, Y_variation_avg=7.6e-06, compliance_sd=16.85),
+ "0.212": Sieve(calibration_samples=160.0, d_wire_min=1.2e-07, d_wire=1.4e-07, inspection_sd=15.59, calibration_sd=16.08, old_designation="No. 70", opening=0.000212, compliance_samples=800.0, opening_inch=0.0083, inspection_samples=80.0, designation="0.212", d_wire_max=1.7e-07, max_opening=0.000264, X_variation_max=5.2e-05, Y_variation_avg=8.7e-06, compliance_sd=18.79),
+ "0.25": Sieve(calibration_samples=160.0, d_wire_min=1.3e-07, d_wire=1.6e-07, inspection_sd=17.44, calibration_sd=17.99, old_designation="No. 60", opening=0.00025, compliance_samples=800.0, opening_inch=0.0098, inspection_samples=80.0, designation="0.25", d_wire_max=1.9e-07, max_opening=0.000308, X_variation_max=5.8e-05, Y_variation_avg=9.9e-06, compliance_sd=21.02),
+ "0.3": Sieve(calibration_samples=160.0, d_wire_min=1.7e-07, d_wire=2e-07, inspection_sd=19.66, calibration_sd=20.29, old_designation="No. 50", opening=0.0003, compliance_samples=800.0, opening_inch=0.0117, inspection_samples=80.0, designation="0.3", d_wire_max=2.3e-07, max_opening=0.000365, X_variation_max=6.5e-05, Y_variation_avg=1.15e-05, compliance_sd=23.7),
+ "0.355": Sieve(calibration_samples=160.0, d_wire_min=1.9e-07, d_wire=2.2e-07, inspection_sd=21.95, calibration_sd=22.64, old_designation="No. 45", opening=0.000355, compliance_samples=800.0, opening_inch=0.0139, inspection_samples=80.0, designation="0.355", d_wire_max=2.6e-07, max_opening=0.000427, X_variation_max=7.2e-05, Y_variation_avg=1.33e-05, compliance_sd=26.45),
+ "0.425": Sieve(calibration_samples=120.0, d_wire_min=2.4e-07, d_wire=2.8e-07, inspection_sd=24.2, calibration_sd=25.08, old_designation="No. 40", opening=0.000425, compliance_samples=600.0, opening_inch=0.0165, inspection_samples=60.0, designation="0.425", d_wire_max=3.2e-07, max_opening=0.000506, X_variation_max=8.1e-05, Y_variation_avg=1.55e-05, compliance_sd=29.95),
+ "0.5": Sieve(calibration_samples=120.0, d_wire_min=2.7e-07, d_wire=3.2e-07, inspection_sd=26.85, calibration_sd=27.82, old_designation="No. 35", opening=0.0005, compliance_samples=600.0, opening_inch=0.0197, inspection_samples=60.0, designation="0.5", d_wire_max=3.6e-07, max_opening=0.000589, X_variation_max=8.9e-05, Y_variation_avg=1.8e-05, compliance_sd=33.23),
+ "0.6": Sieve(calibration_samples=100.0, d_wire_min=3.4e-07, d_wire=4e-07, inspection_sd=30.14, calibration_sd=31.32, old_designation="No. 30", opening=0.0006, compliance_samples=500.0, opening_inch=0.0234, inspection_samples=50.0, designation="0.6", d_wire_max=4.6e-07, max_opening=0.000701, X_variation_max=0.000101, Y_variation_avg=2.12e-05, compliance_sd=38.0),
+ "0.71": Sieve(calibration_samples=100.0, d_wire_min=3.8e-07, d_wire=4.5e-07, inspection_sd=33.82, calibration_sd=35.14, old_designation="No. 25", opening=0.00071, compliance_samples=500.0, opening_inch=0.0278, inspection_samples=50.0, designation="0.71", d_wire_max=5.2e-07, max_opening=0.000822, X_variation_max=0.000112, Y_variation_avg=2.47e-05, compliance_sd=42.63),
+ "0.85": Sieve(calibration_samples=80.0, d_wire_min=4.3e-07, d_wire=5e-07, inspection_sd=37.73, calibration_sd=39.36, old_designation="No. 20", opening=0.00085, compliance_samples=400.0, opening_inch=0.0331, inspection_samples=40.0, designation="0.85", d_wire_max=5.8e-07, max_opening=0.000977, X_variation_max=0.000127, Y_variation_avg=2.91e-05, compliance_sd=48.76),
+ "1": Sieve(calibration_samples=80.0, d_wire_min=0.00048, d_wire=0.00056, inspection_sd=0.042, calibration_sd=0.044, old_designation="No. 18", opening=0.001, compliance_samples=400.0, opening_inch=0.0394, inspection_samples=40.0, designation="1", d_wire_max=0.00064, max_opening=0.00114, X_variation_max=0.00014, Y_variation_avg=3.4e-05, compliance_sd=0.055),
+ "1.18": Sieve(calibration_samples=80.0, d_wire_min=0.00054, d_wire=0.00063, inspection_sd=0.049, calibration_sd=0.051, old_designation="No. 16", opening=0.00118, compliance_samples=400.0, opening_inch=0.0469, inspection_samples=40.0, designation="1.18", d_wire_max=0.00072, max_opening=0.00134, X_variation_max=0.00016, Y_variation_avg=4e-05, compliance_sd=0.063),
+ "1.4": Sieve(calibration_samples=80.0, d_wire_min=0.0006, d_wire=0.00071, inspection_sd=0.055, calibration_sd=0.057, old_designation="No. 14", opening=0.0014, compliance_samples=400.0, opening_inch=0.0555, inspection_samples=40.0, designation="1.4", d_wire_max=0.00082, max_opening=0.00158, X_variation_max=0.00018, Y_variation_avg=4.6e-05, compliance_sd=0.071),
+ "1.7": Sieve(calibration_samples=50.0, d_wire_min=0.00068, d_wire=0.0008, inspection_sd=0.059, calibration_sd=0.062, old_designation="No. 12", opening=0.0017, compliance_samples=250.0, opening_inch=0.0661, inspection_samples=25.0, designation="1.7", d_wire_max=0.00092, max_opening=0.0019, X_variation_max=0.0002, Y_variation_avg=5.6e-05, compliance_sd=0.081),
+ "100": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="4 in.", opening=0.1, compliance_samples=20.0, opening_inch=4.0, designation="100", d_wire_max=0.0072, max_opening=0.10382, X_variation_max=0.00382, Y_variation_avg=0.00294),
+ "106": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="4.24 in.", opening=0.106, compliance_samples=20.0, opening_inch=4.24, designation="106", d_wire_max=0.0072, max_opening=0.10999, X_variation_max=0.00399, Y_variation_avg=0.00312),
+ "11.2": Sieve(calibration_samples=30.0, d_wire_min=0.0021, d_wire=0.0025, inspection_sd=0.256, calibration_sd=0.274, old_designation="7/16 in.", opening=0.0112, compliance_samples=150.0, opening_inch=0.438, inspection_samples=15.0, designation="11.2", d_wire_max=0.0029, max_opening=0.01197, X_variation_max=0.00077, Y_variation_avg=0.000346, compliance_sd=0.382),
+ "12.5": Sieve(calibration_samples=30.0, d_wire_min=0.0021, d_wire=0.0025, inspection_sd=0.283, calibration_sd=0.302, old_designation="1/2 in.", opening=0.0125, compliance_samples=150.0, opening_inch=0.5, inspection_samples=15.0, designation="12.5", d_wire_max=0.0029, max_opening=0.01333, X_variation_max=0.00083, Y_variation_avg=0.000385, compliance_sd=0.421),
+ "125": Sieve(d_wire_min=0.0068, d_wire=0.008, old_designation="5 in.", opening=0.125, compliance_samples=20.0, opening_inch=5.0, designation="125", d_wire_max=0.0092, max_opening=0.12951, X_variation_max=0.00451, Y_variation_avg=0.00366),
+ "13.2": Sieve(calibration_samples=30.0, d_wire_min=0.0024, d_wire=0.0028, inspection_sd=0.296, calibration_sd=0.316, old_designation="0.530 in.", opening=0.0132, compliance_samples=150.0, opening_inch=0.53, inspection_samples=15.0, designation="13.2", d_wire_max=0.0032, max_opening=0.01406, X_variation_max=0.00086, Y_variation_avg=0.000406, compliance_sd=0.441),
+ "16": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.354, calibration_sd=0.378, old_designation="5/8 in.", opening=0.016, compliance_samples=150.0, opening_inch=0.625, inspection_samples=15.0, designation="16", d_wire_max=0.0036, max_opening=0.01699, X_variation_max=0.00099, Y_variation_avg=0.00049, compliance_sd=0.527),
+ "19": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.418, calibration_sd=0.446, old_designation="3/4 in.", opening=0.019, compliance_samples=150.0, opening_inch=0.75, inspection_samples=15.0, designation="19", d_wire_max=0.0035, max_opening=0.02013, X_variation_max=0.00113, Y_variation_avg=0.000579, compliance_sd=0.622),
+ "2": Sieve(calibration_samples=50.0, d_wire_min=0.00077, d_wire=0.0009, inspection_sd=0.068, calibration_sd=0.072, old_designation="No. 10", opening=0.002, compliance_samples=250.0, opening_inch=0.0787, inspection_samples=25.0, designation="2", d_wire_max=0.00104, max_opening=0.00223, X_variation_max=0.00023, Y_variation_avg=6.5e-05, compliance_sd=0.094),
+ "2.36": Sieve(calibration_samples=40.0, d_wire_min=0.00085, d_wire=0.001, inspection_sd=0.073, calibration_sd=0.077, old_designation="No. 8", opening=0.00236, compliance_samples=200.0, opening_inch=0.0937, inspection_samples=20.0, designation="2.36", d_wire_max=0.00115, max_opening=0.00261, X_variation_max=0.00025, Y_variation_avg=7.6e-05, compliance_sd=0.104),
+ "2.8": Sieve(calibration_samples=40.0, d_wire_min=0.00095, d_wire=0.00112, inspection_sd=0.085, calibration_sd=0.09, old_designation="No. 7", opening=0.0028, compliance_samples=200.0, opening_inch=0.11, inspection_samples=20.0, designation="2.8", d_wire_max=0.0013, max_opening=0.00309, X_variation_max=0.00029, Y_variation_avg=9e-05, compliance_sd=0.121),
+ "22.4": Sieve(d_wire_min=0.003, d_wire=0.00355, inspection_sd=0.493, old_designation="7/8 in.", opening=0.0224, compliance_samples=150.0, opening_inch=0.875, inspection_samples=15.0, designation="22.4", d_wire_max=0.0041, max_opening=0.02367, X_variation_max=0.00127, Y_variation_avg=0.000681, compliance_sd=0.734),
+ "25": Sieve(d_wire_min=0.003, d_wire=0.00355, inspection_sd=0.553, old_designation="1.00 in.", opening=0.025, compliance_samples=20.0, opening_inch=1.0, inspection_samples=15.0, designation="25", d_wire_max=0.0041, max_opening=0.02638, X_variation_max=0.00138, Y_variation_avg=0.000758, compliance_sd=0.823),
+ "26.5": Sieve(d_wire_min=0.003, d_wire=0.00355, inspection_sd=0.584, old_designation="1.06 in.", opening=0.0265, compliance_samples=20.0, opening_inch=1.06, inspection_samples=15.0, designation="26.5", d_wire_max=0.0041, max_opening=0.02794, X_variation_max=0.00144, Y_variation_avg=0.000802, compliance_sd=0.869),
+ "3.35": Sieve(calibration_samples=40.0, d_wire_min=0.00106, d_wire=0.00125, inspection_sd=0.097, calibration_sd=0.103, old_designation="No. 6", opening=0.00335, compliance_samples=200.0, opening_inch=0.132, inspection_samples=20.0, designation="3.35", d_wire_max=0.0015, max_opening=0.00367, X_variation_max=0.00032, Y_variation_avg=0.000107, compliance_sd=0.138),
+ "31.5": Sieve(d_wire_min=0.0034, d_wire=0.004, old_designation="1 1/4 in.", opening=0.0315, compliance_samples=20.0, opening_inch=1.25, designation="31.5", d_wire_max=0.0046, max_opening=0.03313, X_variation_max=0.00163, Y_variation_avg=0.00095, compliance_sd=1.066),
+ "37.5": Sieve(d_wire_min=0.0038, d_wire=0.0045, old_designation="1 1/2 in.", opening=0.0375, compliance_samples=20.0, opening_inch=1.5, designation="37.5", d_wire_max=0.0052, max_opening=0.03935, X_variation_max=0.00185, Y_variation_avg=0.00113, compliance_sd=1.374),
+ "4": Sieve(calibration_samples=30.0, d_wire_min=0.0012, d_wire=0.0014, inspection_sd=0.108, calibration_sd=0.115, old_designation="No. 5", opening=0.004, compliance_samples=150.0, opening_inch=0.157, inspection_samples=15.0, designation="4", d_wire_max=0.0017, max_opening=0.00437, X_variation_max=0.00037, Y_variation_avg=0.000127, compliance_sd=0.161),
+ "4.75": Sieve(calibration_samples=30.0, d_wire_min=0.0013, d_wire=0.0016, inspection_sd=0.123, calibration_sd=0.131, old_designation="No. 4", opening=0.00475, compliance_samples=150.0, opening_inch=0.187, inspection_samples=15.0, designation="4.75", d_wire_max=0.0019, max_opening=0.00516, X_variation_max=0.00041, Y_variation_avg=0.00015, compliance_sd=0.182),
+ "45": Sieve(d_wire_min=0.0038, d_wire=0.0045, old_designation="1 3/4 in.", opening=0.045, compliance_samples=20.0, opening_inch=1.75, designation="45", d_wire_max=0.0052, max_opening=0.04712, X_variation_max=0.00212, Y_variation_avg=0.00135),
+ "5.6": Sieve(calibration_samples=30.0, d_wire_min=0.0013, d_wire=0.0016, inspection_sd=0.142, calibration_sd=0.151, old_designation="No. 3 1/2", opening=0.0056, compliance_samples=150.0, opening_inch=0.223, inspection_samples=15.0, designation="5.6", d_wire_max=0.0019, max_opening=0.00607, X_variation_max=0.00047, Y_variation_avg=0.000176, compliance_sd=0.211),
+ "50": Sieve(d_wire_min=0.0043, d_wire=0.005, old_designation="2 in.", opening=0.05, compliance_samples=20.0, opening_inch=2.0, designation="50", d_wire_max=0.0058, max_opening=0.05229, X_variation_max=0.00229, Y_variation_avg=0.00149),
+ "53": Sieve(d_wire_min=0.0043, d_wire=0.005, old_designation="2.12 in.", opening=0.053, compliance_samples=20.0, opening_inch=2.12, designation="53", d_wire_max=0.0058, max_opening=0.05539, X_variation_max=0.00239, Y_variation_avg=0.00158),
+ "6.3": Sieve(calibration_samples=30.0, d_wire_min=0.0015, d_wire=0.0018, inspection_sd=0.157, calibration_sd=0.167, old_designation="1/4 in.", opening=0.0063, compliance_samples=150.0, opening_inch=0.25, inspection_samples=15.0, designation="6.3", d_wire_max=0.0021, max_opening=0.00681, X_variation_max=0.00051, Y_variation_avg=0.000197, compliance_sd=0.233),
+ "6.7": Sieve(calibration_samples=30.0, d_wire_min=0.0015, d_wire=0.0018, inspection_sd=0.164, calibration_sd=0.175, old_designation="0.265 in.", opening=0.0067, compliance_samples=150.0, opening_inch=0.265, inspection_samples=15.0, designation="6.7", d_wire_max=0.0021, max_opening=0.00723, X_variation_max=0.00053, Y_variation_avg=0.00021, compliance_sd=0.245),
+ "63": Sieve(d_wire_min=0.0048, d_wire=0.0056, old_designation="2 1/2 in.", opening=0.063, compliance_samples=20.0, opening_inch=2.5, designation="63", d_wire_max=0.0064, max_opening=0.06571, X_variation_max=0.00271, Y_variation_avg=0.00187),
+ "75": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="3 in.", opening=0.075, compliance_samples=20.0, opening_inch=3.0, designation="75", d_wire_max=0.0072, max_opening=0.07809, X_variation_max=0.00309, Y_variation_avg=0.00222),
+ "8": Sieve(calibration_samples=30.0, d_wire_min=0.0017, d_wire=0.002, inspection_sd=0.191, calibration_sd=0.204, old_designation="5/16 in.", opening=0.008, compliance_samples=150.0, opening_inch=0.312, inspection_samples=15.0, designation="8", d_wire_max=0.0023, max_opening=0.0086, X_variation_max=0.0006, Y_variation_avg=0.000249, compliance_sd=0.284),
+ "9.5": Sieve(calibration_samples=30.0, d_wire_min=0.0019, d_wire=0.00224, inspection_sd=0.222, calibration_sd=0.237, old_designation="3/8 in.", opening=0.0095, compliance_samples=150.0, opening_inch=0.375, inspection_samples=15.0, designation="9.5", d_wire_max=0.0026, max_opening=0.01018, X_variation_max=0.00068, Y_variation_avg=0.000295, compliance_sd=0.33),
+ "90": Sieve(d_wire_min=0.0054, d_wire=0.0063, old_designation="3 1/2 in.", opening=0.09, compliance_samples=20.0, opening_inch=3.5, designation="90", d_wire_max=0.0072, max_opening=0.09353, X_variation_max=0.00353, Y_variation_avg=0.00265)
  }
 """Dictionary containing ASTM E-11 sieve series :py:func:`Sieve` objects, indexed by
 their size in mm as a string.
-- 
2.43.0


From 079a248994ef08e0f48aeaf57738ed8b5adea9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 41/52] fix: permissible wire diameter of the ASTM E11 19 mm
 sieve (3.6 mm, as in ISO 3310-1)

---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index f108d8c..1ca723e 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -275,7 +275,7 @@ ASTM_E11_sieves = {"0.02": Sieve(calibration_samples=300.0, d_wire_min=2e-08, d_
  "125": Sieve(d_wire_min=0.0068, d_wire=0.008, old_designation="5 in.", opening=0.125, compliance_samples=20.0, opening_inch=5.0, designation="125", d_wire_max=0.0092, max_opening=0.12951, X_variation_max=0.00451, Y_variation_avg=0.00366),
  "13.2": Sieve(calibration_samples=30.0, d_wire_min=0.0024, d_wire=0.0028, inspection_sd=0.296, calibration_sd=0.316, old_designation="0.530 in.", opening=0.0132, compliance_samples=150.0, opening_inch=0.53, inspection_samples=15.0, designation="13.2", d_wire_max=0.0032, max_opening=0.01406, X_variation_max=0.00086, Y_variation_avg=0.000406, compliance_sd=0.441),
  "16": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.354, calibration_sd=0.378, old_designation="5/8 in.", opening=0.016, compliance_samples=150.0, opening_inch=0.625, inspection_samples=15.0, designation="16", d_wire_max=0.0036, max_opening=0.01699, X_variation_max=0.00099, Y_variation_avg=0.00049, compliance_sd=0.527),
- "19": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.418, calibration_sd=0.446, old_designation="3/4 in.", opening=0.019, compliance_samples=150.0, opening_inch=0.75, inspection_samples=15.0, designation="19", d_wire_max=0.0035, max_opening=0.02013, X_variation_max=0.00113, Y_variation_avg=0.000579, compliance_sd=0.622),
+ "19": Sieve(calibration_samples=30.0, d_wire_min=0.0027, d_wire=0.00315, inspection_sd=0.418, calibration_sd=0.446, old_designation="3/4 in.", opening=0.019, compliance_samples=150.0, opening_inch=0.75, inspection_samples=15.0, designation="19", d_wire_max=0.0036, max_opening=0.02013, X_variation_max=0.00113, Y_variation_avg=0.000579, compliance_sd=0.622),
  "2": Sieve(calibration_samples=50.0, d_wire_min=0.00077, d_wire=0.0009, inspection_sd=0.068, calibration_sd=0.072, old_designation="No. 10", opening=0.002, compliance_samples=250.0, opening_inch=0.0787, inspection_samples=25.0, designation="2", d_wire_max=0.00104, max_opening=0.00223, X_variation_max=0.00023, Y_variation_avg=6.5e-05, compliance_sd=0.094),
  "2.36": Sieve(calibration_samples=40.0, d_wire_min=0.00085, d_wire=0.001, inspection_sd=0.073, calibration_sd=0.077, old_designation="No. 8", opening=0.00236, compliance_samples=200.0, opening_inch=0.0937, inspection_samples=20.0, designation="2.36", d_wire_max=0.00115, max_opening=0.00261, X_variation_max=0.00025, Y_variation_avg=7.6e-05, compliance_sd=0.104),
  "2.8": Sieve(calibration_samples=40.0, d_wire_min=0.00095, d_wire=0.00112, inspection_sd=0.085, calibration_sd=0.09, old_designation="No. 7", opening=0.0028, compliance_samples=200.0, opening_inch=0.11, inspection_samples=20.0, designation="2.8", d_wire_max=0.0013, max_opening=0.00309, X_variation_max=0.00029, Y_variation_avg=9e-05, compliance_sd=0.121),
-- 
2.43.0


From e265ae9c19f9ceff9d636d6777c11a6f5cada2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 42/52] fix: repr of a HelicalCoil without inner diameter
 raised AttributeError

---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index e9f6f75..c11333e 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4102,10 +4102,10 @@ outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m"
         self.total_inlet_area = pi/4.*self.Dt**2
         self.total_volume = self.total_inlet_area*self.tube_length
 
+        self.Di = Di
         if Di is not None:
-            self.Di = Di
-            self.inner_surface_area = self.tube_length*pi*self.Di
-            self.inlet_area = pi/4.*self.Di**2
+            self.inner_surface_area = self.tube_length*pi*Di
+            self.inlet_area = pi/4.*Di**2
             self.inner_volume = self.inlet_area*self.tube_length
             self.annulus_area = self.total_inlet_area - self.inlet_area
             self.annulus_volume = self.total_volume - self.inner_volume
-- 
2.43.0


From b471b0211a1dee02c7c9b10e6039adc611e24dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 43/52] fix: repr of a PlateExchanger without dimensions, ports
 or plates raised AttributeError

---
 fluids/geometry.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index c11333e..b0f1ef1 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4264,10 +4264,11 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
             s += f", width={self.width:g} m, length={self.length:g} m"
         if self.d_port:
             s += f", port diameter={self.d_port:g} m"
+        if self.A_heat_transfer:
+            s += f", heat transfer area={self.A_heat_transfer:g} m^2"
         if self.plates:
-            s += f", heat transfer area={self.A_heat_transfer:g} m^2, {self.plates:g} plates>"
-        else:
-            s += ">"
+            s += f", {self.plates:g} plates"
+        s += ">"
         return s
 
     @property
@@ -4307,16 +4308,12 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
         self.D_eq = 4*self.amplitude # Equivalent diameter for inter-plate spacing
         self.D_hydraulic = 4*self.amplitude/self.plate_enlargement_factor # Get better results when correlations use this
 
-        if width is not None:
-            self.width = width
-        if length is not None:
-            self.length = length
-        if thickness is not None:
-            self.thickness = thickness
-        if d_port is not None:
-            self.d_port = d_port
-        if plates is not None:
-            self.plates = plates
+        self.width = width
+        self.length = length
+        self.thickness = thickness
+        self.d_port = d_port
+        self.plates = plates
+        self.A_heat_transfer = None
 
         if d_port is not None and length is not None:
             self.length_port = length + d_port # port center to port center along the direction of flow
@@ -4326,9 +4323,9 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
             if plates is not None:
                 self.A_heat_transfer = (plates-2)*self.A_plate_surface # the two outermost sides aren't used
         if width is not None:
-            self.A_channel_flow = self.width*self.b # Use this to get G, kg/s/m^2
+            self.A_channel_flow = width*self.b # Use this to get G, kg/s/m^2
         if plates is not None:
-            self.channels = self.plates - 1
+            self.channels = plates - 1
             self.channels_per_fluid = 0.5*self.channels
 
 
-- 
2.43.0


From 325418ba20f59a9ccd2b1e217f879c56134af26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 44/52] fix: interpolated particle size distributions with
 monotonic=False had no splines

---
 fluids/particle_size_distribution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 1ca723e..55256b7 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2326,6 +2326,10 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             from scipy.interpolate import PchipInterpolator
             self.cdf_spline = PchipInterpolator(ds, self.fraction_cdf, extrapolate=True)
             self.pdf_spline = PchipInterpolator(ds, self.fraction_cdf, extrapolate=True).derivative(1)
+        else:
+            from scipy.interpolate import UnivariateSpline
+            self.cdf_spline = UnivariateSpline(ds, self.fraction_cdf, k=min(3, len(ds) - 1), ext=3, s=0)
+            self.pdf_spline = UnivariateSpline(ds, self.fraction_cdf, k=min(3, len(ds) - 1), ext=3, s=0).derivative(1)
 
         self.basis_integrals: dict[int, Callable[[float], float]] = {}
 
@@ -2352,5 +2356,8 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
                 self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+            else:
+                from scipy.interpolate import UnivariateSpline
+                self.basis_integrals[n] = UnivariateSpline(ds, basis_integral, k=min(3, len(ds) - 1), ext=3, s=0).antiderivative(1)
         return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From 7d76e26e7585cd2cc355975f1a0380c174784a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:31 +0000
Subject: [PATCH 45/52] fix: one-sided typo 1/33 in the mixing exponent of
 size_tee with one jet

---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From fd3ea2e045119ed93a635a4e55021feda9b8e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:31 +0000
Subject: [PATCH 46/52] fix: HelicalCoil accepted colliding tubes when given by
 turns and pitch

---
 fluids/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index b0f1ef1..ab63104 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4069,6 +4069,8 @@ outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m"
             N_final: float = N
             pitch_final: float = pitch
             H_final: float = N*pitch
+            if pitch_final < self.Dt:
+                raise ValueError("Pitch is too small - tubes are colliding; pitch must be larger than tube diameter.")
         elif N is not None and H is not None:
             N_final = N
             H_final = H
-- 
2.43.0


From 1d2a0e75c29ed27bad9c59525d11674dae425e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:01 +0000
Subject: [PATCH 47/52] fix: AirCooledExchanger refused pitch_ratio without
 pitch and overrode pitch when both were given

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index ab63104..37e54da 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4966,7 +4966,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From c9b44de9ceb7937f5121b2b500dd8cc3f2f9e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:22 +0000
Subject: [PATCH 48/52] fix: PSDGatesGaudinSchuhman could not be truncated, and
 counted particles above its largest size in other bases

---
 fluids/particle_size_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 55256b7..9da461b 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2132,7 +2132,7 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
         if d_max is not None:
             # PDF above this is zero
-            self.d_excessive = self.d_max
+            self.d_excessive = d_max
         else:
             self.d_excessive = self.d_characteristic
         if d_min is not None:
@@ -2163,6 +2163,8 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
         return cdf_Gates_Gaudin_Schuhman(d, d_characteristic=self.d_characteristic, m=self.m)
 
     def _pdf_basis_integral(self, d: float, n: float) -> float:
+        # There are no particles larger than `d_characteristic`
+        d = min(d, self.d_characteristic)
         return pdf_Gates_Gaudin_Schuhman_basis_integral(d, d_characteristic=self.d_characteristic, m=self.m, n=n)
 
 
-- 
2.43.0


From 6db4e3cb53edcda8edf6a99d6bb1f3f96c3f5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 49/52] fix: truncated particle size distributions were not
 normalised in other bases

---
 fluids/particle_size_distribution.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 9da461b..5221e5f 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1307,14 +1307,16 @@ class ParticleSizeDistributionContinuous:
         if n is not None and n != self.order:
             power = n - self.order
             numerator = d**power*ans
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            # `d_minimum` and `d_excessive` are the limits of a truncated distribution
+            denominator = self._pdf_basis_integral_definite(d_min=self.d_minimum if self.truncated else 0.0, d_max=self.d_excessive, n=power)
             ans = numerator/denominator
         # Handle splines which might go below zero
         ans = max(ans, 0.0)
         if self.truncated:
             if d < self.d_min or d > self.d_max:
                 return 0.0
-            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
+            if n is None or n == self.order:
+                ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def cdf(self, d: float, n: float | None=None) -> float:
@@ -1352,22 +1354,24 @@ class ParticleSizeDistributionContinuous:
         >>> [psd.cdf(5e-6, n) for n in range(4)]
         [0.933192798731, 0.8413447460685, 0.6914624612740, 0.5]
         """
+        if self.truncated:
+            if d <= self.d_min:
+                return 0.0
+            elif d >= self.d_max:
+                return 1.0
         if n is not None and n != self.order:
             power = n - self.order
+            d_lower = self.d_minimum if self.truncated else 0.0
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
-            numerator = self._pdf_basis_integral_definite(d_min=0.0, d_max=d, n=power)
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            numerator = self._pdf_basis_integral_definite(d_min=d_lower, d_max=d, n=power)
+            denominator = self._pdf_basis_integral_definite(d_min=d_lower, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
         # Handle splines which might go below zero
         else:
             ans = max(self._cdf(d=d), 0.0)
-        if self.truncated:
-            if d <= self.d_min:
-                return 0.0
-            elif d >= self.d_max:
-                return 1.0
-            ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
+            if self.truncated:
+                ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def delta_cdf(self, d_min, d_max, n=None):
-- 
2.43.0


From 38eb51ab0dfa0e2cfcba9a2de1e6f7039ff0d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:40 +0000
Subject: [PATCH 50/52] fix: pdf_Gates_Gaudin_Schuhman_basis_integral divided
 by zero at a diameter of zero

---
 fluids/particle_size_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 5221e5f..f443a67 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -912,6 +912,8 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     >>> pdf_Gates_Gaudin_Schuhman_basis_integral(d=2E-4, d_characteristic=1E-3, m=2.3, n=-3)
     -10136984887.543015
     """
+    if d == 0.0 and m + n > 0.0:
+        return 0.0
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
-- 
2.43.0


From 6bee0b7a8ae1c6fba4bd3c4b59791f046c08808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:57 +0000
Subject: [PATCH 51/52] fix: PSDInterpolated did not set d_minimum when its
 diameters start at zero

---
 fluids/particle_size_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index f443a67..9b1f736 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2322,6 +2322,8 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             if len(ds) != len(fractions):
                 fractions = [0.0] + fractions
             self.d_minimum = 0.0
+        else:
+            self.d_minimum = 0.0
 
         self.ds = ds
         self.fractions = fractions
-- 
2.43.0


From cfb4b005ef2b3254298b180907a1ef1122af9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:25 +0000
Subject: [PATCH 52/52] fix: diffuser_conical_Crane gave negative losses for a
 diffuser described by its length

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index e661193..1f86671 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0

