From c1568fd3f92f3ef42f61a3cb792fff3fbc67e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 01/35] fix: use the given gamma_s once in MC2010 v_rd at every
 approximation level

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 5e5eab9..9ea7408 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -136,11 +136,9 @@ def v_rd(
             gamma_c,
         )
 
-    f_ywd = f_ywk / gamma_s
-
     if approx_lvl in (1, 2):
         return min(
-            v_rds(asw, sw, z, f_ywk, theta, alpha),
+            v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s),
             v_rd_max(
                 approx_lvl,
                 fck,
@@ -182,8 +180,10 @@ def v_rd(
             gamma_c,
         )
 
-        if (V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)) < V_rd_max:
-            return V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)
+        V_rds = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
+
+        if (V_rdc + V_rds) < V_rd_max:
+            return V_rdc + V_rds
 
         return v_rd(
             2,
@@ -201,6 +201,7 @@ def v_rd(
             theta,
             alpha,
             gamma_c,
+            gamma_s,
         )
 
     raise ValueError('invalid approx level')
-- 
2.43.0


From 3766f77cb4b59bc86705535294f0aeef6781bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 02/35] fix: do not modify the strain array of the caller in
 preprocess_strains_with_limits

---
 structuralcodes/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 0940bc5..26cd72e 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -202,7 +202,8 @@ class ConstitutiveLaw(abc.ABC):
         """Preprocess strain arrays setting those strains sufficiently
         near to ultimate strain limits to exactly ultimate strain limit.
         """
-        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
+        # Work on a copy, the strains of the caller should not be modified
+        eps = eps if np.isscalar(eps) else np.array(eps, dtype=float, ndmin=1)
         eps_min, eps_max = self.get_ultimate_strain()
 
         if np.isscalar(eps):
-- 
2.43.0


From f80ce631fe6c0757e64a76f64b37c28403352503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 03/35] fix: Sargin law divides by zero at tensile strains
 where its stress is zero

---
 .../materials/constitutive_laws/_sargin.py       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_sargin.py b/structuralcodes/materials/constitutive_laws/_sargin.py
index 4b5d6f1..aa5cd74 100644
--- a/structuralcodes/materials/constitutive_laws/_sargin.py
+++ b/structuralcodes/materials/constitutive_laws/_sargin.py
@@ -66,6 +66,9 @@ class Sargin(ConstitutiveLaw):
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         # Preprocess eps array in order
         eps = self.preprocess_strains_with_limits(eps=eps)
+        # Outside the strain limits the stress is zero
+        if np.isscalar(eps) and (eps < self._eps_cu1 or eps > 0):
+            return 0.0
         # Compute stress
         # Polynomial branch
         eta = eps / self._eps_c1
@@ -73,10 +76,7 @@ class Sargin(ConstitutiveLaw):
         sig = self._fc * (self._k * eta - eta**2) / (1 + (self._k - 2) * eta)
 
         # Elsewhere stress is 0.0
-        if np.isscalar(eps):
-            if eps < self._eps_cu1 or eps > 0:
-                return 0.0
-        else:
+        if not np.isscalar(eps):
             sig[eps < self._eps_cu1] = 0.0
             sig[eps > 0] = 0.0
 
@@ -87,6 +87,9 @@ class Sargin(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
+        # Outside the strain limits the tangent is zero
+        if np.isscalar(eps) and (eps < self._eps_cu1 or eps > 0):
+            return 0
         # polynomial branch
         eta = eps / self._eps_c1
 
@@ -97,10 +100,7 @@ class Sargin(ConstitutiveLaw):
             / (1 + (self._k - 2) * eta) ** 2
         )
         # Elsewhere tangent is zero
-        if np.isscalar(eps):
-            if eps < self._eps_cu1 or eps > 0:
-                return 0
-        else:
+        if not np.isscalar(eps):
             tangent[eps < self._eps_cu1] = 0.0
             tangent[eps > 0] = 0.0
 
-- 
2.43.0


From 014eddfe59c3379c1e94c6fd2bf79c96610f6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 04/35] fix: BilinearCompression tangent of an array at zero
 strain and at the peak strain agrees with the scalar one

---
 .../materials/constitutive_laws/_bilinearcompression.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d6e4262..a69d3ac 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -75,8 +75,8 @@ class BilinearCompression(ConstitutiveLaw):
 
         # If it is an array
         tangent = np.ones_like(eps) * self._E
-        tangent[eps >= 0] = 0
-        tangent[eps < self._eps_c] = 0
+        tangent[eps > 0] = 0
+        tangent[eps <= self._eps_c] = 0
 
         return tangent
 
-- 
2.43.0


From 64a75ece33e5e325148dcadac2ddbde372c81f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 05/35] fix: accept a tuple of strains in the Marin
 coefficients and keep the one of the caller

---
 .../constitutive_laws/_bilinearcompression.py          | 10 ++++++++--
 .../materials/constitutive_laws/_elasticplastic.py     | 10 ++++++++--
 .../materials/constitutive_laws/_parabolarectangle.py  | 10 ++++++++--
 .../materials/constitutive_laws/_userdefined.py        | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index a69d3ac..d178aa7 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -99,7 +99,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -149,7 +152,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 84c5347..8efc8e7 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -120,7 +120,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
@@ -181,7 +184,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index bb255db..6ad498c 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -133,7 +133,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -213,7 +216,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 78c1344..fc27554 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -153,7 +153,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
@@ -201,7 +204,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
-- 
2.43.0


From c541432db0dc6291b5c639a7407d51e4fa085970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 06/35] fix: InitialStrain without strain compatibility gives
 the initial stress also for arrays and Marin coefficients

---
 .../materials/constitutive_laws/_initial_strain.py     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 076c227..06ff1c1 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -69,6 +69,7 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         stress = self._wrapped_law.get_stress(eps + self._initial_strain)
         if not self._strain_compatibility:
             # If strain compatibility is enforced, return initial stress
@@ -79,8 +80,10 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         if not self._strain_compatibility:
-            return self._wrapped_law.get_tangent(0) * 1e-6
+            tangent = self._wrapped_law.get_tangent(0) * 1e-6
+            return tangent if np.isscalar(eps) else np.full(len(eps), tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
     def __marin__(
@@ -97,6 +100,9 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            # Constant stress independent of the strain profile
+            return None, [(self._initial_stress,)]
         return self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
@@ -115,6 +121,8 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            return None, [(self._wrapped_law.get_tangent(0) * 1e-6,)]
         return self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
-- 
2.43.0


From 1e3b0527dcb3d04c490589ab9f26184282ae90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 07/35] fix: InitialStrain returns the strain limits of the
 Marin coefficients without the initial strain

---
 .../constitutive_laws/_initial_strain.py      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 06ff1c1..1aed1e2 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -86,6 +86,19 @@ class InitialStrain(ConstitutiveLaw):
             return tangent if np.isscalar(eps) else np.full(len(eps), tangent)
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
+    def _shift_strains(
+        self, strains: t.Optional[t.List[t.Tuple]]
+    ) -> t.Optional[t.List[t.Tuple]]:
+        """Express the strain limits of the wrapped law without the initial
+        strain.
+        """
+        if strains is None:
+            return None
+        return [
+            (eps_0 - self._initial_strain, eps_1 - self._initial_strain)
+            for eps_0, eps_1 in strains
+        ]
+
     def __marin__(
         self, strain: t.Tuple[float, float]
     ) -> t.Tuple[t.List[t.Tuple], t.List[t.Tuple]]:
@@ -103,9 +116,10 @@ class InitialStrain(ConstitutiveLaw):
         if not self._strain_compatibility:
             # Constant stress independent of the strain profile
             return None, [(self._initial_stress,)]
-        return self._wrapped_law.__marin__(
+        strains, coeffs = self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_strains(strains), coeffs
 
     def __marin_tangent__(
         self, strain: t.Tuple[float, float]
@@ -123,9 +137,10 @@ class InitialStrain(ConstitutiveLaw):
         """
         if not self._strain_compatibility:
             return None, [(self._wrapped_law.get_tangent(0) * 1e-6,)]
-        return self._wrapped_law.__marin_tangent__(
+        strains, coeffs = self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_strains(strains), coeffs
 
     def get_ultimate_strain(
         self, yielding: bool = False
-- 
2.43.0


From bcc7cfdd69d95369976f8e7a34ec22bd02d57d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 08/35] fix: a design code named when creating a material no
 longer replaces the globally set one

---
 structuralcodes/codes/__init__.py | 35 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/structuralcodes/codes/__init__.py b/structuralcodes/codes/__init__.py
index 1877b24..dc38b18 100644
--- a/structuralcodes/codes/__init__.py
+++ b/structuralcodes/codes/__init__.py
@@ -43,24 +43,28 @@ def set_design_code(
         Call get_design_codes() to get a list of the available codes.
     """
     global _CODE  # pylint: disable=W0603
-    if design_code is None:
-        # Reset to None
-        _CODE = None
-    elif isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
+    # Reset to None if no design code is given
+    _CODE = None if design_code is None else _find_design_code(design_code)
+
+
+def _find_design_code(
+    design_code: t.Union[str, types.ModuleType],
+) -> types.ModuleType:
+    """Find a design code from its abbreviation or its module."""
+    if isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
         # The design code abbreviation is valid
-        _CODE = _DESIGN_CODES.get(design_code.lower())
-    elif isinstance(design_code, types.ModuleType) and all(
+        return _DESIGN_CODES.get(design_code.lower())
+    if isinstance(design_code, types.ModuleType) and all(
         name in dir(design_code)
         for name in ('__title__', '__year__', '__materials__')
     ):
         # The module is a valid design code
-        _CODE = design_code
-    else:
-        raise ValueError(
-            f'{design_code} is not a valid abbreviation for a design code, or'
-            ' a valid module representing a design code.\nType '
-            'get_design_codes() to list the available design codes.'
-        )
+        return design_code
+    raise ValueError(
+        f'{design_code} is not a valid abbreviation for a design code, or'
+        ' a valid module representing a design code.\nType '
+        'get_design_codes() to list the available design codes.'
+    )
 
 
 def get_design_codes() -> t.List[str]:
@@ -97,6 +101,5 @@ def _use_design_code(
         # Returned the globally set design code
         return _CODE
 
-    # Set design code before returning
-    set_design_code(design_code)
-    return _CODE
+    # The given design code is used without changing the globally set one
+    return _find_design_code(design_code)
-- 
2.43.0


From e00fc5b2679c469bba22c25fcbfce012678ca3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 09/35] fix: constitutive law names are case-insensitive for
 every law

---
 structuralcodes/materials/constitutive_laws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/__init__.py b/structuralcodes/materials/constitutive_laws/__init__.py
index 7261853..1d3b0bd 100644
--- a/structuralcodes/materials/constitutive_laws/__init__.py
+++ b/structuralcodes/materials/constitutive_laws/__init__.py
@@ -73,7 +73,7 @@ def create_constitutive_law(
     """
     const_law = CONSTITUTIVE_LAWS.get(constitutive_law_name.lower())
     if const_law is not None:
-        method_name = f'__{constitutive_law_name}__'
+        method_name = f'__{constitutive_law_name.lower()}__'
         # check if the material object has the special method needed
         if hasattr(material, method_name) and callable(
             getattr(material, method_name)
-- 
2.43.0


From 58adc135349fa38adc3ea8947221d85ba281ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 10/35] fix: keep name and group label when transforming a
 SurfaceGeometry

---
 structuralcodes/geometry/_geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 6398b8a..bfdb6e1 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -582,6 +582,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.translate(self.polygon, dx, dy),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def rotate(
@@ -609,6 +611,8 @@ class SurfaceGeometry(Geometry):
             ),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     def mirror(self, axis: LineString) -> SurfaceGeometry:
@@ -631,6 +635,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.affine_transform(self.polygon, params),
             material=self.material,
             concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
         )
 
     @staticmethod
-- 
2.43.0


From cbd24688d5d6b0a6c4c79f99425f0e4432d2d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 11/35] fix: allow a single bar in add_reinforcement_line and
 add_reinforcement_circle

---
 structuralcodes/geometry/_reinforcement.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 05faf7b..8bd577a 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -93,8 +93,8 @@ def add_reinforcement_line(
             )
         p1 = p1 + v * (distance - d) / 2.0
     elif n > 0:
-        # Provided the number of bars
-        s = distance / (n - 1)
+        # Provided the number of bars (a single bar is placed at coords_i)
+        s = distance / (n - 1) if n > 1 else 0.0
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
@@ -206,7 +206,6 @@ def add_reinforcement_circle(
         delta_angle = (length - needed_length) / 2.0 / radius
     elif n > 0:
         # Provided the number of bars
-        s = length / (n - 1)
         # If we are distributing bars i the whole circle add a fictitious extra
         # bar (than later will be removed).
         n += add_n
-- 
2.43.0


From d47cbfa8ce2169c7d6cfe261512a370c31c366a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 12/35] fix: reinforced_concrete of a CompoundGeometry made
 from a MultiPolygon

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index bfdb6e1..e0a2cb6 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -755,6 +755,7 @@ class CompoundGeometry(Geometry):
                 to all polygons) or a list of materials. In this case the
                 number of polygons should match the number of materials.
         """
+        self._reinforced_concrete = None
         if isinstance(geometries, MultiPolygon):
             # a MultiPolygon is provided
             self.geometries = _process_geometries_multipolygon(
@@ -776,7 +777,6 @@ class CompoundGeometry(Geometry):
                 for pg in self.point_geometries
             ]
             self.geom = MultiPolygon(geoms_representation)
-        self._reinforced_concrete = None
 
     # we can add here static methods like
     # from_dxf
-- 
2.43.0


From 2a7b671ee68eab70465ec1e204f0addf9f2b8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 13/35] fix: keep concrete flag, name and label in
 SurfaceGeometry subtraction and from_geometry

---
 structuralcodes/geometry/_geometry.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index e0a2cb6..f9e0759 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -562,7 +562,13 @@ class SurfaceGeometry(Geometry):
             for g in other.geometries:
                 sub_polygon = sub_polygon - g.polygon
 
-        return SurfaceGeometry(poly=sub_polygon, material=material)
+        return SurfaceGeometry(
+            poly=sub_polygon,
+            material=material,
+            concrete=self.concrete,
+            name=self.name,
+            group_label=self.group_label,
+        )
 
     def _repr_svg_(self) -> str:
         """Returns the svg representation."""
@@ -674,7 +680,12 @@ class SurfaceGeometry(Geometry):
             # elastic modulus
             new_material = ElasticMaterial.from_material(geo.material)
 
-        return SurfaceGeometry(poly=geo.polygon, material=new_material)
+        return SurfaceGeometry(
+            poly=geo.polygon,
+            material=new_material,
+            name=geo.name,
+            group_label=geo.group_label,
+        )
 
     # here we can also add static methods like:
     # from_points
-- 
2.43.0


From 96108f1db1d9ae8d5dd91883fae86aa18862aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 14/35] fix: end a near-vertical splitting line above the
 geometry

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index f9e0759..a376042 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -364,7 +364,7 @@ def create_line_point_angle(
         # tg is almost zero
         ctg = v[0] / v[1]
         y1 = bbox[1] - 1e-3
-        y2 = bbox[2] + 1e-3
+        y2 = bbox[3] + 1e-3
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
-- 
2.43.0


From 65eaeb467a0f55f614769a0e75870865a5c8a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 15/35] fix: Marin integration of bars of several materials in
 different numbers

---
 .../sections/section_integrators/_marin_integrator.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 58e4d1d..ca1cd9a 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -240,7 +240,9 @@ class MarinIntegrator(SectionIntegrator):
             z.append(reinf_data[1])
             IA.append(integrand * reinf_data[2])
 
-        input.append((1, np.array(y), np.array(z), np.array(IA)))
+        if len(y) > 0:
+            # The groups may contain different numbers of bars
+            input.append((1, np.hstack(y), np.hstack(z), np.hstack(IA)))
         return integration_data
 
     def prepare_input(
-- 
2.43.0


From a65c682ea49d62668e8f0aa06ebd04f514adb886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 16/35] fix: equilibrium searches returned strain profiles that
 are not in equilibrium when no change of sign was found or a bisection point
 hit equilibrium exactly

---
 structuralcodes/sections/_generic.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1e02035..51ddcb7 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -435,6 +435,14 @@ class GenericSectionCalculator(SectionCalculator):
             geom, [eps_0, chi_b, 0], integration_data=self.integration_data
         )
         dn_b = n_int - n
+        # It may occur that there is equilibrium with (almost) no curvature
+        if abs(dn_b) <= 1e-2:
+            return [eps_0, chi_b, 0]
+        if dn_a * dn_b > 0:
+            raise ValueError(
+                f'No equilibrium with axial load {n} could be found between '
+                'balanced failure and zero curvature.'
+            )
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
             chi_c = (chi_a + chi_b) / 2.0
@@ -448,7 +456,7 @@ class GenericSectionCalculator(SectionCalculator):
                 geom, [eps_0, chi_c, 0], integration_data=self.integration_data
             )
             dn_c = n_int - n
-            if dn_c * dn_a < 0:
+            if dn_c * dn_a <= 0:
                 chi_b = chi_c
                 dn_b = dn_c
             else:
@@ -500,7 +508,7 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_b = n_int - n
-            if dn_a * dn_b < 0:
+            if dn_a * dn_b <= 0:
                 found = True
             elif abs(dn_b) > abs(dn_a):
                 # we are driving away from the solution, probably due
@@ -518,7 +526,7 @@ class GenericSectionCalculator(SectionCalculator):
                     diverging = False
                     diverging_steps = 0
             it += 1
-        if it >= ITMAX and not found:
+        if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
@@ -581,7 +589,7 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_c = n_int - n
-            if dn_a * dn_c < 0:
+            if dn_a * dn_c <= 0:
                 dn_b = dn_c
                 eps_0_b = eps_0_c
             else:
@@ -842,10 +850,14 @@ class GenericSectionCalculator(SectionCalculator):
             strain = self.find_equilibrium_fixed_pivot(rotated_geom, n)
             chi_ultimate = strain[1]
             # Find the yielding curvature
-            strain = self.find_equilibrium_fixed_pivot(
-                rotated_geom, n, yielding=True
-            )
-            chi_yield = strain[1]
+            try:
+                strain = self.find_equilibrium_fixed_pivot(
+                    rotated_geom, n, yielding=True
+                )
+                chi_yield = strain[1]
+            except ValueError:
+                # The axial load can not be carried without yielding
+                chi_yield = chi_ultimate
             if chi_ultimate * chi_yield < 0:
                 # They cannot have opposite signs!
                 raise ValueError(
-- 
2.43.0


From 19113a2a9d143088c14549875d318ade9b5879cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:46 +0000
Subject: [PATCH 17/35] fix: principal angles lost their sign, and with recent
 numpy all principal values were complex; BaseProfile.theta failed before
 another principal value was read

---
 .../geometry/profiles/_base_profile.py          | 17 +++++++++--------
 structuralcodes/sections/_generic.py            | 16 ++++++++++------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index e1816b2..9687c9d 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -27,6 +27,7 @@ class BaseProfile:
         self._Icsi: float = None
         self._Ieta: float = None
         self._Iyz: float = None
+        self._theta: float = None
         self._Wely: float = None
         self._Welz: float = None
         self._iy: float = None
@@ -117,16 +118,16 @@ class BaseProfile:
 
     def _find_principals_direction_and_moments(self):
         """Computes principal direction and second area moments."""
-        eigres = np.linalg.eig(
+        # Eigenvalues in ascending order
+        values, vectors = np.linalg.eigh(
             np.array([[self.Iy, self.Iyz], [self.Iyz, self.Iz]])
         )
-        max_idx = np.argmax(eigres[0])
-        min_idx = 0 if max_idx == 1 else 1
-        self._Icsi = eigres[0][max_idx]
-        self._Ieta = eigres[0][min_idx]
-        self._theta = np.arccos(
-            np.dot(np.array([1, 0]), eigres[1][:, max_idx])
-        )
+        self._Ieta, self._Icsi = values
+        # Angle from the y axis to the axis of the maximum moment
+        v_y, v_z = vectors[:, 1]
+        self._theta = np.arccos(min(abs(v_y), 1.0))
+        if v_y * v_z > 0:
+            self._theta = -self._theta
 
     @property
     def A(self) -> float:
diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 51ddcb7..1af20ce 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -279,12 +279,16 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Compute principal axes of inertia and principal inertia
         def find_principal_axes_moments(iyy, izz, iyz):
-            eigres = np.linalg.eig(np.array([[iyy, iyz], [iyz, izz]]))
-            max_idx = np.argmax(eigres[0])
-            min_idx = 0 if max_idx == 1 else 1
-            i11 = eigres[0][max_idx]
-            i22 = eigres[0][min_idx]
-            theta = np.arccos(np.dot(np.array([1, 0]), eigres[1][:, max_idx]))
+            # Eigenvalues in ascending order
+            values, vectors = np.linalg.eigh(
+                np.array([[iyy, iyz], [iyz, izz]])
+            )
+            i22, i11 = values
+            # Angle from the y axis to the axis of the maximum moment
+            v_y, v_z = vectors[:, 1]
+            theta = np.arccos(min(abs(v_y), 1.0))
+            if v_y * v_z > 0:
+                theta = -theta
             return i11, i22, theta
 
         gp.i11, gp.i22, gp.theta = find_principal_axes_moments(
-- 
2.43.0


From 619b4fc4068142d5e9d266afad260e44f8d7e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 18/35] fix: gross properties of surfaces that do not touch
 raised AttributeError instead of the intended warning

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1af20ce..99f7750 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -150,8 +150,8 @@ class GenericSectionCalculator(SectionCalculator):
             warnings.warn(
                 'Perimiter computation for a multi polygon is not defined.'
             )
-
-        gp.perimeter = polygon.exterior.length
+        else:
+            gp.perimeter = polygon.exterior.length
 
         # Computation of area: this is taken directly from shapely
         gp.area = self.section.geometry.area
-- 
2.43.0


From eb9c95ae3fdf0b78820a0b26c820ae97bd4be985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 19/35] fix: moment-curvature results lost their angle, and
 given integer curvatures truncated all results

---
 structuralcodes/sections/_generic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 99f7750..7100c98 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -840,6 +840,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Create an empty response object
         res = s_res.MomentCurvatureResults()
+        res.theta = theta
         res.n = n
         # Rotate the section of angle theta
         rotated_geom = self.section.geometry.rotate(-theta)
@@ -898,11 +899,11 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi)
-        my = np.zeros_like(chi)
-        mz = np.zeros_like(chi)
-        chi_y = np.zeros_like(chi)
-        chi_z = np.zeros_like(chi)
+        eps_a = np.zeros_like(chi, dtype=float)
+        my = np.zeros_like(chi, dtype=float)
+        mz = np.zeros_like(chi, dtype=float)
+        chi_y = np.zeros_like(chi, dtype=float)
+        chi_z = np.zeros_like(chi, dtype=float)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
         # For each value of curvature
-- 
2.43.0


From a4cf82f637f76d26ce81ea94d5b77ed7430a18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 20/35] fix: field numbers of the N-M-M domain covered the last
 angle only

---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 7100c98..5294f7c 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1369,9 +1369,10 @@ class GenericSectionCalculator(SectionCalculator):
         thetas = np.linspace(0, np.pi * 2, num_theta)
         # Initialize an empty array with the correct shape
         strains = np.empty((0, 3))
+        field_num = np.empty(0, dtype=int)
         for theta in thetas:
             # Get ultimate strain profiles for theta angle
-            strain, field_num = self._compute_ultimate_strain_profiles(
+            strain, field_num_theta = self._compute_ultimate_strain_profiles(
                 theta=theta,
                 num_1=num_1,
                 num_2=num_2,
@@ -1387,6 +1388,7 @@ class GenericSectionCalculator(SectionCalculator):
                 type_6=type_6,
             )
             strains = np.vstack((strains, strain))
+            field_num = np.concatenate((field_num, field_num_theta))
 
         # integrate all strain profiles
         forces = np.zeros_like(strains)
-- 
2.43.0


From a78d7c291dfac3c7ccc9683de6c57927995559ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 21/35] fix: quadratic spacing of the interaction domain
 repeated the ends of the fields, and lost pure tension with one point

---
 structuralcodes/sections/_generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 5294f7c..3b999ac 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1229,8 +1229,9 @@ class GenericSectionCalculator(SectionCalculator):
                         np.geomspace(a, b, n - 1, endpoint=endpoint), 0, 0
                     )
             if type.lower() == 'quadratic':
-                quadratic_spaced = (np.linspace(0, 1, n) ** 2) * (a - b) + b
-                return quadratic_spaced[::-1]
+                return (np.linspace(1, 0, n, endpoint=endpoint) ** 2) * (
+                    a - b
+                ) + b
             raise ValueError(f'Type of spacing not known: {type}')
 
         # For generation of fields 1 and 2 pivot on positive strain
-- 
2.43.0


From f641eaed28e5e6d88b6f7f0f744ad362ae687c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 22/35] fix: compressed states of the interaction domain were
 lost when a bar lies at the height of the pivot

---
 structuralcodes/sections/_generic.py | 34 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 3b999ac..09fa051 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1268,16 +1268,30 @@ class GenericSectionCalculator(SectionCalculator):
         # otherwise pivot on eps_n_b (in top chord)
         if self.section.geometry.reinforced_concrete:
             z_pivot = y_n - (1 - eps_n_y / eps_n_b) * h
-            eps_p_6 = np.append(
-                _np_space(
-                    eps_p_lim, eps_n_y, num_6 - 1, type_6, endpoint=False
-                ),
-                eps_n_y,
-            )
-            eps_n_6 = (
-                -(eps_n_y - eps_p_6) * (z_pivot - y_n) / (z_pivot - y_p)
-                + eps_n_y
-            )
+            # Space the strains in the fiber farther from the pivot, as the
+            # strain is constant in the pivot
+            if abs(z_pivot - y_p) >= abs(z_pivot - y_n):
+                eps_p_6 = np.append(
+                    _np_space(
+                        eps_p_lim, eps_n_y, num_6 - 1, type_6, endpoint=False
+                    ),
+                    eps_n_y,
+                )
+                eps_n_6 = (
+                    -(eps_n_y - eps_p_6) * (z_pivot - y_n) / (z_pivot - y_p)
+                    + eps_n_y
+                )
+            else:
+                eps_n_6 = np.append(
+                    _np_space(
+                        eps_n_b, eps_n_y, num_6 - 1, type_6, endpoint=False
+                    ),
+                    eps_n_y,
+                )
+                eps_p_6 = (
+                    -(eps_n_y - eps_n_6) * (z_pivot - y_p) / (z_pivot - y_n)
+                    + eps_n_y
+                )
         else:
             eps_n_6 = np.zeros(num_6) + eps_n_b
             eps_p_6 = np.append(
-- 
2.43.0


From b398d6ac7857d7d8eadcb7fdb7c6c88b1805ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 23/35] fix: geometric spacing of the interaction domain
 replaced the start of a field by its end, and failed without a compressed end

---
 structuralcodes/sections/_generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 09fa051..cb319e1 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1218,8 +1218,12 @@ class GenericSectionCalculator(SectionCalculator):
                 if b != 0 and a != 0:
                     return np.geomspace(a, b, n, endpoint=endpoint)
                 small_value = 1e-10
+                if a == b or n == 0:
+                    return np.zeros(n)
                 if b == 0:
                     b = small_value * np.sign(a)
+                    if not endpoint:
+                        return np.geomspace(a, b, n, endpoint=False)
                     return np.append(
                         np.geomspace(a, b, n - 1, endpoint=endpoint), 0
                     )
-- 
2.43.0


From 4fae976e1a457d9875fad9c6e045918d8c9c7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 24/35] fix: the mesh of the fiber integrator covered concave
 holes whose centroid lies outside of the hole

---
 .../sections/section_integrators/_fiber_integrator.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6303e4e..d94cfb4 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -48,8 +48,10 @@ class FiberIntegrator(SectionIntegrator):
             node_i = np.arange(n_vertices_int) + n_vertices
             node_j = np.roll(node_i, -1)
             segments_int = np.column_stack((node_i, node_j))
-            c = Polygon(interior)
-            holes.append([c.centroid.x, c.centroid.y])
+            # 2c. Get a point inside the hole (the centroid of a concave hole
+            # may lie outside of it)
+            p = Polygon(interior).representative_point()
+            holes.append([p.x, p.y])
             # Append to the global arrays
             vertices = np.vstack((vertices, vertices_int))
             segments = np.vstack((segments, segments_int))
-- 
2.43.0


From abfdcc500d2650d01ad4c9d80c8e3e7e675aa0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 25/35] fix: the fiber integrator ignored the mesh size of
 sections with small areas (written with an exponent)

---
 .../sections/section_integrators/_fiber_integrator.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index d94cfb4..fd73f38 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -88,7 +88,9 @@ class FiberIntegrator(SectionIntegrator):
             tri = self.prepare_triangulation(g)
             # define the maximum area of the triangles
             max_area = g.area * mesh_size
-            # triangulate the geometry getting back the mesh
+            # triangulate the geometry getting back the mesh (triangle does
+            # not read numbers with exponents)
+            max_area = np.format_float_positional(max_area)
             mesh = triangle.triangulate(tri, f'pq{30:.1f}Aa{max_area}o1')
             constitutive_law = g.material.constitutive_law
             # Get x and y coordinates (centroid) and area for each fiber
-- 
2.43.0


From 0f22f7b5556a9f4fef94d545a8a34cf1c7b273e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 26/35] fix: the mesh size was ignored when the strain profile,
 a fixed curvature or the N-M-M domain was calculated first

---
 structuralcodes/sections/_generic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index cb319e1..9eb5fe3 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -566,7 +566,10 @@ class GenericSectionCalculator(SectionCalculator):
             _,
             integration_data,
         ) = self.integrator.integrate_strain_response_on_geometry(
-            geom, [eps_0, curv, 0], integration_data=self.integration_data
+            geom,
+            [eps_0, curv, 0],
+            integration_data=self.integration_data,
+            mesh_size=self.mesh_size,
         )
         if self.integration_data is None and integration_data is not None:
             self.integration_data = integration_data
@@ -1417,6 +1420,7 @@ class GenericSectionCalculator(SectionCalculator):
                     geo=self.section.geometry,
                     strain=strain,
                     integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
                 )
             )
             if self.integration_data is None and integration_data is not None:
@@ -1505,6 +1509,7 @@ class GenericSectionCalculator(SectionCalculator):
                 [0, 0, 0],
                 integrate='modulus',
                 integration_data=self.integration_data,
+                mesh_size=self.mesh_size,
             )
         )
         # eventually save the triangulation data
-- 
2.43.0


From 80e397a18d649f94163ae8bf85f3346f3f50b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:08 +0000
Subject: [PATCH 27/35] fix: the mesh stayed rotated after a bending strength
 or moment-curvature calculation that failed

---
 structuralcodes/sections/_generic.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 9eb5fe3..22644f0 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations  # To have clean hints of ArrayLike in docs
 
+import functools
 import math
 import typing as t
 import warnings
@@ -94,6 +95,23 @@ class GenericSection(Section):
         return self._gross_properties
 
 
+def _keep_integration_data(method: t.Callable) -> t.Callable:
+    """Restore the integration data, which may be rotated, if a method of
+    the section calculator fails.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        integration_data = self.integration_data
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.integration_data = integration_data
+            raise
+
+    return wrapper
+
+
 class GenericSectionCalculator(SectionCalculator):
     """Calculator class implementing analysis algorithms for code checks."""
 
@@ -746,6 +764,7 @@ class GenericSectionCalculator(SectionCalculator):
             return result[0]
         return result[:-1]
 
+    @_keep_integration_data
     def calculate_bending_strength(
         self, theta=0, n=0
     ) -> s_res.UltimateBendingMomentResults:
@@ -804,6 +823,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         return res
 
+    @_keep_integration_data
     def calculate_moment_curvature(
         self,
         theta: float = 0.0,
-- 
2.43.0


From 12c6b81e4e2379f3c294b06648ff3f0102549920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 28/35] fix: cracked properties cut the tension part of steel
 surfaces away, and the cracked section was no longer reinforced concrete

---
 structuralcodes/sections/_rc_utils.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d6ca692..d072de9 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -10,7 +10,7 @@ from structuralcodes.sections import GenericSection
 from structuralcodes.sections.section_integrators import FiberIntegrator
 
 
-def _create_surface_geometries(polygons_list, material):
+def _create_surface_geometries(polygons_list, material, concrete=False):
     """Process shapely polygons to SurfaceGeometries."""
     # Create an empty list to store SurfaceGeometry objects
     surface_geometries = []
@@ -18,7 +18,9 @@ def _create_surface_geometries(polygons_list, material):
     # Iterate over the list of polygons and create SurfaceGeometry for each
     for polygon in polygons_list:
         # Create a new SurfaceGeometry for the current polygon
-        surface_geometry = SurfaceGeometry(polygon, material)
+        surface_geometry = SurfaceGeometry(
+            polygon, material, concrete=concrete
+        )
         # Add the new SurfaceGeometry to the list
         surface_geometries.append(surface_geometry)
 
@@ -35,7 +37,7 @@ def calculate_elastic_cracked_properties(
     """Calculates the cracked section properties of a reinforced concrete
     section. (GenericSection). Materials in surface geometries and point
     geometries are elastic-linear in order to make the cracking properties
-    independent of the stress state. Tension in all surface geometries is
+    independent of the stress state. Tension in concrete surface geometries is
     neglected.
 
     Args:
@@ -85,7 +87,13 @@ def calculate_elastic_cracked_properties(
                 E=E, density=density, name='elastic material'
             )
         processed_geometries.append(
-            geo.from_geometry(geo, new_material=elastic_law)
+            SurfaceGeometry(
+                poly=geo.polygon,
+                material=elastic_law,
+                concrete=geo.concrete,
+                name=geo.name,
+                group_label=geo.group_label,
+            )
         )
 
     for pg in rotated_geometry.point_geometries:
@@ -115,9 +123,15 @@ def calculate_elastic_cracked_properties(
     # Cutting concrete geometries and retaining the compressed block
     cut_geom = None
     for part in rotated_geometry.geometries:
-        upper_div, lower_div = part.split(((0, z_na), 0))
+        if part.concrete:
+            polygons, _ = part.split(((0, z_na), 0))
+        else:
+            # Not concrete: also the part in tension is retained
+            polygons = [part.polygon]
         # Convert to SurfaceGeometry
-        subpart = _create_surface_geometries(upper_div, part.material)
+        subpart = _create_surface_geometries(
+            polygons, part.material, part.concrete
+        )
         if cut_geom is None:
             cut_geom = subpart
         else:
-- 
2.43.0


From 31a3cdd8370399cdc54c57d0f7a9c92289aa97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 29/35] fix: cracked properties ignored the mesh size of the
 section

---
 structuralcodes/sections/_rc_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d072de9..5e7f60a 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -59,9 +59,7 @@ def calculate_elastic_cracked_properties(
 
     # Get the integrator properties
     if isinstance(section.section_calculator.integrator, FiberIntegrator):
-        mesh_size = getattr(
-            section.section_calculator.integrator, 'mesh_size', 0.01
-        )
+        mesh_size = section.section_calculator.mesh_size
         integrator = 'fiber'
     else:
         mesh_size = None
-- 
2.43.0


From b3b1c733cdcd000f61f2a822d6308e55c1063ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 30/35] fix: integer strain arrays lost the decimals of secants
 and tangents, and parallel laws refused them

---
 structuralcodes/core/base.py                                  | 2 +-
 .../materials/constitutive_laws/_parabolarectangle.py         | 2 +-
 structuralcodes/materials/constitutive_laws/_parallel.py      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 26cd72e..d3d5eb4 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -303,7 +303,7 @@ class ConstitutiveLaw(abc.ABC):
             return self.get_tangent(eps)
 
         # Calculate secant for array eps
-        secant = np.zeros_like(eps)
+        secant = np.zeros_like(eps, dtype=float)
         strain_is_zero = eps == 0
         strain_is_nonzero = eps != 0
         secant[strain_is_zero] = self.get_tangent(eps[strain_is_zero])
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 6ad498c..78590be 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -96,7 +96,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             return tangent
         # If it is an array
         # parabolic branch
-        tangent = np.zeros_like(eps)
+        tangent = np.zeros_like(eps, dtype=float)
         tangent[(eps <= 0) & (eps >= self._eps_0)] = (
             self._n
             * self._fc
diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 32d4a8b..b037c94 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -74,7 +74,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        stress = 0 * eps  # This can be scalar or array
+        stress = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             stress += weight * law.get_stress(eps)
 
@@ -85,7 +85,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        tangent = 0 * eps  # This can be scalar or array
+        tangent = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             tangent += weight * law.get_tangent(eps)
         return tangent
-- 
2.43.0


From a7abe4bdc59669bd0cdc70e92266fd89abcea8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:20 +0000
Subject: [PATCH 31/35] fix: user defined law keeps the fraction of extended
 ordinates given in whole numbers

---
 structuralcodes/materials/constitutive_laws/_userdefined.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index fc27554..d81ac0a 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -48,8 +48,8 @@ class UserDefined(ConstitutiveLaw):
         """
         name = name if name is not None else 'UserDefinedLaw'
         super().__init__(name=name)
-        x = np.atleast_1d(np.asarray(x))
-        y = np.atleast_1d(np.asarray(y))
+        x = np.atleast_1d(np.asarray(x, dtype=float))
+        y = np.atleast_1d(np.asarray(y, dtype=float))
         if len(x) != len(y):
             raise ValueError('The two arrays should have the same length')
         if not np.any(x < 0):
-- 
2.43.0


From 49a3aeb9b7095a9b59842d1b051224dfa6c8bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:20 +0000
Subject: [PATCH 32/35] fix: tangent of elastic-plastic law for whole strains
 keeps the hardening

---
 structuralcodes/materials/constitutive_laws/_elasticplastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 8efc8e7..ae7aae9 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -90,7 +90,7 @@ class ElasticPlastic(ConstitutiveLaw):
             return tangent
 
         eps = np.atleast_1d(eps)
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > self._eps_sy] = self._Eh
         tangent[eps < -self._eps_sy] = self._Eh
         if self._eps_su is not None:
-- 
2.43.0


From 621e7e00c4d17cd0ffca9587dcc8db6d18c1ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:15 +0000
Subject: [PATCH 33/35] fix: wrap laws without their own integration
 coefficients in Parallel

Parallel passed the strain profile by position, which the default
implementation in ConstitutiveLaw does not accept: the Marin integration
of a Parallel law with a Sargin or Popovics law raised a TypeError.
---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index b037c94..27f5588 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -195,7 +195,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin__(strain))
+            laws_marin.append(law.__marin__(strain=strain))
 
         return self._split_marin(laws_marin)
 
@@ -216,7 +216,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin_tangent__(strain))
+            laws_marin.append(law.__marin_tangent__(strain=strain))
 
         return self._split_marin(laws_marin)
 
-- 
2.43.0


From 4b455fe6e904282c5c1065e7192f202f7bd28d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:23 +0000
Subject: [PATCH 34/35] fix: keep only the surfaces between two lines

Where a cutting line runs along an edge of a surface the intersection is a
GeometryCollection of polygons, lines and points, which the integrators
ignored: the whole part between the lines was lost.
---
 structuralcodes/geometry/_geometry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index a376042..a73b3db 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -538,7 +538,15 @@ class SurfaceGeometry(Geometry):
         lines_polygon = multi_line.convex_hull
 
         # get the intersection
-        return self.polygon.intersection(lines_polygon)
+        result = self.polygon.intersection(lines_polygon)
+        if isinstance(result, (Polygon, MultiPolygon)):
+            return result
+        # Where the lines touch the boundary of the surface the intersection
+        # contains also lines and points: keep only the polygons
+        polygons = [
+            g for g in getattr(result, 'geoms', []) if isinstance(g, Polygon)
+        ]
+        return polygons[0] if len(polygons) == 1 else MultiPolygon(polygons)
 
     def __sub__(self, other: Geometry) -> SurfaceGeometry:
         """Add operator "-" for geometries.
-- 
2.43.0


From d2e6e2f0ddc876630635019c542e56ae46608ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:51 +0000
Subject: [PATCH 35/35] fix: no coincident bars when the spacing divides the
 whole circle

---
 structuralcodes/geometry/_reinforcement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 8bd577a..7de1036 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -216,9 +216,10 @@ def add_reinforcement_circle(
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-        # set whole to False bacause in this case we don't need to deal with
+        # If the spacing divides the whole circle the last bar coincides with
+        # the first one and is removed, otherwise we don't need to deal with
         # the special case
-        whole = False
+        whole = whole and math.isclose(needed_length, length)
     else:
         raise ValueError('At least n or s should be provided')
 
-- 
2.43.0

