From 69865b5f1efb7dd0228967d42a54d45898fb2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 01/28] fix: HPKOT conventional-to-primitive matrix of the hR
 lattice

The matrix has to be 1/3 of integers; with halves the "primitive" cell had
27/8 of the true primitive volume, was not a cell of the lattice and all k-points
of hR1/hR2 were wrong.
---
 .../api/constants/hpkot_conventional_to_primitive.rst       | 6 +++---
 src/wulfric/constants/_hpkot_convention.py                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/source/api/constants/hpkot_conventional_to_primitive.rst b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
index 87922f2..64de842 100644
--- a/docs/source/api/constants/hpkot_conventional_to_primitive.rst
+++ b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
@@ -90,9 +90,9 @@ Data are from the Table 3 of [1]_.
         ),
         "hR" : np.array(
             [
-                [1.0, -0.5, -0.5],
-                [0.5, 0.5, -1.0],
-                [0.5, 0.5, 0.5],
+                [2 / 3, -1 / 3, -1 / 3],
+                [1 / 3, 1 / 3, -2 / 3],
+                [1 / 3, 1 / 3, 1 / 3],
             ]
         ),
         "mP" : np.array(
diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..5c04450 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2 / 3, -1 / 3, -1 / 3],
+            [1 / 3, 1 / 3, -2 / 3],
+            [1 / 3, 1 / 3, 1 / 3],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From ae0b379d365a791f23b3f64b49c32b7cb3e79e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 02/28] fix: coordinates of the Z point of the HPKOT aP2
 lattice

---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From f6c34d3b85c76996cd8f35cf573b8db4d76116f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 03/28] fix: SC conventional cell of orthorhombic crystals with
 two lattice vectors of the same length

---
 src/wulfric/crystal/_conventional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..6372185 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -136,7 +136,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     Choose the cell with the lattice parameters that satisfy
 
-    * ``a < b < c``
+    * ``a <= b <= c``
     * ``alpha = beta = gamma = 90``
 
     Parameters
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -213,7 +213,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     Choose the cell with the lattice parameters that satisfy
 
-    * ``a < b``
+    * ``a <= b``
     * ``alpha = beta = gamma = 90``
 
     Parameters
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From 3310ff5a3b122b1c78c93eadc7ce8473aa08c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 04/28] fix: SC conventional cell of monoclinic crystals with
 all angles equal to 90 degrees

---
 src/wulfric/crystal/_conventional.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 6372185..2973dae 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -275,7 +275,20 @@ def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e
 
     # Step 1, make sure that alpha is not a 90 angle
     _, _, _, alpha, beta, gamma = get_params(cell=spglib_std_lattice)
-    if cwt(beta, "==", 90.0, eps=angle_tolerance) and cwt(
+    # Unique axis of spglib's standardized cell is a2. Has to be checked first, as the
+    # third angle might be equal to 90 as well.
+    # Have to keep a3 in place for MCLC lattices
+    if cwt(alpha, "==", 90.0, eps=angle_tolerance) and cwt(
+        gamma, "==", 90.0, eps=angle_tolerance
+    ):  # -> a2, -a1, a3
+        matrix_to_1 = np.array(
+            [
+                [0, -1, 0],
+                [1, 0, 0],
+                [0, 0, 1],
+            ]
+        )
+    elif cwt(beta, "==", 90.0, eps=angle_tolerance) and cwt(
         gamma, "==", 90.0, eps=angle_tolerance
     ):  # No change
         matrix_to_1 = np.eye(3, dtype=float)
@@ -293,17 +306,6 @@ def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e
             raise PotentialBugError(
                 '(convention="SC"), MCLC lattice, step 1, case 2. This case should never be tried for MCLC lattice.'
             )
-    # Have to keep a3 in place for MCLC lattices
-    elif cwt(alpha, "==", 90.0, eps=angle_tolerance) and cwt(
-        gamma, "==", 90.0, eps=angle_tolerance
-    ):  # -> a2, -a1, a3
-        matrix_to_1 = np.array(
-            [
-                [0, -1, 0],
-                [1, 0, 0],
-                [0, 0, 1],
-            ]
-        )
     else:
         raise PotentialBugError(
             '(convention="SC"): MCL or MCLC lattice, step 1. Angles fall outside of the three cases.'
-- 
2.43.0


From fbed68aa36078f112c683a67aeda1fc54a62e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 05/28] fix: get_primitive compares distances between atoms in
 the units of symprec

---
 src/wulfric/crystal/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..32e43ab 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,12 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between atoms, account for the periodicity
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    differences = differences - np.round(differences, decimals=0)
+    distances = np.linalg.norm(differences @ prim_cell, axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From 8c41e2e7486782ba4722e6ed5a81aaddda2028e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 06/28] fix: get_primitive takes properties from the last atom
 of each type, as documented

---
 src/wulfric/crystal/_primitive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 32e43ab..93fd0e6 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -289,10 +289,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     prim_atoms = dict(positions=prim_positions)
 
     # Get mapping from original atoms to primitive ones through types
-    types_mapping = {}
-    for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+    types_mapping = {
+        type_index: index for index, type_index in enumerate(spglib_data.original_types)
+    }
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From 8ce9e6da25e468043b914274dde9dec83e821752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 07/28] fix: spglib_types returned by get_conventional and
 get_primitive are valid atoms spglib_types

---
 src/wulfric/crystal/_conventional.py | 2 +-
 src/wulfric/crystal/_primitive.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 2973dae..f56f815 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -814,6 +814,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = conv_types
+        conv_atoms["spglib_types"] = [int(type_index) for type_index in conv_types]
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 93fd0e6..4eaf5b8 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -302,6 +302,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = [int(type_index) for type_index in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From 0da36f1c14ee31d7c7a6875b6b79cce21ff7934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 08/28] fix: get_conventional and get_primitive do not expose
 arrays of the given spglib_data

---
 src/wulfric/crystal/_conventional.py | 5 +++--
 src/wulfric/crystal/_primitive.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index f56f815..cb6356e 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -798,7 +798,7 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
         )
 
     # Create conventional atoms
-    conv_atoms = dict(positions=conv_positions)
+    conv_atoms = dict(positions=np.array(conv_positions, dtype=float))
 
     # Get mapping from original atoms to conventional ones through types
     types_mapping = {
@@ -816,4 +816,5 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
     if "spglib_types" not in conv_atoms:
         conv_atoms["spglib_types"] = [int(type_index) for type_index in conv_types]
 
-    return conv_cell, conv_atoms
+    # Return copies, as the arrays can belong to the spglib_data
+    return np.array(conv_cell, dtype=float), conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 4eaf5b8..df05b97 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -286,7 +286,7 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
         )
 
     # Create primitive atoms
-    prim_atoms = dict(positions=prim_positions)
+    prim_atoms = dict(positions=np.array(prim_positions, dtype=float))
 
     # Get mapping from original atoms to primitive ones through types
     types_mapping = {
@@ -304,4 +304,5 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     if "spglib_types" not in prim_atoms:
         prim_atoms["spglib_types"] = [int(type_index) for type_index in prim_types]
 
-    return prim_cell, prim_atoms
+    # Return copies, as the arrays can belong to the spglib_data
+    return np.array(prim_cell, dtype=float), prim_atoms
-- 
2.43.0


From 6d6ff15dcdc064cad42dbec1994e999d01605cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 09/28] fix: scale factors of the POSCAR file

---
 src/wulfric/io/_vasp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..a855687 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,12 +100,12 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            # Negative number is the volume of the cell
+            scale_factor = np.cbrt(abs(scale_factor[0] / get_volume(cell)))
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Each number scales one Cartesian component of every lattice vector
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From b0c1dd551f0752b99edcddf156020237b2c19846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 10/28] fix: error of dump_poscar for the atoms without
 deducible species

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index a855687..b753276 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -235,7 +235,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From 987291037f397749555f4ffab85129253cbd2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 11/28] fix: plot label of the F3 point

---
 src/wulfric/constants/_kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From c2c10ac0b542e2b43a7ef7d80d5c9f68bd3c2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 12/28] fix: plot label of the F3 point in the documentation

---
 docs/source/api/constants/hs_plot_names.rst | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/source/api/constants/hs_plot_names.rst b/docs/source/api/constants/hs_plot_names.rst
index 4363984..5f582f6 100644
--- a/docs/source/api/constants/hs_plot_names.rst
+++ b/docs/source/api/constants/hs_plot_names.rst
@@ -61,8 +61,8 @@ Names of high-symmetry k points written in LaTex.
         "F1_P" : "F$_1^{\prime}$",
         "F2" : "F$_2$",
         "F2_P" : "F$_2^{\prime}$",
-        "F3" : "F$_4$",
-        "F3_P" : "F$_4^{\prime}$",
+        "F3" : "F$_3$",
+        "F3_P" : "F$_3^{\prime}$",
         "F4" : "F$_4$",
         "F4_P" : "F$_4^{\prime}$",
         "G" : "G",
-- 
2.43.0


From ea51413116266feca64689f94272d7e7219f518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/28] fix: wulfric implementation of the niggli reduction for
 cells with the angles close to 90 degrees

---
 src/wulfric/cell/_niggli.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..758dc6d 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -32,6 +32,19 @@ except ImportError:
 __all__ = ["get_niggli"]
 
 
+def _product_is_positive(xi, eta, zeta, eps):
+    # Counts signs instead of comparing the product with eps, as eps has the same units as
+    # xi, eta and zeta, but not the same units as their product.
+    n_positive, n_zero = 0, 0
+    for value in [xi, eta, zeta]:
+        if compare_with_tolerance(value, ">", 0, eps=eps):
+            n_positive += 1
+        elif not compare_with_tolerance(value, "<", 0, eps=eps):
+            n_zero += 1
+
+    return n_positive == 3 or (n_zero == 0 and n_positive == 1)
+
+
 def _niggli_step_1(A, B, C, xi, eta, zeta, trans_matrix, eps):
     condition = compare_with_tolerance(A, ">", B, eps=eps) or (
         compare_with_tolerance(A, "==", B, eps=eps)
@@ -73,7 +86,7 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +118,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From b75a0d681f6e2a3074d6c78dbcd057fd85df9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 14/28] fix: get_niggli raises ValueError for the cell with
 zero volume with both implementations

---
 src/wulfric/cell/_niggli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index 758dc6d..52f71d2 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -363,6 +363,10 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
 
     """
 
+    volume = get_volume(cell)
+    if volume == 0:
+        raise ValueError("Cell volume is zero")
+
     implementation = implementation.lower()
 
     if implementation == "spglib":
@@ -377,10 +381,6 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             'Supported are "spglib" and "wulfric".'
         )
 
-    volume = get_volume(cell)
-    if volume == 0:
-        raise ValueError("Cell volume is zero")
-
     eps = eps_relative * volume ** (1 / 3.0)
 
     # 0
-- 
2.43.0


From 48a9ff838afa9be879886eb0991ef29eb50c800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 15/28] fix: get_transformation_matrix accepts array-like cells

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..7e2d71d 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.transpose(transformed_cell)
-- 
2.43.0


From 8e7b8b59476e1b7e467d6a1f5986cf873899fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 16/28] fix: cure_negative accepts a list with one atom

---
 src/wulfric/crystal/_basic_manipulation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..65ff5f7 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,9 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
-    for position in atoms["positions"][1:]:
-        min_values = np.minimum(min_values, position)
+    min_values = np.min(atoms["positions"], axis=0)
 
     shift = np.where(min_values < 0, -min_values, 0)
 
-- 
2.43.0


From a812a6c1b3bf45aa88150a99800c3a53954eb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 17/28] fix: Kpoints does not modify the given list of names

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From e36361de9e3032712979d6abc334f23ac13abf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 18/28] fix: get_unique_names always returns unique names

---
 src/wulfric/crystal/_atoms.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..301e096 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -251,8 +251,10 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
 
     names_are_not_unique = not len(unique_names) == len(set(unique_names))
 
-    if names_are_not_unique and strategy == "all":
-        unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
+    if strategy == "all":
+        # Names with an index might still coincide ("A1" + "1" and "A" + "11")
+        while len(unique_names) != len(set(unique_names)):
+            unique_names = [f"{name}{i + 1}" for i, name in enumerate(unique_names)]
 
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
@@ -262,11 +264,14 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
 
+        # Skip the indices that lead to the names that are already in use
+        used_names = set(unique_names)
         for i in range(len(unique_names)):
             name = unique_names[i]
-            total = counter[name][1]
-            if total > 1:
-                unique_names[i] += str(counter[name][0])
-                counter[name][0] += 1
+            if counter[name][1] > 1:
+                while f"{name}{counter[name][0]}" in used_names:
+                    counter[name][0] += 1
+                unique_names[i] = f"{name}{counter[name][0]}"
+                used_names.add(unique_names[i])
 
     return unique_names
-- 
2.43.0


From 4a28b08937bb0cd974440c17319ac948c9eaff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 19/28] fix: data that do not surround the origin are not cut
 by the ranges of the axes

---
 src/wulfric/_plotly_engine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..2c7debd 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -124,10 +124,16 @@ class PlotlyEngine:
 
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
+        def _add_margins(limits):
+            # Margins are proportional to the span of the data, so all data stay in range
+            span = limits[1] - limits[0]
+            margin = 0.025 * span if span > 0 else 0.5
+            return np.array([limits[0] - margin, limits[1] + margin])
+
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            xlim = _add_margins(self.x_range[(row, col)])
+            ylim = _add_margins(self.y_range[(row, col)])
+            zlim = _add_margins(self.z_range[(row, col)])
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From 689a271870a20394c47ce33e0ef5230ee810ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 20/28] fix: ranges of the axes account for all subpaths of the
 k-path

---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 2c7debd..1a78191 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -770,17 +770,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From aaed4719a5d692eb18342cfe6fd2d176e8c26dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 21/28] fix: plot_atoms accepts a single color and the colors
 that are not hexadecimal

---
 src/wulfric/_plotly_engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 1a78191..635f4b9 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -18,6 +18,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 # ================================ END LICENSE =================================
+import re
 from random import choices
 from string import ascii_lowercase as ASCII_LOWERCASE
 
@@ -50,6 +51,10 @@ _LEGEND_SETTINGS = {
 
 # Source: https://gamedev.stackexchange.com/questions/38536/given-a-rgb-color-x-how-to-find-the-most-contrasting-color-y
 def _get_good_contrast(hex_color):
+    # Other formats of colors (named colors, "rgb(...)", ...) are supported by plotly
+    if re.fullmatch("#[0-9a-fA-F]{6}", str(hex_color)) is None:
+        return "#000000"
+
     hex_color = hex_color[1:]
     R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
 
@@ -1035,6 +1040,9 @@ class PlotlyEngine:
 
             colors = [ATOM_COLORS[_] for _ in species]
 
+        if isinstance(colors, str):
+            colors = [colors for _ in range(len(atoms["positions"]))]
+
         text_color = [_get_good_contrast(color) for color in colors]
 
         # Prepare hover info
-- 
2.43.0


From 9fddcd6b69279c118a4432e9d378327e0a951e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 22/28] fix: azimuthal angle of get_spherical when
 radial_line_zero is not perpendicular to polar_axis

---
 src/wulfric/geometry/_geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wulfric/geometry/_geometry.py b/src/wulfric/geometry/_geometry.py
index d2ecc35..1b1ed07 100644
--- a/src/wulfric/geometry/_geometry.py
+++ b/src/wulfric/geometry/_geometry.py
@@ -425,6 +425,13 @@ def get_spherical(
         vector = vector - polar_axis * np.dot(vector, polar_axis)
         vector /= np.linalg.norm(vector)
 
+        # Azimuthal angle is measured in the plane that is perpendicular to the polar axis
+        radial_line_zero = radial_line_zero - polar_axis * np.dot(
+            radial_line_zero, polar_axis
+        )
+        if np.linalg.norm(radial_line_zero) > np.finfo(float).eps:
+            radial_line_zero /= np.linalg.norm(radial_line_zero)
+
         # This one is more complex, as it is from 0 to 360
         azimuthal = float(np.arccos(np.clip(np.dot(vector, radial_line_zero), -1, 1)))
 
-- 
2.43.0


From 0c7aac8dfcbdfd0664ff86240bba6cec1ef866c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 23/28] fix: Wigner-Seitz cell and Brillouin zone of elongated
 cells

---
 src/wulfric/cell/_voronoi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/cell/_voronoi.py b/src/wulfric/cell/_voronoi.py
index f3cb0fb..a1695bd 100644
--- a/src/wulfric/cell/_voronoi.py
+++ b/src/wulfric/cell/_voronoi.py
@@ -21,6 +21,7 @@
 import numpy as np
 
 from wulfric.cell._basic_manipulation import get_reciprocal
+from wulfric.cell._niggli import get_niggli
 
 try:
     from scipy.spatial import Voronoi
@@ -117,12 +118,14 @@ def _get_voronoi_cell(cell):
         raise ImportError(
             'SciPy is not available. Please install it with "pip install scipy"'
         )
+
+    # Voronoi cell does not depend on the choice of the cell for the lattice. However, for
+    # the elongated cells the range of the lattice points might not be sufficient.
+    cell = get_niggli(cell, implementation="wulfric")
+
     voronoi = Voronoi(get_lattice_points(cell, relative=False, range=(n, n, n)))
     edges_index = set()
     # Thanks ASE for the general idea
-    # Note that more than -10 0 10 range is required for the lattice points to correctly
-    # produce the Voronoi decomposition of the lattice in most cases
-    # In general bigger span might be required
     for rv, rp in zip(voronoi.ridge_vertices, voronoi.ridge_points):
         if -1 not in rv and index_000 in rp:
             for j in range(0, len(rv)):
-- 
2.43.0


From e918c7fc2310179095ae6349070e3c5cf156e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 24/28] fix: load_poscar finds the POSCAR file in the given
 directory

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index b753276..4cd55d5 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From c7c14bf6c68bddb5f64679557810da80bf23685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 25/28] fix: variation of ORCF does not depend on the units of
 length

---
 src/wulfric/crystal/_sc_variation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_sc_variation.py b/src/wulfric/crystal/_sc_variation.py
index a56f593..1d5b60f 100644
--- a/src/wulfric/crystal/_sc_variation.py
+++ b/src/wulfric/crystal/_sc_variation.py
@@ -107,7 +107,8 @@ def _ORCF_variation(
             f'(convention="SC"): ORCF variation. a < b < c is not satisfied with {distance_tolerance} tolerance.'
         )
 
-    expression = 1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2
+    # Dimensionless, so that the variation does not depend on the units of length
+    expression = 1 - (conv_a / conv_b) ** 2 - (conv_a / conv_c) ** 2
     if cwt(expression, "==", 0, eps=distance_tolerance):
         return "ORCF3"
     elif cwt(expression, ">", 0, eps=distance_tolerance):
-- 
2.43.0


From 46fc0163f70fdc8747bbdc3793e81b5482a7815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 26/28] fix: colors of Pd and Er

---
 src/wulfric/constants/_atoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_atoms.py b/src/wulfric/constants/_atoms.py
index 11ecbc9..0f9ac15 100644
--- a/src/wulfric/constants/_atoms.py
+++ b/src/wulfric/constants/_atoms.py
@@ -316,7 +316,7 @@ ATOM_COLORS = {
     "Tc": "#3B9E9E",
     "Ru": "#248F8F",
     "Rh": "#0A7D8C",
-    "Pd": "#6985",
+    "Pd": "#006985",
     "Ag": "#C0C0C0",
     "Cd": "#FFD98F",
     "In": "#A67573",
@@ -338,7 +338,7 @@ ATOM_COLORS = {
     "Tb": "#30FFC7",
     "Dy": "#1FFFC7",
     "Ho": "#00FF9C",
-    "Er": "#",
+    "Er": "#00E675",
     "Tm": "#00D452",
     "Yb": "#00BF38",
     "Lu": "#00AB24",
-- 
2.43.0


From ec7a4fd47a1978c694ed1752cea7bfbaea083c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 27/28] fix: Wigner-Seitz cells and Brillouin zones of lattices
 given in small units

Epsilon of the Niggli reduction is proportional to the length, while it is compared with
squares of lengths. Therefore, for the cells with lengths below ~1e-5 (for instance in
meters) every parameter was equal to every other one and the reduction never ended.
---
 src/wulfric/cell/_voronoi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/cell/_voronoi.py b/src/wulfric/cell/_voronoi.py
index a1695bd..e0a89b3 100644
--- a/src/wulfric/cell/_voronoi.py
+++ b/src/wulfric/cell/_voronoi.py
@@ -22,6 +22,7 @@ import numpy as np
 
 from wulfric.cell._basic_manipulation import get_reciprocal
 from wulfric.cell._niggli import get_niggli
+from wulfric.geometry._geometry import get_volume
 
 try:
     from scipy.spatial import Voronoi
@@ -121,7 +122,9 @@ def _get_voronoi_cell(cell):
 
     # Voronoi cell does not depend on the choice of the cell for the lattice. However, for
     # the elongated cells the range of the lattice points might not be sufficient.
-    cell = get_niggli(cell, implementation="wulfric")
+    # Tolerance of the Niggli reduction is not scale-invariant, thus the cell is rescaled.
+    scale = get_volume(cell) ** (1 / 3) or 1.0
+    cell = get_niggli(np.array(cell) / scale, implementation="wulfric")
 
     voronoi = Voronoi(get_lattice_points(cell, relative=False, range=(n, n, n)))
     edges_index = set()
@@ -143,7 +146,7 @@ def _get_voronoi_cell(cell):
     for i in range(edges_index.shape[0]):
         edges[i][0] = vertices_indices_mapping[edges_index[i][0]]
         edges[i][1] = vertices_indices_mapping[edges_index[i][1]]
-    return voronoi.vertices[vertices_indices], edges
+    return scale * voronoi.vertices[vertices_indices], edges
 
 
 def get_wigner_seitz_cell(cell):
-- 
2.43.0


From 634f23999001677bf330d790d3a6e00972a9d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 28/28] fix: Niggli reduction of spglib for large or nearly
 symmetric cells

Tolerance of spglib is absolute, therefore reciprocal cells of large (above ~100 Angstrom)
triclinic crystals were not reduced and conventional cells (HPKOT) were wrong. If spglib
failed to reduce the cell, then None was returned.
---
 src/wulfric/cell/_niggli.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index 52f71d2..979327d 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -374,7 +374,15 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             raise ImportError(
                 "spglib is not installed. Please install it with `pip install spglib`"
             )
-        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        # Tolerance of spglib is absolute, thus the cell is rescaled to the unit volume.
+        scale = volume ** (1 / 3.0)
+        niggli_cell = spglib.niggli_reduce(
+            lattice=np.array(cell) / scale, eps=eps_relative
+        )
+        if niggli_cell is not None:
+            return scale * niggli_cell
+        # spglib can fail for the lattices that satisfy some equalities of the algorithm only
+        # approximately, then continue with the implementation of wulfric.
     elif implementation != "wulfric":
         raise ValueError(
             f"Implementation {implementation} is not supported. "
-- 
2.43.0

