From ec726918a561587ea653832d80540d3488aaa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 01/23] fix: coordinates of the Z point of the aP2 lattice

---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From 13cf269e6c618fe29de13dfd4bab2a0a279f3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 02/23] fix: plot labels of the F3 high-symmetry points

---
 src/wulfric/constants/_kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From d8da12e6b9b1706447d6063eff931d684a069965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 03/23] fix: get_transformation_matrix accepts any array-like

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..7e2d71d 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.transpose(transformed_cell)
-- 
2.43.0


From 491e4c27cf9c8705cd047be1e37b36ba135b24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 04/23] fix: cure_negative for a single atom given as a list

---
 src/wulfric/crystal/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..35fb238 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,7 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
+    min_values = np.array(atoms["positions"][0])
     for position in atoms["positions"][1:]:
         min_values = np.minimum(min_values, position)
 
-- 
2.43.0


From 64a940dba23057b652afcb2d248a868246ff0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 05/23] fix: dump_poscar raises ValueError if atom species can
 not be deduced

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..a85722e 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -235,7 +235,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From d86d506c75aa72f76b1eadd820587881944179ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 06/23] fix: dump_poscar replaces carriage returns in the
 comment

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index a85722e..df9ebaa 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -220,7 +220,7 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = comment.replace("\r", " ").replace("\n", " ")
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From 4ce1be33efc1eaf70dc3fa8ff9bfdc2078b9206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 07/23] fix: get_conventional and get_primitive return
 spglib_types as a list of int

---
 src/wulfric/crystal/_conventional.py | 2 +-
 src/wulfric/crystal/_primitive.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..6d58158 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -812,6 +812,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = conv_types
+        conv_atoms["spglib_types"] = [int(i) for i in conv_types]
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..aa0cfba 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -302,6 +302,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = [int(i) for i in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From 7ecb499486aefa55a4922cf166c0b07bb68be2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 08/23] fix: returned cell and atoms do not share memory with
 spglib_data

---
 src/wulfric/crystal/_conventional.py | 4 ++++
 src/wulfric/crystal/_primitive.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 6d58158..deb7756 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -795,6 +795,10 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
             convention, supported_conventions=["HPKOT", "SC", "spglib"]
         )
 
+    # Do not share memory with spglib_data
+    conv_cell = np.array(conv_cell)
+    conv_positions = np.array(conv_positions)
+
     # Create conventional atoms
     conv_atoms = dict(positions=conv_positions)
 
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index aa0cfba..b3f6c5f 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -284,6 +284,10 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
             convention, supported_conventions=["HPKOT", "SC", "spglib"]
         )
 
+    # Do not share memory with spglib_data
+    prim_cell = np.array(prim_cell)
+    prim_positions = np.array(prim_positions)
+
     # Create primitive atoms
     prim_atoms = dict(positions=prim_positions)
 
-- 
2.43.0


From 0bbdeed6497bd42a72689419f8aca8c81efe4d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 09/23] fix: get_primitive takes values of the keys from the
 last atom of each type

---
 src/wulfric/crystal/_primitive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index b3f6c5f..526f648 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -292,10 +292,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     prim_atoms = dict(positions=prim_positions)
 
     # Get mapping from original atoms to primitive ones through types
-    types_mapping = {}
-    for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+    types_mapping = {
+        type_index: index for index, type_index in enumerate(spglib_data.original_types)
+    }
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From 2592c9ca45258b696e417256ad0bf656e11c67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 10/23] fix: negative scale factor of POSCAR is a total volume
 of the cell

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index df9ebaa..76235c0 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,7 +100,7 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell[0] *= scale_factor[0]
-- 
2.43.0


From 98580c8a05e9ac906621256f71a0d75afa2a80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 11/23] fix: three scale factors of POSCAR scale Cartesian
 components

---
 src/wulfric/io/_vasp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 76235c0..fad3adf 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -103,9 +103,8 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Three numbers scale Cartesian components of all vectors
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From bf6dea949891fe3979c977dce0f05f43e96ce8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 12/23] fix: SC convention for orthorhombic lattices with equal
 lengths of the lattice vectors

---
 src/wulfric/crystal/_conventional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index deb7756..b9189ab 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From d0a1496d1cefd1cc8a503d653851d246ec04d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 13/23] fix: get_unique_names always returns unique names

---
 src/wulfric/crystal/_atoms.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..9b74226 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -252,7 +252,13 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
     names_are_not_unique = not len(unique_names) == len(set(unique_names))
 
     if names_are_not_unique and strategy == "all":
-        unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
+        unique_names = []
+        for i, name in enumerate(atoms["names"]):
+            index = i + 1
+            # Avoid accidental collisions (i.e. "A1" + "2" and "A" + "12")
+            while f"{name}{index}" in unique_names:
+                index += len(atoms["names"])
+            unique_names.append(f"{name}{index}")
 
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
@@ -262,11 +268,16 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
 
+        # Names that are already taken
+        taken = set(name for name in counter if counter[name][1] == 1)
+
         for i in range(len(unique_names)):
             name = unique_names[i]
             total = counter[name][1]
             if total > 1:
+                while name + str(counter[name][0]) in taken:
+                    counter[name][0] += 1
                 unique_names[i] += str(counter[name][0])
-                counter[name][0] += 1
+                taken.add(unique_names[i])
 
     return unique_names
-- 
2.43.0


From aca0437f173c15ab2c8bfa90f4c71a589d84d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 14/23] fix: signs of the parameters in steps 3 and 4 of the
 Niggli reduction

---
 src/wulfric/cell/_niggli.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..e65f592 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -72,8 +72,19 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
     return condition, (A, B, C, xi, eta, zeta), trans_matrix
 
 
+def _positive_product(xi, eta, zeta, eps):
+    # Signs of the individual parameters are compared with tolerance, as in Section 3.2 of
+    # Grosse-Kunstleve, Sauter and Adams (2004). Product of three parameters can not be
+    # compared with the same tolerance as the parameters themselves.
+    parameters = (xi, eta, zeta)
+    n_positive = sum(compare_with_tolerance(i, ">", 0, eps=eps) for i in parameters)
+    n_zero = sum(compare_with_tolerance(i, "==", 0, eps=eps) for i in parameters)
+
+    return n_positive == 3 or (n_zero == 0 and n_positive == 1)
+
+
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _positive_product(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +116,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _positive_product(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From 83dce180d49c3b4a1c637bac72c0577785ead146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 15/23] fix: Kpoints does not share the list of names with the
 caller

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From 2056034b68e6ff55baa9b32923b32ccf3228a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 16/23] fix: Kpoints refuses repeated names of the points

---
 src/wulfric/_kpoints_class.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..f884680 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -110,6 +110,9 @@ class Kpoints:
                 f"Amount of names ({len(names)}) does not match amount of points ({len(coordinates)})."
             )
 
+        if len(set(names)) != len(names):
+            raise ValueError(f"Names of the points are not unique: {names}.")
+
         self.hs_coordinates = dict(
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
-- 
2.43.0


From d4f8749da8ee0a8c03dc98d99155bbec9dabed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 17/23] fix: Kpoints can be created with less than two points

---
 src/wulfric/_kpoints_class.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index f884680..42a201b 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -123,7 +123,8 @@ class Kpoints:
 
         self._path = None
         if path is None:
-            path = "-".join(self.hs_names)
+            # At least two points are necessary to form a path
+            path = [self.hs_names] if len(self.hs_names) >= 2 else []
         self.path = path
 
     @staticmethod
@@ -482,6 +483,11 @@ class Kpoints:
                     points = new_points
                 else:
                     points = np.concatenate((points, new_points))
+
+        # Path is empty
+        if points is None:
+            points = np.zeros((0, 3), dtype=float)
+
         return points
 
     # It can not just call for points and flatten them,
@@ -528,6 +534,11 @@ class Kpoints:
                 else:
                     delta += flat_points[-1]
                     flat_points = np.concatenate((flat_points, delta))
+
+        # Path is empty
+        if flat_points is None:
+            flat_points = np.zeros(0, dtype=float)
+
         return flat_points
 
     ################################################################################
-- 
2.43.0


From cbd6699d9082aa31329fc8feffd2c49454629b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 18/23] fix: path of Kpoints does not contain removed points

---
 src/wulfric/_kpoints_class.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index 42a201b..f635905 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -281,6 +281,9 @@ class Kpoints:
         r"""
         Removes high-symmetry point.
 
+        If the point is present in the ``path``, then every segment of the path that starts
+        or ends in it is removed as well.
+
         Parameters
         ----------
         name : str
@@ -292,6 +295,18 @@ class Kpoints:
             del self.hs_coordinates[name]
             del self.hs_labels[name]
 
+            # Split every subpath in the removed point and keep the parts with at least
+            # two points.
+            new_path = []
+            for subpath in self._path:
+                new_path.append([])
+                for point in subpath:
+                    if point == name:
+                        new_path.append([])
+                    else:
+                        new_path[-1].append(point)
+            self._path = [subpath for subpath in new_path if len(subpath) >= 2]
+
     ################################################################################
     #                                Path attributes                               #
     ################################################################################
-- 
2.43.0


From dd55abdbd91f52f2b5037d7ef6a0c3bf8c499094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 19/23] fix: HPKOT primitive cell of the hR lattice

---
 .../api/constants/hpkot_conventional_to_primitive.rst       | 6 +++---
 src/wulfric/constants/_hpkot_convention.py                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/source/api/constants/hpkot_conventional_to_primitive.rst b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
index 87922f2..64de842 100644
--- a/docs/source/api/constants/hpkot_conventional_to_primitive.rst
+++ b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
@@ -90,9 +90,9 @@ Data are from the Table 3 of [1]_.
         ),
         "hR" : np.array(
             [
-                [1.0, -0.5, -0.5],
-                [0.5, 0.5, -1.0],
-                [0.5, 0.5, 0.5],
+                [2 / 3, -1 / 3, -1 / 3],
+                [1 / 3, 1 / 3, -2 / 3],
+                [1 / 3, 1 / 3, 1 / 3],
             ]
         ),
         "mP" : np.array(
diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..5c04450 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2 / 3, -1 / 3, -1 / 3],
+            [1 / 3, 1 / 3, -2 / 3],
+            [1 / 3, 1 / 3, 1 / 3],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From e224450a92784c93cf55e61c7e78d1534fc35e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 20/23] fix: ensure_000 moved tiny negative coordinates to 1
 instead of 0

---
 src/wulfric/crystal/_basic_manipulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index 35fb238..1df31c1 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -179,9 +179,12 @@ def ensure_000(atoms) -> None:
             # Ensure -1 < poscomp < 1
             poscomp -= int(poscomp)
 
-            # Ensure 0 <= poscomp <= 1
+            # Ensure 0 <= poscomp < 1
             if poscomp < 0:
                 poscomp += 1
+                # Tiny negative values are rounded to 1 in the line above
+                if poscomp >= 1:
+                    poscomp -= 1
 
             atoms["positions"][i][j] = poscomp
 
-- 
2.43.0


From c1703558a0f5aea13c09f1cf53cf54250e18ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 21/23] fix: load_poscar finds the POSCAR file in the given
 directory

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index fad3adf..22e70ce 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From c111024342d156a7e889ec95156ff2a314ba8061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 22/23] fix: rhombohedral cell with the second vector flipped
 is recognized (SC convention)

The condition of the third case repeated the one of the second, so the case
could never be reached and such a cell ended in PotentialBugError.
---
 src/wulfric/crystal/_conventional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index b9189ab..a9485cd 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -519,7 +519,7 @@ def _sc_get_conventional_hR(
             ]
         )
     elif cwt(alpha, "==", 180 - beta, eps=angle_tolerance) and cwt(
-        beta, "==", gamma, eps=angle_tolerance
+        alpha, "==", gamma, eps=angle_tolerance
     ):  # -> -a1, a2, -a3
         matrix = np.array(
             [
-- 
2.43.0


From f3f66dc634eb32c7b53d3efaa8ef8f06a640cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 23/23] fix: atoms equal up to a lattice translation are
 recognized on both sides of the cell boundary

---
 src/wulfric/crystal/_primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 526f648..1f1ee82 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,11 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between atoms (up to the lattice translations)
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    distances = np.linalg.norm(differences - np.round(differences), axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0

