From 43aa0b60edefe94bb83852c6a5d45051e3401a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 01/30] fix: resize polynomial node buffers before unbatched
 evaluation

An empty batch left node_values/node_adjoints with size zero, so the next
evaluate or evaluate_gradient wrote past the end of both.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index 951f320..1468c35 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -149,6 +149,7 @@ auto MultivariatePolynomial::evaluate_batch(
 void MultivariatePolynomial::initialize_forward_pass(
     const std::vector<double>& x)
 {
+    node_values.resize(nodes.size());
     for (int i=0; i<num_variables; ++i)
         node_values[i] = x[i];
 }
@@ -163,6 +164,7 @@ void MultivariatePolynomial::forward_pass()
 
 void MultivariatePolynomial::initialize_backward_pass()
 {
+    node_adjoints.resize(nodes.size());
     cblas_dcopy(node_coefficients.size(),
                 node_coefficients.data(), 1,
                 node_adjoints.data(), 1);
-- 
2.43.0


From dd118d964d34ba370070ee29997b600559297ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:27 +0000
Subject: [PATCH 02/30] fix: keep spline-set lookups inside the coefficient
 table at the last node

---
 libsymmetrix/source/cubic_spline_set.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set.cpp b/libsymmetrix/source/cubic_spline_set.cpp
index 319d87f..46ad1b7 100644
--- a/libsymmetrix/source/cubic_spline_set.cpp
+++ b/libsymmetrix/source/cubic_spline_set.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <vector>
 
 #include "cubic_spline_set.hpp"
@@ -29,7 +30,7 @@ void CubicSplineSet::evaluate(
     std::span<double> values)
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    const int i = std::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -52,7 +53,7 @@ void CubicSplineSet::evaluate_derivs(double r,
                                      std::span<double> derivs)
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    const int i = std::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
-- 
2.43.0


From 2690a8d4bb2502dc5e1831dbf4c2fb20dbe0667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:27 +0000
Subject: [PATCH 03/30] fix: keep Kokkos spline lookups inside the coefficient
 tables

---
 libsymmetrix/source/cubic_spline_kokkos.cpp        | 4 ++--
 libsymmetrix/source/cubic_spline_set_kokkos.cpp    | 9 +++++----
 libsymmetrix/source/radial_function_set_kokkos.cpp | 3 ++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 882788b..ea86d2a 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -51,7 +51,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i > num_coeffs / 4)
+    if (i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h * i;
@@ -76,7 +76,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i> num_coeffs)
+    if (i<0 or i>=num_coeffs/4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h*i;
diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 08c7484..11f2045 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -60,7 +60,7 @@ CubicSplineSetKokkos::CubicSplineSetKokkos(
     this->h = h;
     num_splines = nodal_values.extent(0);
     num_nodes = nodal_values.extent(1);
-    Kokkos::realloc(c, num_nodes-1, num_splines);
+    Kokkos::realloc(c, num_nodes-1, 4, num_splines);
 
     // Create and use the functor for initialization
     InitializeCoefficientsFunctor functor(h, nodal_values, nodal_derivs, c);
@@ -75,7 +75,7 @@ void CubicSplineSetKokkos::evaluate(
     Kokkos::View<double*> values)
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    const int i = Kokkos::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -97,7 +97,7 @@ void CubicSplineSetKokkos::evaluate_derivs(double r,
                                            Kokkos::View<double*> derivs) const
 {
     // TODO: bounds checking
-    const int i = static_cast<int>(r / h);
+    const int i = Kokkos::min(static_cast<int>(r / h), num_nodes-2);
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -127,6 +127,7 @@ void CubicSplineSetKokkos::evaluate_derivs(Kokkos::View<const double*> r,
     const auto c = this->c;
     const auto h = this->h;
     const auto num_splines = this->num_splines;
+    const int num_intervals = this->num_nodes-1;
 
     Kokkos::parallel_for(
         "CubicSplineSet::evaluate_derivs",
@@ -137,7 +138,7 @@ void CubicSplineSetKokkos::evaluate_derivs(Kokkos::View<const double*> r,
         Kokkos::TeamPolicy<>(r.size(), 1, 32),
         KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
             const int i = team_member.league_rank();
-            const int ii = static_cast<int>(r(i)/h); // TODO: bounds checking?
+            const int ii = Kokkos::min(static_cast<int>(r(i)/h), num_intervals-1);
             const double x = r(i) - h*ii;
             const double xx = x*x;
             const double xxx = xx*x;
diff --git a/libsymmetrix/source/radial_function_set_kokkos.cpp b/libsymmetrix/source/radial_function_set_kokkos.cpp
index ae0dec3..a074491 100644
--- a/libsymmetrix/source/radial_function_set_kokkos.cpp
+++ b/libsymmetrix/source/radial_function_set_kokkos.cpp
@@ -134,6 +134,7 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
     const auto h = this->h;
     const auto num_functions = this->num_functions;
     const auto c = this->coefficients;
+    const int num_intervals = this->num_nodes-1;
 
     // TODO: shouldn't need all this
     // Build i_list
@@ -177,7 +178,7 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
                 ? type_i*(2*num_unique_types-type_i-1)/2 + type_j
                 : type_j*(2*num_unique_types-type_j-1)/2 + type_i;
             // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h); // TODO: bounds checking?
+            const int n = Kokkos::min(static_cast<int>(r(ij)/h), num_intervals-1);
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
-- 
2.43.0


From 103ea00dcc0c22374f3b0ddc2a0b6e2b1c9964fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:27 +0000
Subject: [PATCH 04/30] fix: take the azimuth of Cartesian spherical harmonics
 from atan2 so poles and the negative x half-plane are right

---
 libsymmetrix/source/spherical_harmonic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/spherical_harmonic.cpp b/libsymmetrix/source/spherical_harmonic.cpp
index 1e2957c..9b44705 100644
--- a/libsymmetrix/source/spherical_harmonic.cpp
+++ b/libsymmetrix/source/spherical_harmonic.cpp
@@ -21,7 +21,7 @@ std::complex<double> sph_harm(int l, int m, double polar, double azimuth) {
 std::complex<double> sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return sph_harm(l, m, polar, azimuth);
 }
 
@@ -38,7 +38,7 @@ double real_sph_harm(int l, int m, double polar, double azimuth) {
 double real_sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return real_sph_harm(l, m, polar, azimuth);
 }
 
-- 
2.43.0


From b5e50d32210e1c992149e9a785b7cc6fe263924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 05/30] fix: include atoms without neighbors in the ASE
 calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..140746e 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,7 +75,7 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)  # includes atoms without neighbors
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
         num_neigh = np.bincount(j_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
-- 
2.43.0


From d9c884cf3f044827e8c11a99bb3186325798e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 06/30] fix: let the ASE calculator handle cells without a
 volume

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 140746e..b02c3f1 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -98,5 +98,8 @@ class Symmetrix(Calculator):
 
         self.results['forces'] = atom_forces
 
-        # stress from pair_forces
-        self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        # stress from pair_forces (undefined unless the cell has a volume)
+        if self.atoms.cell.rank == 3:
+            self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        else:
+            self.results.pop('stress', None)
-- 
2.43.0


From 239c24b6d560ab7ce3020a17f35f233ce7e8326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:44 +0000
Subject: [PATCH 07/30] fix: return one energy per atom from the ASE calculator
 when the evaluator's container is larger

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index b02c3f1..9f15ac9 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -82,8 +82,9 @@ class Symmetrix(Calculator):
         self.evaluator.compute_node_energies_forces(
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
 
-        self.results['energy'] = self.results['free_energy'] = np.sum(self.evaluator.node_energies)
-        self.results['energies'] = np.asarray(self.evaluator.node_energies)
+        node_energies = np.asarray(self.evaluator.node_energies)[:num_nodes]  # as for `evaluator.node_forces` below
+        self.results['energy'] = self.results['free_energy'] = np.sum(node_energies)
+        self.results['energies'] = node_energies
 
         pair_forces = np.asarray(self.evaluator.node_forces).reshape((-1, 3))
         pair_forces = pair_forces[:len(i_list), :]  # currently, `evaluator.node_forces` is a container
-- 
2.43.0


From 110e1bf7b893eebc59e9843e37ee53a8d5d2baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:44 +0000
Subject: [PATCH 08/30] fix: flush the converted model before the evaluator
 reads it

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 9f15ac9..914f294 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0


From c1c927562fd55f043d9a65d3e85152b899f8ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:44 +0000
Subject: [PATCH 09/30] fix: let models be converted without naming species, as
 the calculator allows

---
 symmetrix/source/symmetrix/extract_mace_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index 143c878..b31769a 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -16,7 +16,7 @@ from mace.tools.scripts_utils import remove_pt_head
 
 from ase.data import chemical_symbols
 
-def extract_mace_data(model, species, head=None, num_spline_points=256):
+def extract_mace_data(model, species=None, head=None, num_spline_points=256):
     """Extract data from pytorch model file into structure that can be
     written as symmetrix JSON data file
 
@@ -24,8 +24,8 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
     ----------
     model: str / Path
         path to pytorch model file
-    species: list(int / str)
-        list of atomic numbers or chemical symbols to extract
+    species: list(int / str), default None
+        list of atomic numbers or chemical symbols to extract, all those of the model if None
     head: str, default None
         head to keep, if multihead model, default same as mace.tools.scripts_utils.remove_pt_head
     num_spline_points: int, default 256
-- 
2.43.0


From c6688c9c11f8f7cc338444e6f1b790c62a9956c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 10/30] fix: keep density-scaling splines defined up to the
 cutoff

---
 libsymmetrix/source/mace.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/mace.cpp b/libsymmetrix/source/mace.cpp
index 21c27b4..200107f 100644
--- a/libsymmetrix/source/mace.cpp
+++ b/libsymmetrix/source/mace.cpp
@@ -952,8 +952,13 @@ void MACE::load_from_json(
         const double A0_spline_h = file["A0_spline_h"];
         auto A0_spline_values = file["A0_spline_values"].get<std::vector<std::vector<double>>>();
         auto A0_spline_derivs = file["A0_spline_derivs"].get<std::vector<std::vector<double>>>();
-        for (int i=0; i<A0_spline_values.size(); ++i)
+        for (int i=0; i<A0_spline_values.size(); ++i) {
+            // hold the last value for one more interval, so that radii which
+            // reach (or round to) the last node are still inside the table
+            A0_spline_values[i].push_back(A0_spline_values[i].back());
+            A0_spline_derivs[i].push_back(0.0);
             A0_splines.push_back(CubicSpline(A0_spline_h, A0_spline_values[i], A0_spline_derivs[i]));
+        }
     }
 
     // M0
@@ -997,8 +1002,13 @@ void MACE::load_from_json(
         const double A1_spline_h = file["A1_spline_h"];
         auto A1_spline_values = file["A1_spline_values"].get<std::vector<std::vector<double>>>();
         auto A1_spline_derivs = file["A1_spline_derivs"].get<std::vector<std::vector<double>>>();
-        for (int i=0; i<A1_spline_values.size(); ++i)
+        for (int i=0; i<A1_spline_values.size(); ++i) {
+            // hold the last value for one more interval, so that radii which
+            // reach (or round to) the last node are still inside the table
+            A1_spline_values[i].push_back(A1_spline_values[i].back());
+            A1_spline_derivs[i].push_back(0.0);
             A1_splines.push_back(CubicSpline(A1_spline_h, A1_spline_values[i], A1_spline_derivs[i]));
+        }
     }
 
     // M1
-- 
2.43.0


From e767c50487659a24bed8ea0cd77f66a7d78fbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:35 +0000
Subject: [PATCH 11/30] fix: read array arguments of the evaluator bindings in
 row-major order whatever their layout

---
 symmetrix/source/cpp/mace.cpp                 | 112 +++++++-------
 symmetrix/source/cpp/mace_kokkos.cpp          | 144 +++++++++---------
 .../cpp/multilayer_perceptron_kokkos.cpp      |   4 +-
 .../cpp/multivariate_polynomial_kokkos.cpp    |   8 +-
 symmetrix/source/cpp/utilities_kokkos.hpp     |  12 +-
 5 files changed, 144 insertions(+), 136 deletions(-)

diff --git a/symmetrix/source/cpp/mace.cpp b/symmetrix/source/cpp/mace.cpp
index 74765cd..4c78ee8 100644
--- a/symmetrix/source/cpp/mace.cpp
+++ b/symmetrix/source/cpp/mace.cpp
@@ -7,6 +7,10 @@
 
 namespace py = pybind11;
 
+// row-major contiguous input of the right type, converted if necessary
+template <typename T>
+using contiguous_array = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 void bind_mace(py::module_ &m)
 {
     py::class_<MACE>(m, "MACE")
@@ -34,12 +38,12 @@ void bind_mace(py::module_ &m)
         .def_readwrite("H2_adj", &MACE::H2_adj)
         .def("compute_node_energies_forces",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           contiguous_array<int> node_types,
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_indices,
+                           contiguous_array<int> neigh_types,
+                           contiguous_array<double> xyz,
+                           contiguous_array<double> r) {
                 self.compute_node_energies_forces(
                            num_nodes, 
                            std::span<const int>(node_types.data(), node_types.size()),
@@ -52,10 +56,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R0",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -66,10 +70,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R1",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R1(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -78,15 +82,15 @@ void bind_mace(py::module_ &m)
                     std::span<const double>(r.data(), r.size()));
             })
         .def("compute_Y",
-            [](MACE& self, py::array_t<double> xyz) {
+            [](MACE& self, contiguous_array<double> xyz) {
                 self.compute_Y(std::span<const double>(xyz.data(), xyz.size()));
             })
         .def("compute_A0",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -95,11 +99,11 @@ void bind_mace(py::module_ &m)
             })
         .def("reverse_A0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           contiguous_array<int> node_types,
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_types,
+                           contiguous_array<double> xyz,
+                           contiguous_array<double> r) {
                 self.reverse_A0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
                                 std::span<const int>(num_neigh.data(), num_neigh.size()),
@@ -110,10 +114,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -124,11 +128,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -139,13 +143,13 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_M0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.reverse_M0(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
@@ -153,18 +157,18 @@ void bind_mace(py::module_ &m)
         .def("reverse_H1", &MACE::reverse_H1)
         .def("compute_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices) {
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_indices) {
                 self.compute_Phi1(num_nodes, 
                                   std::span<const int>(num_neigh.data(), num_neigh.size()),
                                   std::span<const int>(neigh_indices.data(), neigh_indices.size()));
             })
         .def("reverse_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r,
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_indices,
+                           contiguous_array<double> xyz,
+                           contiguous_array<double> r,
                            bool zero_dxyz,
                            bool zero_H1_adj) {
                 self.reverse_Phi1(num_nodes, 
@@ -180,10 +184,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -194,11 +198,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -209,26 +213,26 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_M1(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
 
         .def("reverse_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.reverse_M1(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("compute_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
+                           contiguous_array<int> node_types,
                            bool zero_H1_adj) {
                 self.reverse_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
@@ -236,7 +240,7 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_readouts",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_readouts(num_nodes, 
                                       std::span<const int>(node_types.data(), node_types.size()));
             });
diff --git a/symmetrix/source/cpp/mace_kokkos.cpp b/symmetrix/source/cpp/mace_kokkos.cpp
index b7d28d1..cbba2a1 100644
--- a/symmetrix/source/cpp/mace_kokkos.cpp
+++ b/symmetrix/source/cpp/mace_kokkos.cpp
@@ -23,7 +23,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_energies);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_energies) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> node_energies) {
                 set_kokkos_view(self.node_energies, node_energies);
             })
         // partial forces
@@ -31,19 +31,19 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_forces);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_forces) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> node_forces) {
                 set_kokkos_view(self.node_forces, node_forces);
             })
         // node energies and forces
         .def("compute_node_energies_forces",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_indices,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.compute_node_energies_forces(
                     num_nodes, 
                     create_kokkos_view("node_types", node_types),
@@ -58,17 +58,17 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R0) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> R0) {
                 const int total_num_neigh = R0.size()/((self.l_max+1)*self.num_channels);
                 set_kokkos_view(self.R0, R0, total_num_neigh, (self.l_max+1)*self.num_channels);
             })
         .def("compute_R0", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -81,7 +81,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> R1) {
                 const int num_le = self.Phi1_l.size();
                 const int total_num_neigh = R1.size()/(num_le*self.num_channels);
                 set_kokkos_view(self.R1, R1, total_num_neigh, num_le*self.num_channels);
@@ -89,10 +89,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_R1", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -103,7 +103,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         // Y
         .def("compute_Y",
             [] (MACEKokkos<Precision>& self,
-                    py::array_t<double> xyz) {
+                    contiguous_array<double> xyz) {
                 self.compute_Y(
                     create_kokkos_view("xyz", xyz));
             })
@@ -112,7 +112,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A0) {
                 const int num_nodes = A0.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0, A0, num_nodes, self.num_lm, self.num_channels);
             })
@@ -120,16 +120,16 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A0_adj) {
                 const int num_nodes = A0_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0_adj, A0_adj, num_nodes, self.num_lm, self.num_channels);
             })
         .def("compute_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -139,11 +139,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -155,10 +155,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -169,11 +169,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -187,7 +187,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M0) {
                 const int num_nodes = M0.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0, M0, num_nodes, self.num_LM, self.num_channels);
             })
@@ -195,14 +195,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M0_adj) {
                 const int num_nodes = M0_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0_adj, M0_adj, num_nodes, self.num_LM, self.num_channels);
             })
         .def("compute_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.compute_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -210,7 +210,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.reverse_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -220,7 +220,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> H1) {
                 const int num_nodes = H1.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1, H1, num_nodes, self.num_LM, self.num_channels);
             })
@@ -228,7 +228,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> H1_adj) {
                 const int num_nodes = H1_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1_adj, H1_adj, num_nodes, self.num_LM, self.num_channels);
             })
@@ -239,7 +239,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.Phi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> Phi1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> Phi1) {
                 const int num_nodes = Phi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.Phi1, Phi1, num_nodes, self.num_lme, self.num_channels);
             })
@@ -247,15 +247,15 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.dPhi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> dPhi1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> dPhi1) {
                 const int num_nodes = dPhi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.dPhi1, dPhi1, num_nodes, self.num_lme, self.num_channels);
             })
         .def("compute_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types) {
                 self.compute_Phi1(
                     num_nodes,
                     create_kokkos_view("num_neigh", num_neigh),
@@ -264,10 +264,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_indices,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r,
                     bool zero_dxyz,
                     bool zero_H1_adj) {
                 self.reverse_Phi1(
@@ -284,7 +284,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A1) {
                 const int num_nodes = A1.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1, A1, num_nodes, self.num_lm, self.num_channels);
             })
@@ -292,7 +292,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A1_adj) {
                 const int num_nodes = A1_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1_adj, A1_adj, num_nodes, self.num_lm, self.num_channels);
             })
@@ -307,10 +307,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -321,11 +321,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -339,7 +339,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M1) {
                 const int num_nodes = M1.size()/(self.num_channels);
                 set_kokkos_view(self.M1, M1, num_nodes, self.num_channels);
             })
@@ -347,14 +347,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M1_adj) {
                 const int num_nodes = M1_adj.size()/(self.num_channels);
                 set_kokkos_view(self.M1_adj, M1_adj, num_nodes, self.num_channels);
             })
         .def("compute_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.compute_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -362,7 +362,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.reverse_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -372,7 +372,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> H2) {
                 const int num_nodes = H2.size()/self.num_channels;
                 set_kokkos_view(self.H2, H2, num_nodes, self.num_channels);
             })
@@ -380,14 +380,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> H2_adj) {
                 const int num_nodes = H2_adj.size()/self.num_channels;
                 set_kokkos_view(self.H2_adj, H2_adj, num_nodes, self.num_channels);
             })
         .def("compute_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.compute_H2(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -395,7 +395,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
+                    contiguous_array<int> node_types,
                     bool zero_H1_adj) {
                 self.reverse_H2(
                     num_nodes,
@@ -406,7 +406,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_readouts",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 return self.compute_readouts(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
diff --git a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
index ab299ad..8ffbe22 100644
--- a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
+++ b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
@@ -15,7 +15,7 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
         .def(py::init<std::vector<int>,std::vector<std::vector<double>>,double>())
         .def("evaluate",
             [](MultilayerPerceptronKokkos& self,
-                    py::array_t<double> x,
+                    contiguous_array<double> x,
                     py::array_t<double> f) {
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
@@ -32,7 +32,7 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
             })
         .def("evaluate_gradient",
             [](MultilayerPerceptronKokkos& self,
-                    py::array_t<double> x,
+                    contiguous_array<double> x,
                     py::array_t<double> f,
                     py::array_t<double> g) {
                 auto h_x = Kokkos::View<const double**,
diff --git a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
index dc8ff8d..4252907 100644
--- a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
+++ b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
@@ -15,17 +15,17 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
         .def(py::init<int,std::vector<double>,std::vector<std::vector<int>>>())
         .def("evaluate",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x) {
+                contiguous_array<const double> x) {
                     return self.evaluate(create_kokkos_view("x", x));
                 })
         .def("evaluate_simple",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x) {
+                contiguous_array<const double> x) {
                     return self.evaluate_simple(create_kokkos_view("x", x));
                 })
         .def("evaluate_gradient",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x,
+                contiguous_array<const double> x,
                 py::array_t<double> g) {
                     Kokkos::View<double*> g_view("g", g.size());
                     set_kokkos_view(g_view, g);
@@ -37,7 +37,7 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
                 })
         .def("evaluate_gradient_simple",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x,
+                contiguous_array<const double> x,
                 py::array_t<double> g) {
                     Kokkos::View<double*> g_view("g", g.size());
                     set_kokkos_view(g_view, g);
diff --git a/symmetrix/source/cpp/utilities_kokkos.hpp b/symmetrix/source/cpp/utilities_kokkos.hpp
index ada4de5..275aee6 100644
--- a/symmetrix/source/cpp/utilities_kokkos.hpp
+++ b/symmetrix/source/cpp/utilities_kokkos.hpp
@@ -11,10 +11,14 @@
 
 namespace py = pybind11;
 
+// row-major contiguous input of the right type, converted if necessary
+template <typename T>
+using contiguous_array = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 template<typename T>
 Kokkos::View<const T*> create_kokkos_view(
     std::string label,
-    py::array_t<T> array)
+    contiguous_array<T> array)
 {
     return create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -25,7 +29,7 @@ Kokkos::View<const T*> create_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T*>& view,
-    py::array_t<T> array)
+    contiguous_array<T> array)
 {
     auto d_array = Kokkos::create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -40,7 +44,7 @@ void set_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T**,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    contiguous_array<T> array,
     const int N0,
     const int N1)
 {
@@ -58,7 +62,7 @@ void set_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T***,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    contiguous_array<T> array,
     const int N0,
     const int N1,
     const int N2)
-- 
2.43.0


From 585db64b576852a8be525ae61c79149afb1ae77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 12/30] fix: refuse output arrays that cannot receive the
 results instead of losing them

---
 symmetrix/source/cpp/cubic_spline_set.cpp     | 18 ++++++++++++++----
 .../source/cpp/cubic_spline_set_kokkos.cpp    | 18 ++++++++++++++----
 .../cpp/multilayer_perceptron_kokkos.cpp      | 19 ++++++++++++++-----
 .../cpp/multivariate_polynomial_kokkos.cpp    | 18 ++++++++++++++----
 4 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/symmetrix/source/cpp/cubic_spline_set.cpp b/symmetrix/source/cpp/cubic_spline_set.cpp
index 226a35b..7bf8e3b 100644
--- a/symmetrix/source/cpp/cubic_spline_set.cpp
+++ b/symmetrix/source/cpp/cubic_spline_set.cpp
@@ -1,3 +1,5 @@
+#include <stdexcept>
+
 #include <pybind11/pybind11.h>
 #include <pybind11/complex.h>
 #include <pybind11/numpy.h>
@@ -11,15 +13,23 @@ void bind_cubic_spline_set(py::module_ &m)
 {
     py::class_<CubicSplineSet>(m, "CubicSplineSet")
         .def(py::init<double,std::vector<std::vector<double>>,std::vector<std::vector<double>>>())
+        // results are written to the caller's arrays, so these must be
+        // usable as they are (no conversion) and long enough
         .def("evaluate",
-            [](CubicSplineSet& self, double r, py::array_t<double> values_numpy) {
+            [](CubicSplineSet& self, double r, py::array_t<double,py::array::c_style> values_numpy) {
+                if (values_numpy.size() < self.num_splines)
+                    throw std::invalid_argument("Output array is too short.");
                 auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                 self.evaluate(r, values);
-            })
+            },
+            py::arg(), py::arg().noconvert())
         .def("evaluate_derivs",
-            [](CubicSplineSet& self, double r, py::array_t<double> values_numpy, py::array_t<double> derivs_numpy) {
+            [](CubicSplineSet& self, double r, py::array_t<double,py::array::c_style> values_numpy, py::array_t<double,py::array::c_style> derivs_numpy) {
+               if (values_numpy.size() < self.num_splines or derivs_numpy.size() < self.num_splines)
+                   throw std::invalid_argument("Output array is too short.");
                auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                auto derivs = std::span<double>(derivs_numpy.mutable_data(), derivs_numpy.size());
                self.evaluate_derivs(r, values, derivs);
-            });
+            },
+            py::arg(), py::arg().noconvert(), py::arg().noconvert());
 }
diff --git a/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp b/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
index cbd22f3..ccfe62d 100644
--- a/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
+++ b/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
@@ -1,3 +1,5 @@
+#include <stdexcept>
+
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
@@ -10,15 +12,23 @@ void bind_cubic_spline_set_kokkos(py::module_ &m)
 {
     py::class_<CubicSplineSetKokkos>(m, "CubicSplineSetKokkos")
         .def(py::init<double,std::vector<std::vector<double>>,std::vector<std::vector<double>>>())
+        // results are written to the caller's arrays, so these must be
+        // usable as they are (no conversion) and long enough
         .def("evaluate",
-            [](CubicSplineSetKokkos& self, double r, py::array_t<double> values_numpy) {
+            [](CubicSplineSetKokkos& self, double r, py::array_t<double,py::array::c_style> values_numpy) {
+                if (values_numpy.size() < self.num_splines)
+                    throw std::invalid_argument("Output array is too short.");
                 auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                 self.evaluate(r, values);
-            })
+            },
+            py::arg(), py::arg().noconvert())
         .def("evaluate_derivs",
-            [](CubicSplineSetKokkos& self, double r, py::array_t<double> values_numpy, py::array_t<double> derivs_numpy) {
+            [](CubicSplineSetKokkos& self, double r, py::array_t<double,py::array::c_style> values_numpy, py::array_t<double,py::array::c_style> derivs_numpy) {
+               if (values_numpy.size() < self.num_splines or derivs_numpy.size() < self.num_splines)
+                   throw std::invalid_argument("Output array is too short.");
                auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                auto derivs = std::span<double>(derivs_numpy.mutable_data(), derivs_numpy.size());
                self.evaluate_derivs(r, values, derivs);
-            });
+            },
+            py::arg(), py::arg().noconvert(), py::arg().noconvert());
 }
diff --git a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
index 8ffbe22..d322fb7 100644
--- a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
+++ b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
@@ -1,3 +1,5 @@
+#include <stdexcept>
+
 #include <pybind11/pybind11.h>
 #include <pybind11/complex.h>
 #include <pybind11/numpy.h>
@@ -16,7 +18,9 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
         .def("evaluate",
             [](MultilayerPerceptronKokkos& self,
                     contiguous_array<double> x,
-                    py::array_t<double> f) {
+                    contiguous_array<double> f) {
+                if (f.shape(0) < x.shape(0))
+                    throw std::invalid_argument("Output array is too short.");
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
@@ -29,12 +33,16 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
                 auto d_f = Kokkos::create_mirror_view_and_copy(Kokkos::DefaultExecutionSpace(), h_f);
                 self.evaluate(d_x, d_f);
                 Kokkos::deep_copy(h_f, d_f);
-            })
+            },
+            // results are written to the caller's arrays, so these must be usable as they are
+            py::arg(), py::arg().noconvert())
         .def("evaluate_gradient",
             [](MultilayerPerceptronKokkos& self,
                     contiguous_array<double> x,
-                    py::array_t<double> f,
-                    py::array_t<double> g) {
+                    contiguous_array<double> f,
+                    contiguous_array<double> g) {
+                if (f.shape(0) < x.shape(0) or g.shape(0) < x.shape(0) or g.shape(1) < x.shape(1))
+                    throw std::invalid_argument("Output array is too short.");
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
@@ -53,6 +61,7 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
                 self.evaluate_gradient(d_x, d_f, d_g);
                 Kokkos::deep_copy(h_f, d_f);
                 Kokkos::deep_copy(h_g, d_g);
-            })
+            },
+            py::arg(), py::arg().noconvert(), py::arg().noconvert())
         ;
 }
diff --git a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
index 4252907..fdcb3cd 100644
--- a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
+++ b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
@@ -1,3 +1,5 @@
+#include <stdexcept>
+
 #include <pybind11/pybind11.h>
 #include <pybind11/complex.h>
 #include <pybind11/numpy.h>
@@ -26,7 +28,9 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
         .def("evaluate_gradient",
             [] (MultivariatePolynomialKokkos& self,
                 contiguous_array<const double> x,
-                py::array_t<double> g) {
+                contiguous_array<double> g) {
+                    if (g.size() < self.num_variables)
+                        throw std::invalid_argument("Output array is too short.");
                     Kokkos::View<double*> g_view("g", g.size());
                     set_kokkos_view(g_view, g);
                     auto f = self.evaluate_gradient(create_kokkos_view("x", x), g_view);
@@ -34,11 +38,15 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
                     for (int i=0; i<g.size(); ++i)
                         g.mutable_data()[i] = g_vector[i];
                     return f;
-                })
+                },
+            // results are written to the caller's array, so it must be usable as it is
+            py::arg(), py::arg().noconvert())
         .def("evaluate_gradient_simple",
             [] (MultivariatePolynomialKokkos& self,
                 contiguous_array<const double> x,
-                py::array_t<double> g) {
+                contiguous_array<double> g) {
+                    if (g.size() < self.num_variables)
+                        throw std::invalid_argument("Output array is too short.");
                     Kokkos::View<double*> g_view("g", g.size());
                     set_kokkos_view(g_view, g);
                     auto f = self.evaluate_gradient_simple(create_kokkos_view("x", x), g_view);
@@ -46,6 +54,8 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
                     for (int i=0; i<g.size(); ++i)
                         g.mutable_data()[i] = g_vector[i];
                     return f;
-                })
+                },
+            // results are written to the caller's array, so it must be usable as it is
+            py::arg(), py::arg().noconvert())
         ;
 }
-- 
2.43.0


From a7897084bc1353fbfae771d60dcbe06996221b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:17 +0000
Subject: [PATCH 13/30] fix: keep the Kokkos first-layer radial lookup inside
 its coefficient table

---
 libsymmetrix/source/mace_kokkos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 80ba9bd..81eb365 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -139,6 +139,7 @@ void MACEKokkos<Precision>::compute_R0(
     const auto num_types = atomic_numbers.size();
     const auto h = R0_spline_h;
     const auto c = R0_spline_coefficients;
+    const int num_intervals = c.extent(1);
     auto R0 = this->R0;
     auto R0_deriv = this->R0_deriv;
 
@@ -151,7 +152,7 @@ void MACEKokkos<Precision>::compute_R0(
             const int type_j = neigh_types(ij);
             const int type_ij = type_i*num_types+type_j;
             // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h); // TODO: bounds checking?
+            const int n = Kokkos::min(static_cast<int>(r(ij)/h), num_intervals-1);
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
-- 
2.43.0


From 0b2768e1638afed518f506139bf6482628f2fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:17 +0000
Subject: [PATCH 14/30] fix: let the Kokkos evaluator handle structures without
 neighbors, as the serial one does

---
 libsymmetrix/source/mace_kokkos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 81eb365..d6d9367 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -192,6 +192,8 @@ void MACEKokkos<Precision>::compute_R1(
 template <typename Precision>
 void MACEKokkos<Precision>::compute_Y(Kokkos::View<const double*> xyz) {
 
+    if (xyz.size() == 0) return;
+
 #ifndef SYMMETRIX_SPHERICART_CUDA
 
     const int num = xyz.extent(0) / 3;
-- 
2.43.0


From 52d9e60a9710c22e6b7f77867409114f05a8446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:17 +0000
Subject: [PATCH 15/30] fix: accumulate the simple Kokkos polynomial gradient
 atomically

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f587a28..7973528 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -121,7 +121,7 @@ double MultivariatePolynomialKokkos::evaluate_gradient_simple(
                     if (j == k) continue;
                     monomial_deriv *= x(monomials(i,k));
                 }
-                g(monomials(i,j)) += coefficients(i) * monomial_deriv;
+                Kokkos::atomic_add(&g(monomials(i,j)), coefficients(i) * monomial_deriv);
             }
         });
     return f;
-- 
2.43.0


From 45e7b5a0eaab7a638b0ca6475bccd33a653a3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:17 +0000
Subject: [PATCH 16/30] fix: size the Kokkos monomial tables for the model's
 correlation order

---
 libsymmetrix/source/mace_kokkos.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index d6d9367..314deb0 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 #include <numbers>
 
@@ -1670,9 +1671,12 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 for (int w=0; w<M0_monomials_file[std::to_string(LM)].size(); ++w)
                     h_M0_weights_LM(a,k,w) = M0_weights_file[std::to_string(a)][std::to_string(LM)][std::to_string(k)][w];
         Kokkos::deep_copy(M0_weights(LM), h_M0_weights_LM);
+        std::size_t max_degree = 0;
+        for (auto& monomial : M0_monomials_file[std::to_string(LM)])
+            max_degree = std::max(max_degree, monomial.size());
         M0_monomials(LM) = Kokkos::View<int**,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_monomials_") + std::to_string(LM), Kokkos::WithoutInitializing),
-            M0_monomials_file[std::to_string(LM)].size(), 3);// TODO: hardcoded 3
+            M0_monomials_file[std::to_string(LM)].size(), max_degree);
         auto h_M0_monomials_LM = Kokkos::create_mirror_view(M0_monomials(LM));
         Kokkos::deep_copy(h_M0_monomials_LM, -1);
         for (int i=0; i<M0_monomials_file[std::to_string(LM)].size(); ++i) {
@@ -1828,7 +1832,10 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 h_M1_weights(a,k,w) = M1_weights[std::to_string(a)][std::to_string(k)][w];
     Kokkos::deep_copy(this->M1_weights, h_M1_weights);
     auto M1_monomials = file["M1_monomials"].get<std::vector<std::vector<int>>>();
-    Kokkos::resize(this->M1_monomials, num_terms, 3);// TODO: hardcoded 3
+    std::size_t max_degree = 0;
+    for (auto& monomial : M1_monomials)
+        max_degree = std::max(max_degree, monomial.size());
+    Kokkos::resize(this->M1_monomials, num_terms, max_degree);
     auto h_M1_monomials = Kokkos::create_mirror_view(this->M1_monomials);
     Kokkos::deep_copy(h_M1_monomials, -1);
     for (int i=0; i<num_terms; ++i)
-- 
2.43.0


From 91e48d665261cd5b01a01d324d6449d88976a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:02 +0000
Subject: [PATCH 17/30] fix: copy the Kokkos spline's coefficients to the host
 before reading them there

---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index ea86d2a..5065ff6 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -35,7 +35,7 @@ double CubicSplineKokkos::evaluate(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
     
     double ret = 0;
     const double c0 = h_c(i4);
@@ -59,7 +59,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4 + 1);
@@ -84,7 +84,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
     const double xxx = xx*x;
     const int i4 = 4*i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4+1);
-- 
2.43.0


From c8ac80e1a6100e2352ff76d7cde7f51d53ff6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:02 +0000
Subject: [PATCH 18/30] fix: run the Kokkos polynomial's passes where its node
 data live

---
 .../source/multivariate_polynomial_kokkos.cpp | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index 7973528..a15fff8 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -141,11 +141,16 @@ void MultivariatePolynomialKokkos::initialize_forward_pass(
 void MultivariatePolynomialKokkos::forward_pass()
 {
     // TODO: parallelize
-    for (int i=0; i<edges.extent(0); ++i) {
-        const int i0 = edges(i,0);
-        const int i1 = edges(i,1);
-        node_values(num_variables+i) = node_values(i0)*node_values(i1);
-    }
+    Kokkos::parallel_for(
+        "MultivariatePolynomialKokkos::forward_pass",
+        1,
+        KOKKOS_CLASS_LAMBDA (const int) {
+            for (int i=0; i<edges.extent(0); ++i) {
+                const int i0 = edges(i,0);
+                const int i1 = edges(i,1);
+                node_values(num_variables+i) = node_values(i0)*node_values(i1);
+            }
+        });
 }
 
 void MultivariatePolynomialKokkos::initialize_backward_pass()
@@ -160,12 +165,17 @@ void MultivariatePolynomialKokkos::initialize_backward_pass()
 
 void MultivariatePolynomialKokkos::backward_pass()
 {
-    for (int i=edges.extent(0)-1; i>=0; --i) {
-        const int i0 = edges(i,0);
-        const int i1 = edges(i,1);
-        node_adjoints(i0) += node_adjoints(num_variables+i)*node_values(i1);
-        node_adjoints(i1) += node_adjoints(num_variables+i)*node_values(i0);
-    }
+    Kokkos::parallel_for(
+        "MultivariatePolynomialKokkos::backward_pass",
+        1,
+        KOKKOS_CLASS_LAMBDA (const int) {
+            for (int i=edges.extent(0)-1; i>=0; --i) {
+                const int i0 = edges(i,0);
+                const int i1 = edges(i,1);
+                node_adjoints(i0) += node_adjoints(num_variables+i)*node_values(i1);
+                node_adjoints(i1) += node_adjoints(num_variables+i)*node_values(i0);
+            }
+        });
 }
 
 void MultivariatePolynomialKokkos::extract_gradient_from_graph(
-- 
2.43.0


From baf4de6b7e4d0ea9eaff87ba227cc3279e59534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:02 +0000
Subject: [PATCH 19/30] fix: evaluate the Kokkos perceptron where its weights
 and node data live

---
 .../source/multilayer_perceptron_kokkos.cpp   | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/libsymmetrix/source/multilayer_perceptron_kokkos.cpp b/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
index c9c1677..a68559b 100644
--- a/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
+++ b/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
@@ -62,23 +62,27 @@ void MultilayerPerceptronKokkos::evaluate(
 
     Kokkos::deep_copy(node_values(0), x);
 
-    for (int i=0; i<batch_size; ++i) {
-        for (int l=0; l<shape.size()-1; ++l) {
-            auto in = Kokkos::subview(node_values(l), i, Kokkos::ALL);
-            auto out = Kokkos::subview(node_values(l+1), i, Kokkos::ALL);
-            KokkosBlas::SerialGemv<KokkosBatched::Trans::NoTranspose,
-                                   KokkosBatched::Algo::Gemv::Unblocked>
-                ::invoke(1.0, weights(l), in, 0.0, out);
-            if (l==shape.size()-2)
-                break;  // no activation in final layer
-            Kokkos::parallel_for(
-                "MultilayerPerceptronKokkos::evaluate::activation",
-                shape(l+1),
-                KOKKOS_CLASS_LAMBDA (const int j) {
+    auto activation_scale = this->activation_scale;
+    auto node_values = this->node_values;
+    auto shape = this->shape;
+    auto weights = this->weights;
+
+    Kokkos::parallel_for(
+        "MultilayerPerceptronKokkos::evaluate",
+        batch_size,
+        KOKKOS_LAMBDA (const int i) {
+            for (int l=0; l<shape.size()-1; ++l) {
+                auto in = Kokkos::subview(node_values(l), i, Kokkos::ALL);
+                auto out = Kokkos::subview(node_values(l+1), i, Kokkos::ALL);
+                KokkosBlas::SerialGemv<KokkosBatched::Trans::NoTranspose,
+                                       KokkosBatched::Algo::Gemv::Unblocked>
+                    ::invoke(1.0, weights(l), in, 0.0, out);
+                if (l==shape.size()-2)
+                    break;  // no activation in final layer
+                for (int j=0; j<shape(l+1); ++j)
                     out(j) = activation_scale*out(j)/(1.0+Kokkos::exp(-out(j)));
-                });
-        }
-    }
+            }
+        });
 
     Kokkos::fence();
     Kokkos::deep_copy(f, Kokkos::subview(node_values(shape.size()-1), Kokkos::ALL, 0));
-- 
2.43.0


From a3bf7f98a8c9531fadd516a584f5dce4472111e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:28 +0000
Subject: [PATCH 20/30] fix: pad the Kokkos polynomial's tables on the host
 copy that is uploaded

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index a15fff8..51025fd 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -19,8 +19,8 @@ MultivariatePolynomialKokkos::MultivariatePolynomialKokkos(
         if (m.size() > max_monomial_size)
             max_monomial_size = m.size();
     Kokkos::realloc(this->monomials, monomials.size(), max_monomial_size);
-    Kokkos::deep_copy(this->monomials, -1);
     auto h_monomials = Kokkos::create_mirror_view(this->monomials);
+    Kokkos::deep_copy(h_monomials, -1);
     for (int i=0; i<monomials.size(); ++i) {
         for (int j=0; j<monomials[i].size(); ++j) {
             h_monomials(i,j) = monomials[i][j];
@@ -32,8 +32,8 @@ MultivariatePolynomialKokkos::MultivariatePolynomialKokkos(
     MultivariatePolynomial mp(num_variables, coefficients, monomials);
     num_auxiliary_nodes = mp.num_auxiliary_nodes;
     nodes = Kokkos::View<int**,Kokkos::LayoutRight>("nodes", mp.nodes.size(), max_monomial_size);
-    Kokkos::deep_copy(nodes, -1);
     auto h_nodes = Kokkos::create_mirror_view(nodes);
+    Kokkos::deep_copy(h_nodes, -1);
     for (int i=0; i<mp.nodes.size(); ++i)
         for (int j=0; j<mp.nodes[i].size(); ++j)
             h_nodes(i,j) = mp.nodes[i][j];
-- 
2.43.0


From 851bf74b2c32d0afd967b675b5d46d8a25826e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:39 +0000
Subject: [PATCH 21/30] fix: pair_coeff checks that there is a model file and
 one element per atom type

'pair_coeff * *' read past the end of the argument list, and a missing element
left mace_types shorter than the number of types, so that compute() indexed it
out of bounds.
---
 pair_symmetrix/pair_symmetrix_mace.cpp        | 3 +++
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index f16cf66..2306875 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -116,6 +116,9 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg != 3 + atom->ntypes)
+    error->all(FLERR, "Pair coeff for symmetrix/mace requires a model file and one element per atom type");
+
   utils::logmesg(lmp, "Loading MACE model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACE>(arg[2]);
   utils::logmesg(lmp, "success\n");
diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index ae555e1..c565c01 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -133,6 +133,9 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg != 3 + atom->ntypes)
+    error->all(FLERR, "Pair coeff for symmetrix/mace/kk requires a model file and one element per atom type");
+
   utils::logmesg(lmp, "Loading MACEKokkos model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACEKokkos<Precision>>(arg[2]);
   utils::logmesg(lmp, "success\n");
-- 
2.43.0


From 8fd27268e1b5b2f9a94ca033b124196b539edb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:39 +0000
Subject: [PATCH 22/30] fix: symmetrix/mace/kk pair_coeff maps every atom type
 and rejects elements the model lacks

mace_types was sized by the number of elements in the model, so more atom types
than elements wrote out of bounds, and an element absent from the model was
stored as index -1.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index c565c01..7a49b96 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -141,7 +141,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   utils::logmesg(lmp, "success\n");
 
   // extract atomic numbers from pair_coeff
-  mace_types = Kokkos::View<int*>("mace_types", mace->atomic_numbers.size());
+  mace_types = Kokkos::View<int*>("mace_types", atom->ntypes);
   auto h_mace_types = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace_types);
   auto h_mace_atomic_numbers = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace->atomic_numbers);
   for (int i=3; i<narg; ++i) {
@@ -155,6 +155,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
     for (int j=0; j<mace->atomic_numbers.size(); ++j)
         if (h_mace_atomic_numbers(j) == atomic_number)
             mace_index = j;
+    if (mace_index == -1)
+      error->all(FLERR, "Problem matching LAMMPS types to MACE types.");
     utils::logmesg(lmp, "  mapping LAMMPS type {} ({}) to MACEKokkos type {}\n",
                    i-2, arg[i], mace_index);
     h_mace_types(i-3) = mace_index;
-- 
2.43.0


From 138833b50109b573a77d32fc85ac71196232a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:55 +0000
Subject: [PATCH 23/30] fix: symmetrix/mace/kk per-atom energies start from
 zero and reach the host array

ev_init() is called with alloc=0, so nobody zeroed k_eatom and the energies of
successive steps added up; and eatom, which LAMMPS reads, is the host side of
k_eatom, which was never synchronised.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 7a49b96..c05d871 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -380,7 +380,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -512,6 +512,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -596,7 +597,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -778,6 +779,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -863,7 +865,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -1106,6 +1108,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
-- 
2.43.0


From 64f9e932432bfcb0ceeb2471c0124f2348bf3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:55 +0000
Subject: [PATCH 24/30] fix: symmetrix/mace/kk host unpacking keeps the entries
 it does not receive

With separate device memory create_mirror_view() gives an uninitialised copy,
and copying it back overwrote the messages of all other atoms.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index c05d871..1ffa0fa 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -266,7 +266,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_forward_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_forward_comm(int n, int first, double *buf)
 {
-  auto h_H1 = Kokkos::create_mirror_view(H1);
+  auto h_H1 = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1);
   for (int i=0; i<n; ++i) {
     for (int LM=0; LM<mace->num_LM; ++LM) {
       for (int k=0; k<mace->num_channels; ++k) {
@@ -338,7 +338,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_reverse_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_reverse_comm(int n, int *list, double *buf)
 {
-  auto h_H1_adj = Kokkos::create_mirror_view(H1_adj);
+  auto h_H1_adj = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1_adj);
   for (int ii=0; ii<n; ++ii) {
     const int i = list[ii];
     for (int LM=0; LM<mace->num_LM; ++LM) {
-- 
2.43.0


From e08dd7d1117f8ccb927def7351891b98832b34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:19 +0000
Subject: [PATCH 25/30] fix: evaluate the Python-visible Kokkos ZBL potential
 where its tables live

---
 libsymmetrix/source/zbl_kokkos.cpp  | 22 ++++++++++++++++++++++
 libsymmetrix/source/zbl_kokkos.hpp  |  4 ++++
 symmetrix/source/cpp/zbl_kokkos.cpp |  4 ++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/zbl_kokkos.cpp b/libsymmetrix/source/zbl_kokkos.cpp
index 6153c2f..c3ed047 100644
--- a/libsymmetrix/source/zbl_kokkos.cpp
+++ b/libsymmetrix/source/zbl_kokkos.cpp
@@ -75,6 +75,28 @@ double ZBLKokkos::compute_gradient(const int Z_u, const int Z_v, const double r)
     return d_V_ZBL__d_r;
 }
 
+double ZBLKokkos::compute_from_host(const int Z_u, const int Z_v, const double r) const
+{
+    double v = 0.0;
+    Kokkos::parallel_reduce("ZBLKokkos::compute_from_host",
+        1,
+        KOKKOS_CLASS_LAMBDA (const int, double& sum) {
+            sum += compute(Z_u, Z_v, r);
+        }, v);
+    return v;
+}
+
+double ZBLKokkos::compute_gradient_from_host(const int Z_u, const int Z_v, const double r) const
+{
+    double g = 0.0;
+    Kokkos::parallel_reduce("ZBLKokkos::compute_gradient_from_host",
+        1,
+        KOKKOS_CLASS_LAMBDA (const int, double& sum) {
+            sum += compute_gradient(Z_u, Z_v, r);
+        }, g);
+    return g;
+}
+
 KOKKOS_FUNCTION
 double ZBLKokkos::compute_envelope(const double r, const double r_max, const int p) const
 {
diff --git a/libsymmetrix/source/zbl_kokkos.hpp b/libsymmetrix/source/zbl_kokkos.hpp
index 46af555..35c1371 100644
--- a/libsymmetrix/source/zbl_kokkos.hpp
+++ b/libsymmetrix/source/zbl_kokkos.hpp
@@ -22,6 +22,10 @@ double compute(const int Z_u, const int Z_v, const double r) const;
 KOKKOS_FUNCTION
 double compute_gradient(const int Z_u, const int Z_v, const double r) const;
 
+// the same for callers on the host, which cannot read the device tables
+double compute_from_host(const int Z_u, const int Z_v, const double r) const;
+double compute_gradient_from_host(const int Z_u, const int Z_v, const double r) const;
+
 KOKKOS_FUNCTION
 double compute_envelope(const double r, const double r_max, const int p) const;
 
diff --git a/symmetrix/source/cpp/zbl_kokkos.cpp b/symmetrix/source/cpp/zbl_kokkos.cpp
index a4dadfd..b53092d 100644
--- a/symmetrix/source/cpp/zbl_kokkos.cpp
+++ b/symmetrix/source/cpp/zbl_kokkos.cpp
@@ -9,8 +9,8 @@ void bind_zbl_kokkos(py::module_ &m)
 {
     py::class_<ZBLKokkos>(m, "ZBLKokkos")
         .def(py::init<double,double,std::vector<double>,std::vector<double>,int>())
-        .def("compute", &ZBLKokkos::compute)
-        .def("compute_gradient", &ZBLKokkos::compute_gradient)
+        .def("compute", &ZBLKokkos::compute_from_host)
+        .def("compute_gradient", &ZBLKokkos::compute_gradient_from_host)
         .def("compute_envelope", &ZBLKokkos::compute_envelope)
         .def("compute_envelope_gradient", &ZBLKokkos::compute_envelope_gradient);
 }
-- 
2.43.0


From 82b95d432f86028f8a8ac82913c917d0ce9f9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 26/30] fix: keep the caller's values past the last spline in
 the Kokkos derivative array

---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 11f2045..3d163b9 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -247,7 +247,7 @@ void CubicSplineSetKokkos::evaluate_derivs(
 
     // copy to device side view
     Kokkos::deep_copy(test_view_values,h_test_view_values);
-    Kokkos::deep_copy(test_view_values,h_test_view_values);
+    Kokkos::deep_copy(test_view_derivs,h_test_view_derivs);
 
     evaluate_derivs(
         r,
-- 
2.43.0


From 61a48fc28f28cb9a6095a0c8eca7a78bea8b11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:31 +0000
Subject: [PATCH 27/30] fix: let install.sh be called from any directory

---
 pair_symmetrix/install.sh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pair_symmetrix/install.sh b/pair_symmetrix/install.sh
index c6f1a45..ef7a607 100755
--- a/pair_symmetrix/install.sh
+++ b/pair_symmetrix/install.sh
@@ -11,16 +11,19 @@ fi
 
 lammps=$1
 
+# directory of this script, wherever it is called from
+here=$(cd "$(dirname "$0")" && pwd)
+
 # add new lammps source files
-ln -sf $(pwd)/pair_symmetrix_mace.h ${lammps}/src/pair_symmetrix_mace.h
-ln -sf $(pwd)/pair_symmetrix_mace.cpp ${lammps}/src/pair_symmetrix_mace.cpp
-ln -sf $(pwd)/pair_symmetrix_mace_kokkos.h ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h
-ln -sf $(pwd)/pair_symmetrix_mace_kokkos.cpp ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp
+ln -sf ${here}/pair_symmetrix_mace.h ${lammps}/src/pair_symmetrix_mace.h
+ln -sf ${here}/pair_symmetrix_mace.cpp ${lammps}/src/pair_symmetrix_mace.cpp
+ln -sf ${here}/pair_symmetrix_mace_kokkos.h ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h
+ln -sf ${here}/pair_symmetrix_mace_kokkos.cpp ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp
 
 # update lammps build instructions
 echo "
-add_subdirectory($(pwd)/../libsymmetrix libsymmetrix)
-target_include_directories(lammps PRIVATE $(pwd)/../libsymmetrix/source)
+add_subdirectory(${here}/../libsymmetrix libsymmetrix)
+target_include_directories(lammps PRIVATE ${here}/../libsymmetrix/source)
 target_link_libraries(lammps PRIVATE symmetrix)
 install(TARGETS symmetrix EXPORT LAMMPS_Targets)
 " >> $lammps/cmake/CMakeLists.txt
-- 
2.43.0


From aa23f81e1da199e9ca753c2e10672fa36a3d4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:31 +0000
Subject: [PATCH 28/30] fix: do not repeat the build instructions when
 install.sh is run again

---
 pair_symmetrix/install.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pair_symmetrix/install.sh b/pair_symmetrix/install.sh
index ef7a607..6aec6e9 100755
--- a/pair_symmetrix/install.sh
+++ b/pair_symmetrix/install.sh
@@ -20,10 +20,12 @@ ln -sf ${here}/pair_symmetrix_mace.cpp ${lammps}/src/pair_symmetrix_mace.cpp
 ln -sf ${here}/pair_symmetrix_mace_kokkos.h ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h
 ln -sf ${here}/pair_symmetrix_mace_kokkos.cpp ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp
 
-# update lammps build instructions
+# update lammps build instructions, once
+if ! grep -qsF "add_subdirectory(${here}/../libsymmetrix libsymmetrix)" $lammps/cmake/CMakeLists.txt; then
 echo "
 add_subdirectory(${here}/../libsymmetrix libsymmetrix)
 target_include_directories(lammps PRIVATE ${here}/../libsymmetrix/source)
 target_link_libraries(lammps PRIVATE symmetrix)
 install(TARGETS symmetrix EXPORT LAMMPS_Targets)
 " >> $lammps/cmake/CMakeLists.txt
+fi
-- 
2.43.0


From 12662b7aae176872b626eeb13947a0f26df20117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:31 +0000
Subject: [PATCH 29/30] fix: let install.sh handle paths with spaces

---
 pair_symmetrix/install.sh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pair_symmetrix/install.sh b/pair_symmetrix/install.sh
index 6aec6e9..0a3980a 100755
--- a/pair_symmetrix/install.sh
+++ b/pair_symmetrix/install.sh
@@ -15,17 +15,17 @@ lammps=$1
 here=$(cd "$(dirname "$0")" && pwd)
 
 # add new lammps source files
-ln -sf ${here}/pair_symmetrix_mace.h ${lammps}/src/pair_symmetrix_mace.h
-ln -sf ${here}/pair_symmetrix_mace.cpp ${lammps}/src/pair_symmetrix_mace.cpp
-ln -sf ${here}/pair_symmetrix_mace_kokkos.h ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h
-ln -sf ${here}/pair_symmetrix_mace_kokkos.cpp ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp
+ln -sf "${here}/pair_symmetrix_mace.h" "${lammps}/src/pair_symmetrix_mace.h"
+ln -sf "${here}/pair_symmetrix_mace.cpp" "${lammps}/src/pair_symmetrix_mace.cpp"
+ln -sf "${here}/pair_symmetrix_mace_kokkos.h" "${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h"
+ln -sf "${here}/pair_symmetrix_mace_kokkos.cpp" "${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp"
 
 # update lammps build instructions, once
-if ! grep -qsF "add_subdirectory(${here}/../libsymmetrix libsymmetrix)" $lammps/cmake/CMakeLists.txt; then
+if ! grep -qsF "add_subdirectory(\"${here}/../libsymmetrix\" libsymmetrix)" "$lammps/cmake/CMakeLists.txt"; then
 echo "
-add_subdirectory(${here}/../libsymmetrix libsymmetrix)
-target_include_directories(lammps PRIVATE ${here}/../libsymmetrix/source)
+add_subdirectory(\"${here}/../libsymmetrix\" libsymmetrix)
+target_include_directories(lammps PRIVATE \"${here}/../libsymmetrix/source\")
 target_link_libraries(lammps PRIVATE symmetrix)
 install(TARGETS symmetrix EXPORT LAMMPS_Targets)
-" >> $lammps/cmake/CMakeLists.txt
+" >> "$lammps/cmake/CMakeLists.txt"
 fi
-- 
2.43.0


From d638b24b115fee31f1202046f17ffcd69efe5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:02 +0000
Subject: [PATCH 30/30] fix: install.sh works when its directory is reached
 through a symbolic link

---
 pair_symmetrix/install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pair_symmetrix/install.sh b/pair_symmetrix/install.sh
index 0a3980a..6125c29 100755
--- a/pair_symmetrix/install.sh
+++ b/pair_symmetrix/install.sh
@@ -12,7 +12,7 @@ fi
 lammps=$1
 
 # directory of this script, wherever it is called from
-here=$(cd "$(dirname "$0")" && pwd)
+here=$(cd "$(dirname "$0")" && pwd -P)
 
 # add new lammps source files
 ln -sf "${here}/pair_symmetrix_mace.h" "${lammps}/src/pair_symmetrix_mace.h"
-- 
2.43.0

