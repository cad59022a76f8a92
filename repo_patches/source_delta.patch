From 8aa1d036fdbaa308ccc06df4ca4687318fcfa57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 01/42] fix: quotient of two Matsubara frequencies multiplied
 them

---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From 162daf6462c2045f930fa99b11d995a6dc63fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 02/42] fix: lattice meshes with different extents or zones
 compared equal when their additive hash collided

---
 c++/triqs/mesh/brzone.hpp | 2 +-
 c++/triqs/mesh/cyclat.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..fececee 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return dims_ == M.dims_ && bz_ == M.bz_; }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..e9138f7 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return dims_ == M.dims_ && bl_ == M.bl_; }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
-- 
2.43.0


From 3cdfd1ec2c259384e7f56c79ff05c8517d90fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 03/42] fix: make_time_pt(beta) converted 2^64 to uint64_t
 (undefined, tau = 0 on some builds)

---
 c++/triqs/utility/time_pt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..dc30be8 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,7 +165,9 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        double r = x / beta;
+        if (r >= 1.0) return get_upper_pt(); // Nmax itself is not representable as a double
+        uint64_t n = static_cast<double>(time_pt::Nmax) * r;
         return time_pt(n, beta);
       }
     };
-- 
2.43.0


From 5c080377e07dc0bc1421eee70ed68d835530a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 04/42] fix: closest point of a single-point linear mesh
 multiplied by infinity and converted it to an index

---
 c++/triqs/mesh/bases/linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/mesh/bases/linear.hpp b/c++/triqs/mesh/bases/linear.hpp
index dc91d8e..65fb555 100644
--- a/c++/triqs/mesh/bases/linear.hpp
+++ b/c++/triqs/mesh/bases/linear.hpp
@@ -135,6 +135,7 @@ namespace triqs::mesh::details {
 
     [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const noexcept {
       EXPECTS(is_value_valid(cmp.value));
+      if (delta_x == 0) return 0; // all mesh points coincide (e.g. L == 1)
       return index_t((cmp.value - xmin) * delta_x_inv + 0.5);
     }
 
-- 
2.43.0


From 7560459e62153d0f89d5c013ebcaaa3974beb390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 05/42] fix: parity of the bits of a Fock state with more than
 16 orbitals

---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From f8b319f33a46c25a1a2d778dc2483547dd7e00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 06/42] fix: store integer indices of a
 fundamental_operator_set as long in h5 attributes

---
 c++/triqs/hilbert_space/fundamental_operator_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.cpp b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
index 69c0d05..ad2ad61 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.cpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
@@ -27,14 +27,14 @@ namespace triqs {
 
       // a little visitor for reduction to string
       struct variant_visitor {
-        std::string operator()(int i) const { return "i" + std::to_string(i); }
+        std::string operator()(long i) const { return "i" + std::to_string(i); }
         std::string operator()(std::string const &s) const { return "s" + s; }
       };
 
       // decode the string
       std::variant<long, std::string> string_to_variant(std::string const &s) {
         switch (s[0]) {
-          case 'i': return std::stoi(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
+          case 'i': return std::stol(s.c_str() + 1); // the variant is a long. Skip the first char and recover it
           case 's': return s.c_str() + 1;            // the variant is a string. Just skip the first char
           default: TRIQS_RUNTIME_ERROR << "Variant indices absent in h5 read";
         }
-- 
2.43.0


From 57256980c1451c7db71aa56ebbd802ea975c4ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 07/42] fix: Fock states of orbitals beyond the 31st

---
 c++/triqs/hilbert_space/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/hilbert_space.hpp b/c++/triqs/hilbert_space/hilbert_space.hpp
index 85e5560..3332eb8 100644
--- a/c++/triqs/hilbert_space/hilbert_space.hpp
+++ b/c++/triqs/hilbert_space/hilbert_space.hpp
@@ -107,7 +107,7 @@ namespace triqs {
  */
       fock_state_t get_fock_state(fundamental_operator_set const &fops, std::set<fundamental_operator_set::indices_t> const &indices) const {
         fock_state_t f = 0;
-        for (auto const &index : indices) f += 1 << fops[index];
+        for (auto const &index : indices) f += fock_state_t(1) << fops[index];
         return f;
       }
 
-- 
2.43.0


From da391c2fcbf1fbdfed186f51149e2c640eccbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 08/42] fix: block_matrix_from_op accepts only
 c_dag(bl,i)*c(bl,j)

---
 c++/triqs/operators/util/extractors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..c201805 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -286,8 +286,8 @@ namespace triqs::operators::utils {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices.size() == 2 and m[1].indices.size() == 2
+          and m[0].indices[0] == m[1].indices[0]) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 4d230e0e83bdc951ac01cf58931cf0947cc50efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 09/42] fix: subtraction of a many-body operator from itself

---
 c++/triqs/operators/many_body_operator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..9390b23 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -250,6 +250,10 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (&op == this) { // the loop below erases the monomials it visits
+          monomials.clear();
+          return *this;
+        }
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From 89a3413628886a302fdc28bf4fbeacb024721aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 10/42] fix: reading a many-body operator replaces its previous
 terms

---
 c++/triqs/operators/many_body_operator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 41d5ba0..c55d069 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -162,6 +162,8 @@ namespace triqs {
 
       auto r_fops = fops.data(); // the data vector v[int] -> indices inverting fops[indices] -> n
 
+      op.monomials.clear();
+
       for (auto const &mon : datavec) {
         monomial_t monomial;                                      // vector of canonical_ops_t
         for (int i : mon.op_indices) {                            // loop over the index of the C, C^ ops of the monomial
-- 
2.43.0


From 7f04ab8d04b8bb057d8b508dfcccddfc60d02af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 11/42] fix: merged subspaces stay connected one to one by all
 operators treated so far

Merging the subspaces connected by one operator can connect a subspace to several
others by the same operator (when a subspace is both a source and a target), or by
an operator treated before, as for 4 orbitals with
H = c_dag(0)*c_dag(3)*c(2)*c(1)*(1 + n(2)) + h.c. in atom_diag, which then kept only one of the connections.
---
 c++/triqs/hilbert_space/space_partition.hpp | 99 +++++++++++++--------
 1 file changed, 64 insertions(+), 35 deletions(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index b69e5ba..5f696aa 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -23,6 +23,8 @@
 #include <set>
 #include <map>
 #include <utility>
+#include <vector>
+#include <functional>
 #include <triqs/utility/numeric_ops.hpp>
 #include <boost/pending/disjoint_sets.hpp>
 
@@ -146,41 +148,14 @@ namespace triqs {
           tmp_state(i) = amplitude_t(0.);
         }
 
-        // 'Zigzag' traversal algorithm
-        while (!Cd_connections.empty()) {
-
-          // Take one C^+ - connection
-          // C^+|lower_subspace> = |upper_subspace>
-          idx_t lower_subspace, upper_subspace;
-          std::tie(lower_subspace, upper_subspace) = *std::begin(Cd_connections);
-
-          // - Reveals all subspaces reachable from lower_subspace by application of
-          //   a 'zigzag' product C^+ C C^+ C C^+ ... of any length.
-          // - Removes all visited connections from Cd_connections/C_connections.
-          // - Merges lower_subspace with all subspaces generated from lower_subspace by application of (C C^+)^(2*n).
-          // - Merges upper_subspace with all subspaces generated from upper_subspace by application of (C^+ C)^(2*n).
-          std::function<void(idx_t, bool)> zigzag_traversal = [this, lower_subspace, upper_subspace, &Cd_connections, &C_connections,
-                                                               &zigzag_traversal](idx_t i_subspace, // find all connections starting from i_subspace
-                                                                                  bool upwards      // if true, C^+ connection, otherwise C connection
-                                                              ) {
-            std::multimap<idx_t, idx_t>::iterator it;
-            while ((it = (upwards ? Cd_connections : C_connections).find(i_subspace)) != (upwards ? Cd_connections : C_connections).end()) {
-
-              auto f_subspace = it->second;
-              (upwards ? Cd_connections : C_connections).erase(it);
-
-              if (upwards)
-                subspaces.link(f_subspace, upper_subspace);
-              else
-                subspaces.link(f_subspace, lower_subspace);
-
-              // Recursively apply to all found f_subspace's with a 'flipped' direction
-              zigzag_traversal(f_subspace, !upwards);
-            }
-          };
-
-          // Apply to all C^+ connections starting from lower_subspace
-          zigzag_traversal(lower_subspace, true);
+        // The subspaces merged for one operator can connect a subspace to several others by the same operator,
+        // or by one of those treated before: repeat until all connections are one-to-one.
+        merged_connections.emplace_back(std::move(Cd_connections), std::move(C_connections));
+        for (bool merged = true; merged;) {
+          merged = false;
+          for (auto const &[Cd_conn, C_conn] : merged_connections) {
+            if (_merge_connected(_current_connections(Cd_conn), _current_connections(C_conn))) merged = true;
+          }
         }
 
         _update_index();
@@ -253,6 +228,58 @@ namespace triqs {
       }
 
       private:
+      // Connections between the current representatives of the subspaces
+      std::multimap<idx_t, idx_t> _current_connections(std::multimap<idx_t, idx_t> const &conn) {
+        block_mapping_t res; // without repetitions
+        for (auto const &[i, f] : conn) res.emplace(subspaces.find_set(i), subspaces.find_set(f));
+        return {res.begin(), res.end()};
+      }
+
+      // Merge subspaces connected by the same operator and its conjugate. Return true if some were distinct
+      bool _merge_connected(std::multimap<idx_t, idx_t> Cd_connections, std::multimap<idx_t, idx_t> C_connections) {
+        bool merged = false;
+
+        // 'Zigzag' traversal algorithm
+        while (!Cd_connections.empty()) {
+
+          // Take one C^+ - connection
+          // C^+|lower_subspace> = |upper_subspace>
+          idx_t lower_subspace, upper_subspace;
+          std::tie(lower_subspace, upper_subspace) = *std::begin(Cd_connections);
+
+          // - Reveals all subspaces reachable from lower_subspace by application of
+          //   a 'zigzag' product C^+ C C^+ C C^+ ... of any length.
+          // - Removes all visited connections from Cd_connections/C_connections.
+          // - Merges lower_subspace with all subspaces generated from lower_subspace by application of (C C^+)^(2*n).
+          // - Merges upper_subspace with all subspaces generated from upper_subspace by application of (C^+ C)^(2*n).
+          std::function<void(idx_t, bool)> zigzag_traversal = [this, lower_subspace, upper_subspace, &Cd_connections, &C_connections, &merged,
+                                                               &zigzag_traversal](idx_t i_subspace, // find all connections starting from i_subspace
+                                                                                  bool upwards      // if true, C^+ connection, otherwise C connection
+                                                              ) {
+            std::multimap<idx_t, idx_t>::iterator it;
+            while ((it = (upwards ? Cd_connections : C_connections).find(i_subspace)) != (upwards ? Cd_connections : C_connections).end()) {
+
+              auto f_subspace = it->second;
+              (upwards ? Cd_connections : C_connections).erase(it);
+
+              if (subspaces.find_set(f_subspace) != subspaces.find_set(upwards ? upper_subspace : lower_subspace)) merged = true;
+              if (upwards)
+                subspaces.link(f_subspace, upper_subspace);
+              else
+                subspaces.link(f_subspace, lower_subspace);
+
+              // Recursively apply to all found f_subspace's with a 'flipped' direction
+              zigzag_traversal(f_subspace, !upwards);
+            }
+          };
+
+          // Apply to all C^+ connections starting from lower_subspace
+          zigzag_traversal(lower_subspace, true);
+        }
+
+        return merged;
+      }
+
       void _update_index() {
         auto p = subspaces.parents();
         subspaces.compress_sets(p.begin(), p.end());  // parents are representatives
@@ -271,6 +298,8 @@ namespace triqs {
       boost::disjoint_sets_with_storage<> subspaces;
       // Matrix elements of the Hamiltonian
       matrix_element_map_t matrix_elements;
+      // Connections generated by the operators passed to merge_subspaces and their conjugates, between basis states
+      std::vector<std::pair<std::multimap<idx_t, idx_t>, std::multimap<idx_t, idx_t>>> merged_connections;
       // Map representative basis state to subspace index
       std::map<idx_t, idx_t> representative_to_index;
     };
-- 
2.43.0


From e9d7bf3469e2afc837d1c3e57497b162fc4b2651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 12/42] fix: space_partition stored the hybridization among the
 matrix elements of the Hamiltonian

---
 c++/triqs/hilbert_space/space_partition.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index 5f696aa..f41871f 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -75,6 +75,7 @@ namespace triqs {
           tmp_state(i)        = amplitude_t(1);
           state_t final_state = H(tmp_state);
 
+          bool store   = store_matrix_elements;
           auto mapping = [&](idx_t f, amplitude_t amplitude) {
             using triqs::utility::is_zero;
             if (is_zero(amplitude)) return;
@@ -82,7 +83,7 @@ namespace triqs {
             auto f_subspace = subspaces.find_set(f);
             if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
 
-            if (store_matrix_elements) matrix_elements[std::make_pair(i, f)] = amplitude;
+            if (store) matrix_elements[std::make_pair(i, f)] = amplitude;
           };
 
           // Iterate over non-zero final amplitudes
@@ -91,6 +92,7 @@ namespace triqs {
 
           // redo for additionnal Hyb
           if (not Hyb.is_empty()) {
+            store       = false; // only the matrix elements of H are stored
             final_state = Hyb(tmp_state);
             foreach (final_state, mapping)
               ;
-- 
2.43.0


From 622dd8d6f8abcf679079566aa58606152a0380a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 13/42] fix: block_matrix_from_op wrote outside the matrices
 for orbitals that are not in gf_struct

---
 c++/triqs/operators/util/extractors.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index c201805..4177c5c 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -276,23 +276,29 @@ namespace triqs::operators::utils {
       bl_mat[bl]   = nda::zeros<scalar_t>(bl_size, bl_size);
     }
 
-    auto name_to_bl = [&](auto &bl_name) {
+    // block and position of an orbital, block -1 if it is not an orbital of gf_struct
+    auto find_orbital = [&](auto const &indices) -> std::pair<long, long> {
+      if (indices.size() != 2 or not std::holds_alternative<std::string>(indices[0]) or not std::holds_alternative<long>(indices[1])) return {-1, -1};
+      auto const &bl_name = std::get<std::string>(indices[0]);
+      long idx            = std::get<long>(indices[1]);
       auto it =
          std::find_if(cbegin(gf_struct), cend(gf_struct), [&bl_name](auto const &blname_and_size) { return bl_name == blname_and_size.first; });
-      return std::distance(cbegin(gf_struct), it);
+      if (it == cend(gf_struct) or idx < 0 or idx >= it->second) return {-1, -1};
+      return {std::distance(cbegin(gf_struct), it), idx};
     };
 
     for (auto const &term : h) {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices.size() == 2 and m[1].indices.size() == 2
-          and m[0].indices[0] == m[1].indices[0]) {
-        auto bl_name = std::get<std::string>(m[0].indices[0]);
-        auto op1_idx = std::get<long>(m[0].indices[1]);
-        auto op2_idx = std::get<long>(m[1].indices[1]);
+      long bl1 = -1, bl2 = -1, op1_idx = -1, op2_idx = -1;
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger) {
+        std::tie(bl1, op1_idx) = find_orbital(m[0].indices);
+        std::tie(bl2, op2_idx) = find_orbital(m[1].indices);
+      }
 
-        bl_mat[name_to_bl(bl_name)](op1_idx, op2_idx) = coef;
+      if (bl1 >= 0 and bl1 == bl2) {
+        bl_mat[bl1](op1_idx, op2_idx) = coef;
       } else {
         if (!ignore_irrelevant) TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Operator term is not of the form 'coeff * c_dag{bl,i} * c_{bl,j}'";
         ;
-- 
2.43.0


From 37b45c108fd42e2fa8208957541d0c6b8aa57d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 14/42] fix: runs of more than 2^31 Monte Carlo cycles
 overflowed the cycle counter

---
 c++/triqs/mc_tools/mc_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..d052d34 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -252,7 +252,7 @@ namespace triqs::mc_tools {
       done_percent = 0;
       nmeasures    = 0;
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
-      int NC                = 0;
+      int64_t NC            = 0;
       double next_info_time = 0.1;
 
       std::unique_ptr<mpi::monitor> node_monitor;
-- 
2.43.0


From 6af1eab89960d667ac3ede9212a7c75db820ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 15/42] fix: runs of zero cycles left the timer running and the
 number of measures undefined

---
 c++/triqs/mc_tools/mc_generic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index d052d34..bafc996 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -245,12 +245,12 @@ namespace triqs::mc_tools {
 
       AllMoves.clear_statistics();
 
-      timer_run = {};
-      timer_run.start();
-      if (n_cycles == 0) return 0;
-      triqs::signal_handler::start();
+      timer_run    = {};
       done_percent = 0;
       nmeasures    = 0;
+      if (n_cycles == 0) return 0;
+      timer_run.start();
+      triqs::signal_handler::start();
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
       int64_t NC            = 0;
       double next_info_time = 0.1;
@@ -431,7 +431,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From 54e60de328eb6f5cabda300cf9b68f8373aa1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 16/42] fix: exceptions in a Monte Carlo run without MPI
 dereferenced a null monitor

---
 c++/triqs/mc_tools/mc_generic.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index bafc996..54451e8 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -286,9 +286,12 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
+          if (node_monitor)
             node_monitor->request_emergency_stop();
-          else
+          else if (rethrow_exception) { // no other node to stop
+            triqs::signal_handler::stop();
+            throw;
+          } else
             c.abort(2);
         }
 
-- 
2.43.0


From 7a4fa074dd3a1f1ee4cb832d83a3930da122a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 17/42] fix: a Monte Carlo run interrupted by a signal in its
 last cycle reported that it was completed

---
 c++/triqs/mc_tools/mc_generic.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 54451e8..ebd8730 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -251,7 +251,7 @@ namespace triqs::mc_tools {
       if (n_cycles == 0) return 0;
       timer_run.start();
       triqs::signal_handler::start();
-      bool stop_it = false, finished = false, infinite = (n_cycles < 0);
+      bool stop_it = false, finished = false, interrupted = false, infinite = (n_cycles < 0);
       int64_t NC            = 0;
       double next_info_time = 0.1;
 
@@ -282,7 +282,7 @@ namespace triqs::mc_tools {
           }
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
-          // current cycle interrupted, stop calculation below
+          interrupted = triqs::signal_handler::received(); // current cycle interrupted, stop calculation below
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -307,7 +307,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From e1b0486d964efad5fbd6adebff5070f9781495f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 18/42] fix: a moved mc_generic kept using the random generator
 of its source

---
 c++/triqs/mc_tools/mc_generic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index ebd8730..e3a5562 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -62,8 +62,8 @@ namespace triqs::mc_tools {
     *                              When set to false use MPI_Abort instead
     */
     mc_generic(std::string random_name, int random_seed, int verbosity, bool rethrow_exception = true)
-       : RandomGenerator(random_name, random_seed),
-         AllMoves(RandomGenerator),
+       : RandomGenerator(std::make_unique<random_generator>(random_name, random_seed)),
+         AllMoves(*RandomGenerator),
          AllMeasures(),
          AllMeasuresAux(),
          report(&std::cout, verbosity),
@@ -264,7 +264,7 @@ namespace triqs::mc_tools {
           for (int64_t k = 1; (k <= length_cycle); k++) {
             if (triqs::signal_handler::received()) throw triqs::signal_handler::exception{};
             double r = AllMoves.attempt();
-            if (RandomGenerator() < std::min(1.0, r)) {
+            if ((*RandomGenerator)() < std::min(1.0, r)) {
               if (debug) std::cerr << " Move accepted " << std::endl;
               sign *= AllMoves.accept();
               if (debug) std::cerr << " New sign = " << sign << std::endl;
@@ -366,7 +366,7 @@ namespace triqs::mc_tools {
     /**
    * An access to the random number generator
    */
-    random_generator &get_rng() { return RandomGenerator; }
+    random_generator &get_rng() { return *RandomGenerator; }
 
     /**
    * The current cycle number
@@ -429,7 +429,7 @@ namespace triqs::mc_tools {
     }
 
     private:
-    random_generator RandomGenerator;
+    std::unique_ptr<random_generator> RandomGenerator; // the moves refer to it: its address must not change when *this is moved
     move_set<MCSignType> AllMoves;
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
-- 
2.43.0


From 04b23c57211b4acb9986cd2d267d2442df6649f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 19/42] fix: a default-constructed buffered_function reads
 outside of its buffer instead of throwing

---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From f6bac0aafefe5b91fa6943213e5aa32a81982a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 20/42] fix: an assigned RandMT kept reading the state of the
 other generator

---
 c++/triqs/mc_tools/MersenneRNG.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c++/triqs/mc_tools/MersenneRNG.hpp b/c++/triqs/mc_tools/MersenneRNG.hpp
index 4ed6581..4282a8d 100644
--- a/c++/triqs/mc_tools/MersenneRNG.hpp
+++ b/c++/triqs/mc_tools/MersenneRNG.hpp
@@ -144,6 +144,11 @@ namespace triqs {
 
         RandMT(RandMT const &R) { seedMT(R.seed_save); }
 
+        RandMT &operator=(RandMT const &R) {
+          seedMT(R.seed_save);
+          return *this;
+        }
+
         void seedMT(uint32 seed) {
 
           seed_save = seed;
-- 
2.43.0


From 5c74cccaabae291d2a45e7c57a153c9f49e082ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 21/42] fix: a histogram wrote outside of its bins when it got
 a nan

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..bf325fb 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!(x >= a && x <= b)) // also true for nan
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From f28c3f16aeb71e76af646f61d10622e91857aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 22/42] fix: log binning of more than 2^31 data shifted an int
 by 31 bits or more

---
 c++/triqs/stat/accumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..3b646f4 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -195,7 +195,7 @@ namespace triqs::stat {
 
           // When reaching power of 2 nr data points, add a new pair of (Mk, Qk) = (acc.back(), 0)
           // and add an extra space in acc, acc_count
-          if (count == (1 << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
+          if (count == (1l << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
             T last_acc = acc.back(); // Force copy
 
             if (max_n_bins < 0 || n_bins() < (max_n_bins - 1)) {
-- 
2.43.0


From 5802809136fe7d0eed254c0a1e44dafc321cb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 23/42] fix: linear bins of more than 2^31 data overflowed an
 int when compressed

---
 c++/triqs/stat/accumulator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 3b646f4..5a96899 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -92,7 +92,7 @@ namespace triqs::stat {
           bins[i] /= compression_factor;
         }
         // Last new bin is special: last old bin could be filled below capacity
-        int new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
+        long new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
         auto &new_last_bin     = bins[n_bins_new - 1];
         new_last_bin           = std::move(bins[compression_factor * (n_bins_new - 1)]);
         // If n_bins_last_chunk == 1, we have already copied its value above
@@ -379,7 +379,7 @@ namespace triqs::stat {
     ///
     /// @brief Capacity of a linear bin
     /// @return Bin capacity
-    [[nodiscard]] int lin_bin_capacity() const { return lin_bins.bin_capacity; }
+    [[nodiscard]] long lin_bin_capacity() const { return lin_bins.bin_capacity; }
 
     /// Input a measurement into the accumulator. This measurement is then added to the linear and logarithmic binning parts, unless a part as been turned off (lin_bin_size = 0 or log_bin_size = 0).
     ///
-- 
2.43.0


From 91debcdde2b0e488a2246bf796e4712b726087ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 24/42] fix: an accumulator read from a file ignored the data
 of the log binning

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 5a96899..54eebe8 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      h5::try_read(gr, "max_n_bins", l.max_n_bins); // missing in old files
     }
 
   } // namespace details
-- 
2.43.0


From 89883d7ee2affcbd2d9432b6169f2261b6f8c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 25/42] fix: jackknife over several nodes used the number of
 data of one node

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From 4ae91a4c19a2220b8d83a786833c33720cc0ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:47 +0000
Subject: [PATCH 26/42] fix: standard errors of more than 3*10^9 data
 overflowed a long

---
 c++/triqs/stat/accumulator.hpp | 4 ++--
 c++/triqs/stat/mean_error.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 54eebe8..f33f897 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -414,7 +414,7 @@ namespace triqs::stat {
           res1[n] = 0;
         } else {
           using std::sqrt;
-          res1[n] = sqrt(res1[n] / (count_n * (count_n - 1)));
+          res1[n] = sqrt(res1[n] / (double(count_n) * double(count_n - 1)));
         }
         count_vec.emplace_back(count_n);
       }
@@ -472,7 +472,7 @@ namespace triqs::stat {
             result_vec[n] = 0;
           } else {
             using std::sqrt;
-            result_vec[n] = sqrt(result_vec[n] / (count_vec[n] * (count_vec[n] - 1)));
+            result_vec[n] = sqrt(result_vec[n] / (double(count_vec[n]) * double(count_vec[n] - 1)));
           }
         }
       }
diff --git a/c++/triqs/stat/mean_error.hpp b/c++/triqs/stat/mean_error.hpp
index ff60e15..35ed14a 100644
--- a/c++/triqs/stat/mean_error.hpp
+++ b/c++/triqs/stat/mean_error.hpp
@@ -64,7 +64,7 @@ namespace triqs::stat {
     auto mean_calc = mean(data);
     auto err_calc  = make_real(mean_calc);
     err_calc       = 0;
-    for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (length * (length - 1))); }
+    for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (double(length) * double(length - 1))); }
     err_calc = std::sqrt(err_calc);
     return std::make_pair(mean_calc, err_calc);
   }
@@ -81,7 +81,7 @@ namespace triqs::stat {
     auto mean_calc = mean_mpi(c, data);
     auto err_calc  = make_real(mean_calc);
     err_calc       = 0;
-    for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (length * (length - 1))); }
+    for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (double(length) * double(length - 1))); }
     mpi::all_reduce_in_place(err_calc, c);
     err_calc = std::sqrt(err_calc);
     return std::make_pair(mean_calc, err_calc);
-- 
2.43.0


From a22cd7e52e9e2594149e5cb41b4b9cfb183840af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 27/42] fix: try_insert_k and try_remove_k of a single row and
 column wrote outside the work data

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..4d8ed3f 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -613,6 +613,7 @@ namespace triqs {
         TRIQS_ASSERT(j.size() == x.size());
         TRIQS_ASSERT(x.size() == y.size());
 
+        if (i.size() == 1) return try_insert(i[0], j[0], x[0], y[0]); // the work data of size k exist only for k > 1
         k = i.size();
         reserve(N + k, k);
         last_try = InsertK;
@@ -818,6 +819,7 @@ namespace triqs {
         TRIQS_ASSERT(N >= 2);
         TRIQS_ASSERT(i.size() == j.size());
 
+        if (i.size() == 1) return try_remove(i[0], j[0]); // the work data of size k exist only for k > 1
         k = i.size();
         reserve(N - k, k);
         last_try = RemoveK;
-- 
2.43.0


From c4af771f4d09c4113d0f6dbcaa4f62ce5f87e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 28/42] fix: operations on a det_manip read from HDF5 wrote
 outside the work data

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 4d8ed3f..cafc0f7 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -105,6 +105,8 @@ namespace triqs {
         h5_read(gr, "N", g.N);
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
+        g.w1.resize(g.Nmax);
+        g.wk.resize(g.Nmax, g.kmax);
         g.last_try = NoTry;
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
-- 
2.43.0


From 715554720bd4792aefcc3be1c33f78b78360f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 29/42] fix: a moved or swapped det_manip lost its settings and
 could write outside the work data

---
 c++/triqs/det_manip/det_manip.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cafc0f7..2f6102f 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -58,9 +58,9 @@ namespace triqs {
       protected: // the data
       FunctionType f;
 
-      det_type det;
-      long Nmax{0}, N;
-      long kmax{1}, k;
+      det_type det{1};
+      long Nmax{0}, N{0};
+      long kmax{1}, k{0};
       enum {
         NoTry,
         Insert,
@@ -191,8 +191,8 @@ namespace triqs {
       work_data_type1 w1;
       work_data_typek wk;
       work_data_type_refill w_refill;
-      det_type newdet;
-      int newsign;
+      det_type newdet{1};
+      int newsign{1};
 
       private: // for the move constructor, I need to separate the swap since f may not be defaulted constructed
       void swap_but_f(det_manip &rhs) noexcept {
@@ -201,6 +201,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -210,8 +212,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From ea5ab219dd87ab9b321448a62a67d5a1d429294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 30/42] fix: roll_matrix of an empty matrix read outside the
 permutations

---
 c++/triqs/det_manip/det_manip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 2f6102f..717f789 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1331,6 +1331,7 @@ namespace triqs {
       int roll_matrix(RollDirection roll) {
         long tmp;
         const long NN = N;
+        if (NN == 0) return 1;
         switch (roll) {
           case (None): return 1;
           case (Down):
-- 
2.43.0


From c660f2d96eb36dd2d112ff52294ec59d97204ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 31/42] fix: positions outside the matrix are rejected by
 try_insert_k, try_remove_k and try_change_row

---
 c++/triqs/det_manip/det_manip.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 717f789..9b62fdb 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -644,9 +644,9 @@ namespace triqs {
         };
 
         // check consistency
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(wk.i[l] != wk.i[l + 1] and 0 <= wk.i[l] and wk.i[l] < N + k);
-          TRIQS_ASSERT(wk.j[l] != wk.j[l + 1] and 0 <= wk.j[l] and wk.j[l] < N + k);
+        for (int l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == k - 1 or wk.i[l] != wk.i[l + 1]) and 0 <= wk.i[l] and wk.i[l] < N + k);
+          TRIQS_ASSERT((l == k - 1 or wk.j[l] != wk.j[l + 1]) and 0 <= wk.j[l] and wk.j[l] < N + k);
         }
 
         // w1.ksi = Delta(x_values,y_values) - Cw.MB using BLAS
@@ -833,9 +833,9 @@ namespace triqs {
         last_try = RemoveK;
 
         // check inputs
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(i[l] != i[l + 1] and 0 <= i[l] and i[l] < N);
-          TRIQS_ASSERT(j[l] != j[l + 1] and 0 <= j[l] and j[l] < N);
+        for (int l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == k - 1 or i[l] != i[l + 1]) and 0 <= i[l] and i[l] < N);
+          TRIQS_ASSERT((l == k - 1 or j[l] != j[l + 1]) and 0 <= j[l] and j[l] < N);
         }
 
         for (long l = 0; l < k; ++l) {
@@ -973,7 +973,7 @@ namespace triqs {
        */
       value_type try_change_row(long i, x_type const &x) {
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(i < N);
+        TRIQS_ASSERT(0 <= i and i < N);
         w1.i     = i;
         last_try = ChangeRow;
         w1.ireal = row_num[i];
-- 
2.43.0


From 7e3bfed3d37d8df6b159aec4b61b3984071b027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:51 +0000
Subject: [PATCH 32/42] fix: restricted_view of a bosonic Green function used a
 fermionic mesh

---
 c++/triqs/gfs/functions/imfreq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index a1d93f2..f92897c 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -246,7 +246,7 @@ namespace triqs::gfs {
   // ------------------------------------------------------------------------------------------------------
 
   template <template <typename, typename, typename...> typename G, typename T> auto restricted_view(G<mesh::imfreq, T> const &g, int n_max) {
-    auto iw_mesh = mesh::imfreq{g.mesh().beta(), Fermion, n_max};
+    auto iw_mesh = mesh::imfreq{g.mesh().beta(), g.mesh().statistic(), n_max};
 
     auto const &old_mesh = g.mesh();
     int idx_min          = old_mesh.to_data_index(iw_mesh.first_index());
-- 
2.43.0


From c835f33d914d27b5732d16b32956e11b875f2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:51 +0000
Subject: [PATCH 33/42] fix: density on the real frequency axis swapped the
 weights of the last partial interval

---
 c++/triqs/gfs/functions/density.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 70f1a43..60b33b8 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -150,7 +150,7 @@ namespace triqs::gfs {
     for (auto widx : range(1, N0)) res += g[widx];
     if (abs(dw0) > 1e-9) {
       double a = dw0 / dw;
-      res += 0.5 * ((a * a - 1.) * g[N0 - 1] + a * (2. - a) * g[N0]);
+      res += 0.5 * ((a * (2. - a) - 1.) * g[N0 - 1] + a * a * g[N0]);
     } else
       res -= 0.5 * g[N0 - 1];
 
-- 
2.43.0


From 7bf0585866d1f19d591227449d63d05ff2c5b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:51 +0000
Subject: [PATCH 34/42] fix: get_tail of a Legendre Green function evaluated
 legendre_t at order 0

---
 c++/triqs/gfs/functions/legendre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/legendre.cpp b/c++/triqs/gfs/functions/legendre.cpp
index c68f31c..72dd308 100644
--- a/c++/triqs/gfs/functions/legendre.cpp
+++ b/c++/triqs/gfs/functions/legendre.cpp
@@ -38,7 +38,7 @@ namespace triqs {
       array<dcomplex, 3> t{sh};
       t() = 0.0;
 
-      for (int p = 0; p < order; p++)
+      for (int p = 1; p < order; p++) // G(tau) has no moment of order 0
         for (auto l : gl.mesh()) t(p, ellipsis{}) += (triqs::utility::legendre_t(l.index(), p) / std::pow(gl.mesh().beta(), p)) * gl[l];
 
       return t;
-- 
2.43.0


From 2a6c0d25df9b219df3eb236394ec484ef0209884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 35/42] fix: the opposite of a block Green function had no
 arity and could not be assigned

---
 c++/triqs/gfs/block/expr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 2a2acf9..ed793e7 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -107,10 +107,14 @@ namespace triqs {
       using mesh_t   = typename L_t::mesh_t;
       using target_t = typename L_t::target_t;
 
+      static constexpr int arity = arity_of<L_t>;
+
       L l;
       template <typename LL> bgf_unary_m_expr(LL &&l_) : l(std::forward<LL>(l_)) {}
 
       auto size() const { return l.size(); }
+      auto size1() const { return l.size1(); }
+      auto size2() const { return l.size2(); }
       auto block_names() const { return l.block_names(); }
 
       template <typename... Keys> auto operator[](Keys &&...keys) const { return -l.operator[](std::forward<Keys>(keys)...); } // Clang fix
-- 
2.43.0


From 80f713fe076d93ae11a0b3753c506107b08672b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 36/42] fix: an operation on block Green functions with
 different numbers of blocks read outside of the smaller one

---
 c++/triqs/gfs/block/expr.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index ed793e7..623a1a2 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -76,7 +76,16 @@ namespace triqs {
 
       L l;
       R r;
-      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {}
+      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {
+        if constexpr (arity_of<L_t> == arity_of<R_t>) { // both are Block Green functions
+          bool compatible;
+          if constexpr (arity == 1)
+            compatible = (l.size() == r.size());
+          else
+            compatible = (l.size1() == r.size1() and (l.size1() == 0 or l.size2() == r.size2()));
+          if (!compatible) TRIQS_RUNTIME_ERROR << "Block Green function expression : operands with different numbers of blocks";
+        }
+      }
 
       auto size() const { return std::max(l.size(), r.size()); }
       auto size1() const { return std::max(l.size1(), r.size1()); }
-- 
2.43.0


From aa58bb905c653811448abdfc014fc73a9239b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 37/42] fix: assigning another number of blocks to a view of a
 block Green function read or wrote outside

---
 c++/triqs/gfs/block/block_gf_view.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index efaa3c3..3e10ce4 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -52,6 +52,16 @@ namespace triqs::gfs {
 
     // ---------------  Constructors --------------------
 
+    // A view is not resized: the rhs must have as many blocks
+    template <typename RHS> void _check_same_size(RHS const &rhs) const {
+      bool compatible;
+      if constexpr (Arity == 1)
+        compatible = (size() == rhs.size());
+      else
+        compatible = (size1() == rhs.size1() and (size1() == 0 or size2() == rhs.size2()));
+      if (!compatible) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
+    }
+
     struct impl_tag {};
     template <typename G> block_gf_view(impl_tag, G &&x) : _block_names(x.block_names()), _glist(factory<data_t>(x.data())), name(x.name) {}
 
@@ -100,6 +110,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(block_gf_view const &rhs)
       requires(not IsConst)
     {
+      _check_same_size(rhs);
       _assign_impl(rhs);
       return *this;
     }
@@ -112,7 +123,7 @@ namespace triqs::gfs {
       requires(not IsConst)
     {
       if constexpr (not nda::is_scalar_v<RHS>) {
-        if (!(size() == rhs.size())) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
+        _check_same_size(rhs);
         _assign_impl(rhs);
       } else {
         if constexpr (Arity == 1) {
@@ -134,6 +145,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(lazy_transform_t<L, G> const &rhs)
       requires(not IsConst)
     {
+      _check_same_size(rhs.value);
       if constexpr (Arity == 1) {
         for (int i = 0; i < rhs.value.size(); ++i) (*this)[i] = rhs.lambda(rhs.value[i]);
       } else {
-- 
2.43.0


From 66b5d4888b15f19324dd4bb82939d21f0f2fbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 38/42] fix: block2_gf accepted rows with different numbers of
 blocks

---
 c++/triqs/gfs/block/block_gf.hpp      | 4 ++--
 c++/triqs/gfs/block/block_gf_view.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/gfs/block/block_gf.hpp b/c++/triqs/gfs/block/block_gf.hpp
index a834b27..ab3b063 100644
--- a/c++/triqs/gfs/block/block_gf.hpp
+++ b/c++/triqs/gfs/block/block_gf.hpp
@@ -149,8 +149,8 @@ namespace triqs::gfs {
       } else {
         if (_glist.size() != _block_names[0].size())
           TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Outer vectors have different sizes !";
-        if (_glist.size() != 0)
-          if (_glist[0].size() != _block_names[1].size())
+        for (auto const &row : _glist)
+          if (row.size() != _block_names[1].size())
             TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Inner vectors have different sizes !";
       }
     }
diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index 3e10ce4..32e166c 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -80,8 +80,8 @@ namespace triqs::gfs {
       } else {
         if (_glist.size() != _block_names[0].size())
           TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Outer vectors have different sizes !";
-        if (_glist.size() != 0)
-          if (_glist[0].size() != _block_names[1].size())
+        for (auto const &row : _glist)
+          if (row.size() != _block_names[1].size())
             TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Inner vectors have different sizes !";
       }
     }
-- 
2.43.0


From 45823b8a12c006841d46bc4c85646846ca688322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 39/42] fix: refuse a one-dimensional Bravais lattice whose
 unit vector is zero

Dependent unit vectors are refused in two and three dimensions; in one
dimension a zero vector gave a lattice with NaN units.
---
 c++/triqs/lattice/bravais_lattice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/bravais_lattice.cpp b/c++/triqs/lattice/bravais_lattice.cpp
index 29510be..66b3fff 100644
--- a/c++/triqs/lattice/bravais_lattice.cpp
+++ b/c++/triqs/lattice/bravais_lattice.cpp
@@ -46,7 +46,8 @@ namespace triqs {
       double delta;
       switch (ndim_) {
         case 1:
-          ux    = units_(0, range::all);
+          ux = units_(0, range::all);
+          if (sqrt(dot(ux, ux)) < almost_zero) TRIQS_RUNTIME_ERROR << "Bravais Lattice : the vector of unit is zero : " << units__;
           uz()  = 0;
           uz(1) = 1;
           uz    = uz - dot(uz, ux) * ux;
-- 
2.43.0


From 4e30ebb7edf3ec5aa05b6679a603e52ae374b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 40/42] fix: default Brillouin zone has the reciprocal vectors
 of the cubic lattice

They lacked the factor of 2 pi, so that the zone differed from the one made of
the default lattice, and from itself when read back from a file.
---
 c++/triqs/lattice/brillouin_zone.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index f3687f9..db048bc 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -31,10 +31,7 @@ namespace triqs {
       using value_t = k_t; // domain concept
 
       // Default construction, 3d cubic lattice
-      brillouin_zone() {
-        K_reciprocal     = nda::eye<double>(3);
-        K_reciprocal_inv = K_reciprocal;
-      }
+      brillouin_zone() : brillouin_zone(bravais_lattice{}) {}
 
       brillouin_zone(brillouin_zone &&)                 = default;
       brillouin_zone(brillouin_zone const &)            = default;
-- 
2.43.0


From cc14e0ebbc2d9133e46b0d84dae47a439f40b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 41/42] fix: brillouin_zone coordinate transformations use the
 first ndim components

As bravais_lattice does. The three components of a vector in the space could
not be transformed in one or two dimensions: the shapes of the product did not
agree.
---
 c++/triqs/lattice/brillouin_zone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index db048bc..5188992 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -68,12 +68,12 @@ namespace triqs {
 
       /// Transform from lattice to real coordinates
       template <typename K> k_t lattice_to_real_coordinates(K const &k) const {
-        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       /// Transform from real to lattice coordinates
       template <typename K> k_t real_to_lattice_coordinates(K const &k) const {
-        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       // ------------------- Comparison -------------------
-- 
2.43.0


From 8385c31e9b8ac2970d8253393834da9719fc4519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:36 +0000
Subject: [PATCH 42/42] fix: cbegin and cend of block Green functions returned
 iterators into a temporary view

They referred to a view destroyed on return, and never compared equal.
---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index d2f6c73..6c04ef4 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -269,5 +269,5 @@ iterator begin() { return {*this, false}; }
 const_iterator begin() const { return {*this, false}; }
 iterator end() { return {*this, true}; }
 const_iterator end() const { return {*this, true}; }
-auto cbegin() { return const_view_type(*this).begin(); }
-auto cend() { return const_view_type(*this).end(); }
+const_iterator cbegin() const { return {*this, false}; }
+const_iterator cend() const { return {*this, true}; }
-- 
2.43.0

