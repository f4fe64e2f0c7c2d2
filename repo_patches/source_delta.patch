From 16db0d584cc2d7d1c1f73d08c9fbcf4d98e0781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 01/10] fix: detect_otf_trigger read uninitialised start
 indices

---
 src/ami_base_evaluate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..8a3e92f 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -968,8 +968,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
-- 
2.43.0


From f1ee4a517c9c3829fe3128315852d869ccbca1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 02/10] fix: fermi_pole kept only the last term of the spectral
 frequency shift

---
 src/ami_base_evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 8a3e92f..926d4a0 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -419,7 +419,7 @@ std::complex<double> AmiBase::fermi_pole(ami_parms &parms, pole_struct pole,
   std::complex<double> freq_shift(0, 0);
   if (pole.x_alpha_.size() != 0) {
     for (int i = 0; i < pole.x_alpha_.size(); i++) {
-      freq_shift = external.frequency_[i] * (double)pole.x_alpha_[i];
+      freq_shift += external.frequency_[i] * (double)pole.x_alpha_[i];
     }
   }
 
-- 
2.43.0


From aca7852539319eddf4fadbed99cd27b105d0b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 03/10] fix: find_poles read the first factor of an empty
 product

---
 src/ami_base_construct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..bcbf922 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -194,6 +194,11 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
   pole_array_t pole_array;
   pole_struct pole;
 
+  // an empty product has no poles
+  if (R.empty()) {
+    return pole_array;
+  }
+
   pole.alpha_.reserve(R[0].alpha_.size());
   pole.eps_.reserve(R[0].eps_.size());
 
-- 
2.43.0


From 51d5e504d24040f6bd2ce60fd305981ab394ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 04/10] fix: factorial overflow in the residue of a high order
 pole

---
 src/ami_base_construct.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index bcbf922..0f706ef 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -541,7 +541,10 @@ double AmiBase::get_starting_sign(AmiBase::g_prod_t G_in,
     result = result * (double)G_in[pole.which_g_[i]].alpha_[pole.index_];
   }
 
-  result = result / (double)factorial(pole.multiplicity_ - 1);
+  // divided step by step: the factorial itself overflows int beyond 12!
+  for (int n = 2; n < pole.multiplicity_; n++) {
+    result = result / (double)n;
+  }
 
   return result;
 }
-- 
2.43.0


From 454128a6f30e3318c04418d436f04dcda2951786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 05/10] fix: factorize_Rn dropped empty products, misaligning
 the later ones

---
 src/ami_base_optimize.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..967beeb 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -307,9 +307,7 @@ void AmiBase::factorize_Rn(Ri_t &Rn, g_prod_t &unique_g, R_ref_t &Rref,
       }
     }
 
-    if (ref_v.size() != 0) {
-      Rref.push_back(ref_v);
-    }
+    Rref.push_back(ref_v);
   }
 
 
-- 
2.43.0


From b0e5cb51ebf2295e0a44b605cef596efb1e35834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 06/10] fix: g_struct_equiv read the last of an empty list of
 signs

---
 src/ami_base_optimize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 967beeb..cec64c3 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -428,7 +428,8 @@ bool AmiBase::g_struct_equiv(g_struct &g1, g_struct &g2, int &sign) {
 
   if (std::adjacent_find(signs.begin(), signs.end(),
                          std::not_equal_to<int>()) == signs.end()) {
-    sign = signs.back();
+    // all coefficients zero: equal, with no relative sign
+    sign = signs.empty() ? 1 : signs.back();
   } else {
     return false;
   }
-- 
2.43.0


From 67f846d155f3e2d7e10dec5acda758b2069b8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 07/10] fix: ami_parms and pole_struct constructors left
 members uninitialised

---
 src/ami_base.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index e1e9100..bd297e9 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -206,7 +206,7 @@ public:
   /// Parameters for AMI construction/evaluation.
   struct ami_parms {
     /// Number of integrations to perform.
-    int N_INT_;
+    int N_INT_ = 0;
     /// Hardcoded as (1) in this version - represents number of external
     /// variables.
     int N_EXT_ = 1;
@@ -248,9 +248,9 @@ public:
 
     ami_parms() {}
 
-    graph_type TYPE_;
-    int_type int_type_;
-    disp_type dispersion_;
+    graph_type TYPE_ = static_cast<AmiBase::graph_type>(0);
+    int_type int_type_ = static_cast<AmiBase::int_type>(0);
+    disp_type dispersion_ = static_cast<AmiBase::disp_type>(0);
   };
 
   /// A Green's function structure.  This is a symbolic vector of `epsilon_t`
@@ -314,7 +314,7 @@ public:
     epsilon_t eps_;
     alpha_t alpha_;
     /// Index that specifies which frequency it is a pole with respect to.
-    int index_;
+    int index_ = 0;
     /// The multiplicity of the pole, starts at 1 and increments as needed.
     int multiplicity_ = 1;
     int der_ = 0;              /**< Counter for derivatives. */
-- 
2.43.0


From 836c38c30ed89b74b11a25da7275b47d349a8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 08/10] fix: optimized evaluation applied the overall prefactor
 once per Green's function

---
 src/ami_base_evaluate.cpp       | 12 ++++++++----
 src/ami_base_terms_evaluate.cpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 926d4a0..d329713 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -88,6 +88,11 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
   
 
+  // The overall prefactor is applied once per term below, so each unique G
+  // is evaluated without it
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // Context: we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -96,7 +101,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -105,7 +110,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -114,8 +119,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for
-                                  // each g. we then add that back later
+    unique_vals.push_back(gprod);
   }
 
 
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..645940f 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -35,6 +35,11 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
   // std::cout<<"External prefactor is "<<external.prefactor<<std::endl;
 
+  // The overall prefactor is applied once per term below, so each unique G
+  // is evaluated without it
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -43,7 +48,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -52,7 +57,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -61,7 +66,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for each g. we then add that back later
+    unique_vals.push_back(gprod);
   }
 
   // now evaluate each term in list
-- 
2.43.0


From 769d25895dbe8d607d6d20ab6cde3d43604a4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 09/10] fix: python binding took enum arguments it never
 registered

---
 pyami_src/pyami_wrapper.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/pyami_src/pyami_wrapper.cpp b/pyami_src/pyami_wrapper.cpp
index b084c71..6dffc24 100644
--- a/pyami_src/pyami_wrapper.cpp
+++ b/pyami_src/pyami_wrapper.cpp
@@ -38,7 +38,35 @@ void init_pyami_wrapper(py::module &m) {
   py::class_<AmiBase> AmiBase(m, "AmiBase");
   AmiBase.def(py::init<>());
   AmiBase.def(py::init<AmiBase::ami_parms &>());
-    
+
+  py::enum_<AmiBase::stat_type> (AmiBase, "stat_type")
+    .value("Bose", AmiBase::Bose)
+    .value("Fermi", AmiBase::Fermi);
+
+  py::enum_<AmiBase::graph_type> (AmiBase, "graph_type")
+    .value("Sigma", AmiBase::Sigma)
+    .value("Pi_phuu", AmiBase::Pi_phuu)
+    .value("Pi_phud", AmiBase::Pi_phud)
+    .value("Hartree", AmiBase::Hartree)
+    .value("Bare", AmiBase::Bare)
+    .value("Greens", AmiBase::Greens)
+    .value("density", AmiBase::density)
+    .value("doubleocc", AmiBase::doubleocc)
+    .value("Pi_ppuu", AmiBase::Pi_ppuu)
+    .value("Pi_ppud", AmiBase::Pi_ppud)
+    .value("DOS", AmiBase::DOS)
+    .value("ENERGY", AmiBase::ENERGY)
+    .value("FORCE", AmiBase::FORCE);
+
+  py::enum_<AmiBase::int_type> (AmiBase, "int_type")
+    .value("hubbard", AmiBase::hubbard)
+    .value("coulomb", AmiBase::coulomb);
+
+  py::enum_<AmiBase::disp_type> (AmiBase, "disp_type")
+    .value("tb", AmiBase::tb)
+    .value("fp", AmiBase::fp)
+    .value("hf", AmiBase::hf);
+
   py::class_<AmiBase::ami_vars> (AmiBase, "ami_vars")
     .def(py::init<>())
     .def(py::init<AmiBase::energy_t, AmiBase::frequency_t>())
-- 
2.43.0


From dcb02f9a5214464d8b780d8d93c405b83cb852c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 10/10] fix: species label of a Green's function was lost when
 a residue was taken

---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 0f706ef..c2243cf 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0

