From a78c3a8c337a6e91c1409fbe614753d02ee72eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 01/15] fix: apply the overall prefactor once in the factorized
 evaluations

---
 src/ami_base_evaluate.cpp       | 11 +++++++----
 src/ami_base_terms_evaluate.cpp | 11 ++++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..6272051 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -84,6 +84,10 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
   std::vector<std::complex<double>> unique_vals;
   std::complex<double> gprod;
 #endif
+
+  // eval_gprod includes the overall prefactor: the individual G's are evaluated
+  // without it, and it is applied once to each term.
+  external.prefactor = 1.0;
   
 
   
@@ -96,7 +100,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -105,7 +109,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -114,8 +118,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for
-                                  // each g. we then add that back later
+    unique_vals.push_back(gprod);
   }
 
 
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..339d478 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -26,6 +26,11 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
   std::complex<double> gprod;
 #endif
 
+  // eval_gprod includes the overall prefactor: the individual G's are evaluated
+  // without it, and it is applied once to each term.
+  ami_vars g_external = external;
+  g_external.prefactor = 1.0;
+
 
 
   // std::complex<double> output = 0;
@@ -43,7 +48,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, g_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -52,7 +57,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, g_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
@@ -61,7 +66,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #endif
 
-    unique_vals.push_back(gprod); // This removes the overall prefactor for each g. we then add that back later
+    unique_vals.push_back(gprod);
   }
 
   // now evaluate each term in list
-- 
2.43.0


From 185154a98777b590e293495309b1ee88419eec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 02/15] fix: keep empty products in the factorization so that
 its indices match the terms

---
 src/ami_base_optimize.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..56bfbdd 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -307,9 +307,8 @@ void AmiBase::factorize_Rn(Ri_t &Rn, g_prod_t &unique_g, R_ref_t &Rref,
       }
     }
 
-    if (ref_v.size() != 0) {
-      Rref.push_back(ref_v);
-    }
+    // an empty product keeps its place, so that entry i refers to Rn[i]
+    Rref.push_back(ref_v);
   }
 
 
-- 
2.43.0


From 4148fb37c82af8504c4c0322c7c7c054a6e301a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 03/15] fix: merge factorized products that contain the same G
 more than once

---
 src/ami_base_optimize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 56bfbdd..8ece36e 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -203,7 +203,7 @@ bool AmiBase::pair_v_equiv(ref_v_t &r1, ref_v_t &r2, int &r1sign, int &r2sign) {
     if ( (r1[i].first == r2[j].first) && v2[j]==1){
       found=true;
       v2[j]=0;
-      continue; //
+      break; // consume one entry of r2 for each entry of r1
       
     }
     
-- 
2.43.0


From 11d9cc9ce29517d598f268b738a9f86669face61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 04/15] fix: evaluate the factorized form that is given, also
 after derivative_opt left few or no products

---
 src/ami_base_evaluate.cpp       | 8 ++------
 src/ami_base_terms_evaluate.cpp | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 6272051..b1c8a60 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -8,7 +8,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
                                        R_ref_t &Rref, ref_eval_t &Eval_list) {
   overflow_detected = false;
 
-  if (Rref.size() == 0 || unique_g.size() == 0 || Eval_list.size() == 0) {
+  if (Rref.size() == 0 && unique_g.size() == 0 && Eval_list.size() == 0) {
     return evaluate(parms, R_array, P_array, S_array, external);
   }
 
@@ -17,11 +17,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
   SorF_t SorF_result;
 
   if (dim == 0) {
-    std::complex<double> gprod;
-
-    gprod = eval_gprod(parms, R_array[0][0], external);
-
-    return gprod;
+    SorF_result.push_back(std::vector<std::complex<double>>(1, 1.0));
   }
 
   if (dim == 1) {
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 339d478..6a2bb56 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -7,7 +7,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
                                        R_ref_t &Rref, ref_eval_t &Eval_list) {
   overflow_detected = false;
 
-  if (Rref.size() == 0 || unique_g.size() == 0 || Eval_list.size() == 0) {
+  if (Rref.size() == 0 && unique_g.size() == 0 && Eval_list.size() == 0) {
 	  return evaluate(parms, ami_terms, external);
   }
 
-- 
2.43.0


From 4d63ae5e3fb94fe14fa2185c1cabe2dd2c6f2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 05/15] fix: propagate the species of a G through the residues

---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..c15bc74 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0


From 77253826888155d8f59cec1b4aa2fa0c9b24764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 06/15] fix: factorial overflowed int for poles of multiplicity
 14 and higher

---
 src/ami_base.hpp           | 2 +-
 src/ami_base_construct.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index e1e9100..550c5f6 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -68,7 +68,7 @@ public:
 
   /// Simple factorial function. It is rarely called except for multipole
   /// problems, and typically for only small arguments.
-  int factorial(int n);
+  double factorial(int n);
 
   // AmiVars
 
diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index c15bc74..0af445e 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -537,7 +537,7 @@ double AmiBase::get_starting_sign(AmiBase::g_prod_t G_in,
     result = result * (double)G_in[pole.which_g_[i]].alpha_[pole.index_];
   }
 
-  result = result / (double)factorial(pole.multiplicity_ - 1);
+  result = result / factorial(pole.multiplicity_ - 1);
 
   return result;
 }
@@ -568,6 +568,6 @@ AmiBase::g_prod_t AmiBase::reduce_gprod(AmiBase::g_prod_t G_in,
   return reduced;
 }
 
-int AmiBase::factorial(int n) {
+double AmiBase::factorial(int n) {
   return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
 }
\ No newline at end of file
-- 
2.43.0


From 74b20d882140f0c039f002842f35ab7f2baffbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 07/15] fix: initialise the members of ami_parms and
 pole_struct that some constructors left undefined

---
 src/ami_base.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ami_base.hpp b/src/ami_base.hpp
index 550c5f6..db280a3 100644
--- a/src/ami_base.hpp
+++ b/src/ami_base.hpp
@@ -206,7 +206,7 @@ public:
   /// Parameters for AMI construction/evaluation.
   struct ami_parms {
     /// Number of integrations to perform.
-    int N_INT_;
+    int N_INT_ = 0;
     /// Hardcoded as (1) in this version - represents number of external
     /// variables.
     int N_EXT_ = 1;
@@ -248,9 +248,9 @@ public:
 
     ami_parms() {}
 
-    graph_type TYPE_;
-    int_type int_type_;
-    disp_type dispersion_;
+    graph_type TYPE_ = Sigma;
+    int_type int_type_ = hubbard;
+    disp_type dispersion_ = tb;
   };
 
   /// A Green's function structure.  This is a symbolic vector of `epsilon_t`
@@ -314,7 +314,7 @@ public:
     epsilon_t eps_;
     alpha_t alpha_;
     /// Index that specifies which frequency it is a pole with respect to.
-    int index_;
+    int index_ = 0;
     /// The multiplicity of the pole, starts at 1 and increments as needed.
     int multiplicity_ = 1;
     int der_ = 0;              /**< Counter for derivatives. */
-- 
2.43.0


From 04a268667f902d1c09cc30c59d67ab974492a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 08/15] fix: raise overflow_detected in every evaluation that
 meets a non-finite or overflowing term

---
 src/ami_base_evaluate.cpp       | 18 ++++++++++++------
 src/ami_base_terms_evaluate.cpp | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index b1c8a60..2b230d7 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -163,8 +163,8 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     term = ksum_mp * this_gprod * prefactor;
 	
 	
-    if ((boost::multiprecision::abs(std::real(term)) > precision_cutoff) ||
-        (boost::multiprecision::abs(std::imag(term)) > precision_cutoff)) {
+    if (!(boost::multiprecision::abs(std::real(term)) <= precision_cutoff) ||
+        !(boost::multiprecision::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 #else
@@ -181,8 +181,8 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     term = ksum * this_gprod *
            prefactor; // add back the overall prefactor for this term
 
-    if ((std::abs(std::real(term)) > precision_cutoff) ||
-        (std::abs(std::imag(term)) > precision_cutoff)) {
+    if (!(std::abs(std::real(term)) <= precision_cutoff) ||
+        !(std::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 
@@ -231,6 +231,11 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
 
     gprod = eval_gprod(parms, R_array[0][0], external);
 
+    if (!(std::abs(std::real(gprod)) <= precision_cutoff) ||
+        !(std::abs(std::imag(gprod)) <= precision_cutoff)) {
+      overflow_detected = true;
+    }
+
     return gprod;
   }
 
@@ -302,8 +307,9 @@ std::complex<double> AmiBase::star(ami_parms &parms, SorF_t K, Ri_t R,
         overflow_detected = true;
       }
 
-      if ((std::abs(std::real(term)) > precision_cutoff) ||
-          (std::abs(std::imag(term)) > precision_cutoff)) {
+      // negated comparison: true also when the term is not a number
+      if (!(std::abs(std::real(term)) <= precision_cutoff) ||
+          !(std::abs(std::imag(term)) <= precision_cutoff)) {
         overflow_detected = true;
       } else {
         // edit -> G can be exactly equal to 1 without indicating an
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 6a2bb56..395238d 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -117,8 +117,8 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     term = ksum_mp * this_gprod * prefactor;
 	
 	
-    if ((boost::multiprecision::abs(std::real(term)) > precision_cutoff) ||
-        (boost::multiprecision::abs(std::imag(term)) > precision_cutoff)) {
+    if (!(boost::multiprecision::abs(std::real(term)) <= precision_cutoff) ||
+        !(boost::multiprecision::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 #else
@@ -135,8 +135,8 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     term = ksum * this_gprod *
            prefactor; // add back the overall prefactor for this term
 
-    if ((std::abs(std::real(term)) > precision_cutoff) ||
-        (std::abs(std::imag(term)) > precision_cutoff)) {
+    if (!(std::abs(std::real(term)) <= precision_cutoff) ||
+        !(std::abs(std::imag(term)) <= precision_cutoff)) {
       overflow_detected = true;
     }
 
@@ -235,6 +235,11 @@ std::complex<double> AmiBase::evaluate_term(ami_parms &parms, term &ami_term,
 
   output = ami_term.sign * gprod * fprod;
 
+  if (!(std::abs(std::real(output)) <= precision_cutoff) ||
+      !(std::abs(std::imag(output)) <= precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "Term gave " << ami_term.sign * fprod << " " << gprod << " "
               << output << std::endl;
@@ -265,6 +270,11 @@ std::complex<boost::multiprecision::float128> AmiBase::evaluate_term_mp(ami_parm
   std::complex<boost::multiprecision::float128> sign=dsign;
   output = sign * gprod * fprod;
 
+  if (!(boost::multiprecision::abs(std::real(output)) <= precision_cutoff) ||
+      !(boost::multiprecision::abs(std::imag(output)) <= precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "MP Term gave " << sign * fprod << " " << gprod << " "
               << output << std::endl;
-- 
2.43.0


From 78b0f1b38b6f919efbed3b8c2031a822bcf726e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 09/15] fix: evaluate_otf did not notice poles shared by two
 G's of opposite frequency and energy

---
 src/ami_base_evaluate.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 2b230d7..26b288c 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -815,9 +815,23 @@ for (int ord=0; ord<R_array.size(); ord++){
       eps_n += double(R_array[ord][num][n].eps_[a]) * external.energy_[a];
         }
         
+        // opposite energies matter as well: they give the same pole for G's
+        // of opposite alpha. The last entry is the relative sign.
+        int sign=0;
         if(eps_m==eps_n){ // || std::abs(eps_m-eps_n)<1e-15){
+          sign=1;
+        }else if(eps_m==-eps_n){
+          epsilon_t negative=R_array[ord][num][n].eps_;
+          for (int a = 0; a < negative.size(); a++) { negative[a]*=-1; }
+          // if the energies are not identical already
+          if(!isEqual(R_array[ord][num][m].eps_,negative)){
+            sign=-1;
+          }
+        }
+        
+        if(sign!=0){
         
-        std::vector<int> this_pair{ord,num,m,n};
+        std::vector<int> this_pair{ord,num,m,n,sign};
         equal_pairs.push_back(this_pair);
         }
         
@@ -1049,6 +1063,9 @@ int m=pairs[i][2];
 int n=pairs[i][3];
 
 R_otf[a][b][m].eps_=R_otf[a][b][n].eps_;  
+for(int e=0; e<R_otf[a][b][m].eps_.size(); e++){
+  R_otf[a][b][m].eps_[e]*=pairs[i][4];
+}
   
 }
 }
-- 
2.43.0


From 69c79c7ebd6951ff44774d5ca9b6cefe79f8a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 10/15] fix: find_poles read beyond the end of an empty product

---
 src/ami_base_construct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 0af445e..f5d58b3 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -195,6 +195,11 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
   pole_array_t pole_array;
   pole_struct pole;
 
+  // a product without G's has no poles
+  if (R.size() == 0) {
+    return pole_array;
+  }
+
   pole.alpha_.reserve(R[0].alpha_.size());
   pole.eps_.reserve(R[0].eps_.size());
 
-- 
2.43.0


From fe25a107e7ae6a848832f1690095f67837fa66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 11/15] fix: g_struct_equiv read an empty list of signs for G's
 without coefficients

---
 src/ami_base_optimize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 8ece36e..4c0c528 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -423,8 +423,11 @@ bool AmiBase::g_struct_equiv(g_struct &g1, g_struct &g2, int &sign) {
     }
   }
 
-  // in principle if the code gets here the size of signs is >0 so don't need
-  // to check that
+  // two G's without any coefficient are trivially the same
+  if (signs.size() == 0) {
+    sign = 1;
+    return true;
+  }
 
 
   if (std::adjacent_find(signs.begin(), signs.end(),
-- 
2.43.0


From b89c16c01485778c67f9491d7ab4507cab36b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 12/15] fix: derivative_opt of a constant leaves a zero term,
 not an empty factorization

---
 src/ami_base_optimize.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 4c0c528..712ba18 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -52,6 +52,16 @@ void AmiBase::derivative_opt(g_prod_t &unique_g, R_ref_t &Rref,
     }
   }
 
+  // a constant: keep one product with zero coefficients, because the evaluation
+  // takes an empty factorization as not given
+  if (nRref.size() == 0 && Rref.size() != 0) {
+    nRref.push_back(Rref[0]);
+    nEval_list.push_back(Eval_list[0]);
+    for (int m = 0; m < nEval_list[0].size(); m++) {
+      nEval_list[0][m].second = 0;
+    }
+  }
+
   Rref = nRref;
   Eval_list = nEval_list;
 }
-- 
2.43.0


From 5a92f177b8ee4d3d5bb5425f2d2fcef6921326aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 13/15] fix: register the enumerations of the Python module
 (their attributes and constructors were unusable)

---
 pyami_src/pyami_wrapper.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pyami_src/pyami_wrapper.cpp b/pyami_src/pyami_wrapper.cpp
index b084c71..42eec1d 100644
--- a/pyami_src/pyami_wrapper.cpp
+++ b/pyami_src/pyami_wrapper.cpp
@@ -39,6 +39,35 @@ void init_pyami_wrapper(py::module &m) {
   AmiBase.def(py::init<>());
   AmiBase.def(py::init<AmiBase::ami_parms &>());
     
+  // enumerations of the constructors and attributes below
+  py::enum_<AmiBase::stat_type> (AmiBase, "stat_type")
+    .value("Bose", AmiBase::Bose)
+    .value("Fermi", AmiBase::Fermi);
+
+  py::enum_<AmiBase::graph_type> (AmiBase, "graph_type")
+    .value("Sigma", AmiBase::Sigma)
+    .value("Pi_phuu", AmiBase::Pi_phuu)
+    .value("Pi_phud", AmiBase::Pi_phud)
+    .value("Hartree", AmiBase::Hartree)
+    .value("Bare", AmiBase::Bare)
+    .value("Greens", AmiBase::Greens)
+    .value("density", AmiBase::density)
+    .value("doubleocc", AmiBase::doubleocc)
+    .value("Pi_ppuu", AmiBase::Pi_ppuu)
+    .value("Pi_ppud", AmiBase::Pi_ppud)
+    .value("DOS", AmiBase::DOS)
+    .value("ENERGY", AmiBase::ENERGY)
+    .value("FORCE", AmiBase::FORCE);
+
+  py::enum_<AmiBase::int_type> (AmiBase, "int_type")
+    .value("hubbard", AmiBase::hubbard)
+    .value("coulomb", AmiBase::coulomb);
+
+  py::enum_<AmiBase::disp_type> (AmiBase, "disp_type")
+    .value("tb", AmiBase::tb)
+    .value("fp", AmiBase::fp)
+    .value("hf", AmiBase::hf);
+
   py::class_<AmiBase::ami_vars> (AmiBase, "ami_vars")
     .def(py::init<>())
     .def(py::init<AmiBase::energy_t, AmiBase::frequency_t>())
-- 
2.43.0


From 31dbc2aab037bf6c807f40c8c0d49ff2409436c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 14/15] fix: detect_otf_trigger compared levels that were never
 set

---
 src/ami_base_evaluate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 26b288c..88c8ea0 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -987,8 +987,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
-- 
2.43.0


From d6c49b3a081effc626f23e6152b2825437cbe7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 15/15] fix: fermi_pole used only the last frequency of a
 spectral pole

---
 src/ami_base_evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 88c8ea0..75533f8 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -424,7 +424,7 @@ std::complex<double> AmiBase::fermi_pole(ami_parms &parms, pole_struct pole,
   std::complex<double> freq_shift(0, 0);
   if (pole.x_alpha_.size() != 0) {
     for (int i = 0; i < pole.x_alpha_.size(); i++) {
-      freq_shift = external.frequency_[i] * (double)pole.x_alpha_[i];
+      freq_shift += external.frequency_[i] * (double)pole.x_alpha_[i];
     }
   }
 
-- 
2.43.0

