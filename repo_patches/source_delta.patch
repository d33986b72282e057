From 196667d9caa3f254327be30c362abca0914b4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 01/18] fix: multi-camera relative scoring reads the bearings
 of the requested index

---
 .../relative_pose/MultiCentralRelativePoseSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 25f446a..b49b3da 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -151,8 +151,10 @@ opengv::sac_problems::
       bearingVector_t reprojection2 = inverseSolution * p_hom;
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
-      bearingVector_t f1 = _adapter.getBearingVector1(pairIndex,correspondenceIndex);
-      bearingVector_t f2 = _adapter.getBearingVector2(pairIndex,correspondenceIndex);
+      bearingVector_t f1 = _adapter.getBearingVector1(
+          pairIndex, indices[pairIndex][correspondenceIndex]);
+      bearingVector_t f2 = _adapter.getBearingVector2(
+          pairIndex, indices[pairIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index cd9596e..058f11e 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -316,9 +316,11 @@ opengv::sac_problems::relative_pose::
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
       bearingVector_t f1 =
-          _adapter.getBearingVector1(camIndex,correspondenceIndex);
+          _adapter.getBearingVector1(
+          camIndex, indices[camIndex][correspondenceIndex]);
       bearingVector_t f2 =
-          _adapter.getBearingVector2(camIndex,correspondenceIndex);
+          _adapter.getBearingVector2(
+          camIndex, indices[camIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
-- 
2.43.0


From 87c40aa8591a764c30c36957e899e8d872f01fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 02/18] fix: robust problems draw all randomness from their own
 generator

---
 include/opengv/sac/MultiSampleConsensusProblem.hpp          | 2 +-
 include/opengv/sac/SampleConsensusProblem.hpp               | 2 +-
 .../sac/implementation/MultiSampleConsensusProblem.hpp      | 2 +-
 .../opengv/sac/implementation/SampleConsensusProblem.hpp    | 2 +-
 .../absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp | 3 +--
 src/sac_problems/relative_pose/EigensolverSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++----
 7 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/opengv/sac/MultiSampleConsensusProblem.hpp b/include/opengv/sac/MultiSampleConsensusProblem.hpp
index 4438d0e..7606141 100644
--- a/include/opengv/sac/MultiSampleConsensusProblem.hpp
+++ b/include/opengv/sac/MultiSampleConsensusProblem.hpp
@@ -210,7 +210,7 @@ public:
    * \brief Get a random number.
    * \return A random number.
    */
-  int rnd();
+  int rnd() const;
 
 
 
diff --git a/include/opengv/sac/SampleConsensusProblem.hpp b/include/opengv/sac/SampleConsensusProblem.hpp
index 3b7523a..e0efbc5 100644
--- a/include/opengv/sac/SampleConsensusProblem.hpp
+++ b/include/opengv/sac/SampleConsensusProblem.hpp
@@ -204,7 +204,7 @@ public:
    * \brief Get a random number.
    * \return A random number.
    */
-  int rnd();
+  int rnd() const;
 
 
 
diff --git a/include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp b/include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp
index c05b1c8..8057ebe 100644
--- a/include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp
+++ b/include/opengv/sac/implementation/MultiSampleConsensusProblem.hpp
@@ -174,7 +174,7 @@ opengv::sac::MultiSampleConsensusProblem<M>::setIndices(
 
 template<typename M>
 int
-opengv::sac::MultiSampleConsensusProblem<M>::rnd()
+opengv::sac::MultiSampleConsensusProblem<M>::rnd() const
 {
   return ((*rng_gen_) ());
 }
diff --git a/include/opengv/sac/implementation/SampleConsensusProblem.hpp b/include/opengv/sac/implementation/SampleConsensusProblem.hpp
index 7ae8ab2..fbf35f0 100644
--- a/include/opengv/sac/implementation/SampleConsensusProblem.hpp
+++ b/include/opengv/sac/implementation/SampleConsensusProblem.hpp
@@ -157,7 +157,7 @@ opengv::sac::SampleConsensusProblem<M>::setIndices(
 
 template<typename M>
 int
-opengv::sac::SampleConsensusProblem<M>::rnd()
+opengv::sac::SampleConsensusProblem<M>::rnd() const
 {
   return ((*rng_gen_)());
 }
diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 6f20e48..85ec660 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -174,8 +174,7 @@ opengv::sac_problems::
   int sampleSize = 4;
 
   //set it to a random cam index where to start
-  size_t binIndex = floor(((double) _adapter.getNumberFrames()) *
-      ((double) rand()) / ((double) RAND_MAX));
+  size_t binIndex = rnd() % _adapter.getNumberFrames();
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
diff --git a/src/sac_problems/relative_pose/EigensolverSacProblem.cpp b/src/sac_problems/relative_pose/EigensolverSacProblem.cpp
index 59191ce..1013033 100644
--- a/src/sac_problems/relative_pose/EigensolverSacProblem.cpp
+++ b/src/sac_problems/relative_pose/EigensolverSacProblem.cpp
@@ -31,6 +31,8 @@
 
 #include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
 
+#include <limits>
+
 #include <opengv/relative_pose/methods.hpp>
 #include <opengv/math/cayley.hpp>
 #include <opengv/triangulation/methods.hpp>
@@ -47,7 +49,7 @@ opengv::sac_problems::
   rotation_t rotation = _adapter.getR12();
   cayley_t cayley = math::rot2cayley(rotation);
   for( size_t i = 0; i < 3; i++ )
-    cayley[i] = cayley[i] + (((double) rand())/ ((double) RAND_MAX)-0.5)*2.0*maxVariation;
+    cayley[i] = cayley[i] + (((double) rnd())/ ((double) std::numeric_limits<int>::max())-0.5)*2.0*maxVariation;
   outModel.rotation = math::cayley2rot(cayley);
 
   opengv::relative_pose::eigensolver(_adapter,indices,outModel);
@@ -143,7 +145,7 @@ opengv::sac_problems::
     rotation_t rotation = model.rotation;
     cayley_t cayley = math::rot2cayley(rotation);
     for( size_t i = 0; i < 3; i++ )
-      cayley[i] = cayley[i] + (((double) rand())/ ((double) RAND_MAX)-0.5)*2.0*maxVariation;
+      cayley[i] = cayley[i] + (((double) rnd())/ ((double) std::numeric_limits<int>::max())-0.5)*2.0*maxVariation;
     temp_optimized_model.rotation = math::cayley2rot(cayley);
     opengv::relative_pose::eigensolver(_adapter,inliers,temp_optimized_model,true);
 
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 058f11e..d4716b9 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -70,8 +70,7 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         //ok, this block is a bit fancy now, don't ask
         std::vector<int> sindices;
         //set it to a random cam index where to start
-        size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-            ((double) rand()) / ((double) RAND_MAX));
+        size_t binIndex = rnd() % _adapter.getNumberPairs();
         std::vector<int> tempIndices;
         for( int i = 0; i < (int) indices.size(); i++ )
           tempIndices.push_back(0);
@@ -380,8 +379,7 @@ opengv::sac_problems::
   }
 
   //set it to a random cam index where to start
-  size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-      ((double) rand()) / ((double) RAND_MAX));
+  size_t binIndex = rnd() % _adapter.getNumberPairs();
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
-- 
2.43.0


From 4867115f30544c04ec0c35fc5625ee4ec1ba5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 03/18] fix: generalized eigensolver restarts do not touch the
 process-wide generator

---
 src/relative_pose/modules/main.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index 674c36b..4ea7ad7 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -30,6 +30,7 @@
 
 
 #include <math.h>
+#include <random>
 #include <vector>
 #include <Eigen/NonLinearOptimization>
 #include <Eigen/NumericalDiff>
@@ -913,6 +914,9 @@ opengv::relative_pose::modules::ge_main2(
   double disturbanceAmplitude = 0.3;
   bool found = false;
   int randomTrialCount = 0;
+  //own generator, such that the result depends on the input only
+  std::mt19937 generator(12345u);
+  std::uniform_real_distribution<double> distribution(-1.0,1.0);
   
   while( !found && randomTrialCount < 5 )
   {
@@ -925,9 +929,9 @@ opengv::relative_pose::modules::ge_main2(
     {
       cayley = startingPoint;
       Eigen::Vector3d disturbance;
-      disturbance[0] = (((double) rand())/ ((double) RAND_MAX)-0.5)*2.0*disturbanceAmplitude;
-      disturbance[1] = (((double) rand())/ ((double) RAND_MAX)-0.5)*2.0*disturbanceAmplitude;
-      disturbance[2] = (((double) rand())/ ((double) RAND_MAX)-0.5)*2.0*disturbanceAmplitude;
+      disturbance[0] = distribution(generator)*disturbanceAmplitude;
+      disturbance[1] = distribution(generator)*disturbanceAmplitude;
+      disturbance[2] = distribution(generator)*disturbanceAmplitude;
       cayley += disturbance;
     }
 	
-- 
2.43.0


From 5702d11b117c71f0cd3df28e27eb72d3788b4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 04/18] fix: RANSAC scores no more hypotheses than the
 configured maximum

---
 include/opengv/sac/implementation/MultiRansac.hpp | 2 +-
 include/opengv/sac/implementation/Ransac.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e723c96..3c85e49 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -127,7 +127,7 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index a01adc8..e37ea10 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -117,7 +117,7 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
-- 
2.43.0


From 19591fd2ec5e433d64c91201a766d4fe053bcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 05/18] fix: robust runs start from a clean sample and inlier
 set

---
 include/opengv/sac/implementation/Lmeds.hpp       | 5 ++++-
 include/opengv/sac/implementation/MultiRansac.hpp | 2 ++
 include/opengv/sac/implementation/Ransac.hpp      | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengv/sac/implementation/Lmeds.hpp b/include/opengv/sac/implementation/Lmeds.hpp
index 637b4b0..3a247dc 100644
--- a/include/opengv/sac/implementation/Lmeds.hpp
+++ b/include/opengv/sac/implementation/Lmeds.hpp
@@ -45,6 +45,10 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  iterations_ = 0;
+  model_.clear();
+  inliers_.clear();
+
   // Warn and exit if no threshold was set
   if (threshold_ == std::numeric_limits<double>::max())
   {
@@ -52,7 +56,6 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
 	  return (false);
   }
 
-  iterations_ = 0;
   double d_best_penalty = std::numeric_limits<double>::max();
 
   std::vector<int> best_model;
diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index 3c85e49..0f9128d 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -49,6 +49,8 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  model_.clear();
+  inliers_.clear();
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index e37ea10..03c26d6 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -49,6 +49,8 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  model_.clear();
+  inliers_.clear();
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
-- 
2.43.0


From 8dff3e5c4cf1b52a9d1ca9fb7379b730f2e3997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 06/18] fix: EPnP solves its least-squares steps without shared
 static scratch memory

---
 src/absolute_pose/modules/Epnp.cpp | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index d52e1ec..f9ab559 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -719,24 +719,11 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
 {
   Eigen::Matrix<double,4,6> A = A_orig.transpose();
 
-  static int max_nr = 0;
-  static double * A1, * A2;
+  double A1[6], A2[6];
 
   const int nr = A_orig.rows();
   const int nc = A_orig.cols();
 
-  if (max_nr != 0 && max_nr < nr)
-  {
-    delete [] A1;
-    delete [] A2;
-  }
-  if (max_nr < nr)
-  {
-    max_nr = nr;
-    A1 = new double[nr];
-    A2 = new double[nr];
-  }
-
   double * pA = A.data(), * ppAkk = pA;
   for(int k = 0; k < nc; k++)
   {
-- 
2.43.0


From 922a390b1daaebda1bfe2bb24e364c26907a57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 07/18] fix: rot2quaternion handles rotations with a zero
 quaternion component

---
 src/math/quaternion.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/math/quaternion.cpp b/src/math/quaternion.cpp
index 22d50db..14c951a 100644
--- a/src/math/quaternion.cpp
+++ b/src/math/quaternion.cpp
@@ -31,6 +31,15 @@
 
 #include <opengv/math/quaternion.hpp>
 
+namespace
+{
+//x/fabs(x) would be NaN for x==0, where either sign is correct
+double sign( double x )
+{
+  return x < 0.0 ? -1.0 : 1.0;
+}
+}
+
 opengv::rotation_t
 opengv::math::quaternion2rot( const quaternion_t & q)
 {
@@ -69,29 +78,29 @@ opengv::math::rot2quaternion( const rotation_t & R )
   if(q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3])
   {
     q[0] *= +1.0;
-    q[1] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
-    q[2] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[3] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
+    q[1] *= sign(R(2,1)-R(1,2));
+    q[2] *= sign(R(0,2)-R(2,0));
+    q[3] *= sign(R(1,0)-R(0,1));
   }
   else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])
   {
-    q[0] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
+    q[0] *= sign(R(2,1)-R(1,2));
     q[1] *= +1.0;
-    q[2] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
-    q[3] *= ((R(0,2)+R(2,0))/fabs(R(0,2)+R(2,0)));
+    q[2] *= sign(R(1,0)+R(0,1));
+    q[3] *= sign(R(0,2)+R(2,0));
   }
   else if(q[2] >= q[0] && q[2] >= q[1] && q[2] >= q[3])
   {
-    q[0] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[1] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
+    q[0] *= sign(R(0,2)-R(2,0));
+    q[1] *= sign(R(1,0)+R(0,1));
     q[2] *= +1.0;
-    q[3] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));
+    q[3] *= sign(R(2,1)+R(1,2));
   }
   else if(q[3] >= q[0] && q[3] >= q[1] && q[3] >= q[2])
   {
-    q[0] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
-    q[1] *= ((R(2,0)+R(0,2))/fabs(R(2,0)+R(0,2)));
-    q[2] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));  
+    q[0] *= sign(R(1,0)-R(0,1));
+    q[1] *= sign(R(2,0)+R(0,2));
+    q[2] *= sign(R(2,1)+R(1,2));  
     q[3] *= +1.0;
   }
   else
-- 
2.43.0


From f6af29b8f85b8611a8aee69e86f04cd52ad3cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 08/18] fix: p2p handles points that differ equally in x and y
 and not in z

---
 src/absolute_pose/methods.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index b1f0889..6ceb95b 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -73,7 +73,7 @@ opengv::absolute_pose::p2p(
   Eigen::Vector3d n1 = adapter.getPoint(index1) - adapter.getPoint(index0);
   n1 = n1/n1.norm();
   Eigen::Vector3d n3;
-  if( (fabs(n1[0]) > fabs(n1[1])) && (fabs(n1[0]) > fabs(n1[2])) )
+  if( (fabs(n1[0]) >= fabs(n1[1])) && (fabs(n1[0]) >= fabs(n1[2])) )
   {
     n3[1] = 1.0;
     n3[2] = 0.0;
@@ -81,7 +81,7 @@ opengv::absolute_pose::p2p(
   }
   else
   {
-    if( (fabs(n1[1]) > fabs(n1[0])) && (fabs(n1[1]) > fabs(n1[2])) )
+    if( (fabs(n1[1]) >= fabs(n1[0])) && (fabs(n1[1]) >= fabs(n1[2])) )
     {
       n3[2] = 1.0;
       n3[0] = 0.0;
-- 
2.43.0


From b03bd8b08bb418654c92730c607cc6d143091c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 09/18] fix: six-point hypotheses take the translation of the
 smallest eigenvalue

---
 .../MultiNoncentralRelativePoseSacProblem.cpp         | 11 ++++++-----
 .../NoncentralRelativePoseSacProblem.cpp              | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index d4716b9..96717ff 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -163,15 +163,16 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
             G = G + newElement;
           }
           
-          //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //decompose G to find the translation (the eigenvector of the smallest
+          //eigenvalue, eigenvalues are sorted in increasing order)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index df58181..701d993 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -112,15 +112,16 @@ opengv::sac_problems::
             G = G + newElement;
           }
           
-          //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //decompose G to find the translation (the eigenvector of the smallest
+          //eigenvalue, eigenvalues are sorted in increasing order)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
-- 
2.43.0


From b197c9c7a65746070babc3637959736adade7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 10/18] fix: multi-camera sample consensus objects are
 allocated aligned

---
 include/opengv/sac/MultiSampleConsensus.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengv/sac/MultiSampleConsensus.hpp b/include/opengv/sac/MultiSampleConsensus.hpp
index 2e6d67d..578f75c 100644
--- a/include/opengv/sac/MultiSampleConsensus.hpp
+++ b/include/opengv/sac/MultiSampleConsensus.hpp
@@ -62,6 +62,7 @@ template<typename PROBLEM_T>
 class MultiSampleConsensus
 {
 public:
+  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
   /** A child of MultiSampleConsensusProblem */
   typedef PROBLEM_T problem_t;
   /** The model we trying to fit */
-- 
2.43.0


From 612cf47542b8e263d219da75030f18b31e66475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 11/18] fix: ge sorts its eigenpairs in aligned storage

---
 src/relative_pose/modules/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index 4ea7ad7..aba0c2d 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -853,7 +853,7 @@ opengv::relative_pose::modules::ge_main(
   Eigen::Vector4d D;
   Eigen::Matrix4d V;
   
-  std::vector< myPair_ge > pairs;
+  std::vector< myPair_ge, Eigen::aligned_allocator<myPair_ge> > pairs;
   for(size_t i = 0; i < 4; i++) {
     myPair_ge newPair;
     newPair.second = D_complex[i].real();
@@ -1028,7 +1028,7 @@ opengv::relative_pose::modules::ge_main2(
   Eigen::Vector4d D;
   Eigen::Matrix4d V;
   
-  std::vector< myPair_ge > pairs;
+  std::vector< myPair_ge, Eigen::aligned_allocator<myPair_ge> > pairs;
   for(size_t i = 0; i < 4; i++) {
     myPair_ge newPair;
     newPair.second = D_complex[i].real();
-- 
2.43.0


From d17aba13d8f2130d81c52b4fd701eded0e87280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 12/18] fix: EPnP: zero Gauss-Newton step when the linear
 system is singular

qr_solve returned without assigning X, and gauss_newton added the
indeterminate values to the betas.
---
 src/absolute_pose/modules/Epnp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index f9ab559..356b374 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -738,6 +738,7 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
     if (eta == 0)
     {
       A1[k] = A2[k] = 0.0;
+      X.setZero();
       cerr << "God damnit, A is singular, this shouldn't happen." << endl;
       return;
     }
-- 
2.43.0


From f0dd9f364b467c3ece5bc54046630260f3f183d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 13/18] fix: o3_roots returned NaN for triple roots and when
 b*b == 3*a*c

With theta_0 = 0 and a negative theta_1 the square root cancelled theta_1, the
third root was zero and all roots became NaN (for example x^3-1). Triple roots
divided 0 by 0.
---
 src/math/roots.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index c31b27c..e63dafd 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -52,7 +52,9 @@ opengv::math::o3_roots( const std::vector<double> & p )
   
   if( term >= 0.0 )
   {
-    double C3 = 0.5 * (theta_1 + sqrt(term));
+    //add the square root with the sign of theta_1, such that the two terms do
+    //not cancel out
+    double C3 = 0.5 * (theta_1 < 0.0 ? theta_1 - sqrt(term) : theta_1 + sqrt(term));
     
     if( C3 < 0.0 )
       C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
@@ -73,6 +75,10 @@ opengv::math::o3_roots( const std::vector<double> & p )
     C = std::complex<double>(r*cos(a3/3.0),r*sin(a3/3.0));
   }
   
+  //triple root
+  if( C.real() == 0.0 && C.imag() == 0.0 )
+    return std::vector<double>( 3, -b/(3.0*a) );
+
   std::complex<double> r1 = -(1.0/(3.0*a)) * (b + u1*C + theta_0 / (u1*C) );
   std::complex<double> r2 = -(1.0/(3.0*a)) * (b + u2*C + theta_0 / (u2*C) );
   std::complex<double> r3 = -(1.0/(3.0*a)) * (b + u3*C + theta_0 / (u3*C) );
-- 
2.43.0


From 29cedbc40c284dd0a145cec9d468e1cd5989540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 14/18] fix: o4_roots divided by zero for biquadratic
 polynomials

The resolvent yields w = 0 for beta = 0, and beta/w is then not a number or
wrong (for example x^4-1, or a quadruple root).
---
 src/math/roots.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index e63dafd..242a695 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -113,6 +113,21 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
   double alpha_pw2 = alpha*alpha;
   double alpha_pw3 = alpha_pw2*alpha;
 
+  //biquadratic case (w might vanish, and beta/w would be undefined)
+  if( beta == 0.0 )
+  {
+    std::complex<double> z = sqrt(std::complex<double>(alpha_pw2-4.0*gamma,0.0));
+    std::complex<double> x1 = sqrt((-alpha+z)/2.0);
+    std::complex<double> x2 = sqrt((-alpha-z)/2.0);
+
+    std::vector<double> biquadraticRoots;
+    biquadraticRoots.push_back(-B/(4.0*A) + x1.real());
+    biquadraticRoots.push_back(-B/(4.0*A) - x1.real());
+    biquadraticRoots.push_back(-B/(4.0*A) + x2.real());
+    biquadraticRoots.push_back(-B/(4.0*A) - x2.real());
+    return biquadraticRoots;
+  }
+
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
   std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
@@ -164,6 +179,21 @@ opengv::math::o4_roots( const std::vector<double> & p )
   double alpha_pw2 = alpha*alpha;
   double alpha_pw3 = alpha_pw2*alpha;
 
+  //biquadratic case (w might vanish, and beta/w would be undefined)
+  if( beta == 0.0 )
+  {
+    std::complex<double> z = sqrt(std::complex<double>(alpha_pw2-4.0*gamma,0.0));
+    std::complex<double> x1 = sqrt((-alpha+z)/2.0);
+    std::complex<double> x2 = sqrt((-alpha-z)/2.0);
+
+    std::vector<double> biquadraticRoots;
+    biquadraticRoots.push_back(-B/(4.0*A) + x1.real());
+    biquadraticRoots.push_back(-B/(4.0*A) - x1.real());
+    biquadraticRoots.push_back(-B/(4.0*A) + x2.real());
+    biquadraticRoots.push_back(-B/(4.0*A) - x2.real());
+    return biquadraticRoots;
+  }
+
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
   std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
-- 
2.43.0


From ab9d1c2ddbf3f0af76f602eb88eefa70086cd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 15/18] fix: Sturm sequence was wrong when the degree of a
 remainder drops by more than one

The remainder was computed assuming a divisor whose degree is exactly one lower,
dividing by a vanishing leading coefficient otherwise (x^4+x-1 lost a root).
---
 src/math/Sturm.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 0cebf13..45e50e6 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -441,21 +441,28 @@ opengv::math::Sturm::computeNegatedRemainder(
     const Eigen::MatrixXd & p2,
     Eigen::MatrixXd & r )
 {
-  //we have to create 3 subtraction polynomials
-  Eigen::MatrixXd poly_1(1,p1.cols());
-  poly_1.block(0,0,1,p2.cols()) = (p1(0,0)/p2(0,0)) * p2;
-  poly_1(0,p1.cols()-1) = 0.0;
+  r = -p1;
 
-  Eigen::MatrixXd poly_2(1,p1.cols());
-  poly_2.block(0,1,1,p2.cols()) = (p1(0,1)/p2(0,0)) * p2;
-  poly_2(0,0) = 0.0;
+  //find the leading coefficient of the divisor (its degree might be lower)
+  int lead = 0;
+  while( lead < p2.cols() && p2(0,lead) == 0.0 )
+    lead++;
 
-  Eigen::MatrixXd poly_3(1,p1.cols());
-  poly_3.block(0,1,1,p2.cols()) = (-p2(0,1)*p1(0,0)/pow(p2(0,0),2)) * p2;
-  poly_3(0,0) = 0.0;
+  //no divisor, the sequence ended before
+  if( lead == p2.cols() )
+  {
+    r.setZero();
+    return;
+  }
 
-  //compute remainder
-  r = -p1 + poly_1 + poly_2 + poly_3;
+  //polynomial long division
+  int length = p2.cols() - lead;
+  for( int i = 0; i + length <= p1.cols(); i++ )
+  {
+    double factor = r(0,i) / p2(0,lead);
+    r.block(0,i,1,length) -= factor * p2.block(0,lead,1,length);
+    r(0,i) = 0.0;
+  }
 }
 
 double
-- 
2.43.0


From 1e01a02eb70e85c37a17022e0cd5d6bc1fdf4270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 16/18] fix: Sturm missed real roots located on the Lagrangian
 bound

All real roots need to be strictly inside the initial bracket (x^2-1 returned no
root, x^2-5x missed 5); linear polynomials started from a bound below the root.
---
 src/math/Sturm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 45e50e6..89156fa 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -31,6 +31,7 @@
 
 #include <opengv/math/Sturm.hpp>
 #include <iostream>
+#include <limits>
 
 
 
@@ -487,13 +488,14 @@ opengv::math::Sturm::computeLagrangianBound()
 
   coefficients[j] = -1.0;
 
-  double max2 = -1.0;
+  double max2 = 0.0;
   for( size_t i=0; i < coefficients.size(); i++ )
   {
     if( coefficients[i] > max2 )
       max2 = coefficients[i];
   }
 
-  double bound = max1 + max2;
+  //all roots have to be inside, and not on the bound
+  double bound = 1.0001 * (max1 + max2) + std::numeric_limits<double>::min();
   return bound;
 }
-- 
2.43.0


From 409f9010a6a5c5750b0be31d60b23c315bd8a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 17/18] fix: gpnp compared the pose hypotheses against one
 control point instead of four

---
 src/absolute_pose/modules/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index ed0c271..61c3779 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -450,9 +450,9 @@ opengv::absolute_pose::modules::gpnp_main(
   Eigen::Matrix<double,12,1> vec_1 = V.col(11);
 
   point_t c0 = c[0];
-  point_t c1 = c[0];
-  point_t c2 = c[0];
-  point_t c3 = c[0];
+  point_t c1 = c[1];
+  point_t c2 = c[2];
+  point_t c3 = c[3];
 
   Eigen::Matrix<double,12,1> solution;
   std::vector<double> errors;
-- 
2.43.0


From 8f9ecd6b1eacb1ac1c7595df2eb3e5142377d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 18/18] fix: gpnp used a wrong coefficient for the
 five-dimensional null space

---
 src/absolute_pose/modules/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 61c3779..4b3a4fc 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -561,7 +561,7 @@ opengv::absolute_pose::modules::gpnp_main(
       groebnerMatrix5(39,78)*factors[0]+groebnerMatrix5(39,79))/
       groebnerMatrix5(39,75);
   factors.push_back(
-      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[1]+
+      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[2]+
       groebnerMatrix5(38,77)*factors[1]+groebnerMatrix5(38,78)*factors[0]+
       groebnerMatrix5(38,79))/groebnerMatrix5(38,74));
   gpnp_optimize( a, V, c, factors );
-- 
2.43.0

