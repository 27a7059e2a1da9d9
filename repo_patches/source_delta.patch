From bf15f5fe9cfaae3c524599a75b60deb5a65628ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 001/104] fix: dual regressor prediction reads the point's size
 through its public accessor

---
 .../include/ufjfmltk/regressor/DualRegressor.hpp                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/DualRegressor.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/DualRegressor.hpp
index c5d1ed3..82e7d6b 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/DualRegressor.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/DualRegressor.hpp
@@ -22,7 +22,7 @@ namespace mltk{
                     double func = 0.0;
                     size_t i, dim = this->solution.w.size();
 
-                    if(p.x.size() != dim){
+                    if(p.X().size() != dim){
                         std::cerr << "The point must have the same dimension of the feature set!" << std::endl;
                         return 0;
                     }
-- 
2.43.0


From 9a97b561ab21e1b256f181268bbae2a99a87aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 002/104] fix: distance coefficients are no longer truncated by
 integer division

---
 .../include/ufjfmltk/core/DistanceMetric.hpp           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 626c4a4..69d019b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -107,7 +107,7 @@ namespace mltk::metrics::dist{
         class  NonIntersection : public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1 / 2) * mltk::abs(p1 - p2).sum();
+                return 0.5 * mltk::abs(p1 - p2).sum();
             }
         };
 
@@ -318,7 +318,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Average";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt((1/p1.size())*(mltk::pow(p1 - p2, 2)).sum());
+                return std::sqrt((mltk::pow(p1 - p2, 2)).sum()/p1.size());
             }
         };
 
@@ -400,7 +400,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenShannon";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * (p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum();
+                return 0.5 * ((p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum());
             }
         };
 
@@ -412,7 +412,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenDifference";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
+                return 0.5 * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
             }
         };
 
@@ -464,7 +464,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "KumarJohnson";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 3/2))).sum();
+                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 1.5))).sum();
             }
         };
 
-- 
2.43.0


From 8221f80a1150aaddfd6af6ccdedda155e9f8bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 003/104] fix: Lorentzian distance takes the logarithm of one
 plus the absolute difference

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 69d019b..bed12c4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -75,7 +75,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Lorentzian";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::log(1 - mltk::abs(p1 - p2)).sum();
+                return mltk::log(1 + mltk::abs(p1 - p2)).sum();
             }
         };
 
-- 
2.43.0


From 81a22c6f771f43ba31d7d5a5ccc1001b7d839764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 004/104] fix: Bhattacharyya distance is the negative logarithm
 of the coefficient

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index bed12c4..72e190a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -172,7 +172,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Bhattacharyya";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return -std::sqrt(mltk::pow(p1 * p2, 0.5).sum());
+                return -std::log(mltk::pow(p1 * p2, 0.5).sum());
             }
         };
 
-- 
2.43.0


From b66e148ff8b2b705cb108b56cfa0dcc7359ea4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 005/104] fix: Clark distance takes the square root of the sum
 of squares

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 72e190a..c3586a3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -234,7 +234,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Clark";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum();
+                return std::sqrt(mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum());
             }
         };
 
-- 
2.43.0


From 0d3783ceb94c61c439a67649a02c1361758b4b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 006/104] fix: MinSymmetric distance returns the smaller of the
 two divergences

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index c3586a3..fa8ab07 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -438,7 +438,7 @@ namespace mltk::metrics::dist{
         class  MinSymmetric: public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::max((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
+                return std::min((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
             }
         };
 
-- 
2.43.0


From 809279879f3f3be5e85c3adabcc5be057b336d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 007/104] fix: Hassanat distance shifts both terms by the
 magnitude of the minimum

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index fa8ab07..fb9117f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -495,7 +495,7 @@ namespace mltk::metrics::dist{
                         sum += 1 - (1+_min)/(1+std::max(p1[i], p2[i]));
                     }else{
                         auto _max = std::max(p1[i], p2[i]);
-                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_max));
+                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_min));
                     }
                 }
                 return sum;
-- 
2.43.0


From 85ac87fe8531ea4ecb849147a6c356c4849a9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 008/104] fix: maximum of a point with only negative components

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..2fbe61b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From c8e716432094abb3b18116a9caf29af37b85c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 009/104] fix: assigning a shorter point or vector shrinks the
 target

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2fbe61b..935d9da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From 52c5bdd6cbf9c50a1cc2331ca740c6b0303684a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 010/104] fix: return the raw decision value from primal and
 dual classifiers when requested

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp              | 2 ++
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..e5a2bf7 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,8 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
+
                 return (func >= 0) ? 1 : -1;
             }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..29df06b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -53,6 +53,8 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
+
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From eaa1d15b07a9a16e3a77bcc6965727968062affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 011/104] fix: KNN with more neighbors than samples reads past
 the end of the index vector

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp    | 12 +++++++-----
 .../include/ufjfmltk/regressor/KNNRegressor.hpp      |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..1a2957b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -68,6 +68,8 @@ namespace mltk{
                 std::vector<size_t> idx(distances.size());
                 std::vector<PointPointer<T>> neigh;
                 auto p0 = std::make_shared<Point<T> >(p);
+                // there can't be more neighbors than samples
+                const size_t n_neigh = std::min(this->k, idx.size());
                
                 if(algorithm == "brute"){
                     // fill the index vector
@@ -81,19 +83,19 @@ namespace mltk{
 
 
                         // sort the index vector by the metrics from the sample to be evaluated
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&distances](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + n_neigh, idx.end(), [&distances](size_t i1, size_t i2) {
                             return distances[i1] < distances[i2];
                         });
                     }else if(!this->distances.isDiagonalMatrix()){
                         size_t idp = p.Id()-1;
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + n_neigh, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
 
                             return this->distances[idp][id1] < this->distances[idp][id2];
                         }); 
                     } else { 
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + n_neigh, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
@@ -111,9 +113,9 @@ namespace mltk{
                     }
                 }
                // Define frequency counting logic in a lambda function.
-                auto calculateFrequency = [&idx, &points, &neigh, this](int c) {
+                auto calculateFrequency = [&idx, &points, &neigh, &n_neigh, this](int c) {
                     if (algorithm == "brute") {
-                        return std::count_if(idx.begin(), idx.begin() + this->k, [&points, &c](size_t id) { 
+                        return std::count_if(idx.begin(), idx.begin() + n_neigh, [&points, &c](size_t id) { 
                             return points[id]->Y() == c; 
                         });
                     } else {
diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
index f74ab17..bf8d62f 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
@@ -53,10 +53,11 @@ namespace mltk{
                     double sum = 0.0;
 
                     // sum the values in the k nearest neighbors and return the average
-                    for (size_t j = 0; j < this->k; j++) {
+                    const size_t n_neigh = std::min(this->k, idx.size());
+                    for (size_t j = 0; j < n_neigh; j++) {
                         sum += points[idx[j]]->Y();
                     }
-                    return sum / this->k;
+                    return sum / n_neigh;
                 }
             };
         }
-- 
2.43.0


From 1c3d091f27624dedd9166edf06c0db43257f03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 012/104] fix: KNN prediction probability was reported as 1 for
 every prediction

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 1a2957b..565987c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -145,7 +145,7 @@ namespace mltk{
                     }
                 }
 
-                this->pred_prob = (1-max_prob > 1E-7) ? 1: max_prob;
+                this->pred_prob = (1-max_prob < 1E-7) ? 1: max_prob;
 
                 return classes[maxDetails.second];
             }
-- 
2.43.0


From b19fabe761f044ef96d9491e3a64f16e052cd57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 013/104] fix: AdaBoost weighted error and reweighting used
 squared sample weights

---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 257004b..fe1085f 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -44,7 +44,7 @@ namespace mltk {
                     for(size_t i = 0; i < _size; i++){
                         auto point = (*this->samples)[i];
 
-                        if(point->Y() != learner->evaluate(*point)) errors[i] = weights[i];
+                        if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
                     err[m] = mltk::dot(weights, errors)/weights.sum();
-- 
2.43.0


From aefb7cf59e9ac421a45205468ee05f299007a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 014/104] fix: H matrix without a dimension carries the labels
 in both triangles

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..88d7565 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -206,8 +206,9 @@ namespace mltk{
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
             for (j = i; j < size; ++j) {
-                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim());
-                HwithoutDim[j][i] = HwithoutDim[i][j]*samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim()) *
+                        samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[j][i] = HwithoutDim[i][j];
             }
         }
     // clog << "\nH matrix without dim generated.\n";
-- 
2.43.0


From 1def9479f99b65be239246df3c953c55ca28c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 015/104] fix: polynomial kernel without a dimension uses the
 same formula as the full kernel

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 88d7565..1bd79f9 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -273,7 +273,7 @@ namespace mltk{
                 for(i = 0; i < dim; ++i)
                     if(i != j)
                         sum += (*one)[i] * (*two)[i];
-                sum = (param > 1) ? std::pow(sum+1, param) : sum;
+                sum = (param > 1) ? std::pow(sum, param) : sum;
                 break;
 
             case mltk::GAUSSIAN: //Gaussiano
-- 
2.43.0


From df039bddb1ad313c6735a3478c629987eccd3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 016/104] fix: kernel norm sums each pair of points once

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 1bd79f9..fcdaf6d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -303,10 +303,11 @@ namespace mltk{
         sum = sum1 = 0;
 
         for(i = 0; i < size; ++i){
+            sum1 = 0;
             for(j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
         return sqrt(sum);
-- 
2.43.0


From e6b449aaa676f8de5fda349382682ebfbccd5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 017/104] fix: rows of the H matrix are resized with the
 dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index fcdaf6d..1240c7b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From fbcc142f65968a429637bda7e563437a63e8f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 018/104] fix: validation report prints the recall and the
 F1-score under their names

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..57ec2bc 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -50,8 +50,8 @@ namespace mltk::validation {
                 std::cout << "False positives: " << fp << std::endl;
                 std::cout << "False negatives: " << fn << std::endl;
                 std::cout << "Precision: " << precision << std::endl;
-                std::cout << "Recall: " << precision << std::endl;
-                std::cout << "F1-score: " << precision << std::endl;
+                std::cout << "Recall: " << recall << std::endl;
+                std::cout << "F1-score: " << fscore << std::endl;
                 std::cout << "Accuracy: " << accuracy << std::endl;
             }
         };
-- 
2.43.0


From 64dc7177427f3a917f5a9ff40cecaace93a1ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 019/104] fix: classificationReport computes its ratios in
 floating point and the specificity from true negatives and false positives

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 57ec2bc..e16fd85 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -628,10 +628,10 @@ namespace mltk::validation {
             }
         }
         report.accuracy /= real.size();
-        report.sensitivity = report.tp/(report.tp+report.fn);
-        report.specificity = report.tn/(report.fn+report.tn);
-        report.precision = report.tp/(report.tp+report.fp);
-        report.recall = report.tp/(report.tp+report.fn);
+        report.sensitivity = (double)report.tp/(report.tp+report.fn);
+        report.specificity = (double)report.tn/(report.tn+report.fp);
+        report.precision = (double)report.tp/(report.tp+report.fp);
+        report.recall = report.sensitivity;
         report.fscore = 2*(report.precision*report.recall)/(report.precision + report.recall);
         return report;
     }
-- 
2.43.0


From bef1e76ce5c15f2b8a8386e74a467681e904860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 020/104] fix: classificationReport is defined inline like the
 other functions of the header

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index e16fd85..4f2af7b 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -601,7 +601,7 @@ namespace mltk::validation {
         return confusion_m;
     }
 
-    ValidationReport classificationReport(const Point<int> &real, const Point<int> &predicted){
+    inline ValidationReport classificationReport(const Point<int> &real, const Point<int> &predicted){
         assert((real.size() == predicted.size()) && "Desired and predicted values points of different sizes. ");
         ValidationReport report;
         std::set<int> unique_labels;
-- 
2.43.0


From 040488904a0afecfcb88b05844af4b08fd185b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 021/104] fix: confusion matrix rows are the true classes, as
 documented and as the metrics read them

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 4f2af7b..5a2225f 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -596,7 +596,7 @@ namespace mltk::validation {
                 }
                 if (idp && idy) break;
             }
-            confusion_m[idp][idy]++;
+            confusion_m[idy][idp]++;
         }
         return confusion_m;
     }
-- 
2.43.0


From 6e3a6265fe1774e06b8ab96cab78cf79c948f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 022/104] fix: metrics report counts true negatives as correct
 predictions

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 5a2225f..9747ca1 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -566,7 +566,7 @@ namespace mltk::validation {
             }
         }
 
-        report.accuracy = (double)report.tp / data.size();
+        report.accuracy = (double)(report.tp + report.tn) / data.size();
         report.error = 1.0 - report.accuracy;
         report.errors = report.fp+report.fn;
         report.sensitivity = (double)report.tp/(report.tp + report.fn);
-- 
2.43.0


From ac5eb88a690a4f241ce2c5823109e888c917e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 023/104] fix: repeated k-fold validation splits its final test
 set as requested

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 9747ca1..e432eb5 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -201,7 +201,7 @@ namespace mltk::validation {
     ValidationReport kkfold(Data<T> samples, classifier::Classifier<T> &classifier, const size_t qtde,
                             const size_t fold, bool stratified, const size_t seed, const int verbose){
         size_t _seed = (seed == 0) ? std::random_device{}() : seed;
-        auto valid_pair = partTrainTest(samples, fold, true, true,  _seed);
+        auto valid_pair = partTrainTest(samples, fold, stratified, true,  _seed);
         int i;
         size_t fp = 0, fn = 0, tp = 0, tn = 0, erro=0;
         double error = 0, errocross = 0, func = 0.0, margin = 0, bias;
-- 
2.43.0


From 76d381d3f939db3366c0774126ce27581644fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:04 +0000
Subject: [PATCH 024/104] fix: initialising the random generator always reseeds
 it

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 32 ++++++++++++++++++----
 subprojects/ufjfmltk-core/src/Random.cpp   |  9 ++----
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index c26fe0f..0f0e864 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -5,6 +5,16 @@
 #include "ufjfmltk/core/Datasets.hpp"
 
 namespace mltk::datasets {
+    /// Point with coordinates drawn from the already initialized generator.
+    template < typename distribution = std::uniform_real_distribution<double> >
+    static mltk::Point<double> random_point(size_t size, double val1, double val2) {
+        mltk::Point<double> p(size);
+        for (size_t i = 0; i < size; i++) {
+            p[i] = mltk::random::floatInRange<double, distribution>(val1, val2);
+        }
+        return p;
+    }
+
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
         mltk::random::init(seed);
@@ -13,12 +23,12 @@ namespace mltk::datasets {
 
         dataset.setName("spirals");
 
-        mltk::Point<> theta = mltk::random_init<double>(samples_byclass, seed) * n_loops * 360.0 * M_PI / 180.0;
+        mltk::Point<> theta = random_point(samples_byclass, 0.0, 1.0) * n_loops * 360.0 * M_PI / 180.0;
         mltk::Point<> r = theta * margin * n_classes;
         for (int i = 0; i < n_classes; i++) {
             mltk::Point<> rotated_theta = theta + i * 2.0 * M_PI / n_classes;
-            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
-            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
+            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + random_point(samples_byclass, 0.0, 1.0) * noise;
+            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + random_point(samples_byclass, 0.0, 1.0) * noise;
 
             for (size_t j = 0; j < samples_byclass; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
@@ -43,6 +53,10 @@ namespace mltk::datasets {
         return dataset;
     }
 
+    static BlobsPair generate_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                                    std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
+                                    size_t seed);
+
     BlobsPair make_blobs(size_t n_samples, int n_centers, int n_dims, double cluster_std, double center_min,
                          double center_max, bool shuffle, const bool has_classes, const size_t seed) {
         mltk::random::init(seed);
@@ -56,13 +70,19 @@ namespace mltk::datasets {
             }
         });
 
-        return make_blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+        return generate_blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
     }
 
     BlobsPair make_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
                          std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
                          size_t seed) {
         mltk::random::init(seed);
+        return generate_blobs(n_samples, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+    }
+
+    static BlobsPair generate_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                                    std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
+                                    size_t seed) {
         mltk::Data<double> dataset;
         BlobsPair pair;
         dataset.setName("blobs");
@@ -114,8 +134,8 @@ namespace mltk::datasets {
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
         n_informative = std::min(n_dims, n_informative);
-        auto random_init = [&n_dims, seed](const mltk::PointPointer<double> &point) {
-            *point = mltk::random_init<double, std::normal_distribution<double>>(0, 1, n_dims, seed);
+        auto random_init = [&n_dims](const mltk::PointPointer<double> &point) {
+            *point = random_point<std::normal_distribution<double>>(n_dims, 0, 1);
         };
 
         dataset.apply(random_init);
diff --git a/subprojects/ufjfmltk-core/src/Random.cpp b/subprojects/ufjfmltk-core/src/Random.cpp
index 0498a7a..60d032a 100755
--- a/subprojects/ufjfmltk-core/src/Random.cpp
+++ b/subprojects/ufjfmltk-core/src/Random.cpp
@@ -10,12 +10,9 @@ namespace mltk::random {
     std::mt19937 m_generator{std::random_device{}()};
 
     size_t  init(unsigned int seed) {
-        if(seed != seed_param){
-            m_generator.discard(std::mt19937::state_size);
-            seed_param = seed;
-            m_seed = (seed == 0)?std::random_device {} (): seed;
-            m_generator.seed(m_seed);
-        }
+        seed_param = seed;
+        m_seed = (seed == 0)?std::random_device {} (): seed;
+        m_generator.seed(m_seed);
         return m_seed;
     }
 
-- 
2.43.0


From 5b8138a6280a8bae2f673870a7eaae95e6ba5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 025/104] fix: bagging uses the seed of the learner instead of
 a shadowing member

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 52ee33f..e322619 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -12,7 +12,6 @@ namespace mltk {
         class BaggingClassifier : public Ensemble<T>, public classifier::Classifier<T> {
         private:
             size_t n_estimators = 10;
-            size_t seed = 0;
 
         public:
             BaggingClassifier() = default;
@@ -20,7 +19,8 @@ namespace mltk {
             template<class Estimator>
             explicit BaggingClassifier(const Data<T> &samples, const Estimator &estimator, size_t n_estimators = 10,
                                        size_t seed = 0)
-                    : n_estimators(n_estimators), seed(seed) {
+                    : n_estimators(n_estimators) {
+                this->seed = seed;
                 this->samples = mltk::make_data<T>(samples);
                 this->m_learners.resize(n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
@@ -29,13 +29,13 @@ namespace mltk {
             }
 
             bool train() override {
-                seed = (seed == 0) ? std::random_device()() : seed;
+                this->seed = (this->seed == 0) ? std::random_device()() : this->seed;
 
                 size_t samp_size = this->samples->size() / n_estimators;
                 for (size_t i = 0; i < n_estimators; i++) {
-                    size_t salt = (seed == 0) ? std::random_device()() : i;
-                    this->m_learners[i]->setSeed(seed+salt);
-                    this->m_learners[i]->setSamples(this->samples->sampling(samp_size, true, seed+salt));
+                    size_t salt = (this->seed == 0) ? std::random_device()() : i;
+                    this->m_learners[i]->setSeed(this->seed+salt);
+                    this->m_learners[i]->setSamples(this->samples->sampling(samp_size, true, this->seed+salt));
                     this->m_learners[i]->train();
                 }
                 return true;
-- 
2.43.0


From 79847a36cbe8f045f528b83e05c8c1c7da1286e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 026/104] fix: the perceptron committee seeds its members

---
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 5e06db4..bc2a1d8 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -21,6 +21,7 @@ namespace mltk{
                 this->m_learners.resize(n);
                 for (size_t i = 0; i < n; i++) {
                     this->m_learners[i] = std::make_shared<classifier::BalancedPerceptron<T>>();
+                    this->m_learners[i]->setSeed((this->seed == 0) ? 0 : this->seed + i);
                     this->m_learners[i]->setSamples(this->samples);
                     this->m_learners[i]->train();
                 }
-- 
2.43.0


From d6c1c6ab39af78c7c1a6a105d226ee09cf9af9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 027/104] fix: one-vs-all and one-vs-one hand their seed to
 their members

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp | 1 +
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index c0b425e..6071b63 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -74,6 +74,7 @@ namespace mltk{
                     }
 
                     // train the current learner
+                    if (this->seed != 0) learner->setSeed(this->seed);
                     learner->setSamples(temp_samples);
                     learner->train();
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 804611a..bb12899 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -109,6 +109,7 @@ namespace mltk{
                         }
 
                         // train the current binary learner
+                        if (this->seed != 0) learner->setSeed(this->seed);
                         learner->setSamples(temp_samples);
                         learner->train();
                     }
-- 
2.43.0


From ad4617f4b42f334ab99061bfc3969cf86e37b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 028/104] fix: distance matrix rows are placed by point id in
 every work item

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..01d1c50 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -37,20 +37,23 @@ namespace mltk::metrics::dist {
 
         void compute(const mltk::Data<double> &data) {
             mltk::ThreadPool pool(threads);
-            
+
+            // the ids of the points may exceed their number (a part of a larger dataset)
+            size_t n_rows = data.size();
+            for(size_t i = 0; i < data.size(); i++) n_rows = std::max(n_rows, data(i).Id());
+            this->rows.resize(n_rows);
+
             auto loop = [data, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    // rows and columns are those of the points' ids, whatever their order in the dataset
+                    const size_t row = data(idx).Id()-1;
+                    this->rows[row] = mltk::Point<double>((isDiagonal) ? row+1 : rows.size());
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
+                    for(size_t j = 0; j < data.size(); j++){
+                        const size_t col = data(j).Id()-1;
+                        if(col == row || (isDiagonal && col > row)) continue;
+                        this->rows[row][col] = this->dist_function(data(idx), data(j));
                     }
-                    
-                    if(isDiagonal) continue;
-
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
                 }
             };
 
-- 
2.43.0


From 81d1775178827f72d44fe17c85a7ac0f263b60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 029/104] fix: one-vs-all and one-vs-one start without a
 sampling method

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp                    | 2 +-
 .../include/ufjfmltk/classifier/OneVsOne.hpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index 6071b63..b149d9f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -20,7 +20,7 @@ namespace mltk{
                 using LearnerPointer = std::shared_ptr<Learner<T> >;
 
                 /// Over sampling method (optional)
-                OverSampling<T> *samp_method;
+                OverSampling<T> *samp_method = nullptr;
                 /// Vector of binary base m_learners
                 std::vector<LearnerPointer> base_learners;
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index bb12899..0be6ba4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -22,7 +22,7 @@ namespace mltk{
             /// Matrix of binary base m_learners
             std::vector<std::vector<LearnerPointer> > base_learners;
             /// Over sampling method used during training (optional)
-            OverSampling<T> *samp_method;
+            OverSampling<T> *samp_method = nullptr;
 
         public:
             OneVsOne() = default;
-- 
2.43.0


From 45fc40f16dfe63f64c98758a5ef03e793666e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 030/104] fix: IMA learners initialise their margin and
 counters

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ff4e8c..8f1927a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -25,7 +25,7 @@ namespace mltk{
         template<typename T = double>
         class IMAp : public PrimalClassifier<T> {
         private:
-            double margin;
+            double margin = 0.0;
             /// Support vector.
             std::vector<int> svs;
 
@@ -52,9 +52,9 @@ namespace mltk{
         template<typename T = double>
         class IMApFixedMargin : public PrimalClassifier<T> {
         private:
-            int n, maiorn = 0, flagNao1aDim;
+            int n = 0, maiorn = 0, flagNao1aDim = 0;
             double margin = 0.0, maiorw = 0.0;
-            unsigned long tMax;
+            unsigned long tMax = 0;
 
             /// Support vector.
             std::vector<int> svs;
-- 
2.43.0


From 042007944d2bfbd63c419e7f88a6bc14f6b52cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 031/104] fix: feature selection methods initialise their
 members

---
 .../include/ufjfmltk/featselect/AOS.hpp              | 12 ++++++------
 .../include/ufjfmltk/featselect/FeatureSelection.hpp |  4 ++--
 .../include/ufjfmltk/featselect/Fisher.hpp           |  4 ++--
 .../include/ufjfmltk/featselect/Golub.hpp            |  6 +++---
 .../include/ufjfmltk/featselect/RFE.hpp              |  6 +++---
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 9274dd6..e21e50c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -127,14 +127,14 @@ namespace mltk{
         private:
             const size_t HASH_SIZE = 161387, HASH_WIDTH = 100;
             int breadth = 0, cut = 0, sorting_shape = 0, choice_shape = 0, startover = 0, look_ahead_depth = 0, ftime = 0, lool = 0;
-            int dim_orig = 1, startdim;
-            int contheap_parcial, contheapreins_parcial, conthash_parcial, contprooning_parcial, maxheapsize_parcial,
-                    contnaoheap_parcial, conthashnaoheap_parcial, contexpandidos_parcial, contprojetados_parcial,
-                    contprojtreinados_parcial, sobraprojecoes_parcial;
+            int dim_orig = 1, startdim = 0;
+            int contheap_parcial = 0, contheapreins_parcial = 0, conthash_parcial = 0, contprooning_parcial = 0, maxheapsize_parcial = 0,
+                    contnaoheap_parcial = 0, conthashnaoheap_parcial = 0, contexpandidos_parcial = 0, contprojetados_parcial = 0,
+                    contprojtreinados_parcial = 0, sobraprojecoes_parcial = 0;
             int contexpanded = 0, contnotheap = 0, contprojected = 0, contprojtrained = 0, conthashnotheap = 0;
             double bonus = 0.0, n0 = 1, max_time = 0, kfolderror = 0, g_margin = 0;
-            double partial_margin, partial_svs, partial_time, partial_dim;
-            double START_TIME, initial_time, max_time_orig;
+            double partial_margin = 0, partial_svs = 0, partial_time = 0, partial_dim = 0;
+            double START_TIME = 0, initial_time = 0, max_time_orig = 0;
             bool doleave_oo = false;
             double mult_tempo = 2;
         public:
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
index 132956d..5c0d710 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
@@ -20,9 +20,9 @@ namespace mltk{
             /// Samples where the features will be selected
             std::shared_ptr<Data<T> > samples;
             /// Classifier used by the method
-            classifier::Classifier<T> *classifier;
+            classifier::Classifier<T> *classifier = nullptr;
             /// Structure to hold the cross-validation result
-            validation::CrossValidation *cv;
+            validation::CrossValidation *cv = nullptr;
             /// Solution of the feature selection
             Solution solution;
             /// Timer for time measuring
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 753abc8..6f9c3dc 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -15,8 +15,8 @@ namespace mltk{
             int number = 0;
 
             struct fisher_select_score {
-                int fname;
-                double score;
+                int fname = 0;
+                double score = 0.0;
             };
 
             static int fisher_select_compare_score_greater(const fisher_select_score &a, const fisher_select_score &b);
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 732815d..ced4542 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -10,11 +10,11 @@ namespace mltk{
         template<typename T = double>
         class Golub : public FeatureSelection<T> {
         private:
-            int number;
+            int number = 0;
 
             struct golub_select_score {
-                int fname;
-                double score;
+                int fname = 0;
+                double score = 0.0;
             };
 
             static int golub_select_compare_score_greater(const golub_select_score &a, const golub_select_score &b);
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index aa05301..18fa4a0 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -14,9 +14,9 @@ namespace mltk{
         class RFE : public FeatureSelection<T> {
         private:
             struct select_weight {
-                double w;
-                double val;
-                double fname;
+                double w = 0.0;
+                double val = 0.0;
+                double fname = 0.0;
             };
 
             static int compare_weight_greater(const select_weight &a, const select_weight &b);
-- 
2.43.0


From 0827723efab4f86027f05e502059d1320be6ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 032/104] fix: a visualization without data points to no data

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aa66447..1d1498a 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -40,7 +40,7 @@ namespace mltk::visualize{
         // Attributes
     private :
         /// Sample to be visualized.
-        Data< T > *samples;
+        Data< T > *samples = nullptr;
         std::map<std::string, std::string> configs;
         Gnuplot *g{nullptr};
         std::string plot_folder;
-- 
2.43.0


From 29db38e0b3e749ab603bcd33820fb97b17ff7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 033/104] fix: assigning a voting classifier copies the voting
 type and returns the classifier

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..934608d 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -78,6 +78,8 @@ namespace mltk{
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
+                this->voting_type = voter.voting_type;
+                return *this;
             }
         };
     }
-- 
2.43.0


From 94cc9831b2179d028230dfec20a4e8f3eb0b8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:16 +0000
Subject: [PATCH 034/104] fix: the nearest neighbour regressor has one default
 constructor

---
 .../include/ufjfmltk/regressor/KNNRegressor.hpp                  | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
index bf8d62f..d033e0d 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
@@ -18,7 +18,6 @@ namespace mltk{
                 /// Function to compute the metrics between two points
                 Callable dist_function;
             public:
-                KNNRegressor() = default;
                 explicit KNNRegressor(const Data<T>& _samples, size_t _k=3):
                     PrimalRegressor<T> (mltk::make_data<T>(_samples)), k(_k) {}
                 explicit KNNRegressor(size_t _k=3): k(_k) {}
-- 
2.43.0


From bcc6c15ef2f26c29888c5a6f2f27fbe6c9aab89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 035/104] fix: dual learners report the kernel type and
 parameter they were constructed with

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++++
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 8f1927a..df5d82b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -524,6 +524,8 @@ namespace mltk{
         template<typename T>
         IMADual<T>::IMADual(KernelType kernel_type, double kernel_param, double rate, Solution *initial_solution) {
             this->samples = nullptr;
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
             this->rate = rate;
 
@@ -538,6 +540,8 @@ namespace mltk{
         IMADual<T>::IMADual(const Data<T> &samples, KernelType kernel_type, double kernel_param, double rate,
                             Solution *initial_solution) {
             this->samples = make_data<T>(samples);
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
             this->rate = rate;
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..ba3ceef 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -382,6 +382,8 @@ namespace mltk{
                 this->alpha = (*initial_solution).alpha;
             }
             this->rate = rate;
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
         }
 
@@ -470,6 +472,8 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
             //this->solution = *initial_solution;
             this->rate = rate;
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
             this->gamma = gamma;
             if (initial_solution)
-- 
2.43.0


From f678fa7b1cbac2b1361deaa1004f63a7faaf517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 036/104] fix: OneVsAll stores its verbosity

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index b149d9f..25dc92d 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -32,6 +32,7 @@ namespace mltk{
                          int _verbose = 0) {
                     this->samples = mltk::make_data<double>(samples);
                     this->samp_method = samp_method;
+                    this->verbose = _verbose;
 
                     // initialize the base m_learners if samples were given
                     if (this->samples && base_learners.size() == 0) {
-- 
2.43.0


From 09b59910313500df73116dc84f8898c7f337dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 037/104] fix: assigning a VotingClassifier copies its learner
 settings

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 934608d..6a5ccd4 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -75,6 +75,8 @@ namespace mltk{
             }
 
             VotingClassifier<T>& operator=(VotingClassifier<T> const& voter){
+                classifier::Classifier<T>::operator=(voter);
+                Ensemble<T>::operator=(voter);
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
-- 
2.43.0


From b900e8e54d2eb42169e2acdbe656f65d1ea5791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 038/104] fix: PerceptronDual trains with the kernel type and
 parameter set before training

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index ba3ceef..ac007f1 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -410,7 +410,7 @@ namespace mltk{
             std::vector<int> index(size); //= this->samples->getIndex();
             std::vector<double> func(size, 0.0), Kv;
             std::vector<std::shared_ptr<Point<T> > > points = this->samples->points();
-            if(!this->kernel) this->kernel = new Kernel<T>(mltk::KernelType::INNER_PRODUCT);
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
-- 
2.43.0


From 55a3eaf6a0b7f439bc7741332d497bbe93dd0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 039/104] fix: IMADual stops at its iteration and time limits

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index df5d82b..6eaac36 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -644,6 +644,8 @@ namespace mltk{
                     break;
                 }
                 old_rmargin = rmargin;
+                if(it > this->MAX_IT) break;
+                if(stime >= this->max_time) break;
             }
             this->ctot = percDual.getCtot();
             this->steps = percDual.getSteps();
-- 
2.43.0


From f5a215813793d11ecbecee0010f6d77ea7c3e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 040/104] fix: LMSPrimal stops at its limit on updates

---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 3c0eb2d..51f6c5a 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -77,6 +77,7 @@ namespace mltk{
                 if (fabs(cost_func - diffAnt) <= this->EPS) break;
                 diffAnt = cost_func;
                 if (time - this->timer.elapsed() <= 0) break;
+                if (this->ctot > this->MAX_UP) break;
             }
             for(int i = 0; i < dim; i++){
                 this->solution.w[i] = w[i];
-- 
2.43.0


From dec6aaa8f70119ea9516d1f6af299e505ebc8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 041/104] fix: KMeans stops at its limit on iterations

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..e794cdb 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -159,6 +159,7 @@ namespace mltk{
                                  << "            " << diff  << "   " << clusters_variance(this->m_clusters) << "           " << secs << "\n";
                     }
                     if (time - this->timer.elapsed() <= 0) break;
+                    if (this->steps > this->MAX_IT) break;
                     has_converged = fabs(cost - old_cost) <= this->EPS;
                     for(auto& cluster: this->m_clusters){
                         cluster.clear();
-- 
2.43.0


From 8a3bb5fff090483d1322523e09888c31937425bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 042/104] fix: sampling without replacement keeps the drawn
 indices per class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..6c832cd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2050,6 +2050,7 @@ namespace mltk{
         }
 
         for(size_t i = 0; i < class_dist.size(); i++){
+            ids.clear();
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
-- 
2.43.0


From 10383b9aaa5399cdfb8f166e205e4d3bf1065066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 043/104] fix: sampling draws from all points of a class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 6c832cd..1d1832b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2043,7 +2043,7 @@ namespace mltk{
             class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
         }
         for(int i = 0; i < class_dist.size(); i++){
-            dist.emplace_back(0, class_dist[i]-1);
+            dist.emplace_back(0, classes_split[i].size()-1);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
             class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
-- 
2.43.0


From 70c2a0465dba46e9378c2d8f164afb85519d9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:50 +0000
Subject: [PATCH 044/104] fix: copying a dataset keeps its class labels and
 column order

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 1d1832b..5ae01e8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1582,6 +1582,9 @@ namespace mltk{
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = _data.cdist_computed;
         this->dataset_name = _data.dataset_name;
+        this->pos_class = _data.pos_class;
+        this->neg_class = _data.neg_class;
+        this->atEnd = _data.atEnd;
     }
 
     template<typename T>
-- 
2.43.0


From 7ccdc27f5a18949fae714c5837504fb13aa4b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:19 +0000
Subject: [PATCH 045/104] fix: assigning a dataset copies its points instead of
 sharing them

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5ae01e8..ed31633 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1706,7 +1706,8 @@ namespace mltk{
 
     template<typename T>
     mltk::Data< T >& mltk::Data< T >::operator=(const mltk::Data< T >& data){
-        m_points = data.m_points;
+        if(this == &data) return *this;
+        copy(data);
         fnames = data.fnames;
         index = data.index;
         m_size = data.m_size;
-- 
2.43.0


From f40ac932bc5f78699a0969a31a466f07fc921e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:05 +0000
Subject: [PATCH 046/104] fix: balanced perceptron does not reorder the shared
 training set

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index ac007f1..0bab7f6 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -98,12 +98,14 @@ namespace mltk{
 
                 this->bias = 0;
                 mltk::random_init<double>(this->weights, this->samples->dim(), this->seed);
-                this->samples->shuffle(this->seed);
+                // the training set may be shared with other learners: shuffle a copy of it
+                Data<T> shuffled(*this->samples);
+                shuffled.shuffle(this->seed);
                 this->timer.reset();
 
                 while (epoch < this->MAX_EPOCH) {
                     errors = 0;
-                    for (auto it = this->samples->begin(); it != this->samples->end(); ++it) {
+                    for (auto it = shuffled.begin(); it != shuffled.end(); ++it) {
                         auto point = *it;
                         int pred = ((mltk::dot(weights, *point) + bias) >= 0) ? 1 : -1;
 
-- 
2.43.0


From e566f504b9fc60cfe2b99e914c467674412718af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 047/104] fix: inserting a point of another dataset copies it
 and checks the index

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ed31633..7f48828 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1435,14 +1435,13 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::insertPoint(const Data< T >& samples, int _index, bool keepIndex){
-        if(_index > samples.size() - 1){
+        if(_index < 0 || static_cast<size_t>(_index) >= samples.size()){
             std::cerr << "Index out of bounds. (insertPoint)" << std::endl;
             return false;
         }
 
-        insertPoint(samples.point(_index), keepIndex);
-
-        return true;
+        // insert a copy: the point still belongs to the other sample
+        return insertPoint(*samples.point(_index), keepIndex);
     }
 
     template<typename T>
-- 
2.43.0


From b4e59f19f1572d5224aff116ba4f0a50fc9820dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 048/104] fix: removing a point that is not in the dataset
 changes nothing

---
 .../include/ufjfmltk/core/Data.hpp            | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 7f48828..5278591 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1183,19 +1183,10 @@ namespace mltk{
     bool mltk::Data< T >::removePoint(int pid){
         int i;
 
-        if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
+        if(m_size <= 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
         //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
+        if(pid <= 0) return false;
         int y;
-        if(!index.empty()){
-            index.resize(m_size);
-
-            for(i = 0; i < m_size; ++i){
-                if(i >= pid){
-                    index[i-1] = index[i] - 1;
-                }
-            }
-        }
 
         //Find the point by its id and erase it
         for(i = 0; i < m_size; i++){
@@ -1205,9 +1196,12 @@ namespace mltk{
                 break;
             }
         }
+        // there is no point with this id
+        if(i == m_size) return false;
         m_size--;
-        auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+        resetIndex();
+        size_t pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From e9a07b8bfb5421c7c06d3905443995cf3b3a5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 049/104] fix: removing points keeps the counters and indexes
 in step with the points

---
 .../include/ufjfmltk/core/Data.hpp            | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5278591..291af52 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1244,7 +1244,7 @@ namespace mltk{
 
     template<typename T>
     std::vector<bool> mltk::Data< T >::removePoints(std::vector<int> ids){
-        int idsize = ids.size(), i, j;
+        int idsize = ids.size(), i;
         bool save;
         std::shared_ptr<Point< T > > po;
         auto p = m_points.begin();
@@ -1265,24 +1265,20 @@ namespace mltk{
 
             if(save) p++;
             else{
+                //Size verification.
+                if(m_size == 1){
+                    std::clog << "Error: RemovePoint, only one point left." << std::endl;
+                    notFound[i] = true;
+                    break;
+                }
                 p = m_points.erase(p);
                 int c = po->Y();
-                if(!index.empty()){
-                    index.resize(m_size);
-
-                    for(j = 0; j < m_size; ++j){
-                        if(j >= ids[i]){
-                            index[j-1] = index[j] - 1;
-                        }
-                    }
-                }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
-                auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
+                size_t class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
+                if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
             }
         }
+        resetIndex();
 
         return notFound;
     }
-- 
2.43.0


From c06f04a3ec880061025b0b69eda926eca39f6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 050/104] fix: updating a point to a new class counts it once

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 291af52..847b9db 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1985,11 +1985,11 @@ namespace mltk{
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
                 class_distribution.push_back(1);
+            }else{
+                class_distribution[class_pos - m_classes.begin()]++;
             }
-            auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
-            class_distribution[class_pos - m_classes.begin()]++;
-            class_distribution[oldclass_pos]--;
-            if(class_distribution[oldclass_pos] == 0){
+            size_t oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
+            if(oldclass_pos < class_distribution.size() && --class_distribution[oldclass_pos] == 0){
                 class_distribution.erase(class_distribution.begin() + oldclass_pos);
                 m_classes.erase(m_classes.begin() + oldclass_pos);
                 class_names.erase(class_names.begin() + oldclass_pos);
-- 
2.43.0


From c2c23f5d0f3a0cd8e9fb1b3d759ef68c3536cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 051/104] fix: clearing a dataset clears its class distribution

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 847b9db..0e9f7dc 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1723,6 +1723,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From a7a8bbfc6fe705c872dea6fccd5c0072791bed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 052/104] fix: copying some classes of a dataset copies their
 names, counts and indexes only

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 0e9f7dc..ddd8c60 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1509,6 +1509,7 @@ namespace mltk{
     void mltk::Data< T >::classesCopy(const mltk::Data< T > &_data, std::vector<int> &classes){
         size_t _size = 0;
         std::set<int> _classes;
+        this->m_points.clear();
         for(auto c: classes){
             _classes.insert(c);
         }
@@ -1527,13 +1528,19 @@ namespace mltk{
         this->fnames = _data.getFeaturesNames();
         this->m_size = _size;
         this->m_classes = classes;
+        this->class_names.clear();
+        for(auto c: classes){
+            size_t pos = std::find(_data.m_classes.begin(), _data.m_classes.end(), c) - _data.m_classes.begin();
+            this->class_names.push_back(pos < _data.class_names.size() ? _data.class_names[pos] : std::to_string(c));
+        }
         this->m_dim = _data.dim();
         this->type = _data.getType();
-        this->index = _data.getIndex();
-        this->is_empty = _data.isEmpty();
+        this->resetIndex();
+        this->is_empty = (_size == 0);
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = false;
+        this->computeClassesDistribution();
     }
 
     template<typename T>
-- 
2.43.0


From c1c3b0231b9a734f868166b24ca4986d1f5e9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 053/104] fix: a copy with zero points holds no points, classes
 or indexes

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ddd8c60..89a9bac 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1585,10 +1585,11 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::copyZero(const mltk::Data< T >& other){
+        clear();
         fnames = other.fnames;
         m_dim = other.m_dim;
         m_size = 0;
-        is_empty = other.is_empty;
+        is_empty = true;
         normalized = other.normalized;
         cdist_computed = false;
     }
-- 
2.43.0


From 5416486735e0b7a84f2860e2cf8d860e8eb92863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 054/104] fix: the class distribution is recounted whenever it
 is asked for

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 89a9bac..21bc515 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1843,12 +1843,18 @@ namespace mltk{
 
     template <typename T>
     void mltk::Data< T >::computeClassesDistribution(){
-        if(cdist_computed) return;
         this->class_distribution = std::vector<size_t>(this->m_classes.size(), 0);
         for(auto p: m_points){
             int c = p->Y();
             auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
             size_t class_pos = class_it - this->m_classes.begin();
+            if(class_it == this->m_classes.end()){
+                if(!this->isClassification()) continue;
+                // label that was not listed yet
+                this->m_classes.push_back(c);
+                this->class_names.push_back(std::to_string(c));
+                this->class_distribution.push_back(0);
+            }
             class_distribution[class_pos]++;
         }
     }
-- 
2.43.0


From 43b532976a9e1ff693acb27784d79041c4a23322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 055/104] fix: joining datasets keeps dimension, classes and
 class names in step

---
 .../include/ufjfmltk/core/Data.hpp            | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 21bc515..cdd6054 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1600,12 +1600,15 @@ namespace mltk{
         std::vector<int> index1 = data.getIndex(), antindex = index;
         auto points1 = data.points();
 
-        if(m_dim > dim1){
-            std::cerr << "Error: sample1 dimension must be less or equal to sample2\n";
-            exit(1);
+        if(size1 == 0) return;
+        if(antsize > 0 && this->dim() != dim1){
+            std::cerr << "Error: sample1 dimension must be equal to sample2\n";
+            return;
         }
 
         m_size += size1;
+        m_dim = dim1;
+        is_empty = false;
 
         m_points.resize(m_size);
 
@@ -1619,21 +1622,14 @@ namespace mltk{
 
         this->resetIndex();
 
-        std::vector<int> diff, classes1 = data.classes(), classes = m_classes;
-        std::sort(classes.begin(), classes.end());
-        std::sort(classes1.begin(), classes1.end());
-        std::set_difference(classes1.begin(), classes1.end(), classes.begin(), classes.end(),
-                            std::inserter(diff, diff.begin()));
-        m_classes.reserve(m_classes.size()+diff.size());
-        m_classes.insert(m_classes.end(), diff.begin(), diff.end());
-
-        std::vector<std::string> diff_names, classes_names1 = data.classesNames(), classes_names = class_names;
-        std::sort(classes_names.begin(), classes_names.end());
-        std::sort(classes_names1.begin(), classes_names1.end());
-        std::set_difference(classes_names1.begin(), classes_names1.end(), classes_names.begin(), classes_names.end(),
-                            std::inserter(diff_names, diff_names.begin()));
-        class_names.reserve(class_names.size()+diff_names.size());
-        class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
+        std::vector<int> classes1 = data.classes();
+        std::vector<std::string> classes_names1 = data.classesNames();
+        for(j = 0; j < classes1.size(); j++){
+            if(std::find(m_classes.begin(), m_classes.end(), classes1[j]) == m_classes.end()){
+                m_classes.push_back(classes1[j]);
+                class_names.push_back(j < classes_names1.size() ? classes_names1[j] : std::to_string(classes1[j]));
+            }
+        }
 
         class_distribution.assign(m_classes.size(), 0);
         computeClassesDistribution();
-- 
2.43.0


From e247c3eaa1e3fdaddaa1d4e512004af6b75cddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 056/104] fix: inserting a point keeps the names of the
 features and rejects a null point

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index cdd6054..8dd82cf 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1437,13 +1437,14 @@ namespace mltk{
     template<typename T>
     bool mltk::Data< T >::insertPoint(std::shared_ptr<Point< T > > p, bool keepIndex){
         //Dimension verification
-        if(size() > 0 && p && p->size() != this->dim()){
+        if(!p) return false;
+        if(size() > 0 && p->size() != this->dim()){
             std::cerr << "Point with dimension different from the data. (insertPoint)" << std::endl;
             std::cerr << "Point dim = " << p->size() << " dim = " << m_dim << std::endl;
             return false;
         }
 
-        if(p->size() > 0) {
+        if(this->fnames.size() != p->size()) {
             this->fnames = std::vector<int>(p->size(), 0);
             std::iota(this->fnames.begin(), this->fnames.end(), 1);
         }
-- 
2.43.0


From b01f31b17d6aae5c43030be213c821353071b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 057/104] fix: a feature listed twice is removed once

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 8dd82cf..a243d83 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1356,10 +1356,9 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removeFeatures(std::vector<int> feats){
-        size_t i, j, k, psize = m_points.size(), rsize = feats.size();
+        size_t i, j, k, psize = m_points.size(), rsize;
         typename std::vector< T >::iterator itr;
         std::vector<int>::iterator fitr;
-        std::vector<bool> exist(rsize, true);
 
         if(feats.empty()) return true;
 
@@ -1374,6 +1373,9 @@ namespace mltk{
 
         //Sort feats for remove features easily
         sort(feats.begin(), feats.end());
+        feats.erase(std::unique(feats.begin(), feats.end()), feats.end());
+        rsize = feats.size();
+        std::vector<bool> exist(rsize, true);
 
         //Check the existence of the features to be removed
         for(i = 0; i < rsize; i++){
-- 
2.43.0


From d79b31ed36288876cea8666404851df0905e4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 058/104] fix: a point inserted into an empty dataset sets its
 dimension

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a243d83..7ce4f32 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1455,7 +1455,7 @@ namespace mltk{
         m_points.insert(m_points.end(), p);
         m_size++;
         if(is_empty) is_empty = false;
-        if(m_dim == 0) m_dim = p->size();
+        m_dim = p->size();
 
         if(this->isClassification()){
             auto class_pos = std::find(this->m_classes.begin(), this->m_classes.end(), p->Y());
-- 
2.43.0


From 397bb71802eed616d22de87f9aef3989298051d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 059/104] fix: joining to an empty dataset takes the feature
 names of the joined one

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 7ce4f32..e59ad20 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1636,7 +1636,7 @@ namespace mltk{
 
         class_distribution.assign(m_classes.size(), 0);
         computeClassesDistribution();
-        if(fnames.empty()){
+        if(fnames.size() != m_dim){
             fnames = data.getFeaturesNames();
         }
     }
-- 
2.43.0


From 47bf30294dec7f5ea13b4c2b0b0c170912141ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 060/104] fix: the automatically weighted voting header
 compiles

---
 .../include/ufjfmltk/ensemble/AutoWeightedVoting.hpp       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index 7ecb4a4..a26ae69 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -200,7 +200,7 @@ namespace mltk {
                 voter.setLearners(this->m_learners);
                 voter.setVotingType("soft");
                 valid_pair = validation::partTrainTest(*this->samples, 10, this->seed);
-                voter.setSamples(valid_pair.train);
+                voter.setSamples(std::make_shared<Data<T> >(valid_pair.train));
                 voter.train();
                 generator.seed(this->seed);
 
@@ -261,9 +261,8 @@ namespace mltk {
 
             size_t getBestGeneration() { return best_generation; }
 
-            VotingClassifier<double> getVoter(){ return voter; }
+            VotingClassifier<T> getVoter(){ return voter; }
             auto getValidPair(){ return valid_pair; }
         };
     }
-}
-#endif //UFJF_MLTK_AUTOWEIGHTEDVOTING_HPP
\ No newline at end of file
+}
\ No newline at end of file
-- 
2.43.0


From 10016b5418d529ff73ecf1249fcf51f2a3d1ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 061/104] fix: core headers include what they use

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp | 2 ++
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp      | 1 +
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Utils.hpp      | 1 +
 3 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
index 0afe96b..1c0a644 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstddef>
+
 namespace mltk{
     /*! 
     \class A_Scalar
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp
index f7f4ffe..7282e7a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Timer.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <cstdio>
 #include <ctime>
 #include <chrono>
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Utils.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Utils.hpp
index 1e87681..3f1e75d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Utils.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Utils.hpp
@@ -9,6 +9,7 @@
 #define MAX_NUMBER_STRING_SIZE 32
 #define INF 1E8
 
+#include <algorithm>
 #include <vector>
 #include <cstring>
 #include <string>
-- 
2.43.0


From cd80ab40e76b52cbd9b09de67da40d9242aec632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 062/104] fix: the AOS header can be included first

---
 .../include/ufjfmltk/featselect/AOS.hpp                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index e21e50c..3eeb752 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -3,15 +3,15 @@
 //
 
 #pragma once
-#define MAX_HEAP 500000
-#define NUM_ERROR_EPS 0.05
-#define FIRST_DECAY 0.5
-
 #include <algorithm>
 #include <functional>
 #include "FeatureSelection.hpp"
 #include "ufjfmltk/Core.hpp"
 
+#define MAX_HEAP 500000
+#define NUM_ERROR_EPS 0.05
+#define FIRST_DECAY 0.5
+
 namespace mltk{
     namespace featselect {
         template<typename T = double>
-- 
2.43.0


From 2fab144180237480324e3ca2c0b2a1480c7adbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 063/104] fix: distance matrices of single precision datasets
 (KNN did not compile for float)

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp           | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 01d1c50..a993efc 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -2,6 +2,7 @@
 
 #include <thread>
 
+#include "Data.hpp"
 #include "ThreadPool.hpp"
 #include "DistanceMetric.hpp"
 
@@ -15,7 +16,8 @@ namespace mltk::metrics::dist {
     public:
         BaseMatrix() = default;
         
-        explicit BaseMatrix(mltk::Data<double> &data, const bool isDiagonal = false, const size_t threads = std::thread::hardware_concurrency()) {
+        template<typename T>
+        explicit BaseMatrix(mltk::Data<T> &data, const bool isDiagonal = false, const size_t threads = std::thread::hardware_concurrency()) {
             this->threads = threads;
             this->isDiagonal = isDiagonal;
             this->rows = mltk::Point<double>::Matrix(data.size());
@@ -35,7 +37,8 @@ namespace mltk::metrics::dist {
     private:
         DistanceFunc dist_function{};
 
-        void compute(const mltk::Data<double> &data) {
+        template<typename T>
+        void compute(const mltk::Data<T> &data) {
             mltk::ThreadPool pool(threads);
 
             // the ids of the points may exceed their number (a part of a larger dataset)
@@ -64,7 +67,8 @@ namespace mltk::metrics::dist {
     public:
         DistanceMatrix() = default;
         
-        explicit DistanceMatrix(mltk::Data<double> &data, const bool isDiagonal = false, const size_t threads = std::thread::hardware_concurrency()) {
+        template<typename T>
+        explicit DistanceMatrix(mltk::Data<T> &data, const bool isDiagonal = false, const size_t threads = std::thread::hardware_concurrency()) {
             this->threads = threads;
             this->isDiagonal = isDiagonal;
             this->rows = mltk::Point<double>::Matrix(data.size());
-- 
2.43.0


From 229d2e7f208821f3814dfa454f58837b107e65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 064/104] fix: DSM compiles for single precision datasets

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec274b3..de7ea80 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -11,7 +11,7 @@ namespace mltk{
         size_t seed{};
         size_t n_dims{}, k{};
         double alpha{};
-        Point<double> labels;
+        Point<T> labels;
         std::vector<std::vector<size_t>> subspaces;
 
     public:
-- 
2.43.0


From ad8bc6fb4d1de159f6966916aee1fa0fa8b697bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 065/104] fix: BalancedPerceptron compiles for single precision
 datasets

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 0bab7f6..3397b00 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -79,7 +79,7 @@ namespace mltk{
         template<typename T>
         class BalancedPerceptron : public classifier::PrimalClassifier<T> {
         private:
-            Point<double> weights;
+            Point<T> weights;
             double bias = 0;
 
         public:
@@ -97,7 +97,7 @@ namespace mltk{
                 size_t errors = 0;
 
                 this->bias = 0;
-                mltk::random_init<double>(this->weights, this->samples->dim(), this->seed);
+                mltk::random_init<T>(this->weights, this->samples->dim(), this->seed);
                 // the training set may be shared with other learners: shuffle a copy of it
                 Data<T> shuffled(*this->samples);
                 shuffled.shuffle(this->seed);
-- 
2.43.0


From 027d5daa6c4e588c38744fac4d01d14b98a723e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 066/104] fix: KMeans compiles for single precision datasets

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index e794cdb..61a849d 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -194,7 +194,7 @@ namespace mltk{
             double KMeans<T, Callable>::clusters_variance(const Clusters &clusters) {
                 double var = 0.0;
                 std::for_each(clusters.begin(), clusters.end(), [&](const Cluster& cluster){
-                   Point<double> mean(this->samples->dim());
+                   Point<T> mean(this->samples->dim());
 
                    for(const size_t id: cluster){
                        mean += (*this->samples)(id);
-- 
2.43.0


From a807480cec1fffe96fe21b96ca85dd5fee510da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:32 +0000
Subject: [PATCH 067/104] fix: multiclass classifiers can be made from single
 precision datasets

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp                    | 2 +-
 .../include/ufjfmltk/classifier/OneVsOne.hpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index 25dc92d..f0980e2 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -30,7 +30,7 @@ namespace mltk{
                 template<template<typename> class ClassifierType>
                 OneVsAll(Data<T> &samples, ClassifierType<T> &classifier, OverSampling<T> *samp_method = nullptr,
                          int _verbose = 0) {
-                    this->samples = mltk::make_data<double>(samples);
+                    this->samples = mltk::make_data<T>(samples);
                     this->samp_method = samp_method;
                     this->verbose = _verbose;
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 0be6ba4..f7cbca6 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -30,7 +30,7 @@ namespace mltk{
             template<template<typename> class ClassifierType>
             OneVsOne(const Data<T> &samples, ClassifierType<T> &classifier, OverSampling<T> *samp_method = nullptr,
                      int _verbose = 0) {
-                this->samples = mltk::make_data<double>(samples);
+                this->samples = mltk::make_data<T>(samples);
                 this->verbose = _verbose;
                 this->samp_method = samp_method;
 
-- 
2.43.0


From 95816b2cb8bb0461637ca49ec94dfc7cc0a63ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:32 +0000
Subject: [PATCH 068/104] fix: elements of a lazy point expression can be read

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 935d9da..8cb66bd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -249,7 +249,7 @@ namespace mltk {
                 return x[idx];
             }
 
-            T& operator[](const size_t &idx) {
+            decltype(auto) operator[](const size_t &idx) {
                 assert(idx < size());
                 return x[idx];
             }
-- 
2.43.0


From 6a9890ff58aeab6c1de33e81bc4f5fffac75cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:57 +0000
Subject: [PATCH 069/104] fix: compound assignment of a point by one of its own
 coordinates

---
 .../ufjfmltk-core/include/ufjfmltk/core/Point.hpp    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 8cb66bd..923cc09 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -369,7 +369,8 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator+=(T const& b) {
+            // the scalar may be one of the elements that are changed: take it by value
+            Point& operator+=(T const b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] += b;
                 }
@@ -413,7 +414,8 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator-=(T const& b) {
+            // the scalar may be one of the elements that are changed: take it by value
+            Point& operator-=(T const b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] -= b;
                 }
@@ -447,7 +449,8 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator*=(T const& b) {
+            // the scalar may be one of the elements that are changed: take it by value
+            Point& operator*=(T const b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] *= b;
                 }
@@ -481,7 +484,8 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator/=(T const& b) {
+            // the scalar may be one of the elements that are changed: take it by value
+            Point& operator/=(T const b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] /= b;
                 }
-- 
2.43.0


From bde86d42f971884c26fedaa28de253f2f4dc8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:57 +0000
Subject: [PATCH 070/104] fix: lazy point expressions own their scalars and
 sub-expressions

---
 .../ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp |  2 +-
 .../include/ufjfmltk/core/ExprScalar.hpp            |  2 +-
 .../include/ufjfmltk/core/ExprTraits.hpp            | 13 +++++++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp
index b794676..ce91976 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp
@@ -115,7 +115,7 @@ namespace mltk{
     template <typename T, typename OP >
     class UExprOp{
         protected:
-            OP const &op;
+            typename A_Traits<OP>::ExprRef op;
         public:
             explicit UExprOp(OP const &op) : op(op) {}
 
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
index 1c0a644..7c3b6de 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
@@ -13,7 +13,7 @@ namespace mltk{
     class  A_Scalar {
         private:
             /// value of the scalar
-            T const& value; 
+            T value;
         
         public:
             // Constructor initializes value
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprTraits.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprTraits.hpp
index a5f54e6..ec258b2 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprTraits.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprTraits.hpp
@@ -1,13 +1,22 @@
 #pragma once
 
+#include <vector>
+
 namespace mltk{
     template <typename T> class A_Scalar;
 
-    // primary template
+    // primary template: a node of the expression tree, which may be a temporary
     template <typename T> 
     class  A_Traits{
         public:
-        using ExprRef = T const&; // type to refer to is constant reference
+        using ExprRef = T; // type to refer to is ordinary value
+    };
+
+    // partial specialization for the elements of a point
+    template <typename T, typename Alloc>
+    class  A_Traits<std::vector<T, Alloc> > {
+        public:
+        using ExprRef = std::vector<T, Alloc> const&; // type to refer to is constant reference
     };
 
     // partial specialization for scalars
-- 
2.43.0


From f2c5a21d93633a46a33cd450592417a5f1c9a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:45 +0000
Subject: [PATCH 071/104] fix: the pool's sleep duration can be changed while
 workers run

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 42e87ee..74132e5 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -318,7 +318,7 @@ public:
     /**
      * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
      */
-    ui32 sleep_duration = 1000;
+    std::atomic<ui32> sleep_duration = 1000;
 
 private:
     // ========================
-- 
2.43.0


From e82ff408e64d4ba9de98fa05aab1488ada0c230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:26 +0000
Subject: [PATCH 072/104] fix: margin classifiers answer 1 for every
 non-negative decision value

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 6eaac36..b2aa46a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -360,7 +360,7 @@ namespace mltk{
             for (func = this->solution.bias, i = 0; i < dim; i++) {
                 func += this->solution.w[i] * p[i];
             }
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
@@ -517,7 +517,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 3397b00..0ff6172 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -371,7 +371,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From fae9b7aca75e24cb213dfcaa6d7c1d05f086c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:30 +0000
Subject: [PATCH 073/104] fix: BalancedPerceptron rejects points of another
 dimension

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 0ff6172..dd36ad2 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -147,6 +147,12 @@ namespace mltk{
             }
 
             double evaluate(const Point<T> &p, bool raw_value) override {
+                if (p.size() != weights.size()) {
+                    std::cerr << "The point must have the same dimension of the feature set! (" << p.size()
+                              << ", " << weights.size() << ")" << std::endl;
+                    return 0;
+                }
+
                 if (raw_value) {
                     return mltk::dot(weights, p) + bias;
                 } else {
-- 
2.43.0


From 0b314004b18d8e735ba12c73b41f64b92cc847af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:18 +0000
Subject: [PATCH 074/104] fix: hard voting leaves the configured vote weights
 alone

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 6a5ccd4..661807c 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -38,10 +38,11 @@ namespace mltk{
             double evaluate(const Point<T> &p, bool raw_value = false) override {
                 auto _classes = this->samples->classes();
                 mltk::Point<double> votes(_classes.size(), 0.0);
+                // hard voting counts every vote once and leaves the configured weights alone
+                Point<double> vote_weights(this->m_learners.size(), 1);
                 if (voting_type == "soft") {
                     assert(this->weights.size() > 0);
-                } else {
-                    this->weights = Point<double>(this->m_learners.size(), 1);
+                    vote_weights = this->weights;
                 }
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     auto pred = this->m_learners[i]->evaluate(p);
@@ -50,7 +51,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += this->weights[i];
+                    votes[pred_pos] += vote_weights[i];
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From d2e66f468b09509842003b1187e4a36bba951d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:18 +0000
Subject: [PATCH 075/104] fix: ensembles no longer write past the votes when a
 member predicts an unknown class

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp             | 2 +-
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp           | 2 +-
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index e322619..ba71bb0 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -47,7 +47,7 @@ namespace mltk {
                 for (size_t i = 0; i < n_estimators; i++) {
                     int pred = this->m_learners[i]->evaluate(p);
                     size_t pred_pos = std::find(classes.begin(), classes.end(), pred) - classes.begin();
-                    votes[pred_pos]++;
+                    if (pred_pos < votes.size()) votes[pred_pos]++;
                 }
                 return classes[std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin()];
             }
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index bc2a1d8..947a774 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -40,7 +40,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += 1;
+                    if (pred_pos < votes.size()) votes[pred_pos] += 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 661807c..5656259 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -51,7 +51,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += vote_weights[i];
+                    if (pred_pos < votes.size()) votes[pred_pos] += vote_weights[i];
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From cc61aac7d8cb8e3f72879b4b6e4f5d318c110a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:11 +0000
Subject: [PATCH 076/104] fix: balanced perceptron moves its bias by rate times
 the label of the misclassified point

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index dd36ad2..871a511 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -111,7 +111,7 @@ namespace mltk{
 
                         if (point->Y() != pred) {
                             weights += this->rate * (*point) * point->Y();
-                            bias += this->rate * bias;
+                            bias += this->rate * point->Y();
                             ite++;
                             errors++;
                         }
-- 
2.43.0


From 09ee64ada78fbd26224e24d4850b453d111d7caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 077/104] fix: LMS scales the bias correction by the learning
 rate, as it does for the weights

---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 51f6c5a..24a8161 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -64,7 +64,7 @@ namespace mltk{
                     //Verify if the point is a error
                     auto error = (input->Y() - func[j]);
                     w += this->rate * error * (*input);
-                    this->solution.bias += (input->Y() - func[j]);
+                    this->solution.bias += this->rate * error;
                     ++this->ctot;
                 }
                 cost_func *= 0.5;
-- 
2.43.0


From dcbb5539ff3a57ab2bbc5b8c297514bb19f4ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 078/104] fix: fixed margin dual perceptron does not divide by
 a zero norm

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 871a511..7ebacfb 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -516,7 +516,7 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
 
                         for (r = 0; r < size; ++r) {
-- 
2.43.0


From da4e08ff6310462f248497875dadce6dd6a9cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:47 +0000
Subject: [PATCH 079/104] fix: IMAp measures an initial solution with its own
 weights

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index b2aa46a..6201109 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -159,7 +159,7 @@ namespace mltk{
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
                     for (func[i] = 0, j = 0; j < dim; ++j)
-                        func[i] += this->w[j] * points[i]->X()[j];
+                        func[i] += this->solution.w[j] * points[i]->X()[j];
                     if (y == 1 && func[i] < min) min = func[i];
                     else if (y == -1 && func[i] > max) max = func[i];
                 }
-- 
2.43.0


From edf176cfb700b40f123ee7b84d7549d343de0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:06 +0000
Subject: [PATCH 080/104] fix: kfoldsplit with two folds tested on the training
 fold

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index e432eb5..4fd3b7e 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,9 +474,9 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
-            for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
+            for(int j = (i+1) % folds; gone + 2 < folds; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
                 next_j = (j+1) % folds;
             }
-- 
2.43.0


From dbbae022198f6febdfe84436efd72da83e0ba529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:22 +0000
Subject: [PATCH 081/104] fix: splitSample without stratification dropped the
 points left by the division

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp    | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index e59ad20..906d540 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1894,15 +1894,10 @@ namespace mltk{
             return partitions;
         } 
 
-        size_t counter = 0;
-        for(size_t i = 0; i < partitions.size(); i++) {
-            for(size_t j = 0; j < new_size; j++) {
-                partitions[i].insertPoint(data[counter], keepIndex);
-                counter++;
-                if(counter == this->size()){
-                    return partitions;
-                }
-            }
+        for(size_t counter = 0; counter < data.size(); counter++) {
+            // The points left by the division go to the first partitions
+            size_t i = (counter < new_size * split_size) ? counter / new_size : counter - new_size * split_size;
+            partitions[i].insertPoint(data[counter], keepIndex);
         }
         return partitions;
     }
-- 
2.43.0


From 91833ffa54d723528ffe385a05431e4838fae970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:23 +0000
Subject: [PATCH 082/104] fix: sampling with replacement shared one point
 between several positions

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 906d540..f62ac38 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2061,7 +2061,7 @@ namespace mltk{
                     }
                     ids.insert(idx);
                 }
-                sample.insertPoint(classes_split[i][idx]);
+                sample.insertPoint(*classes_split[i][idx]);
             }
         }
 
-- 
2.43.0


From 72d27a447e64e3afe6bda9bb853bff98c87f571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:24 +0000
Subject: [PATCH 083/104] fix: AutoWeightedVoting passed its seed as the
 stratification flag

---
 .../include/ufjfmltk/ensemble/AutoWeightedVoting.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index a26ae69..881f175 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -199,7 +199,7 @@ namespace mltk {
             bool train() override {
                 voter.setLearners(this->m_learners);
                 voter.setVotingType("soft");
-                valid_pair = validation::partTrainTest(*this->samples, 10, this->seed);
+                valid_pair = validation::partTrainTest(*this->samples, 10, true, true, this->seed);
                 voter.setSamples(std::make_shared<Data<T> >(valid_pair.train));
                 voter.train();
                 generator.seed(this->seed);
-- 
2.43.0


From 932c906852178da29eaf38f7e4d6b96ff2e88332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:40 +0000
Subject: [PATCH 084/104] fix: selectFeatures lost the names of the features
 and misplaced them after an invalid one

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index f62ac38..16d9f44 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2079,14 +2079,20 @@ namespace mltk{
         for(i = 0, j = 0, invalid=0; (i < fnames.size()) && (invalid < feats.size()) && (j < feats.size()); ){
             if(feats[j] < 1) { invalid++; j++; continue; }
             if(fnames[i] == feats[j]){
-                feats_pos[j] = i;
+                feats_pos[j-invalid] = i;
                 j++;
             }
             i++;
         }
 
         assert((j == feats.size()) && "There are non-existing features on remove set.");
-        
+
+        // The selected features keep their names
+        new_data.fnames.resize(_size-invalid);
+        for(i = 0; i < (_size-invalid); i++){
+            new_data.fnames[i] = fnames[feats_pos[i]];
+        }
+
         for(auto const& point: this->m_points){
             auto new_point = make_point<T>(_size-invalid);
             for(i = 0; i < (_size-invalid); i++){
-- 
2.43.0


From f33aca785e4968e87d0fec6f62f0a4c1c2bd7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 085/104] fix: AutoWeightedVoting did not hand its seed to the
 voter it trains

---
 .../include/ufjfmltk/ensemble/AutoWeightedVoting.hpp             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index 881f175..2d0ec00 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -201,6 +201,7 @@ namespace mltk {
                 voter.setVotingType("soft");
                 valid_pair = validation::partTrainTest(*this->samples, 10, true, true, this->seed);
                 voter.setSamples(std::make_shared<Data<T> >(valid_pair.train));
+                voter.setSeed(this->seed);
                 voter.train();
                 generator.seed(this->seed);
 
-- 
2.43.0


From bf1a95acb209b7d3b2970c0e7c58f99199136343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 086/104] fix: Golub and Fisher ignored the final dimension set
 with setFinalDimension

---
 .../include/ufjfmltk/featselect/Fisher.hpp                | 7 ++-----
 .../include/ufjfmltk/featselect/Golub.hpp                 | 8 +++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 6f9c3dc..c340ed1 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -12,8 +12,6 @@ namespace mltk{
         template<typename T = double>
         class Fisher : public FeatureSelection<T> {
         private:
-            int number = 0;
-
             struct fisher_select_score {
                 int fname = 0;
                 double score = 0.0;
@@ -40,7 +38,6 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
             this->final_dim = final_dim;
-            this->number = final_dim;
         }
 
         template<typename T>
@@ -49,7 +46,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number, -1), fnames;
+            std::vector<int> remove(dim - this->final_dim, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<fisher_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
@@ -120,7 +117,7 @@ namespace mltk{
             stmp_partial->copy(*this->samples);
             stmp->copy(*this->samples);
 
-            for (i = 0; i < (dim - this->number); ++i) {
+            for (i = 0; i < (dim - this->final_dim); ++i) {
                 if (this->verbose) std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << "\n";
                 remove[i] = scores[i].fname;
                 stmp->removeFeatures(remove);
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index ced4542..4a8769c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -10,8 +10,6 @@ namespace mltk{
         template<typename T = double>
         class Golub : public FeatureSelection<T> {
         private:
-            int number = 0;
-
             struct golub_select_score {
                 int fname = 0;
                 double score = 0.0;
@@ -31,7 +29,7 @@ namespace mltk{
         Golub<T>::Golub(const Data<T>& samples, classifier::Classifier<T> *classifier, int number) {
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
-            this->number = number;
+            this->final_dim = number;
         }
 
         template<typename T>
@@ -40,7 +38,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number), fnames;
+            std::vector<int> remove(dim - this->final_dim), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<golub_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
@@ -111,7 +109,7 @@ namespace mltk{
             stmp_partial->copy(*this->samples);
             stmp->copy(*this->samples);
 
-            for (i = 0; i < (dim - this->number); ++i) {
+            for (i = 0; i < (dim - this->final_dim); ++i) {
                 if (this->verbose) std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << "\n";
                 remove[i] = scores[i].fname;
                 stmp->removeFeatures(remove);
-- 
2.43.0


From 58c8ada8b71042c22d25c81cb7b2649bb07e12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 087/104] fix: RFE answered the full dataset after a failed
 step

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 18fa4a0..cb0bfb1 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -145,7 +145,7 @@ namespace mltk{
 
                 stmp_partial.reset();
                 stmp_partial = std::make_shared<Data<T> >();
-                stmp_partial->copy(*this->samples);
+                stmp_partial->copy(*stmp);
 
                 partial_features.clear();
 
-- 
2.43.0


From 88847c6b2c34af7e7472342707d69c8e15b18b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 088/104] fix: RFE kept only the last run of the initial error
 it averages

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index cb0bfb1..b0e8a9b 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -163,7 +163,7 @@ namespace mltk{
                     if (level == 0) {
                         for (this->cv->initial_error = 0, i = 0; i < this->cv->qtde; i++) {
                             auto report = validation::kfold(*stmp, *this->classifier, this->cv->fold, true, this->cv->seed[i], 0);
-                            this->cv->initial_error = report.error;
+                            this->cv->initial_error += report.error;
                         }
                         kfolderror = this->cv->initial_error / this->cv->qtde;
                     } else if (level % this->cv->jump == 0) {
-- 
2.43.0


From d72a94c54e854d4c79b9c36fb2f5d29490fb3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:42 +0000
Subject: [PATCH 089/104] fix: RFE never ended when it was run a second time

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index b0e8a9b..f26f233 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -281,7 +281,6 @@ namespace mltk{
                 /*increment*/
                 if (level + this->jump > this->depth) {
                     level = this->depth;
-                    this->jump = 0;
                 } else {
                     level += this->jump;
 
-- 
2.43.0


From cfea8d3b30cf6d78019489dfccff0b2d9327a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 090/104] fix: KMeans centers accumulated the previous ones and
 became NaN for empty clusters

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 61a849d..e29affb 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,6 +76,8 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
+                    // a cluster without points keeps its center
+                    if(cluster.size() > 0) this->m_centers[i] = Point<T>(this->samples->dim(), 0);
                     for(const size_t id: cluster){
                         this->m_centers[i] += *this->samples->point(id);
                     }
@@ -83,7 +85,7 @@ namespace mltk{
                 });
                 i = 0;
                 std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
+                   if(this->m_clusters[i].size() > 0) center /= this->m_clusters[i].size();
                    i++;
                 });
             }
-- 
2.43.0


From f4a4abbacbf4f41bfdecdf0fb6bb6f56fd9c9e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 091/104] fix: KMeans clusters held point ids and kept the
 points of the previous assignment

---
 .../include/ufjfmltk/clusterer/KMeans.hpp            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index e29affb..241d6de 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -57,16 +57,19 @@ namespace mltk{
 
             template<typename T, typename Callable>
             double KMeans<T, Callable>::assign_clusters(const std::vector<mltk::PointPointer<T>>& points) {
-                double sum_d = 0;
+                size_t position = 0;
                 double cost = 0.0;
 
+                for(auto& cluster: this->m_clusters){
+                    cluster.clear();
+                }
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
                     std::vector<double> distances(this->m_centers.size(), 0.0);
                     std::transform(this->m_centers.begin(), this->m_centers.end(), distances.begin(), [&](const Point<T>& center){
                         return this->dist_function(*q, center);
                     });
                     size_t cluster_id = std::min_element(distances.begin(), distances.end()) - distances.begin();
-                    this->m_clusters[cluster_id].X().push_back(q->Id()-1);
+                    this->m_clusters[cluster_id].X().push_back(position++);
                     cost += distances[cluster_id] * distances[cluster_id];
                 });
                 return cost;
@@ -149,7 +152,7 @@ namespace mltk{
                     old_cost = cost;
                     has_converged = true;
                     // assign each point to the nearest cluster
-                    cost = assign_clusters(points);
+                    cost = assign_clusters(this->samples->points());
                     // update the centers of the clusters
                     compute_centers();
 
@@ -163,9 +166,6 @@ namespace mltk{
                     if (time - this->timer.elapsed() <= 0) break;
                     if (this->steps > this->MAX_IT) break;
                     has_converged = fabs(cost - old_cost) <= this->EPS;
-                    for(auto& cluster: this->m_clusters){
-                        cluster.clear();
-                    }
                 } while (!has_converged);
 
                 return true;
-- 
2.43.0


From a8f31fc736df0f3205a32a25fdab1485b946ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 092/104] fix: KMeans drew its first centers one past the end
 of the dataset

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 241d6de..f0c6e3d 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -109,7 +109,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size) - 1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -118,7 +118,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size) - 1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
-- 
2.43.0


From a701cdc397cbf423841d288f9d42a86cc068e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:43 +0000
Subject: [PATCH 093/104] fix: kmeans++ ignored the distances it weighs the
 next center with

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index f0c6e3d..4c115bc 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -102,7 +102,9 @@ namespace mltk{
                 bool has_converged = true;
                 mltk::random::init(this->seed);
 
-                std::shuffle(points.begin(), points.end(), std::mt19937(this->seed));
+                std::mt19937 generator(this->seed);
+
+                std::shuffle(points.begin(), points.end(), generator);
 
                 if (initialization == "random") {
                     std::vector<size_t> centers_ids(this->n_clusters);
@@ -137,7 +139,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = _dist(generator);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 1a9f80506aebd08dcda8f7ad54e36fe06c7c8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 094/104] fix: dual classifiers leaked the kernel they create
 and SMO deleted kernels it doesn't own

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp        | 8 ++++++++
 .../include/ufjfmltk/classifier/IMA.hpp                   | 4 ++--
 .../include/ufjfmltk/classifier/Perceptron.hpp            | 6 +++---
 .../include/ufjfmltk/classifier/SMO.hpp                   | 4 +---
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e5a2bf7..2c1a216 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -23,6 +23,14 @@ namespace mltk{
             double kernel_param = 0;
             /// Object for kernel computations.
             Kernel<T> *kernel = nullptr;
+            /// Keeps alive the kernel created by the classifier itself (not the one given to setKernel).
+            std::shared_ptr<Kernel<T>> owned_kernel;
+
+            /// Create a kernel with the current type and parameter and use it.
+            inline void createKernel() {
+                this->owned_kernel = std::make_shared<Kernel<T>>(this->kernel_type, this->kernel_param);
+                this->kernel = this->owned_kernel.get();
+            }
         public:
 
             virtual double evaluate(const Point <T> &p, bool raw_value = false) override {
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 6201109..b42313d 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -526,7 +526,7 @@ namespace mltk{
             this->samples = nullptr;
             this->kernel_type = kernel_type;
             this->kernel_param = kernel_param;
-            this->kernel = new Kernel<T>(kernel_type, kernel_param);
+            this->createKernel();
             this->rate = rate;
 
             if (initial_solution) {
@@ -542,7 +542,7 @@ namespace mltk{
             this->samples = make_data<T>(samples);
             this->kernel_type = kernel_type;
             this->kernel_param = kernel_param;
-            this->kernel = new Kernel<T>(kernel_type, kernel_param);
+            this->createKernel();
             this->rate = rate;
 
             if (initial_solution) {
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 7ebacfb..10b91c0 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -392,7 +392,7 @@ namespace mltk{
             this->rate = rate;
             this->kernel_type = kernel_type;
             this->kernel_param = kernel_param;
-            this->kernel = new Kernel<T>(kernel_type, kernel_param);
+            this->createKernel();
         }
 
         template<typename T>
@@ -418,7 +418,7 @@ namespace mltk{
             std::vector<int> index(size); //= this->samples->getIndex();
             std::vector<double> func(size, 0.0), Kv;
             std::vector<std::shared_ptr<Point<T> > > points = this->samples->points();
-            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
+            if(!this->kernel) this->createKernel();
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
@@ -482,7 +482,7 @@ namespace mltk{
             this->rate = rate;
             this->kernel_type = kernel_type;
             this->kernel_param = kernel_param;
-            this->kernel = new Kernel<T>(kernel_type, kernel_param);
+            this->createKernel();
             this->gamma = gamma;
             if (initial_solution)
                 this->alpha = (*initial_solution).alpha;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f743972..279ae8e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -86,7 +86,6 @@ namespace mltk{
                     int_dll::free(&this->head);
                     this->head = nullptr;
                 }
-                if(this->kernel) delete this->kernel;
             }
 
             template<typename T>
@@ -105,8 +104,7 @@ namespace mltk{
                 for (i = 0; i < size; i++)
                     (*this->samples)[i]->Alpha() = 0;
                 this->alpha.assign(size, 0.0);
-                if(this->kernel) delete this->kernel;
-                this->kernel = new mltk::Kernel<T>(this->kernel_type, this->kernel_param);
+                this->createKernel();
                 this->kernel->compute(this->samples);
 
                 this->timer.reset();
-- 
2.43.0


From 8573a802f44270931eacc9f247674d2f47ec3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 095/104] fix: RFE and AOS leaked the cross validation
 structure they create

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp | 6 ++----
 .../include/ufjfmltk/featselect/FeatureSelection.hpp        | 2 ++
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 3eeb752..c8a0559 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -176,14 +176,12 @@ namespace mltk{
                     typename validation::CrossValidation *cv, int breadth,
                     int sorting_shape, int choice_shape, int look_ahead_depth, int cut, int skip, double bonus,
                     int startover, double g_margin, bool doleave_oo, int verbose) {
-            if (cv == nullptr) {
-                this->cv = new validation::CrossValidation;
-            }
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
             this->cv = cv;
             if(!this->cv){
-                this->cv = new validation::CrossValidation();
+                this->owned_cv = std::make_shared<validation::CrossValidation>();
+                this->cv = this->owned_cv.get();
                 this->cv->seed = std::vector<unsigned int>(1, 0);
                 this->cv->fold = 10;
                 this->cv->qtde = 0;
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
index 5c0d710..04f2d83 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
@@ -23,6 +23,8 @@ namespace mltk{
             classifier::Classifier<T> *classifier = nullptr;
             /// Structure to hold the cross-validation result
             validation::CrossValidation *cv = nullptr;
+            /// Keeps alive the cross validation structure created when none is given.
+            std::shared_ptr<validation::CrossValidation> owned_cv;
             /// Solution of the feature selection
             Solution solution;
             /// Timer for time measuring
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index f26f233..2323421 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -41,7 +41,8 @@ namespace mltk{
             this->jump = jump;
             this->cv = cv;
             if(!this->cv){
-                this->cv = new validation::CrossValidation();
+                this->owned_cv = std::make_shared<validation::CrossValidation>();
+                this->cv = this->owned_cv.get();
                 this->cv->seed = std::vector<unsigned int>(1, 0);
                 this->cv->fold = 10;
                 this->cv->qtde = 0;
-- 
2.43.0


From 48ad94019f730d92cc51ff67a3d1b39296d97b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:20 +0000
Subject: [PATCH 096/104] fix: Data::insertFeatures leaked the dataset it
 returns a copy of

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 16d9f44..87c83a8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1289,14 +1289,14 @@ namespace mltk{
         bool saveflag = false;
         std::vector<int> new_fnames(fsize, 0);
         std::shared_ptr<Point< T > > p;
-        auto *smout = new mltk::Data< T >;
+        mltk::Data< T > smout;
 
         if(fsize == 0) return this->copy();
         sort(ins_feat.begin(), ins_feat.end());
 
         //error check
-        if(fsize > m_dim){ std::cerr << "Error: InsertFeature, fsize(" << ins_feat.size() << ")>dim(" << m_dim << ")\n"; return *smout; }
-        smout->setDim(fsize);
+        if(fsize > m_dim){ std::cerr << "Error: InsertFeature, fsize(" << ins_feat.size() << ")>dim(" << m_dim << ")\n"; return smout; }
+        smout.setDim(fsize);
 
         //Copying information to new data array
         for(i = 0; i < m_size; i++){
@@ -1325,14 +1325,14 @@ namespace mltk{
             if(s != fsize){
                 std::cerr << "Error: Something went wrong on InsertFeature\n";
                 std::cerr << "s = " << s << ", dim = " << m_dim << ", fsize = " << fsize << std::endl;
-                smout->clear();
-                return *smout;
+                smout.clear();
+                return smout;
             }
-            smout->insertPoint(p, keepIndex);
+            smout.insertPoint(p, keepIndex);
         }
-        smout->setFeaturesNames(new_fnames);
+        smout.setFeaturesNames(new_fnames);
 
-        return *smout;
+        return smout;
     }
 
     template<typename T>
-- 
2.43.0


From a791a79a451fef459f9b4470066f256b19c92166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:40 +0000
Subject: [PATCH 097/104] fix: a copied Visualization deleted the plot session
 (and its pipe) of the original

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp | 3 +++
 .../ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 1d1498a..96ecd0f 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -98,6 +98,9 @@ namespace mltk::visualize{
     public :
         explicit Visualization (bool shared_session=true, bool keep_temp_files=false);
         explicit Visualization (Data<T> &sample, bool shared_session=true, bool keep_temp_files=false);
+        /// The plot session and the temporary files belong to one object.
+        Visualization (const Visualization&) = delete;
+        Visualization& operator=(const Visualization&) = delete;
 
         /*********************************************
          *               Setters                     *
diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp
index f5154d7..5f4ba25 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/gnuplot_i.hpp
@@ -205,6 +205,10 @@ public:
     /// destructor: needed to delete temporary files
     ~Gnuplot();
 
+    /// the pipe to gnuplot is closed by the object that opened it
+    Gnuplot(const Gnuplot&) = delete;
+    Gnuplot& operator=(const Gnuplot&) = delete;
+
 
     //----------------------------------------------------------------------------------
 
-- 
2.43.0


From 50990c597a347c5e0fa205f3ba16ad0c1c4709dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:40 +0000
Subject: [PATCH 098/104] fix: a copied AOS heap or hash freed the tables of
 the original

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index c8a0559..72ae0f1 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -77,6 +77,9 @@ namespace mltk{
                 void setConthash(size_t conthash);
 
                 ~Hash();
+
+                Hash(const Hash&) = delete;
+                Hash& operator=(const Hash&) = delete;
             };
 
             class Heap {
@@ -112,6 +115,9 @@ namespace mltk{
                 void cut(std::shared_ptr<AOS::Hash> hash, int levelat, int cut, double g_margin, int verbose);
 
                 ~Heap();
+
+                Heap(const Heap&) = delete;
+                Heap& operator=(const Heap&) = delete;
             };
 
             void setBreadth(int breadth);
-- 
2.43.0


From 5708378fb352be39afd1219f99baff5aefcd0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:53 +0000
Subject: [PATCH 099/104] fix: getTempFilesNames closed a folder it could not
 open

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 96ecd0f..83b8ba7 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -476,11 +476,11 @@ namespace mltk::visualize{
                     files.push_back((append_path)?(path+file):file);
                 }
             }
+            closedir(dpdf);
         }else{
             std::cout << "Folder not found!" << std::endl;
         }
 
-        closedir(dpdf);
 #elif _WIN32
         HANDLE hFind;
             WIN32_FIND_DATA data;
-- 
2.43.0


From a1aeb8d809329f41d0b981162544015637d219a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:30 +0000
Subject: [PATCH 100/104] fix: every gnuplot temporary file left a descriptor
 open

---
 subprojects/ufjfmltk-visual/src/gnuplot_i.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
index ef99f2b..4af7161 100755
--- a/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
+++ b/subprojects/ufjfmltk-visual/src/gnuplot_i.cpp
@@ -1169,7 +1169,10 @@ std::string Gnuplot::create_tmpfile(std::ofstream &tmp)
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__TOS_WIN__)
     if (_mktemp(name) == NULL)
 #elif defined(unix) || defined(__unix) || defined(__unix__) || defined(__APPLE__)
-    if (mkstemp(name) == -1)
+    int fd = mkstemp(name);
+    if (fd != -1)
+        close(fd); // the file is written through the stream
+    else
 #endif
     {
         std::ostringstream except;
-- 
2.43.0


From 367f622dd94790981bed718832667e05f77e4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:33 +0000
Subject: [PATCH 101/104] fix: SMOTE took the neighbours from the whole dataset
 at the positions found in the minority class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index de7ea80..c65ab04 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -179,7 +179,7 @@ namespace mltk{
 
                 // get the k neighbors
                 for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = data[distance[i].first-1];
+                    k_neighbors[i] = Z[distance[i].first-1];
                 }
 
                 // create the artificial points and insert them to the dataset
-- 
2.43.0


From b6be0ff805b960384ec4c3023e1c8a3e9b82053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:33 +0000
Subject: [PATCH 102/104] fix: SMOTE extrapolated away from the neighbour
 instead of interpolating towards it

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index c65ab04..ddac80b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -189,7 +189,7 @@ namespace mltk{
                     Point< T > s(_z.size(), 0.0, 0);
                     double alpha = distribution(generator);
                     
-                    s = _z + alpha * (_z - _k);
+                    s = _z + alpha * (_k - _z);
                     s.Y() = min_class;
 
                     artificial_data.push_back(mltk::make_point< T >(s));
-- 
2.43.0


From f9aa90b92663b8a9d12e6fa4efffdb225170266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:33 +0000
Subject: [PATCH 103/104] fix: Borderline SMOTE read missing neighbours through
 a null pointer

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ddac80b..8a37ea3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -266,7 +266,7 @@ namespace mltk{
                 
                 // set m' as the number of points on the majority class set on m neighbors
                 size_t m_ = std::count_if(M.begin(), M.end(), [&maj_class](auto &p){
-                    return p->Y() == maj_class;
+                    return p && p->Y() == maj_class;
                 });
                 
                 // insert the point to the danger subset if m/2 <= m' < m
-- 
2.43.0


From 84a8354a09a7abf7bd8ac18a9e888bc43bc324e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:33 +0000
Subject: [PATCH 104/104] fix: make_blobs gave every blob the points of all
 blobs

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 32 ++++++++++------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index 0f0e864..5ef7e6a 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -61,7 +61,7 @@ namespace mltk::datasets {
                          double center_max, bool shuffle, const bool has_classes, const size_t seed) {
         mltk::random::init(seed);
         std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
-        std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
+        std::vector<size_t> samples_per_center(n_centers, n_samples);
         std::vector<double> clusters_std(n_centers, cluster_std);
 
         std::for_each(centers.begin(), centers.end(), [&center_min, &center_max](auto &center) {
@@ -89,24 +89,22 @@ namespace mltk::datasets {
         if(has_classes) dataset.setType("Classification");
         else dataset.setType("Clustering");
 
-        for (const auto &n: n_samples) {
-            for (int c = 0; c < centers.size(); c++) {
-                auto center = centers[c];
-                for (int i = 0; i < n; i++) {
-                    mltk::Point<double> p(n_dims, 0.0);
-                    for (int j = 0; j < n_dims; j++) {
-                        p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
-                                                                                                    clusters_std[c]);
-                    }
-                    if(has_classes) {
-                        if (centers.size() == 2) {
-                            p.Y() = (c == 0) ? -1 : 1;
-                        } else {
-                            p.Y() = c + 1;
-                        }
+        for (int c = 0; c < centers.size(); c++) {
+            auto center = centers[c];
+            for (int i = 0; i < n_samples[c]; i++) {
+                mltk::Point<double> p(n_dims, 0.0);
+                for (int j = 0; j < n_dims; j++) {
+                    p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
+                                                                                                clusters_std[c]);
+                }
+                if(has_classes) {
+                    if (centers.size() == 2) {
+                        p.Y() = (c == 0) ? -1 : 1;
+                    } else {
+                        p.Y() = c + 1;
                     }
-                    dataset.insertPoint(p);
                 }
+                dataset.insertPoint(p);
             }
         }
         if (shuffle) dataset.shuffle(seed);
-- 
2.43.0

