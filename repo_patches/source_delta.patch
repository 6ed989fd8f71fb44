From 933944d9bb00b3da8710ff574ee1538a0af73e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 01/70] fix: argsort of one- and two-element lines returned
 out-of-range indices

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From 434cf3bc2a28a9b76953a9873df1e84ee000af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 02/70] fix: argsort of a std::vector wrote into an empty index
 vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..fd35575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -819,7 +819,7 @@ const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reve
     }
     
     for (int i = 0; i < combine.size(); ++i) {
-        indices[i] = combine[i].second;
+        indices.push_back(combine[i].second);
     }
 
     return indices;
-- 
2.43.0


From d596410851790942b8424e12999ca3b3cea735ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 03/70] fix: slice of a vector read past its end and truncated
 to int

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index fd35575..9ea579e 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -880,7 +880,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -890,7 +890,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From cb4f79ad8b9dd3614e8cd700fa732aab6e456719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 04/70] fix: 2d slice checked the columns against the number of
 rows

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 9ea579e..a4f225b 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -842,14 +842,14 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    if (end_col < start_col || end_col >= x[start_row].size()) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
-- 
2.43.0


From 7c73d10f3623678bde6abb100b4e6ff7e1e7aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 05/70] fix: is_equal read past the end of a shorter second
 vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index a4f225b..f861e0a 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From 227e08fb13ed81dc77b27482d51a70d7e4bbac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 06/70] fix: sortrows comparators fell off their end for equal
 rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index f861e0a..2c1b233 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From 062973dd8095687295423e398088659814bc5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 07/70] fix: unique returned positions in the sorted copy, not
 in the input

---
 src/core/common.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 2c1b233..06bdb01 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -422,17 +422,17 @@ std::tuple<VecType, VecType> unique(const VecType& x){
 
     std::sort(stdvec_x.begin(), stdvec_x.end());
     auto first = std::begin(stdvec_x), last = std::end(stdvec_x);
-    std::set<std::size_t> hash_set;
     std::map<DataType, std::size_t> hash_map;
-    for(std::size_t i = 0; first != last; ++i, ++first){
-        auto iter_pair = hash_map.insert(std::make_pair(*first, i));
-        if(iter_pair.second){
-            stdvec_value.push_back(iter_pair.first->first);
-            hash_set.insert(iter_pair.first->second);
-            hash_set.insert(i);
+    // first position of every value in the input
+    for (std::size_t i = 0; i < x.rows(); i++) {
+        hash_map.insert(std::make_pair(x(i, 0), i));
+    }
+    for(; first != last; ++first){
+        if(stdvec_value.empty() || stdvec_value.back() != *first){
+            stdvec_value.push_back(*first);
+            stdvec_index.push_back(hash_map[*first]);
         }
     }
-    stdvec_index = {hash_set.begin(), hash_set.end()};
 
     VecType retvec_value = Eigen::Map<VecType>(stdvec_value.data(), stdvec_value.size(), 1);
     VecType retvec_index = Eigen::Map<VecType>(stdvec_index.data(), stdvec_index.size(), 1);
-- 
2.43.0


From c5e508e4a6805ec708c417b88c51af90f31b6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 08/70] fix: median, norm2, cumsum and logsumexp had no defined
 result for an invalid axis

---
 src/core/math/linalg.hpp | 3 +++
 src/core/math/ops.hpp    | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..523a7e5 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -302,6 +302,9 @@ VecType logsumexp(const MatType& x, int axis){
         log_sum_exp(0, 0) = log_sum_exp_val;
         return log_sum_exp;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 7aef730..3a7bb18 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -184,6 +184,9 @@ VecType median(const MatType& x, int axis = 0) {
         }
         return med;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -243,6 +246,9 @@ VecType norm2(const MatType& x, int axis = 0) {
     else if (axis == 1) {
         return x.rowwise().norm();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -278,6 +284,9 @@ MatType cumsum(const MatType& x, int axis = 0) {
         std::partial_sum(flatten_vec.begin(), flatten_vec.end(), sum.begin());
         return sum;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return cum_sum;
 };
 
-- 
2.43.0


From 8c3e03569b3d59ac14ed78d43a6703c5f1652dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 09/70] fix: variance lost all its digits, or went negative,
 for data far from zero

---
 src/core/math/ops.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 3a7bb18..f1e6731 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -38,26 +38,23 @@ AnyType cov(const AnyType& x) {
 template<typename MatType>
 MatType var(const MatType& x, int axis = -1) {
     MatType copy_x = x;
-    // Var(X)=E[X^2]-(E[X])^2
+    // Var(X)=E[(X-E[X])^2]
     if (axis == 0) {
         auto colmean = copy_x.colwise().mean();                                      
-        auto x_squared_mean = copy_x.array().square().colwise().mean();
-        auto colvar = x_squared_mean.array() - colmean.array().square();
+        MatType centered = copy_x.rowwise() - colmean;
 
-        return colvar; 
+        return centered.array().square().colwise().mean();
     }
     else if (axis == 1) {
         auto rowmean = copy_x.rowwise().mean();
-        auto x_squared_mean = copy_x.array().square().rowwise().mean();
-        auto rowvar = x_squared_mean.array() - rowmean.array().square();
+        MatType centered = copy_x.colwise() - rowmean;
 
-        return rowvar;
+        return centered.array().square().rowwise().mean();
     }
     else if (axis == -1) {
         auto mean = copy_x.mean();
-        auto x_squared_mean = copy_x.array().square().mean();
         MatType var(1, 1);
-        var(0, 0) = x_squared_mean - std::pow(mean, 2);
+        var(0, 0) = (copy_x.array() - mean).square().mean();
         return var;
     }
     else {
-- 
2.43.0


From dc64d7937d7242025d5d5ece9673ed6f62b0e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 10/70] fix: explained_variance_score lost all its digits for
 targets far from zero

---
 src/core/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index 66f13a9..0d47d9b 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -39,8 +39,8 @@ double explained_variance_score(const VecType& y_true,
     // auto retval = 1.0 -  static_cast<double>(y_diff_var / y_var);
 
     VecType y_diff = y_pred - y_true;
-    auto y_diff_var = y_diff.array().square().mean() - std::pow(y_diff.mean(), 2);
-    auto y_var = y_true.array().square().mean() - std::pow(y_true.mean(), 2);
+    auto y_diff_var = (y_diff.array() - y_diff.mean()).square().mean();
+    auto y_var = (y_true.array() - y_true.mean()).square().mean();
     return 1.0 - static_cast<double>(y_diff_var / y_var);
 };
 
-- 
2.43.0


From 29c28766305788cb490f67c50f502355d39d2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 11/70] fix: entropy was NaN when all weights of one value were
 zero

---
 src/core/math/extmath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..908feb8 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -143,7 +143,9 @@ double entropy(const VecType& x,
         double p_i = 1.0 * static_cast<double>(x_count->second) * 
             mean / static_cast<double>(nrows);
 
-        ent += (-p_i) * std::log2(p_i);
+        if (p_i > 0) {
+            ent += (-p_i) * std::log2(p_i);
+        }
     }
     return ent;
 };
-- 
2.43.0


From 0e3dd862f2db6cda2bb539dddc158f1e22b8aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 12/70] fix: softmax rejected matrices of one row, so one
 sample could not be classified

---
 src/core/math/extmath.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 908feb8..412916c 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -236,7 +236,7 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
+    if (nrows == 0 || ncols == 0) {
         throw std::invalid_argument("Input ndarray should be 2 dimension");
     }
 
-- 
2.43.0


From 5969b48dc921fd69e2e432de4dd708cb1961ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 13/70] fix: P*L*U of lu did not reproduce the matrix (full
 pivoting, column permutation dropped)

---
 src/core/math/linalg.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 523a7e5..7c52d34 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,9 +25,13 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
+    // PartialPivLU wants a square matrix
+    std::size_t max_size = std::max(nrows, ncols);
+    MatType square = MatType::Zero(max_size, max_size);
+    square.topLeftCorner(nrows, ncols) = x;
+    Eigen::PartialPivLU<MatType> lu_decomposition(square);
 
-    MatType lu_m = lu_decomposition.matrixLU();
+    MatType lu_m = lu_decomposition.matrixLU().topLeftCorner(nrows, ncols);
     // L is (M, min(M, N))
     MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
     L = L.leftCols(min_size).eval();
@@ -36,8 +40,9 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
     MatType U = lu_m.template triangularView<Eigen::Upper>();
     U = U.topRows(min_size).eval();
 
-    MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
+    // the decomposition is P^-1 * L * U, so return the inverse permutation
+    MatType P = lu_decomposition.permutationP().transpose();
+    P = P.topLeftCorner(nrows, nrows).eval();
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From 60feb4091df8fe7e9b0eb28de1fed1c20be6fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 14/70] fix: randomized_svd sign flip met a full V of the wrong
 shape

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 7c52d34..37ca719 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -198,7 +198,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 30306d1e1cf73ffe84d94dc0f6d31b50efd82c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 15/70] fix: eig did not compile for real matrices

---
 src/core/math/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 37ca719..fe98256 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -364,8 +364,8 @@ std::tuple<MatType, MatType> eig(const MatType& x) {
     }
 
     MatType vals, vecs;
-    vals = eigs.eigenvalues().template cast<DataType>();
-    vecs = eigs.eigenvectors();
+    vals = eigs.eigenvalues().real().template cast<DataType>();
+    vecs = eigs.eigenvectors().real().template cast<DataType>();
 
     return std::make_tuple(vals, vecs);
 }
-- 
2.43.0


From 7ba387c9fd0fabbe43568e6f7db859fc69dc10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 16/70] fix: loadtxt read out of bounds for empty files and
 rows of different length

---
 src/core/data/load.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..0eeae49 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -31,9 +31,19 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (row.empty()) {
+            continue;
+        }
+        if (!stdmat.empty() && row.size() != stdmat[0].size()) {
+            throw std::invalid_argument("Rows of the input file differ in length.");
+        }
         stdmat.push_back(row);
     }
 
+    if (stdmat.empty()) {
+        throw std::invalid_argument("Input file holds no data.");
+    }
+
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
     MatType mat(n_rows, n_cols);
@@ -88,9 +98,19 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (row.empty()) {
+            continue;
+        }
+        if (!stdmat.empty() && row.size() != stdmat[0].size()) {
+            throw std::invalid_argument("Rows of the input file differ in length.");
+        }
         stdmat.push_back(row);
     }
 
+    if (stdmat.empty()) {
+        throw std::invalid_argument("Input file holds no data.");
+    }
+
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
     X.resize(nrows, std::vector<DataType>(ncols - 1));
     for (std::size_t i = 0; i < nrows; ++i) {
-- 
2.43.0


From af24009f94ef6e5e1bf512ac35577dbac0af37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 17/70] fix: loadtxt into used vectors wrote past old rows and
 appended labels

---
 src/core/data/load.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 0eeae49..51da6b0 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -112,7 +112,8 @@ void loadtxt(const std::string &fp,
     }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
-    X.resize(nrows, std::vector<DataType>(ncols - 1));
+    X.assign(nrows, std::vector<DataType>(ncols - 1));
+    y.clear();
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
             X[i][j] = stdmat[i][j];
-- 
2.43.0


From 8f44f1a7ea590c89ecd25c9208f41a9fa30aa345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 18/70] fix: shuffle_data assigned to its axis instead of
 comparing it

---
 src/core/math/shuffle.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/math/shuffle.hpp b/src/core/math/shuffle.hpp
index 4c9bfd3..6c9794e 100644
--- a/src/core/math/shuffle.hpp
+++ b/src/core/math/shuffle.hpp
@@ -21,9 +21,12 @@ void shuffle_data(const MatType& X,
     if (axis == 0) {
         permut_size = X.cols();
     } 
-    else if (axis = 1) {
+    else if (axis == 1) {
         permut_size = X.rows();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     // define a index permutation
     Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> index_permut(permut_size);
     index_permut.setIdentity();
@@ -39,7 +42,7 @@ void shuffle_data(const MatType& X,
         // permute columns
         shuffled_X = X * index_permut;
     } 
-    else if (axis = 1) {
+    else if (axis == 1) {
         // permute rows
         shuffled_X = index_permut * X;
     } 
-- 
2.43.0


From d5d4c519f43ea3b358595e7b0ea1ddd963c530f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 19/70] fix: shuffle_data printed its permutation

---
 src/core/math/shuffle.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/math/shuffle.hpp b/src/core/math/shuffle.hpp
index 6c9794e..87b63dd 100644
--- a/src/core/math/shuffle.hpp
+++ b/src/core/math/shuffle.hpp
@@ -37,7 +37,6 @@ void shuffle_data(const MatType& X,
         index_permut.indices().data() + index_permut.indices().size(), 
         std::default_random_engine(seed)
     );
-    std::cout << index_permut.indices() << std::endl;
     if (axis == 0) {
         // permute columns
         shuffled_X = X * index_permut;
-- 
2.43.0


From f6bf3260299e78dee47ac57a07cba9e6527290da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 20/70] fix: KDTree clipped the root's boxes on axis 0 whatever
 axis it split on, losing neighbours

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From fe4479f1f881cc29505696d41460ad8b2e72ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 21/70] fix: KDTree radius query missed points at exactly the
 radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From 7c080b09365a0286e6911061924f87e1d21df789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 22/70] fix: KDTree used an uninitialised norm order for an
 unknown metric

---
 src/core/tree/kd_tree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 6dfc43d..33fda91 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -384,6 +384,11 @@ public:
         else if (metric == "chebyshev") {
             ord_ = Eigen::Infinity;
         }
+        else {
+            std::ostringstream err_msg;
+            err_msg << "Unknown metric: " << metric << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
 
         build_tree();
     };
-- 
2.43.0


From fe45e4b05cc16dcd4ea7ec23242de5750250a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 23/70] fix: brute force k nearest neighbours did not compile,
 and no count beat the initial one

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..1a3fbf7 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -29,13 +29,13 @@ private:
     std::unique_ptr<tree::KDTree<DataType>> tree_;
 
 protected:
-    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& samples) {
+    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& sample) {
         
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
-- 
2.43.0


From f12cb2f58de058e8a52ada01b69e29e94ce1f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 24/70] fix: k nearest neighbours voted across samples instead
 of across neighbours

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 1a3fbf7..e386d57 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0


From 6981be8532afba29935ae5c9eb2cdf0545f8c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 25/70] fix: hash tree returned the itemsets of earlier calls
 again

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From b1a77cb479731ab1f12e495bfb71af97ed565241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 26/70] fix: Apriori threw when no itemset of some length was
 frequent

---
 src/methods/rule_model/apriori.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..8b76e8a 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -162,6 +162,9 @@ protected:
             }
 
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
+            if (itemsets_list.empty()) {
+                break;
+            }
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
             ++length;
-- 
2.43.0


From 99d6b382d61734971b10480989a523b9c8ef496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 27/70] fix: Apriori miscounted itemsets of transactions that
 are not sorted and duplicate-free

---
 src/methods/rule_model/apriori.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 8b76e8a..0974169 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -42,7 +42,10 @@ private:
         
         std::vector<std::vector<DataType>> candidates;        
         for (std::size_t i = 0; i < X.size(); ++i) {
-            auto candidate = common::combinations<DataType>(X[i], k);
+            // itemsets are sorted and hold an item once
+            std::set<DataType> items(X[i].begin(), X[i].end());
+            auto candidate = common::combinations<DataType>(
+                std::vector<DataType>(items.begin(), items.end()), k);
             for (auto c : candidate) {
                 candidates.emplace_back(c);
             } 
@@ -114,6 +117,7 @@ protected:
             }
         }
 
+        std::sort(prev_frequency.begin(), prev_frequency.end());
         std::size_t length = 2;
         while (prev_frequency.size() > 1) {
             // init candidates
-- 
2.43.0


From 848351d08cead57f241bcb4a8823a3fd14ceeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 28/70] fix: Apriori kept the itemsets and rules of an earlier
 fit

---
 src/methods/rule_model/apriori.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 0974169..965c445 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -223,6 +223,8 @@ public:
     };
 
     void fit_transform(const std::vector<std::vector<DataType>>& X) {
+        all_frequency_.clear();
+        association_rules_.clear();
         fit_data(X);
         transform_data();        
     }
-- 
2.43.0


From b35d46c4a29f00fbe0cfc3d45bbbcd2ebec08f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 29/70] fix: hinge loss gradient accumulated into uninitialised
 memory

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From 5f3f929bfe276471076d079ecc537dc5ffcbcd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 30/70] fix: log loss was NaN or infinite once a predicted
 probability rounded to 0 or 1

---
 src/core/loss/log_loss.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/loss/log_loss.hpp b/src/core/loss/log_loss.hpp
index 30dc204..2a3ba9c 100644
--- a/src/core/loss/log_loss.hpp
+++ b/src/core/loss/log_loss.hpp
@@ -36,14 +36,14 @@ public:
         std::size_t num_samples = X.rows();
 
         VecType X_w(num_samples); 
-        VecType y_hat(num_samples); 
         X_w = X * W;
-        y_hat = math::sigmoid<VecType>(X_w);
 
-        VecType tmp1 = static_cast<DataType>(-1) * y.array() * 
-            y_hat.array().log();
-        VecType tmp2 = (static_cast<DataType>(1) - y.array()) * 
-            (static_cast<DataType>(1) - y_hat.array()).log();
+        // -y * log(y_hat) - (1 - y) * log(1 - y_hat)
+        //  = log(1 + exp(X_w)) - y * X_w
+        //  = max(X_w, 0) + log(1 + exp(-|X_w|)) - y * X_w
+        VecType tmp1 = X_w.array().max(static_cast<DataType>(0)) + 
+            (-X_w.array().abs()).exp().log1p();
+        VecType tmp2 = y.array() * X_w.array();
         VecType tmp3 = tmp1 - tmp2;
         double loss = static_cast<double>(tmp3.array().sum()) /
             static_cast<double>(num_samples);
-- 
2.43.0


From e349343bd039b0a4fb2475305657f4d6011c3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 31/70] fix: softmax loss under- and overflowed by subtracting
 the maximum of the whole batch

---
 src/core/loss/softmax_loss.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..b39682e 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -40,19 +40,18 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
+        VecType max_xw = xw.rowwise().maxCoeff();
+        MatType exp_xw = (xw.colwise() - max_xw).array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
 
         std::size_t index;
-        VecType exp_xw_i(num_samples);
+        VecType xw_i(num_samples);
         for (int i = 0; i < num_samples; ++i) {
             index = static_cast<std::size_t>(y(i, 0));
-            exp_xw_i(i, 0) = exp_xw(i, index);
+            xw_i(i, 0) = xw(i, index) - max_xw(i, 0);
         }
 
-        auto tmp2 = exp_xw_i.array() / sum_exp_xw.array();
-        double loss = -tmp2.array().log().sum();
+        double loss = (sum_exp_xw.array().log() - xw_i.array()).sum();
 
         loss /= static_cast<double>(num_samples);
 
@@ -78,8 +77,8 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
+        VecType max_xw = xw.rowwise().maxCoeff();
+        MatType exp_xw = (xw.colwise() - max_xw).array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
         MatType normalized_exp_xw = exp_xw.array().colwise() / sum_exp_xw.array();
 
-- 
2.43.0


From 1763a6e1bd48e116b90efd1b6c690ed1351aadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 32/70] fix: softmax loss penalised cross products of classes,
 which its gradient does not

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index b39682e..c703e2f 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -55,7 +55,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = W.squaredNorm() / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From ff0fef2438fac00c49a03a725a99c87937c1ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 33/70] fix: Huber loss branched on the norm of the batch, and
 its gradient did not compile

---
 src/core/loss/huber_loss.hpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/core/loss/huber_loss.hpp b/src/core/loss/huber_loss.hpp
index 8527b9c..6a7be4b 100644
--- a/src/core/loss/huber_loss.hpp
+++ b/src/core/loss/huber_loss.hpp
@@ -39,17 +39,17 @@ public:
         X_w = X * W; 
 
         double loss = 0.0;
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            loss = 0.5 * condition;
-        }
-        else {
-            auto tmp = (y - X_w).array() - 0.5 * delta_;
-            auto norm = tmp.array().abs().colwise().sum().maxCoeff();
-            loss = delta_ * static_cast<double>(norm);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double residual = std::abs(static_cast<double>(y(i, 0) - X_w(i, 0)));
+            if (residual <= delta_) {
+                loss += 0.5 * residual * residual;
+            }
+            else {
+                loss += delta_ * residual - 0.5 * delta_ * delta_;
+            }
         }
 
-        // loss = loss / static_cast<double>(num_samples);
+        loss = loss / static_cast<double>(num_samples);
         double reg = static_cast<double>(W.transpose() * W) / 
             (static_cast<double>(num_samples) * 2.0);
 
@@ -72,17 +72,11 @@ public:
         VecType X_w(num_samples);
         X_w = X * W;
 
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            auto tmp = X.transpose() * (X_w - y);
-            grad = tmp.array() / num_samples;
-        }
-        else {
-            // grad = self.delta *np.dot(X.T, np.sign(np.dot(X,self.w) - y))/ y.shape[0]
-            auto tmp = X.transpose() * (X_w - y).array().sign();
-            grad = tmp.array() * (delta_ / num_samples);
-        }
-        
+        VecType residual = X_w - y;
+        residual = residual.array()
+            .max(static_cast<DataType>(-delta_))
+            .min(static_cast<DataType>(delta_)).eval();
+        grad = (X.transpose() * residual) / static_cast<DataType>(num_samples);
 
         VecType reg(num_features);
         reg = W.array() / static_cast<DataType>(num_samples);
-- 
2.43.0


From 5bfaf88043576a4037764b2bf26fcb8b16934b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 34/70] fix: ExponentialDecay grew the learning rate

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From 3261d377ff94817ceea73802608b3e09dc5f173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 35/70] fix: MomentumUpdate forgot its velocity after every
 step

---
 .../sgd/update_policies/momentum_update.hpp          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..ce926fa 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,7 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    MatType V_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -23,12 +24,13 @@ public:
     */
     const MatType update(const MatType& W, 
         const MatType& grad, 
-        const double lr) const{
+        const double lr) {
         std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        if (V_.rows() != num_features || V_.cols() != num_classes) {
+            V_ = MatType::Zero(num_features, num_classes);
+        }
+        V_ = V_ * mu_ + grad * lr;
+        MatType updated_W = W - V_;
         return updated_W;
     };
 
-- 
2.43.0


From a61f3ecc4893c927971a16d4edb3770804f0dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 36/70] fix: NesterovMomentumUpdate did not compile and forgot
 its velocity

---
 .../nesterov_momentum_update.hpp                | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
index 7026a00..3e8e4ae 100644
--- a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
@@ -13,6 +13,7 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     DataType mu;
+    MatType V_;
 
 public:
     NesterovMomentumUpdate(const DataType mu_): mu(mu_) {};
@@ -21,17 +22,15 @@ public:
     /**
      * SGD with Nesterov Momentum optimization method
     */
-    const MatType update(const MatType& W, const MatType& grad, const double lr) const {
-        std::size_t nrows = W.rows();
-        MatType V(nrows);
-        V.setZero();
+    const MatType update(const MatType& W, const MatType& grad, const double lr) {
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_ = MatType::Zero(W.rows(), W.cols());
+        }
         
-        MatType prev_V(nrows);
-        prev_V = V;
+        MatType prev_V = V_;
 
-        V = mu * V + static_cast<DataType>(lr) * grad;
-        V = V + mu * (V - prev_V);
-        MatType updated_W = W - V;
+        V_ = mu * V_ + static_cast<DataType>(lr) * grad;
+        MatType updated_W = W - (V_ + mu * (V_ - prev_V));
         return updated_W;
     };
 
-- 
2.43.0


From 426bf723e0da1f6089ca779952a6953ac3b6e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 37/70] fix: truncated gradient forgot the penalty already
 applied, and applied it again every step

---
 src/core/optimizer/sgd/tg.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 44572cc..e40879d 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -44,7 +44,6 @@ private:
 
             cum_l1(j, 0) += (weight(j, 0) - w_j);
         }
-        cum_l1.setZero();
         return weight;
     }
 
-- 
2.43.0


From 10469218ede5fbf853ad9b66aeff2a0b82230645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 38/70] fix: SAG divided the sum of stored gradients by the
 batch size, not by their number

---
 src/core/optimizer/sgd/sag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 5c0e700..d295d5c 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -81,7 +81,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(this->batch_size_));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(num_batch));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-- 
2.43.0


From a7c1fecf1865285856e8fdaf893b2de86e14357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 39/70] fix: optimizers and line searches were deleted through
 bases without a virtual destructor

---
 src/core/optimizer/base.hpp                       | 2 +-
 src/core/optimizer/lbfgs/search_policies/base.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 72456d6..5170d4b 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -88,7 +88,7 @@ public:
             shuffle_(shuffle),
             verbose_(verbose) {};
     
-    ~BaseOptimizer() {};
+    virtual ~BaseOptimizer() {};
 
     virtual void optimize(const MatType& X, 
         const VecType& y) = 0;
diff --git a/src/core/optimizer/lbfgs/search_policies/base.hpp b/src/core/optimizer/lbfgs/search_policies/base.hpp
index 3299e20..51ed83f 100644
--- a/src/core/optimizer/lbfgs/search_policies/base.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/base.hpp
@@ -31,7 +31,7 @@ public:
             loss_func_(loss_func), 
             linesearch_params_(linesearch_params) {};
 
-    ~BaseLineSearch() {};
+    virtual ~BaseLineSearch() {};
 
     virtual int search(VecType& x, 
         double& fx, 
-- 
2.43.0


From 5c7c9d6c0e6b38eea40f99cf656305cc2506e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 40/70] fix: LBFGS returned no coefficients when it started at
 a minimum

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From 7f4b351ac02f5dc7044c3315aef6a346b2493ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 41/70] fix: LBFGS compared with function values it had never
 stored, and divided by a past of 0

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..f42306e 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,12 +162,14 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
+            if (past_ > 0 && past_ <= k) {
                 rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
                 if (rate < delta_) {
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
                     break;
                 }
+            }
+            if (past_ > 0) {
                 pfx(k % past_) = fx;
             }
             if ((this->max_iter_ != 0) && (this->max_iter_ < k + 1)) {
-- 
2.43.0


From 1d708b0abcb112f2abc20c1a0b2880cfccdae913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 42/70] fix: LogisticRegression predicted the opposite class,
 with its probabilities swapped

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From bcd4555e396af0ed346aea90e66101fd4c8be09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 43/70] fix: LogisticRegression with lbfgs regularised by an
 uninitialised lambda

---
 src/methods/linear_model/logistic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..a9a92c6 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -16,8 +16,8 @@ private:
 
     bool shuffle_;
     bool verbose_;
-    double alpha_;
-    double lambda_;
+    double alpha_ = 0.1;
+    double lambda_ = 0.0;
     double tol_;
     double l1_ratio_;
     double ftol_;
-- 
2.43.0


From 88973b18ac61db3c7427db862bd9802921171217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 44/70] fix: lasso_regression.hpp shared its include guard with
 ridge_regression.hpp

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..48b4a41 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From 118032347fa69bc217a428e7ac1db669e6e1fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 45/70] fix: LassoRegression and SoftmaxRegression trained
 without the intercept column they size their weights for

---
 src/methods/linear_model/lasso_regression.hpp   | 2 +-
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 48b4a41..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..a6bc1ab 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
-- 
2.43.0


From 31b1cb9c881051ecea51b6080caa23ec5ec7d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 46/70] fix: Perceptron trained without the intercept column it
 sizes its weights for

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From beb368db1336b9075a6868dc3bef84d2191b59df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 47/70] fix: Perceptron learned nothing from samples of class 0

---
 src/methods/linear_model/perceptron.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 56f6941..b067223 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -44,7 +44,11 @@ protected:
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
+        // hinge loss wants labels -1 and 1, labels 0 and 1 are predicted
         VecType y_new = y;
+        for (auto& value : y_new) {
+            value = value > 0.0 ? 1 : -1;
+        }
         
         // if intercept term exists, append a colmun into X
         if (this->intercept_) {
-- 
2.43.0


From 4fbe7da16c9dd4b9592c9f7b9277dce691804281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 48/70] fix: SoftmaxRegression predicted without its intercepts

---
 src/methods/linear_model/softmax_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a6bc1ab..78fd131 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -84,10 +84,10 @@ protected:
         std::size_t num_classes = this->w_.cols();
         MatType boundary(num_samples, num_classes);
         if (this->intercept_) {
-            auto xw = X * this->w_.topRows(num_features);
+            MatType xw = X * this->w_.topRows(num_features);
             // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
-            auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            auto b = this->w_.row(num_features);
+            boundary = xw.rowwise() + b;
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From 6c716b4950ca9ab73a4fbc4f966b0e74374e38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 49/70] fix: get_coef of a model with several classes failed to
 convert the coefficients to a vector

---
 src/methods/linear_model/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/base.hpp b/src/methods/linear_model/base.hpp
index f572e1a..9dd6b91 100644
--- a/src/methods/linear_model/base.hpp
+++ b/src/methods/linear_model/base.hpp
@@ -71,7 +71,7 @@ public:
     ~BaseLinearModel() {};
 
     /**public get_coef interface*/
-    const VecType get_coef() const {
+    const MatType get_coef() const {
         return w_;
     };
 
-- 
2.43.0


From 5d2bb229e9f77a631488da742580c5471aa57c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 50/70] fix: GaussianNB and MultinomialNB selected columns past
 the end of the data when fitting

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..a99fccf 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From 72e3f5a2f714f98e9c1ab49a26b397257635a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 51/70] fix: refitting a naive Bayes model kept the class
 counts of the previous fit

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..0932b5f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From 92b446c5c06afb41d2956f357fb25dafe270d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 52/70] fix: naive Bayes predicted the index of the class
 instead of its label

---
 src/methods/naive_bayes/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index 0932b5f..e90669f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -104,7 +104,7 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred = classes_(argmax_jll);
         return y_pred;
     }
 
-- 
2.43.0


From 6804ada493199fd7792c033049e11fc08049405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 53/70] fix: GaussianNB added the whole prior matrix to a
 column of the joint likelihood

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index a99fccf..27f8e00 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll + lp.col(i);
         }
 
         return jll;
-- 
2.43.0


From c24cbe9bd30be058e7c90936fcf7fa5058bd049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 54/70] fix: GaussianNB mean and variance getters could not
 return the matrices

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 27f8e00..5fd9388 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From 1b1928320c02f9585c8bfe4ed7907b8a5998170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 55/70] fix: MultinomialNB assigned a row vector of feature
 counts to a column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From 2d927cb2abb207c111c03a91cc3e7e6468e5d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 56/70] fix: KMeans assigned a column vector to a row of the
 centroids

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From 11115cebbe61adc4e439ba360bf62e1867990bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 57/70] fix: refitting a GaussianMixture appended to the
 precisions of the previous fit

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..24057c4 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -504,6 +504,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From ad60fc9849f4a3c20bc497b95c79b6973bf6253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 58/70] fix: PCA transform and score centred new data by its
 own mean, not by the mean of the training data

---
 src/methods/decomposition/pca.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..c2c1904 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,11 +28,13 @@ private:
 
     std::string solver_;
     double noise_var_;
+    VecType mean_;
 
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        mean_ = X.colwise().mean();
         MatType centered_X;
         centered_X = math::center<MatType>(X);
         
@@ -73,7 +75,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.transpose();
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -147,7 +149,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.transpose();
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From b653d567ee1bfd43218dae58ae9584feacf1e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 59/70] fix: PCA score and get_precision used an empty or stale
 precision unless get_covariance and get_precision had been called

---
 src/methods/decomposition/pca.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index c2c1904..5a6bb0e 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -69,6 +69,9 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From fc69a0d275c2680cc777ce7991c21f2dd1f45cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 60/70] fix: decision trees considered splits that leave one
 side empty

---
 src/methods/tree/base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..5727b11 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -63,6 +63,10 @@ protected:
                 std::vector<std::size_t> left_index, right_index;
                 std::tie(left_index, right_index) = data::divide_on_feature<MatType>(X, feature_index, threshold);
 
+                if (left_index.empty() || right_index.empty()) {
+                    continue;
+                }
+
                 VecType left_y, right_y;
                 left_y = y(left_index);
                 right_y = y(right_index);
-- 
2.43.0


From 39579c29d34c4c0d3309f708a4bed5f32810e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 61/70] fix: decision tree nodes could keep a single child when
 the other side has fewer than min_samples_leaf samples

---
 src/methods/tree/decision_tree_classifier.hpp | 4 ++++
 src/methods/tree/decision_tree_regressor.hpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..7a987ef 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -197,6 +197,10 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
+        }
+
         if (left_X.rows() >= min_samples_leaf_) {
             std::shared_ptr<Node> left_child = std::make_shared<Node>();
             cur_node->is_leaf = false;
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..48b03f2 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -202,6 +202,10 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
+        }
+
         if (left_X.rows() >= min_samples_leaf_) {
             std::shared_ptr<Node> left_child = std::make_shared<Node>();
             cur_node->is_leaf = false;
-- 
2.43.0


From 2eab86445e797afb7841b20f83444ffd002f296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 62/70] fix: refitting a DecisionTreeClassifier kept the class
 labels of the previous fit

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 7a987ef..47f8717 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -267,6 +267,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From f60a75291bd63c65376744e0aa22651b649937fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 63/70] fix: DecisionTreeClassifier predicted the index of the
 class instead of its label

---
 src/methods/tree/decision_tree_classifier.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 47f8717..7ffab10 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -302,12 +302,16 @@ public:
     const VecType predict(const MatType& X) const { 
         std::size_t num_samples = X.rows();
         MatType log_prob = predict_prob(X);
+        std::vector<DataType> classes;
+        for (auto& label : label_count_) {
+            classes.push_back(label.first);
+        }
         auto y_pred_index = common::argmax<MatType, VecType, IdxVecType>(log_prob, 1);
         VecType y_pred_value(num_samples);
         
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            y_pred_value(i) = classes[index];
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From aaf4da15633bd6162cc754f684119bbdce4c1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 64/70] fix: the gini criterion of DecisionTreeClassifier was
 not a decrease of impurity

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 7ffab10..d343008 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -93,7 +93,7 @@ protected:
             double right_gini = math::gini<VecType>(right_y);
             double g = static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * left_gini +
                 static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * right_gini;
-            impurity = 1.0 - g;
+            impurity = math::gini<VecType>(y) - g;
         }
         else if (criterion_ == "entropy") {
             double empirical_ent = math::entropy<VecType>(y);
-- 
2.43.0


From d19eb6b7081c58930e15ce15b1b08879dc86c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 65/70] fix: the squared_error criterion of
 DecisionTreeRegressor did not weight the sides by their share of the samples

---
 src/methods/tree/decision_tree_regressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 48b03f2..03c6126 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
-- 
2.43.0


From 65bcd56e5f9cb15913caac3e11ac1474387d418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 66/70] fix: the absolute_error criterion of
 DecisionTreeRegressor summed signed deviations and weighted sums by the
 sample count

---
 src/methods/tree/decision_tree_regressor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 03c6126..ead3d0b 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -98,17 +98,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = (static_cast<double>(y_bar_sum.value()) - 
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value())) / static_cast<double>(num_samples);
 
             impurity = mae;
         }
-- 
2.43.0


From 15f33c2c3fe12cbb2cf8684d543cc30e5da115bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 67/70] fix: GaussianMixture with a tied covariance added a
 column of log-determinants to a matrix of every component

---
 src/methods/mixture/gaussian_mixture.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 24057c4..dae77cd 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -302,7 +302,12 @@ private:
         C.fill(v);
 
         MatType tmp4(num_samples, num_components);
-        tmp4 = common::repeat<MatType>(log_det.transpose(), num_samples, 0);
+        if (covariance_type_ == "tied") {
+            tmp4.fill(log_det(0));
+        }
+        else {
+            tmp4 = common::repeat<MatType>(log_det.transpose(), num_samples, 0);
+        }
 
         return log_prob * (-0.5) + C + tmp4;
     }
-- 
2.43.0


From 155d681662f3dae49999e771ea42813d9a2b320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 68/70] fix: exact_svd kept wrong singular values of matrices
 with 16 or more features and a clustered spectrum

---
 src/core/math/linalg.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index fe98256..cbf04cf 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -123,6 +123,18 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
+
+        // BDCSVD can lose most of its digits when singular values are
+        // clustered, keep its result only if it reproduces x
+        std::size_t num_values = s.rows();
+        double residual = (U.leftCols(num_values) * s.asDiagonal() * 
+            V.leftCols(num_values).transpose() - x).norm();
+        if (!(residual <= 1.e-12 * x.norm())) {
+            Eigen::JacobiSVD<Eigen::MatrixXd> jacobi_svd(x, options);
+            U = jacobi_svd.matrixU();
+            s = jacobi_svd.singularValues();
+            V = jacobi_svd.matrixV();
+        }
     }
     return std::make_tuple(U, s, V);
 };
-- 
2.43.0


From 214d42c72998dec488bfe427f19e69e114766a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:22 +0000
Subject: [PATCH 69/70] fix: decompose single-precision matrices with exact_svd

---
 src/core/math/linalg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index cbf04cf..def5057 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -113,13 +113,13 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
     // For small matrice (<16), it is thus preferable to directly use JacobiSVD. 
     // For larger matrice, BDCSVD
     if (num_features < 16) {
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::JacobiSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
     }
     else {
-        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::BDCSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
@@ -129,8 +129,10 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
         std::size_t num_values = s.rows();
         double residual = (U.leftCols(num_values) * s.asDiagonal() * 
             V.leftCols(num_values).transpose() - x).norm();
-        if (!(residual <= 1.e-12 * x.norm())) {
-            Eigen::JacobiSVD<Eigen::MatrixXd> jacobi_svd(x, options);
+        double tol = 4500.0 * static_cast<double>(
+            ConstType<typename MatType::value_type>::epsilon());
+        if (!(residual <= tol * x.norm())) {
+            Eigen::JacobiSVD<MatType> jacobi_svd(x, options);
             U = jacobi_svd.matrixU();
             s = jacobi_svd.singularValues();
             V = jacobi_svd.matrixV();
-- 
2.43.0


From 95345eaaced30e8de05cc1f987e8b11692b91f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:22 +0000
Subject: [PATCH 70/70] fix: let LogisticRegression<float> be instantiated

---
 src/methods/linear_model/logistic_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index a9a92c6..0f7c2d1 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -101,7 +101,7 @@ protected:
                         verbose_);
             }
             else if (solver_ == "lbfgs") {
-                optimizer::LineSearchParams<double> linesearch_params(
+                optimizer::LineSearchParams<DataType> linesearch_params(
                     ftol_, wolfe_, max_linesearch_, linesearch_condition_
                 );
                 opt = std::make_unique<optimizer::LBFGS<DataType, 
-- 
2.43.0

