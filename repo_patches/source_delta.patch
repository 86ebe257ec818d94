From 9a61a9466056b5f3db09be7717dec50be0bce27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 01/39] fix: zero-initialise unspecified Dim coordinates

---
 include/cnn_from_scratch/Matrix/dim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index 7dfef9d..edf0fa3 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -23,7 +23,7 @@ struct Dim{
     }
 
     template<typename... ValSet>
-    Dim(ValSet... vals) {
+    Dim(ValSet... vals) : data{} {
         static_assert((std::is_integral_v<ValSet> && ...));
         static_assert(sizeof...(vals) <= N);
         size_t i = 0; 
-- 
2.43.0


From c56e2bd91cdde3b3b36cfeb216560efb2cf06754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:20 +0000
Subject: [PATCH 02/39] fix: refuse negative start, size and index in matrix
 views

---
 include/cnn_from_scratch/Matrix/SubMatrixView.h | 7 +++++--
 src/SubMatrixView.tpp                           | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..36e92fd 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -34,7 +34,9 @@ public:
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
         dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
+        if (start.x < 0 || start.y < 0 || start.z < 0 ||
+            dim.x   < 0 || dim.y   < 0 || dim.z   < 0 ||
+            end.x > mat_ptr_->dim().x ||
             end.y > mat_ptr_->dim().y ||
             end.z > mat_ptr_->dim().z)
         {
@@ -49,7 +51,8 @@ public:
     SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
     {
         dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
+        if (start.x < 0 || start.y < 0 || start.z < 0 ||
+            end.x > other_view.dim_.x ||
             end.y > other_view.dim_.y ||
             end.z > other_view.dim_.z)
         {
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..579e8a1 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,8 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 ||
+        idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +43,8 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 ||
+        idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From 38f7f181b97229a31a8be6f1278663e07fb6983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 03/39] fix: accumulate dot product in the common element type

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..157fa08 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,7 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>());
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From 6579b7d7b2cf39192f5a5ff2aa4fa3f2488deabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:33 +0000
Subject: [PATCH 04/39] fix: keep the sign in the mean of integer matrices

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 157fa08..abab1c2 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -462,7 +462,7 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    return sum(M) / static_cast<std::ptrdiff_t>(M.size());
 }
 
 template<typename MatrixType>
-- 
2.43.0


From 18598202156a835b51be110246780e61526f0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:38 +0000
Subject: [PATCH 05/39] fix: SimpleMatrix::abs did not compile

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..424affd 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -203,7 +203,7 @@ SimpleMatrix<T> SimpleMatrix<T>::abs() const {
         return *this;
     else{
         SimpleMatrix<T> out(dim_);
-        return out = std::abs(*this);
+        return out = my_cnn::abs(*this);
     }
 }
 
-- 
2.43.0


From 446c5e1e64efc70f23d6e42528f2b81b4dab9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:44 +0000
Subject: [PATCH 06/39] fix: evaluate matrix expressions before overwriting the
 destination

---
 src/SimpleMatrix.tpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 424affd..5411156 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -88,10 +88,9 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
-    return *this;
+    // Evaluate everything before overwriting, M could refer to this matrix
+    SimpleMatrix<T> result(std::forward<MatrixType>(M));
+    return *this = std::move(result);
 }
 
 // ================================== //
-- 
2.43.0


From 531d469cb1349db275a5b6b215565ab610b0d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:50 +0000
Subject: [PATCH 07/39] fix: matrix printing and serialization must keep the
 stream format

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 9 +++++----
 src/SimpleMatrix.tpp                           | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index addb3f2..5e6e33b 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -135,11 +135,12 @@ template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, Mat
 std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     using T = typename MatrixType::type;
 
-    int default_precision = std::cout.precision();
+    const std::ios_base::fmtflags default_flags = os.flags();
+    const std::streamsize default_precision = os.precision();
     int max_width = 4;
     
     if constexpr (std::is_floating_point_v<T>){
-        std::cout << std::setprecision(2) << std::fixed;
+        os << std::setprecision(2) << std::fixed;
         max_width += 3;
     }
 
@@ -156,8 +157,8 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         os << "\n";
     }
 
-    std::cout << std::setprecision(default_precision);
-    std::cout << std::defaultfloat;
+    os.precision(default_precision);
+    os.flags(default_flags);
 
     return os;
 }
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 5411156..3227908 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -222,6 +222,7 @@ size_t SimpleMatrix<T>::maxIndex() const{
 
 template<typename T>
 void SimpleMatrix<T>::serialize(std::ostream& os) const {
+    const std::ios_base::fmtflags default_flags = os.flags();
     os << std::fixed;
     os << dim_.x << " " << dim_.y << " " << dim_.z << "\n";
     for (int z = 0; z < dim_.z; z++){
@@ -234,7 +235,7 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
         }
         os << "\n";
     }
-    os << std::defaultfloat;
+    os.flags(default_flags);
 }
 
 template<typename T>
-- 
2.43.0


From 21cf0356a295940e7b94d8cdeb99d4873deec3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:55 +0000
Subject: [PATCH 08/39] fix: half turn rotation does not need a square matrix

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index abab1c2..a0e9c0f 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -424,7 +424,7 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 53c5a0fb0876f9dbf7fe85cb563c75ec9a8b2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 09/39] fix: respect the stride in the size of a convolution
 result

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 4 ++--
 src/Layers/Kernel.cpp                        | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a0e9c0f..2d4a114 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -255,8 +255,8 @@ auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     assert(M1.isFlat() && M2.isFlat());
 
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x + stride.x) / stride.x,
+        (M1.dim().y - M2.dim().y + stride.y) / stride.y,
         1
     );
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..fdee05a 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -92,9 +92,10 @@ bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
 // ----------------------------------------------------------------------------
 
 dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
+    const int step = stride;
     return dim3(
-        input_data.dim(0) - dim_.x + 1,
-        input_data.dim(1) - dim_.y + 1,
+        (input_data.dim().x - dim_.x + step) / step,
+        (input_data.dim().y - dim_.y + step) / step,
         num_filters
     );
 }
-- 
2.43.0


From d612485f2b33b18a44bd1ac3d9e94991fdf9cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 10/39] fix: respect the stride in the convolution gradients

---
 src/Layers/Kernel.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index fdee05a..677b49a 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -129,23 +129,43 @@ SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+// Spread the output gradient out so that neighbouring entries are one stride apart
+static SimpleMatrix<double> dilate(const SimpleMatrix<double>& dLdY, int stride){
+    SimpleMatrix<double> dilated({
+        (dLdY.dim().x - 1)*stride + 1,
+        (dLdY.dim().y - 1)*stride + 1,
+        dLdY.dim().z
+    });
+    for (auto it = dLdY.begin(); it != dLdY.end(); ++it){
+        dilated(dim3(it.idx().x*stride, it.idx().y*stride, it.idx().z)) = *it;
+    }
+    return dilated;
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
 
     // Create the output matrix
     SimpleMatrix<double> dLdW(weights.dim());
+    const SimpleMatrix<double> gradient = dilate(dLdY, stride);
+
+    // The part of the input that was covered by the filters
+    const dim3 covered_dim(gradient.dim().x + dim_.x - 1, gradient.dim().y + dim_.y - 1, 1);
 
     // Loop through all of the filters and find the gradient for each one
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
 
         // Get references to the data just for this filter
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
         SubMatrixView<double>       weight_gradient = dLdW.slices(filter_idx*num_channels, num_channels);
 
         for (int channel_idx = 0; channel_idx < num_channels; channel_idx++){
             // Get the input channel that corresponds to this filter channel
-            SubMatrixView<const double> input_channel = X.slice(channel_idx);
+            SubMatrixView<const double> input_channel = X.subMatView({0, 0, channel_idx}, covered_dim);
 
             // Calculate the derivate of the loss with respect to the weights for this channel
             weight_gradient.slice(channel_idx) = convolve(input_channel, output_gradient, {1, 1});
@@ -164,12 +184,16 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
 
     // Create the output matrix
     SimpleMatrix<double> dLdX(X.dim());
+    const SimpleMatrix<double> gradient = dilate(dLdY, stride);
+
+    // The part of the input that was covered by the filters
+    const dim3 covered_dim(gradient.dim().x + dim_.x - 1, gradient.dim().y + dim_.y - 1, 1);
 
     // Loop through all of the filters and find the gradient for each one
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
         // Get references to the data just for this filter
         const SubMatrixView<double> filter          = weights.slices(filter_idx*num_channels, num_channels);
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
 
         // Create storage for the input gradient corresponding to this filter
         SimpleMatrix<double> filter_gradient(dLdX.dim());
@@ -180,7 +204,7 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
             const auto rotated_gradient = rotate<2>(output_gradient);
             const auto padded_filter    = padInput(filter_channel, output_gradient.dim());
 
-            filter_gradient.slice(channel_idx) = convolve(padded_filter, rotated_gradient, {1, 1});
+            filter_gradient.subMatView({0, 0, channel_idx}, covered_dim) = convolve(padded_filter, rotated_gradient, {1, 1});
         }
 
         dLdX = dLdX + filter_gradient;
-- 
2.43.0


From 5bf476caaf2db479bd40e660499e4efa24371695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:32 +0000
Subject: [PATCH 11/39] fix: save and load the stride of convolution layers

---
 src/Layers/Kernel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 677b49a..c178031 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -252,6 +252,7 @@ std::string Kernel::serialize() const {
     serialization::place(ss, dim_.y, "y");
     serialization::place(ss, dim_.z, "z");
     serialization::place(ss, num_filters, "n");
+    serialization::place(ss, stride, "stride");
     ss << "weights\n";
     weights.serialize(ss);
     ss << "biases\n";
@@ -275,6 +276,9 @@ bool Kernel::deserialize(std::istream& is) {
     // Get the number of kernels
     num_filters = serialization::expect<unsigned>(is, "n");
 
+    // Get the stride
+    stride = serialization::expect<unsigned>(is, "stride");
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
-- 
2.43.0


From e07d67d7eaed231f3842145fb7751c2d84a21e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:37 +0000
Subject: [PATCH 12/39] fix: refuse inputs smaller than the filter or pool

---
 src/Layers/Kernel.cpp  | 6 ++++--
 src/Layers/Pooling.cpp | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index c178031..172312b 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -85,7 +85,9 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim().z == dim_.z && 
+           input_data.dim().x >= dim_.x && 
+           input_data.dim().y >= dim_.y;
 }
 
 // ----------------------------------------------------------------------------
@@ -106,7 +108,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Mismatched channel count or input smaller than the filter for convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..1f4a6b3 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -45,6 +45,10 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    // Make sure that at least one pool fits into the input
+    if (!checkSize(input))
+        throw ModelLayerException("Pooling input is smaller than the pool size");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From cf5cb69c3327cf58c6777a760b40b11b628d698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:39 +0000
Subject: [PATCH 13/39] fix: evaluate activation derivative at the input of the
 layer

---
 src/Layers/Activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..a1da246 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -72,10 +72,10 @@ SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>&
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 857b3a6773aba14e8ef69f66681966b722363678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:42 +0000
Subject: [PATCH 14/39] fix: restore the activation functions when loading an
 activation layer

---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index a1da246..e7010da 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -97,6 +97,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_         = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 917d30d39cacce820e1a9a489d3edafea7c9e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:44 +0000
Subject: [PATCH 15/39] fix: save the stride of pooling layers

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 1f4a6b3..609a95e 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -150,8 +150,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From 230993c10cebf6ee7326ac3861b5b7f5cd31303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:49 +0000
Subject: [PATCH 16/39] fix: loadModel did not compile

---
 src/ModelDescription.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..8b1dfc4 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -96,7 +96,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         // Determine the type of layer coming next
         try{
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
-- 
2.43.0


From d55161935d8dce08a21c27f9445d992124de24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:54 +0000
Subject: [PATCH 17/39] fix: load activation layers

---
 src/ModelDescription.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 8b1dfc4..aedfda5 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -110,6 +110,11 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 if (not C.deserialize(f)) return false;
             }
             
+            else if (label == "Activation"){
+                Activation& A = addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
+
             else if (label == "Softmax"){
                 // Determine the number of output labels
                 serialization::clearLine(f);
-- 
2.43.0


From 1ea4dc8c4208da638feb9d6d9117321b3c69095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:58 +0000
Subject: [PATCH 18/39] fix: protect lazy initialisation of connected layers
 from concurrent workers

---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..880b965 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <mutex>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
 namespace my_cnn{
@@ -47,6 +48,10 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    // The first call can come from several worker threads at once
+    static std::mutex init_mutex;
+    std::lock_guard<std::mutex> lock(init_mutex);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From 34a4d44cc076f5af396204ae306a6bfca77c5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 19/39] fix: loaded connected layers could not back-propagate

---
 src/Layers/ConnectedLayer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 880b965..57ae47a 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -135,7 +135,9 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
     // biases  -= learning_rate * getdLdB(dLdZ);
 
     // We need to reshape the gradient to what the previous layer would be expecting
-    SimpleMatrix<double> dLdX = last_layer ? SimpleMatrix<double>() : getdLdX(dLdZ);
+    if (last_layer) return SimpleMatrix<double>();
+    SimpleMatrix<double> dLdX = getdLdX(dLdZ);
+    dLdX.reshape(X.dim());
     return dLdX;
 }
 
@@ -166,6 +168,7 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
+    input_dim_ = dim3(weights.dim().y, 1, 1);
     initialized_ = true;
     return true;
 }
-- 
2.43.0


From 95efa31afe9a4fa5184cbd8d66cb9f65546f084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 20/39] fix: remember the true label per batch index in the
 softmax layer

---
 include/cnn_from_scratch/Layers/Softmax.h | 17 ++++++++++++-----
 src/Layers/Softmax.cpp                    | 19 +++++++++++++------
 src/ModelDescription.tpp                  |  2 +-
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Softmax.h b/include/cnn_from_scratch/Layers/Softmax.h
index 5a6dc8f..3f8cfec 100644
--- a/include/cnn_from_scratch/Layers/Softmax.h
+++ b/include/cnn_from_scratch/Layers/Softmax.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <vector>
+#include <optional>
 #include "cnn_from_scratch/Serialization.h"
 #include "cnn_from_scratch/Layers/ModelLayer.h"
 
@@ -24,9 +26,15 @@ public:
     bool checkSize(const SimpleMatrix<double>& input) override;
 
     /**
-     * Inform the layer which output label is correct. Used in backpropagation
+     * Set the number of true labels to remember
      */
-    void assignTrueLabel(size_t true_label_idx);
+    void setBatchSize(size_t batch_size) override;
+
+    /**
+     * Inform the layer which output label is correct for the given input of the
+     * batch. Used in backpropagation
+     */
+    void assignTrueLabel(size_t true_label_idx, size_t batch_idx = 0);
 
     /**
      * The actual softmax function 
@@ -48,7 +56,7 @@ public:
      */
     SimpleMatrix<double> propagateBackward(
         const SimpleMatrix<double>& input, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) override;
+        const SimpleMatrix<double>&, size_t batch_idx, bool) override;
 
     /**
      * Convert the layer configuration to a standard ascii text format 
@@ -62,8 +70,7 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
-    bool knows_true_label_ = false;
-    size_t true_label_idx_;
+    std::vector<std::optional<size_t>> true_labels_;
     size_t output_label_count_;
 };
     
diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index 33dbd71..c970c09 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -6,6 +6,7 @@ namespace my_cnn{
 // ----------------------------------------------------------------------------
 
 Softmax::Softmax(size_t output_label_count) : 
+true_labels_(1),
 output_label_count_(output_label_count)
 {}
 
@@ -27,15 +28,21 @@ bool Softmax::checkSize(const SimpleMatrix<double>& input) {
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-void Softmax::assignTrueLabel(size_t true_label_idx){
+void Softmax::setBatchSize(size_t batch_size) {
+    true_labels_.assign(batch_size, std::nullopt);
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
+void Softmax::assignTrueLabel(size_t true_label_idx, size_t batch_idx){
     if (true_label_idx >= output_label_count_){
         std::stringstream ss;
         ss << "Cannot assign true label of " << true_label_idx << " when there are only " << output_label_count_ << " labels";
         throw std::out_of_range(ss.str());
     }
 
-    true_label_idx_ = true_label_idx;
-    knows_true_label_ = true;
+    true_labels_.at(batch_idx) = true_label_idx;
 }
 
 // ----------------------------------------------------------------------------
@@ -75,13 +82,13 @@ SimpleMatrix<double> Softmax::getdLdX(const SimpleMatrix<double> output, size_t
 
 SimpleMatrix<double> Softmax::propagateBackward(
         const SimpleMatrix<double>&, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) 
+        const SimpleMatrix<double>&, size_t batch_idx, bool) 
 {
-    if (!knows_true_label_){
+    if (!true_labels_.at(batch_idx)){
         throw ModelLayerException("Cannot backpropagate softmax layer without knowledge of true label");
     }
 
-    return getdLdX(output, true_label_idx_);
+    return getdLdX(output, *true_labels_.at(batch_idx));
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfda5..7f191fd 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -204,7 +204,7 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Provide the label to the output layer for gradient calculations
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    output_layer->assignTrueLabel(result.true_label_idx, batch_idx);
 
     // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
     SimpleMatrix<double> dLdz;
-- 
2.43.0


From f4b919a9c3cd0f1c4ca25e3eb4de1cc397c45984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 21/39] fix: apply each gradient only once and skip batch
 entries without input

---
 src/Layers/ConnectedLayer.cpp | 14 ++++++++++++--
 src/Layers/Kernel.cpp         | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 57ae47a..d9a6548 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -30,14 +30,24 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
     // Accumulate the stored gradientss
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        // Skip the entries that no input was assigned to in this batch
+        if (weight_gradients_[i].size() == 0) continue;
+        num_gradients++;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad += bias_gradients_[i];  
+
+        // Each gradient is only applied once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
     }
 
+    if (num_gradients == 0) return;
+
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 172312b..b0da8e2 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -51,14 +51,24 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
     // Accumulate the stored gradientss
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        // Skip the entries that no input was assigned to in this batch
+        if (weight_gradients_[i].size() == 0) continue;
+        num_gradients++;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+
+        // Each gradient is only applied once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
     }
 
+    if (num_gradients == 0) return;
+
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad   /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From c756a14da7df32c5c731f9da778de4a193f567d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 22/39] fix: refuse unknown labels before reading the output

---
 src/ModelDescription.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 7f191fd..5642787 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -190,6 +190,9 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
     result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    if (result.true_label_idx >= output_labels.size()){
+        throw std::out_of_range("Cannot assign loss for a label which is not an output label");
+    }
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From 8203a5a789e8f34ef0a93ec3b99fe44c3ed7d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:19 +0000
Subject: [PATCH 23/39] fix: refuse truncated MNIST files

---
 src/MNISTReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..5b3a397 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -92,6 +92,9 @@ T MNISTReader::read(std::fstream& stream){
             stream.read(&buf[i], 1);
         }
     }
+    if (!stream){
+        throw std::runtime_error("Unexpected end of MNIST data file");
+    }
     return val;
 }
 
-- 
2.43.0


From a51d4695f56379a51b60a8f5a524db74449f73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:25 +0000
Subject: [PATCH 24/39] fix: refuse unreadable values when loading layers

---
 include/cnn_from_scratch/Serialization.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..1a40a73 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -57,6 +57,9 @@ static inline T expect(std::istream& is, const std::string& expected){
     if constexpr (!std::is_void_v<T>){
         T output;
         is >> output;
+        if (is.fail()){
+            throw std::runtime_error("Error loading value. Could not read the value for \"" + expected + "\"");
+        }
         clearLine(is);
         return output;
     }else{
-- 
2.43.0


From 2fff83d4147d9d83b0fcc31e342301d5aaabfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 25/39] fix: validation threads shared the pooling indices

---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..67326e7 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -69,6 +69,11 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
     std::atomic<int> correct_count = 0;
     std::vector<std::thread> workers(params.num_threads);
 
+    // Each thread needs its own set of intermediate layer results
+    for (auto& layer : model.layers){
+        layer->setBatchSize(workers.size());
+    }
+
     // Assign work to threads
     auto start = std::chrono::steady_clock::now();
     int num_images = db.numImages();
@@ -81,7 +86,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
                 lock.unlock();
 
                 // Run forwards propagation and check result
-                my_cnn::ModelResults result = model.forwardPropagation(Data.data);
+                my_cnn::ModelResults result = model.forwardPropagation(Data.data, worker_idx);
                 correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);
             }
         });
-- 
2.43.0


From 11bb8dbd4283891c8cccdd82bda347ee03da9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:35 +0000
Subject: [PATCH 26/39] fix: give all result and model fields a definite value

---
 include/cnn_from_scratch/MNISTReader.h      | 2 +-
 include/cnn_from_scratch/ModelDescription.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/MNISTReader.h b/include/cnn_from_scratch/MNISTReader.h
index 0a72184..3eb64ef 100644
--- a/include/cnn_from_scratch/MNISTReader.h
+++ b/include/cnn_from_scratch/MNISTReader.h
@@ -8,7 +8,7 @@ namespace my_cnn{
 
 struct Image{
     SimpleMatrix<float> data;
-    uint8_t label;
+    uint8_t label = 0;
 };
     
 class MNISTReader{
diff --git a/include/cnn_from_scratch/ModelDescription.h b/include/cnn_from_scratch/ModelDescription.h
index ecb8bdd..96d7295 100644
--- a/include/cnn_from_scratch/ModelDescription.h
+++ b/include/cnn_from_scratch/ModelDescription.h
@@ -16,8 +16,8 @@ namespace my_cnn{
 template<typename OutputDataType>
 struct ModelResults{
     std::optional<OutputDataType> true_label;
-    size_t label_idx;
-    size_t true_label_idx;
+    size_t label_idx = 0;
+    size_t true_label_idx = 0;
     float loss = -1.0f;
     float confidence = -1.0f;
     std::vector<SimpleMatrix<float>> layer_inputs;
@@ -37,7 +37,7 @@ class ModelDescription{
 public:
     std::vector<std::shared_ptr<ModelLayer>> layers;
     std::vector<OutputDataType> output_labels;
-    LossFunction loss_function;
+    LossFunction loss_function = CROSS_ENTROPY;
 
     struct Hyperparameters{
         double learning_rate = 0;
-- 
2.43.0


From a98d3bcb26c02fcaf16d2d31e132528f1767cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:43 +0000
Subject: [PATCH 27/39] fix: iterating an empty matrix must not visit anything

---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 3 ++-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..44fdd71 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -26,7 +26,8 @@ public:
     template<typename = std::enable_if_t<std::is_reference_v<MatrixType>>>
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
-    dim_it_(parent.dim(), idx),
+    // There is nothing to iterate over in an empty matrix, so all positions are the end
+    dim_it_(parent.dim(), parent.size() == 0 ? dim3(0, 0, parent.dim().z) : idx),
     scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index 36e92fd..dd0422b 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -94,15 +94,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From 4698b2df1ccd7b0e4369da2ce557c7a72df6ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:48 +0000
Subject: [PATCH 28/39] fix: loadingBar could only be included in one source
 file

---
 include/cnn_from_scratch/LoadingBar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/LoadingBar.h b/include/cnn_from_scratch/LoadingBar.h
index 90bfb15..93d3525 100644
--- a/include/cnn_from_scratch/LoadingBar.h
+++ b/include/cnn_from_scratch/LoadingBar.h
@@ -3,7 +3,7 @@
 #include <iostream>
 #include <iomanip>
 
-void loadingBar(float val, float total, size_t width = 50){
+inline void loadingBar(float val, float total, size_t width = 50){
     size_t occupied_width = val/total * width;
     size_t unoccupied_width = width - occupied_width;
     printf("\033[?25l");
-- 
2.43.0


From 06bd661f22289a6ad9a989b85f53675a3a326bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:34 +0000
Subject: [PATCH 29/39] fix: report failure to save a model

---
 src/ModelDescription.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 5642787..1c2f944 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -62,6 +62,7 @@ template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string filename) {
     STIC;
     std::ofstream f(filename);
+    if (not f) return false;
 
     int i = 0;
     try{
@@ -80,7 +81,7 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
     f << std::endl;
 
-    return true;
+    return f.good();
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 74c915062f9c803b943128831c5ccaef196a0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 30/39] fix: report missing, unknown and incomplete sections
 when loading a model

---
 src/ModelDescription.tpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 1c2f944..08d92a2 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -88,7 +88,9 @@ template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string filename) {
     STIC;
     std::ifstream f(filename);
+    if (not f) return false;
 
+    bool labels_loaded = false;
     std::string line;
     while (std::getline(f, line)){
         // Read the next line without extracting it
@@ -127,13 +129,18 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 for (int i = 0; i < size; i++){
                     OutputDataType label;
                     f >> label;
+                    if (f.fail()) return false;
                     serialization::clearLine(f);
                     labels[i] = label;
                 }
 
                 // Set the vector with softmax activation
                 setOutputLabels(labels, SOFTMAX);
+                labels_loaded = true;
             }
+
+            // Anything else is not a layer, unless it is the end of the file
+            else if (not label.empty()) return false;
         }
         
         catch(std::runtime_error& e){
@@ -142,7 +149,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         }
     }
 
-    return true;
+    return labels_loaded;
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 876099db9c37d7894bce54d378ab34b3a4766f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 31/39] fix: load the output labels of models without an output
 function

---
 src/ModelDescription.tpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 08d92a2..af6fb4c 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -118,10 +118,15 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 if (not A.deserialize(f)) return false;
             }
 
-            else if (label == "Softmax"){
+            else if (label == "Softmax" || label.rfind("Output labels", 0) == 0){
+                // The labels follow directly if there is no output function
+                const bool has_softmax = (label == "Softmax");
+                if (has_softmax){
+                    serialization::clearLine(f);
+                    serialization::clearLine(f);
+                }
+
                 // Determine the number of output labels
-                serialization::clearLine(f);
-                serialization::clearLine(f);
                 int size = serialization::expect<int>(f, "Output labels");
 
                 // Load the output vector
@@ -134,8 +139,8 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                     labels[i] = label;
                 }
 
-                // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                // Set the vector with the saved output function
+                setOutputLabels(labels, has_softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);
                 labels_loaded = true;
             }
 
-- 
2.43.0


From 8f01344d6e52c4ebbdbacccb605bf1fa034cc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:48 +0000
Subject: [PATCH 32/39] fix: load output labels which contain spaces

---
 src/ModelDescription.tpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index af6fb4c..6c50a43 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -133,9 +133,15 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 std::vector<OutputDataType> labels(size);
                 for (int i = 0; i < size; i++){
                     OutputDataType label;
-                    f >> label;
-                    if (f.fail()) return false;
-                    serialization::clearLine(f);
+                    if constexpr (std::is_same_v<OutputDataType, std::string>){
+                        // String labels can contain spaces
+                        std::getline(f, label);
+                        if (f.fail()) return false;
+                    }else{
+                        f >> label;
+                        if (f.fail()) return false;
+                        serialization::clearLine(f);
+                    }
                     labels[i] = label;
                 }
 
-- 
2.43.0


From a504b72643604d6768884364043b9d96b42f61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 33/39] fix: consume the dimension line of a matrix without
 entries when loading it

---
 src/SimpleMatrix.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 3227908..fa188b3 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -248,6 +248,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
 
     if (is.fail()) return false;
     this->resize(dim);
+    serialization::clearLine(is);
 
     // Retrieve the rows of the matrix
     for (int z = 0; z < dim.z; z++){
-- 
2.43.0


From 235cf6150b298bd391ba6c29d648af47961cd05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 34/39] fix: a connected layer saved before its first input
 stays uninitialised when loaded

---
 src/Layers/ConnectedLayer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index d9a6548..6e4b124 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -179,7 +179,8 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
     input_dim_ = dim3(weights.dim().y, 1, 1);
-    initialized_ = true;
+    // A layer without weights has not seen any input yet
+    initialized_ = weights.size() > 0;
     return true;
 }
 
-- 
2.43.0


From f5c09da7ec4d69684e1e2c7ae912493573274fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 35/39] fix: include the headers that are used, so every header
 can be included first

---
 include/cnn_from_scratch/Matrix/MatrixMath.h    | 4 ++++
 include/cnn_from_scratch/Matrix/SubMatrixView.h | 2 ++
 include/cnn_from_scratch/Matrix/dim.h           | 1 +
 3 files changed, 7 insertions(+)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 2d4a114..752a266 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -2,11 +2,15 @@
 
 #include <cstdint>
 #include <assert.h>
+#include <cmath>
+#include <sstream>
 #include <numeric>
 #include <algorithm>
 #include <type_traits>
 #include <functional>
+#include "cnn_from_scratch/exceptions.h"
 #include "cnn_from_scratch/Matrix/MatrixBase.h"
+#include "cnn_from_scratch/Matrix/MatrixIterator.h"
 
 namespace my_cnn{
     
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index dd0422b..8c155a0 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <string>
+#include <sstream>
 #include <iterator>
+#include "cnn_from_scratch/exceptions.h"
 #include "cnn_from_scratch/Matrix/MatrixBase.h"
 #include "cnn_from_scratch/Matrix/MatrixIterator.h"
 
diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index edf0fa3..172b9e7 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <array>
+#include <cstdint>
 #include <cstring>
 #include <ostream>
 
-- 
2.43.0


From bc5947ba91a7181d0c4a79e401dd2c97a3ab18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:03 +0000
Subject: [PATCH 36/39] fix: take the size of a matrix product before its
 operands are moved from

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 752a266..fd9ba4c 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -249,8 +249,11 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
         return sum;
     };
 
+    // The operands may be moved into the result before its other arguments are evaluated
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
+
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
-- 
2.43.0


From 5cc9d92bcd49c02fdded61aec1962e7e066291d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 37/39] fix: transpose takes its size from the result instead
 of the operand that may have been moved into it

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index fd9ba4c..c1b9e08 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -423,8 +423,8 @@ auto transpose(MatrixType&& M){
         return M(dim3(idx.y, idx.x, idx.z));
     };
     auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    // The operand may have been moved into the result, so only the result's own size is valid here
+    std::swap(ret_val.dim_.x, ret_val.dim_.y);
     return ret_val;
 }
 
-- 
2.43.0


From 4172452d802526115e94e6312ed0fdcac8dcfbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 38/39] fix: compound scalar operators keep the scalar, which
 could be an element of the matrix

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index c1b9e08..f801c70 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -53,9 +53,10 @@ void modify(MatrixType&& M, UnaryOp op){
     std::for_each(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), [&](auto& in){in = op(in);});
 }
 
+// The scalar is copied because it could be an element of the matrix that is modified
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator+=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val += other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val += other;});
     return M;
 }
 
@@ -70,7 +71,7 @@ MatrixType& operator+=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator-=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val -= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val -= other;});
     return M;
 }
 
@@ -85,7 +86,7 @@ MatrixType& operator-=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator*=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val *= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val *= other;});
     return M;
 }
 
@@ -100,7 +101,7 @@ MatrixType& operator*=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator/=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val /= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val /= other;});
     return M;
 }
 
-- 
2.43.0


From ed59d9d2ababccabff934831124542521bac733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:03 +0000
Subject: [PATCH 39/39] fix: an image of one value divided by its empty range
 and was shown black

---
 include/cnn_from_scratch/imageUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index 243203a..7c02a5d 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -14,7 +14,7 @@ void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
             const T& val = M(idx);
             float dist = max_val - val;
-            float mapped_val = max_val * (1 - dist/range);
+            float mapped_val = range > 0 ? max_val * (1 - dist/range) : max_val;
             unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);
             printf("\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);
         }
-- 
2.43.0

