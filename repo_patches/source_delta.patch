From b7647d68be3268779d3fe8503a97467893e772ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 01/70] fix: accumulated gradients must not alias the gradient
 passed in

---
 src/Tensor/AutogradMeta.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..f7f64c5 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -30,7 +30,8 @@ void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    // keep own tensor, the passed one may be shared with others
+    grad_ = grad.clone();
   }
 }
 
@@ -38,7 +39,8 @@ void AutogradMeta::addGrad(Tensor &&grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = std::move(grad);
+    // keep own tensor, the passed one may be shared with others
+    grad_ = grad.clone();
   }
 }
 
-- 
2.43.0


From efdf99745210c4bdd1942985999418f34c0c6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 02/70] fix: do not count gradients of a previous backward pass
 again in shared intermediates

---
 src/Tensor/AutogradMeta.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index f7f64c5..c9f413f 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -69,6 +69,15 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
+  // gradients of intermediate results belong to a single backward pass
+  for (auto &currFunc : backwardGraph_) {
+    auto owner = currFunc->weakOwner.lock();
+    ASSERT(owner != nullptr);
+    if (!owner->isLeaf()) {
+      owner->grad_ = {};
+    }
+  }
+
   addGrad(grad);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
-- 
2.43.0


From 7af0bd5795febf82f1b3de4aa0e8abc7e827f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 03/70] fix: backward of permute applies the inverse
 permutation

---
 src/Function/FuncTransform.h | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..95c7a85 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,10 +30,40 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    if (ctx) {
+      for (auto d : dims) {
+        ctx->pushData(d < 0 ? d + self.dim() : d);
+      }
+    }
+    return op::permute(self, dims);
+  }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      SizeVector invDims(self.dim());
+      for (int64_t i = 0; i < self.dim(); i++) {
+        invDims[ctx->savedData[i].toInt64()] = i;
+      }
+      self.addGrad(op::permute(grad, invDims));
+    }
+  }
+};
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
 
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
-- 
2.43.0


From 598e785f6ac44a29a545bb47a9d3e5034856e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 04/70] fix: nllLoss backward scales by the incoming gradient

---
 src/Operation/OpLossCpu.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..7198bb1 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -88,6 +88,11 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
     default:
       break;
   }
+  if (grad.isScalar()) {
+    op::mulInplace(out, grad);
+  } else {
+    op::mulInplace(out, op::reshape(grad, IntArrayView{batchSize, 1}));
+  }
   // TODO fuse
   return out;
 }
-- 
2.43.0


From d8d856e951db6036f1e527ebf7043b059e235a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 05/70] fix: gradient of a broadcast operand keeps the
 operand's shape

---
 src/Function/FuncElemWise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..2cbf9c6 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -28,7 +28,7 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
   }
 
   if (dims.empty()) {
-    return grad;
+    return grad.shape() == self.shape() ? grad : op::reshape(grad, self.shape());
   }
 
   auto ret = op::sumOnDims(grad, dims, true);
-- 
2.43.0


From 7ce07b288a151df5712d6cacb744ce2d505bc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 06/70] fix: in-place operators on non-leaf tensors keep the
 result in the graph

---
 src/Tensor/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..b2004ab 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -108,6 +108,12 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
 }
 
 void Tensor::inplaceSet(Tensor &&val) {
+  if (val.requiresGrad() && !isLeaf()) {
+    // continue the graph from the new value
+    impl_ = std::move(val.impl_);
+    gradMeta_ = std::move(val.gradMeta_);
+    return;
+  }
   auto reqGrad = requiresGrad();
   impl_ = std::move(val.impl_);
   impl_->options().requiresGrad(reqGrad);
-- 
2.43.0


From 1c972841c626c2c9fb3b3d4fc6d41091c4fd38b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 07/70] fix: view and scalar reduction ops return a detached
 tensor when gradients are disabled

---
 src/Operation/OpReduceCpu.h | 14 +++++++-------
 src/Tensor/Function.h       |  5 +++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..9452366 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -183,7 +183,7 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return t.clone();
   }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
@@ -207,7 +207,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {t.clone(), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -215,7 +215,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return t.clone();
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,7 +236,7 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return t.clone();
   }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -247,7 +247,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return t.clone();
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -266,7 +266,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), t.clone()};
   }
   const auto meanVal = op::mean(t);
 
@@ -292,7 +292,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), t.clone()};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index e99a597..c1ca91d 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -85,8 +85,9 @@ template <typename TensorType>
 void handleOutputTensor(TensorType& t, bool shouldRequireGrad, const std::shared_ptr<FunctionBase>& fn) {
   if (shouldRequireGrad) {
     t.setRequiresGrad(true, fn);
-  } else {
-    ASSERT(!t.requiresGrad());
+  } else if (t.requiresGrad()) {
+    // outputs created from the options of the input, e.g. reshape
+    t.setRequiresGrad(false);
   }
 }
 
-- 
2.43.0


From ee92cfb9e0eab2e0d007fb7d7c619470507fdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 08/70] fix: copy_, unary/softmax out variants and advanced
 index writes copy shared storage first

---
 src/Operation/OpElemWiseCpu.h  | 1 +
 src/Operation/OpNNLayerCpu.h   | 1 +
 src/Operation/OpTransformCpu.h | 1 +
 src/Tensor/Tensor.cpp          | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..766f277 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..3efb491 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -16,6 +16,7 @@ namespace tinytorch::op {
 template <typename T, SoftmaxType type>
 void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
+  out.copyOnWrite();
   auto info = getSoftmaxDimInfo(self, dim);
 
   const T* selfPtr = self.dataPtr<T>();
diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..f5005e1 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -147,6 +147,7 @@ void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Ten
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index b2004ab..4804c82 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -140,6 +140,7 @@ void Tensor::copy_(const Tensor &src) {
   ASSERT(src.shape() == this->shape());
   ASSERT(src.dtype() == this->dtype());
   int64_t nbytes = numel() * static_cast<int64_t>(dtypeSize(dtype()));
+  copyOnWrite();
   Storage::copyOnDevice(this->dataPtr<>(), this->device(), src.dataPtr<>(), src.device(), nbytes);
 }
 
-- 
2.43.0


From 91d46eeaa26af3c22c905c68d53b4e736e6a1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 09/70] fix: index on an offset view honours the storage offset

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..63ddc61 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
-- 
2.43.0


From de08f145b4b4d8df0caffe14daad1de04889adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 10/70] fix: check view bounds in bytes, storage offset counts
 elements

---
 src/Tensor/TensorImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..1b87505 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -24,14 +24,14 @@ TensorImpl::TensorImpl(const IntArrayView shape, Options options, const std::sha
   computeNumel(numel_, shape);
   computeStrides(strides_, shape);
 
-  ASSERT(offset + nbytes() <= storage->size());
+  ASSERT(offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storageOffset_ = offset;
   storage_ = storage;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options.dtype_);
 }
 
 void TensorImpl::setStorage(const std::shared_ptr<Storage>& storage, int64_t offset) {
-  ASSERT(offset + nbytes() <= storage->size());
+  ASSERT(offset * static_cast<int64_t>(dtypeSize(options_.dtype_)) + nbytes() <= storage->size());
   storage_ = storage;
   storageOffset_ = offset;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
@@ -227,7 +227,7 @@ void TensorImpl::ensureStorage() const {
   if (!storage_) {
     Allocator* allocator = getAllocator(options_);
     storage_ = std::make_shared<Storage>(nbytes(), options_.device_, allocator);
-    dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_;
+    dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
   }
 }
 
-- 
2.43.0


From 5d84e650e8955e8a2bef7c051680a046e4ab0bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 11/70] fix: random ops advance the shared generator instead of
 a copy of it

---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 3efb491..584b9a6 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -159,7 +159,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From 470f423e3da04a5100d253c3ac623801f60d2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 12/70] fix: batched matmul broadcasts batch dims of operands
 of different rank

---
 src/Operation/OpLinalg.cpp | 108 ++++++++++++-------------------------
 1 file changed, 35 insertions(+), 73 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..deccba5 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -8,17 +8,20 @@
 
 namespace tinytorch::op {
 
-inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetDim) {
-  auto srcSize = static_cast<int64_t>(strides.size());
-  if (srcSize >= targetDim) {
-    return {strides};
-  }
-  SizeVector result(targetDim, 0);
-  auto offset = targetDim - srcSize;
-  for (int64_t i = 0; i < srcSize; i++) {
-    result[offset + i] = strides[i];
+// element offset of the matrix that batch index `batch` of the (broadcast) result reads from an operand of shape `shape`
+inline int64_t batchOffset(int64_t batch, const SizeVector &shape, const SizeVector &retShape) {
+  auto retDimCnt = static_cast<int64_t>(retShape.size());
+  auto dimDiff = retDimCnt - static_cast<int64_t>(shape.size());
+  int64_t stride = shape[shape.size() - 2] * shape[shape.size() - 1];
+  int64_t offset = 0;
+  for (auto i = retDimCnt - 3; i >= dimDiff; i--) {
+    if (shape[i - dimDiff] != 1) {
+      offset += (batch % retShape[i]) * stride;
+    }
+    batch /= retShape[i];
+    stride *= shape[i - dimDiff];
   }
-  return result;
+  return offset;
 }
 
 SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t skipLast) {
@@ -99,6 +102,21 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
   const T *otherPtr = b.dataPtr<T>();
   T *retPtr = retTensor.dataPtr<T>();
 
+  // drop the dimensions that were inserted for 1-D operands
+  auto dropInsertedDims = [&]() -> Tensor {
+    if (prependA || appendB) {
+      SizeVector finalShape(IntArrayView(retShape.data(), retDimCnt - 2));
+      if (!prependA) {
+        finalShape.pushBack(m);
+      }
+      if (!appendB) {
+        finalShape.pushBack(n);
+      }
+      retTensor.reshape_(finalShape);
+    }
+    return retTensor;
+  };
+
   auto gemm = getGemmFunc<T>(a.device().type);
   ASSERT(gemm != nullptr);
 
@@ -135,21 +153,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         gemmStridedBatched(retPtr, selfPtr, otherPtr, m, k, n, strideA, strideB, strideC, batchSize, transA, transB,
                            a.device().index);
 
-        // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
-        return retTensor;
+        return dropInsertedDims();
       }
     }
 
-    SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
-    SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
-
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
     if (gemmBatched != nullptr) {
@@ -159,21 +166,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       const T **cPtrsHost = reinterpret_cast<const T **>(ptrsHost.data() + batchSize * 2);
 
       for (int64_t batch = 0; batch < batchSize; batch++) {
-        int64_t aOffset = 0;
-        int64_t bOffset = 0;
-        int64_t tmp = batch;
-        for (auto i = retDimCnt - 3; i >= 0; i--) {
-          int64_t index = tmp % retShape[i];
-          tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-            aOffset += index * aStrides[i];
-          }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-            bOffset += index * bStrides[i];
-          }
-        }
-        aPtrsHost[batch] = selfPtr + aOffset;
-        bPtrsHost[batch] = otherPtr + bOffset;
+        aPtrsHost[batch] = selfPtr + batchOffset(batch, shapeA, retShape);
+        bPtrsHost[batch] = otherPtr + batchOffset(batch, shapeB, retShape);
         cPtrsHost[batch] = retPtr + batch * m * n;
       }
 
@@ -189,52 +183,20 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
-      // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
-      return retTensor;
+      return dropInsertedDims();
     }
 
     // fallback: loop-based batched gemm
     for (int64_t batch = 0; batch < batchSize; batch++) {
-      int64_t aOffset = 0;
-      int64_t bOffset = 0;
-      int64_t tmp = batch;
-      for (auto i = retDimCnt - 3; i >= 0; i--) {
-        int64_t index = tmp % retShape[i];
-        tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-          aOffset += index * aStrides[i];
-        }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-          bOffset += index * bStrides[i];
-        }
-      }
-
+      int64_t aOffset = batchOffset(batch, shapeA, retShape);
+      int64_t bOffset = batchOffset(batch, shapeB, retShape);
       gemm(retPtr + batch * m * n, selfPtr + aOffset, otherPtr + bOffset, m, k, n, transA, transB, a.device().index);
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
-  }
-
-  // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
   }
 
-  return retTensor;
+  return dropInsertedDims();
 }
 
 template <typename T>
-- 
2.43.0


From 0445f8f19ed6f5cec8b0e5c8b59119b4599fcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 13/70] fix: linear backward sums weight and bias gradients
 over all leading input dims

---
 src/Function/FuncNNLayer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..11f3a88 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -30,11 +30,14 @@ class FuncLinear : public Function<FuncLinear> {
     if (input.requiresGrad()) {
       input.addGrad(op::matmul(grad, weight, false, false));
     }
+    // weight and bias are shared by all rows of the input
+    auto gradRows = op::reshape(grad, IntArrayView{-1, weight.shape(0)});
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      auto inputRows = op::reshape(input, IntArrayView{-1, weight.shape(1)});
+      weight.addGrad(op::matmul(gradRows, inputRows, true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(gradRows, 0, false));
     }
   }
 };
-- 
2.43.0


From a2d1f8f74ed6cb2566e24faa27f6a192aeff7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 14/70] fix: conv2d keeps channel order for outputs with
 several channels and positions

---
 src/Function/FuncNNLayer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 11f3a88..9306497 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -170,7 +170,9 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
-    ret.reshape_({batch, outChannels, outH, outW});
+    // rows of ret are output positions
+    ret.reshape_({batch, outH, outW, outChannels});
+    ret = op::permute(ret, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(stride);
@@ -191,7 +193,7 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    auto gradW = op::reshape(op::permute(grad, IntArrayView{0, 2, 3, 1}), IntArrayView{-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From ec2776ffdf611890fe21439478fff42528eae886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 15/70] fix: maxPool2d keeps channel order for inputs with
 several channels

---
 src/Function/FuncNNLayer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 9306497..0769222 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -98,7 +98,9 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto maxIndices = maxRet.second;
 
     auto output = maxRet.first;
-    output.reshape_({batch, channels, outH, outW});
+    // rows of col are (position, channel)
+    output.reshape_({batch, outH, outW, channels});
+    output = op::permute(output, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(kernel);
@@ -134,7 +136,9 @@ class FuncMaxPool : public Function<FuncMaxPool> {
 
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      auto gradRows = op::reshape(grad, IntArrayView{batch, channels, outH, outW});
+      gradRows = op::reshape(op::permute(gradRows, IntArrayView{0, 2, 3, 1}), IntArrayView{-1});
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradRows);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
-- 
2.43.0


From 90a5cfc6bd85f6ee19ddfead7b263ae7dbc0e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 16/70] fix: maxPool2d ignores padding when all values of a
 window are negative

---
 src/Function/FuncNNLayer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 0769222..3aa5bd1 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -92,6 +92,12 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;
 
     auto col = op::im2col(input, kernel, stride, padding);
+    if (padding.h > 0 || padding.w > 0) {
+      // padded positions never win the max
+      auto valid = op::im2col(Tensor::onesLike(input, input.options().noGrad()), kernel, stride, padding);
+      auto padded = op::eq(valid, Tensor::scalar(0, valid.options()));
+      op::fillMaskedInplace(col, padded, -std::numeric_limits<float>::infinity());
+    }
     col.reshape_({-1, kernel.h * kernel.w});
 
     auto maxRet = op::maxOnDim(col, 1, false);
-- 
2.43.0


From 1f7ded3965a51d3e2b3e2e354571cf68f8253437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 17/70] fix: max/min over infinities return the infinity

---
 src/Operation/OpReduceCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 9452366..56b39fc 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -24,7 +24,7 @@ struct OpCpuReduceMin {
 
   template <typename T>
   static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::infinity();
   }
 };
 
@@ -41,7 +41,7 @@ struct OpCpuReduceMax {
 
   template <typename T>
   static T defaultVal() {
-    return -std::numeric_limits<T>::max();
+    return -std::numeric_limits<T>::infinity();
   }
 };
 
-- 
2.43.0


From 50abc5b5b91487963703c85fb9fb2cdf2a8c0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 18/70] fix: mean returned by varMean over dims honours
 keepDims

---
 src/Operation/OpReduceCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 56b39fc..0655732 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -310,6 +310,7 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
       r *= reduceSize / (reduceSize - 1.f);
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+    meanVal.reshape_(varVal.shape());
   }
   return {varVal, meanVal};
 }
-- 
2.43.0


From 2f1a2aa11a6e56c2c6ab89484bcdbf1bac40a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 19/70] fix: attention dropout drops with probability dropoutP

---
 src/Function/FuncNNLayer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 3aa5bd1..326f692 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -285,7 +285,7 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
-- 
2.43.0


From 6db153c6e50c225127e93d871a1216e5da518aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 20/70] fix: flatten counts negative dims from the end

---
 src/Tensor/TensorImpl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index 1b87505..cb5215d 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -91,14 +91,17 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  if (startDim < 0) {
+    startDim += dim();
+  }
+  if (endDim < 0) {
+    endDim += dim();
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
   for (int64_t i = startDim; i <= endDim; i++) {
     flattenDims *= shape_[i];
   }
-- 
2.43.0


From 94071568eca4a99c156670221ee6fbe7dc1ff50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 21/70] fix: sign of zero is zero

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index 766f277..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From 94bf539ab6044acce1ca59f0b54d94b31c477b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 22/70] fix: cast to Bool maps every nonzero value to true

---
 src/Operation/OpTransformCpu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 13bc098..7221ce2 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -13,7 +13,11 @@ void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
   for (auto i = 0; i < numel; i++) {
-    dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dstPtr[i] = srcPtr[i] != static_cast<SrcT>(0) ? 1 : 0;
+    } else {
+      dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    }
   }
 }
 
-- 
2.43.0


From 049c6cb7282d92cf6fd23d5b6f18f49b12532c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 23/70] fix: permute from several threads does not share a
 scratch buffer

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 63ddc61..374bb08 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -30,7 +30,7 @@ void offsetToIndices(int64_t* indices, const IntArrayView shape, int64_t offset)
 
 void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
   ASSERT(ndim == static_cast<int64_t>(order.size()));
-  static SizeVector temp(MAX_TENSOR_DIM);
+  SizeVector temp(ndim);
   for (auto i = 0; i < ndim; i++) {
     auto d = order[i];
     if (d < 0) {
-- 
2.43.0


From 15048607775d02f6b0658d147e356a277e360389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 24/70] fix: broadcasting a size 1 dim against an empty dim
 gives an empty dim

---
 src/Operation/OpLinalg.cpp    | 2 +-
 src/Tensor/TensorIterator.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index deccba5..e7f6b1a 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -36,7 +36,7 @@ SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t
     auto dim1 = t1[idx1];
     if (dim0 != dim1) {
       if (dim0 == 1 || dim1 == 1) {
-        retShape[idxRet] = std::max(dim0, dim1);  // needBroadcast
+        retShape[idxRet] = dim0 == 1 ? dim1 : dim0;  // needBroadcast
       } else {
         return {};
       }
diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..792f8b3 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,9 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      if (d != 1) {
+        dim = d;
+      }
     }
     ret[i] = dim;
   }
-- 
2.43.0


From d4be2a9c94111da99f251d4dae00c9a7ee9fa45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 25/70] fix: SGD momentum buffer must not alias the gradient

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..27c9897 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -69,7 +69,7 @@ void SGD::doStep() {
     }
     if (momentum_ != 0.f) {
       auto &buf = momentumBuffer_[i];
-      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad;
+      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad.clone();
       if (nesterov_) {
         grad += momentum_ * buf;
       } else {
-- 
2.43.0


From 41f77a44ebfd9b96a01c16a476e59f17e2ff9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 26/70] fix: centered RMSprop divides by the standard deviation

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 27c9897..57c6ee8 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -134,7 +134,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From aabe0a817ccece3a7a865bcc0de5053d5c42db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 27/70] fix: AdamW leaves parameters without a gradient
 unchanged

---
 src/Optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 57c6ee8..9f3bae3 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -215,8 +215,11 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
-  return param->grad();
+  auto ret = param->grad();
+  if (ret.defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
+  return ret;
 }
 
 }  // namespace tinytorch::optim
-- 
2.43.0


From e0818b4d10777ad5289b7604cb82b7547102a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 28/70] fix: Serializer::save reports write errors

---
 src/Serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..e85ced4 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (!ofs) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From c5cd1da8401ee2e87d9beeb0ec34c4466836948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 29/70] fix: Serializer::load rejects truncated and damaged
 files instead of reading out of bounds

---
 src/Serializer.cpp | 61 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index e85ced4..86eb679 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -6,6 +6,7 @@
 
 #include "Serializer.h"
 
+#include <cstring>
 #include <fstream>
 #include <vector>
 
@@ -91,9 +92,25 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
   size_t offset = 0;
 
+  auto readBytes = [&](void* dst, size_t size) {
+    if (size > mappingResult.fileSize - offset) {
+      return false;
+    }
+    std::memcpy(dst, dataPtr + offset, size);
+    offset += size;
+    return true;
+  };
+  auto truncated = [&]() {
+    LOGE("Unexpected end of file: %s", path.c_str());
+    MMapUtils::unmapFile(mappingResult);
+    return false;
+  };
+
   // read header
-  uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(magic);
+  uint64_t magic = 0;
+  if (!readBytes(&magic, sizeof(magic))) {
+    return truncated();
+  }
 
   if (magic != MAGIC_NUMBER) {
     LOGE("Invalid magic number in file: %s", path.c_str());
@@ -101,8 +118,10 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     return false;
   }
 
-  uint64_t version = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(version);
+  uint64_t version = 0;
+  if (!readBytes(&version, sizeof(version))) {
+    return truncated();
+  }
 
   if (version != VERSION) {
     LOGE("Unsupported version %u in file: %s", version, path.c_str());
@@ -110,8 +129,10 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     return false;
   }
 
-  uint64_t tensorCount = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(tensorCount);
+  uint64_t tensorCount = 0;
+  if (!readBytes(&tensorCount, sizeof(tensorCount))) {
+    return truncated();
+  }
 
   ankerl::unordered_dense::map<std::string, TensorPtr> name2tensor;
   for (const auto& [name, tensor] : module.namedStates()) {
@@ -122,18 +143,22 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   ankerl::unordered_dense::set<std::string> fileKeys;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
-    const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
-    offset += sizeof(TensorHeader);
+    TensorHeader header{};
+    if (!readBytes(&header, sizeof(header)) || header.nameLength > mappingResult.fileSize - offset) {
+      return truncated();
+    }
 
-    std::string name(dataPtr + offset, header->nameLength);
-    offset += header->nameLength;
+    std::string name(dataPtr + offset, header.nameLength);
+    offset += header.nameLength;
     fileKeys.insert(name);
 
     SizeVector shape;
-    for (uint64_t j = 0; j < header->ndim; j++) {
-      int64_t dim = *reinterpret_cast<const int64_t*>(dataPtr + offset);
+    for (uint64_t j = 0; j < header.ndim; j++) {
+      int64_t dim = 0;
+      if (!readBytes(&dim, sizeof(dim))) {
+        return truncated();
+      }
       shape.pushBack(dim);
-      offset += sizeof(int64_t);
     }
 
     auto iter = name2tensor.find(name);
@@ -155,7 +180,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
+    auto dtype = static_cast<DType>(header.dtype);
     if (dtype != tensor->dtype()) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
@@ -164,23 +189,23 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // check dataSize
     size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
-    if (header->dataSize != expectedSize) {
+    if (header.dataSize != expectedSize) {
       LOGE("size not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
     // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
+    if (header.dataSize > mappingResult.fileSize || header.dataOffset > mappingResult.fileSize - header.dataSize) {
       LOGE("Tensor data out of file range: %s", name.c_str());
       success = false;
       continue;
     }
 
     // copy data
-    const void* tensorDataPtr = dataPtr + header->dataOffset;
+    const void* tensorDataPtr = dataPtr + header.dataOffset;
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
-                          static_cast<int64_t>(header->dataSize));
+                          static_cast<int64_t>(header.dataSize));
   }
 
   // check missing keys
-- 
2.43.0


From 6498cfd13c86ddcd8b3c3dab503e9b74e1a0ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 30/70] fix: Serializer::load does not write into storage
 shared with other tensors

---
 src/Serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 86eb679..59e4d94 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -204,6 +204,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // copy data
     const void* tensorDataPtr = dataPtr + header.dataOffset;
+    tensor->copyOnWrite();
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
                           static_cast<int64_t>(header.dataSize));
   }
-- 
2.43.0


From f35af2553fe3dbe4a91a6486bee1e0a58ce53674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 31/70] fix: DataLoader batch count uses integer arithmetic

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..35eeca6 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = (indices_.size() + batchSize - 1) / batchSize;
     }
   }
 
-- 
2.43.0


From a3723360686d6a8d6ca542ff2538e8484eb85ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 32/70] fix: DistributedSampler sample count uses integer
 arithmetic

---
 src/Distributed/DistributedSampler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..655c28e 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = (datasetSize_ + numReplicas_ - 1) / numReplicas_;
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
-- 
2.43.0


From d7b07bca28de5ea2c20d24cd6045a174406ee4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 33/70] fix: DistributedSampler pads small datasets by
 repeating them

---
 src/Distributed/DistributedSampler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 655c28e..fce66f0 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -47,9 +47,9 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    allIndices.reserve(totalSize_);
+    for (size_t i = 0; datasetSize_ > 0 && allIndices.size() < totalSize_; i++) {
+      allIndices.push_back(allIndices[i]);
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 39f8f6f3e3166ebef365ca576b1eed76f0ab137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 34/70] fix: DatasetMNIST keeps only the complete items of a
 truncated file

---
 src/Data/DatasetMNIST.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Data/DatasetMNIST.cpp b/src/Data/DatasetMNIST.cpp
index 5c814d0..b3ba909 100644
--- a/src/Data/DatasetMNIST.cpp
+++ b/src/Data/DatasetMNIST.cpp
@@ -49,7 +49,7 @@ void DatasetMNIST::loadImages(const std::string& path) {
     LOGE("failed to load images from %s", path.c_str());
     return;
   }
-  char p[4];
+  char p[4] = {};
 
   ifs.read(p, 4);
   auto magicNumber = toInt32(p);
@@ -67,8 +67,12 @@ void DatasetMNIST::loadImages(const std::string& path) {
 
   char* tmp = new char[height_ * width_];
   for (int32_t i = 0; i < size; ++i) {
+    if (!ifs.read(tmp, height_ * width_)) {
+      LOGE("truncated image file %s", path.c_str());
+      images_.resize(i);
+      break;
+    }
     images_[i].resize(height_ * width_);
-    ifs.read(tmp, height_ * width_);
     float* dataPtr = &images_[i][0];
     for (int32_t j = 0; j < height_ * width_; ++j) {
       auto d = static_cast<uint8_t>(tmp[j]);
@@ -86,7 +90,7 @@ void DatasetMNIST::loadLabels(const std::string& path) {
     LOGE("failed to load labels from %s", path.c_str());
     return;
   }
-  char p[4];
+  char p[4] = {};
 
   ifs.read(p, 4);
   auto magicNumber = toInt32(p);
@@ -96,7 +100,11 @@ void DatasetMNIST::loadLabels(const std::string& path) {
   auto size = toInt32(p);
   labels_.resize(size);
   for (int32_t i = 0; i < size; ++i) {
-    ifs.read(p, 1);
+    if (!ifs.read(p, 1)) {
+      LOGE("truncated label file %s", path.c_str());
+      labels_.resize(i);
+      break;
+    }
     labels_[i] = static_cast<unsigned char>(p[0]);
   }
 
-- 
2.43.0


From f6f0bccb0fa47e5712dce90edbc5ce3d077cf600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 35/70] fix: TCPStore waiters stay registered until they are
 done

---
 src/Distributed/TCPStore.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..e86e8cc 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -919,7 +919,6 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1041,7 +1040,6 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1103,24 +1101,21 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
 
   bool success = true;
   std::shared_ptr<std::condition_variable> cv;
-  std::vector<std::string> missingKeys;
 
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    for (const auto& key : keys) {
-      if (keyValueStore_.find(key) == keyValueStore_.end()) {
-        missingKeys.push_back(key);
-      }
-    }
+    bool allKeysExist = std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
+      return keyValueStore_.find(key) != keyValueStore_.end();
+    });
 
-    if (missingKeys.empty()) {
+    if (allKeysExist) {
       uint8_t result = 1;
       return detail::sendBytes(socket, &result, sizeof(result));
     }
 
     cv = std::make_shared<std::condition_variable>();
-    for (const auto& key : missingKeys) {
+    for (const auto& key : keys) {
       keyCVs_[key].push_back(cv);
     }
   }
@@ -1148,7 +1143,7 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
       success = false;
     }
 
-    for (const auto& key : missingKeys) {
+    for (const auto& key : keys) {
       auto it = keyCVs_.find(key);
       if (it != keyCVs_.end()) {
         auto& cvs = it->second;
-- 
2.43.0


From cdd40d1ead0acea0c26166e7a3835435200d83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 36/70] fix: TCPStore connection survives a get that times out

---
 src/Distributed/TCPStore.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index e86e8cc..932ae0d 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -50,6 +50,9 @@ enum class TCPStoreCommandType : uint8_t {
   CMD_WORKER_UNREGISTER
 };
 
+// value size sent when a GET ends without a value
+static constexpr uint64_t kValueNotFound = ~0ULL;
+
 static void setupSignalHandlers() {
   // ignore SIGPIPE
   signal(SIGPIPE, SIG_IGN);
@@ -458,6 +461,9 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     LOGE("TCPStore: Failed to receive value size for GET command");
     return false;
   }
+  if (valueSize == detail::kValueNotFound) {
+    return false;
+  }
 
   value.resize(valueSize);
   if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
@@ -1004,7 +1010,8 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   }
 
   LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
-  return false;
+  uint64_t valueSize = detail::kValueNotFound;
+  return detail::sendBytes(socket, &valueSize, sizeof(valueSize));
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
-- 
2.43.0


From ce1bfb91ac165765290b8207e65f1e2dc27ff2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 37/70] fix: TCPStore waits for workers without limit when
 there is no timeout

---
 src/Distributed/TCPStore.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 932ae0d..a3d8925 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -716,8 +716,13 @@ bool TCPStore::ServerImpl::waitForWorkers() {
   }
 
   std::unique_lock<std::mutex> lock(mutex_);
-  bool success = workerCV_.wait_for(
-      lock, timeout_, [this] { return shutdownServer_.load() || registeredWorkers_.load() >= numWorkers_; });
+  auto ready = [this] { return shutdownServer_.load() || registeredWorkers_.load() >= numWorkers_; };
+  bool success = true;
+  if (timeout_ != kNoTimeout) {
+    success = workerCV_.wait_for(lock, timeout_, ready);
+  } else {
+    workerCV_.wait(lock, ready);
+  }
 
   if (!success) {
     LOGE("TCPStore: Timeout waiting for workers. Expected: %d, Registered: %d", numWorkers_, registeredWorkers_.load());
-- 
2.43.0


From d1ac84cc1fa403507c65f343987532b27ebaf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 38/70] fix: TCPStore server reaps finished client threads
 without deadlocking

---
 src/Distributed/TCPStore.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index a3d8925..17982bb 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -253,6 +253,7 @@ class TCPStore::ServerImpl {
   std::thread serverThread_;
 
   std::vector<std::unique_ptr<std::thread>> clientThreads_;
+  std::vector<std::thread::id> finishedThreads_;
   std::mutex clientThreadsMutex_;
   std::atomic<size_t> activeThreadCount_{0};
 
@@ -769,11 +770,13 @@ void TCPStore::ServerImpl::cleanupFinishedThreads() {
 
   auto it = clientThreads_.begin();
   while (it != clientThreads_.end()) {
-    if ((*it)->joinable()) {
+    auto finished = std::find(finishedThreads_.begin(), finishedThreads_.end(), (*it)->get_id());
+    if (finished == finishedThreads_.end()) {
       ++it;
     } else {
+      (*it)->join();
+      finishedThreads_.erase(finished);
       it = clientThreads_.erase(it);
-      activeThreadCount_.fetch_sub(1);
     }
   }
 }
@@ -813,13 +816,10 @@ void TCPStore::ServerImpl::serverLoop() {
       activeClients_.insert(clientSocket);
     }
 
+    cleanupFinishedThreads();
     {
       std::lock_guard<std::mutex> lock(clientThreadsMutex_);
 
-      if (clientThreads_.size() > 128) {
-        cleanupFinishedThreads();
-      }
-
       auto thread = std::make_unique<std::thread>(&ServerImpl::handleClientInThread, this, clientSocket);
       clientThreads_.push_back(std::move(thread));
       activeThreadCount_.fetch_add(1);
@@ -859,6 +859,9 @@ void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
       break;
     }
   }
+
+  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+  finishedThreads_.push_back(std::this_thread::get_id());
 }
 
 bool TCPStore::ServerImpl::handleClient(socket_t socket) {
-- 
2.43.0


From 90407e1c89eb755e5a426869a27b4f813c8420ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 39/70] fix: TCPStore monitor thread is joined and never closes
 a socket that is in use

---
 src/Distributed/TCPStore.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 17982bb..a3d6bf2 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -259,6 +259,7 @@ class TCPStore::ServerImpl {
 
   std::unordered_set<socket_t> activeClients_;
   std::mutex activeClientsMutex_;
+  std::condition_variable monitorCV_;
   std::thread clientMonitorThread_;
   std::atomic<bool> monitoringRunning_{false};
 };
@@ -740,14 +741,21 @@ void TCPStore::ServerImpl::startClientMonitoring() {
   clientMonitorThread_ = std::thread([this]() {
     while (monitoringRunning_.load()) {
       cleanupDisconnectedClients();
-      std::this_thread::sleep_for(std::chrono::milliseconds(500));
+      std::unique_lock<std::mutex> lock(activeClientsMutex_);
+      monitorCV_.wait_for(lock, std::chrono::milliseconds(500), [this] { return !monitoringRunning_.load(); });
     }
   });
 }
 
 void TCPStore::ServerImpl::stopClientMonitoring() {
-  monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
+  {
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    monitoringRunning_.store(false);
+  }
+  monitorCV_.notify_all();
+  if (clientMonitorThread_.joinable()) {
+    clientMonitorThread_.join();
+  }
 }
 
 void TCPStore::ServerImpl::cleanupDisconnectedClients() {
@@ -757,7 +765,8 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   while (it != activeClients_.end()) {
     if (!detail::isSocketConnected(*it)) {
       LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
+      // the thread serving this client closes the socket
+      shutdown(*it, SHUT_RDWR);
       it = activeClients_.erase(it);
     } else {
       ++it;
-- 
2.43.0


From 094e488d3122980079cc87addd5d9f515b4caf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 40/70] fix: TCPStore server joins its threads before it is
 destroyed

---
 src/Distributed/TCPStore.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index a3d6bf2..04d608c 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -654,6 +654,13 @@ TCPStore::ServerImpl::~ServerImpl() {
   shutdownServer_.store(true);
   stopClientMonitoring();
 
+  // stop accepting before the clients are shut down
+  if (serverSock_ != INVALID_SOCKET) {
+    shutdown(serverSock_, SHUT_RDWR);
+  }
+  if (serverThread_.joinable()) {
+    serverThread_.join();
+  }
   if (serverSock_ != INVALID_SOCKET) {
     closesocket(serverSock_);
     serverSock_ = INVALID_SOCKET;
@@ -670,7 +677,6 @@ TCPStore::ServerImpl::~ServerImpl() {
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
   shutdownAllThreads();
 }
 
@@ -791,6 +797,14 @@ void TCPStore::ServerImpl::cleanupFinishedThreads() {
 }
 
 void TCPStore::ServerImpl::shutdownAllThreads() {
+  {
+    // unblock threads that wait for the next command
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    for (auto socket : activeClients_) {
+      shutdown(socket, SHUT_RDWR);
+    }
+  }
+
   std::vector<std::unique_ptr<std::thread>> threads;
   {
     std::lock_guard<std::mutex> lock(clientThreadsMutex_);
@@ -799,8 +813,8 @@ void TCPStore::ServerImpl::shutdownAllThreads() {
   }
 
   for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
+    if (thread && thread->joinable()) {
+      thread->join();
     }
   }
 
-- 
2.43.0


From e3b497bee1c3c1284e09c606d2bbe1df177bd7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 41/70] fix: TCPStore whose server failed to start reports
 failures instead of crashing

---
 src/Distributed/TCPStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 04d608c..9b8500a 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -267,6 +267,7 @@ class TCPStore::ServerImpl {
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
                    const std::chrono::milliseconds& timeout)
     : Store(timeout), host_(host), port_(port), isServer_(isServer) {
+  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (isServer_) {
     server_ = std::make_unique<ServerImpl>(port, numWorkers, timeout);
     if (!server_->start()) {
@@ -275,7 +276,6 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
     }
   }
 
-  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (!client_->connect()) {
     LOGE("TCPStore: Failed to connect client");
     return;
-- 
2.43.0


From 55087b6f8e44599b4b3ba76f6801803837768e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 42/70] fix: FileStore operations are atomic between threads
 and processes

---
 src/Distributed/FileStore.cpp | 53 ++++++++++++++++++++---------------
 src/Distributed/FileStore.h   |  1 +
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 82326d2..49bf025 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -14,6 +14,7 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <cerrno>
 #include <iostream>
 #include <thread>
 
@@ -30,13 +31,13 @@ class FileLock {
       return;
     }
 
-    struct flock fl {};
-    fl.l_type = F_WRLCK;
-    fl.l_whence = SEEK_SET;
-    fl.l_start = 0;
-    fl.l_len = 0;
-    if (fcntl(fd_, F_SETLKW, &fl) == -1) {
-      LOGE("FileStore: fcntl lock failed for path: %s", path.c_str());
+    // flock also excludes other threads of this process, and closing other descriptors does not release it
+    int result;
+    do {
+      result = flock(fd_, LOCK_EX);
+    } while (result == -1 && errno == EINTR);
+    if (result == -1) {
+      LOGE("FileStore: flock failed for path: %s", path.c_str());
       close(fd_);
       fd_ = -1;
     }
@@ -44,12 +45,7 @@ class FileLock {
 
   ~FileLock() {
     if (fd_ != -1) {
-      struct flock fl {};
-      fl.l_type = F_UNLCK;
-      fl.l_whence = SEEK_SET;
-      fl.l_start = 0;
-      fl.l_len = 0;
-      fcntl(fd_, F_SETLK, &fl);
+      flock(fd_, LOCK_UN);
       close(fd_);
     }
   }
@@ -68,11 +64,16 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
   }
 }
 
+// the lock file is next to the store directory: it is not a key, and deleting keys does not remove it
+std::string FileStore::getLockPath() const {
+  return path_.substr(0, path_.find_last_not_of('/') + 1) + ".lock";
+}
+
 std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
 
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return;
@@ -100,7 +101,17 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
   auto start = std::chrono::steady_clock::now();
   bool hasTimeout = (timeout != kNoTimeout);
 
-  while (!checkKey(key)) {
+  std::unique_ptr<FileLock> lock;
+  while (true) {
+    lock = std::make_unique<FileLock>(getLockPath());
+    if (!lock->isValid()) {
+      LOGE("FileStore: lock failed for path: %s", path.c_str());
+      return {};
+    }
+    if (checkKey(key)) {
+      break;
+    }
+    lock.reset();
     if (hasTimeout) {
       auto now = std::chrono::steady_clock::now();
       if (now - start > timeout) {
@@ -111,12 +122,6 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 
-  FileLock lock(path);
-  if (!lock.isValid()) {
-    LOGE("FileStore: lock failed for path: %s", path.c_str());
-    return {};
-  }
-
   FILE* f = fopen(path.c_str(), "rb");
   if (!f) {
     LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
@@ -158,7 +163,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
 
 int64_t FileStore::add(const std::string& key, int64_t value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return 0;
@@ -194,7 +199,7 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
 bool FileStore::deleteKey(const std::string& key) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return false;
@@ -208,10 +213,12 @@ bool FileStore::checkKey(const std::string& key) const {
 }
 
 bool FileStore::check(const std::vector<std::string>& keys) {
+  FileLock lock(getLockPath());
   return std::all_of(keys.begin(), keys.end(), [this](const auto& key) { return checkKey(key); });
 }
 
 int64_t FileStore::getNumKeys() {
+  FileLock lock(getLockPath());
   int64_t count = 0;
   DIR* dir = opendir(path_.c_str());
   if (!dir) {
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index f5edd72..221c4e6 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -28,6 +28,7 @@ class FileStore : public Store {
 
  private:
   std::string getKeyPath(const std::string& key) const;
+  std::string getLockPath() const;
   bool checkKey(const std::string& key) const;
 
   std::string path_;
-- 
2.43.0


From 1e088ee92dd84b41e929b0be898bedb1d81a5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 43/70] fix: FileStore waits without limit when there is no
 timeout

---
 src/Distributed/FileStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 49bf025..fe176db 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -242,7 +242,7 @@ void FileStore::wait(const std::vector<std::string>& keys) {
   auto start = std::chrono::steady_clock::now();
   while (!check(keys)) {
     auto now = std::chrono::steady_clock::now();
-    if (now - start > timeout_) {
+    if (timeout_ != kNoTimeout && now - start > timeout_) {
       LOGE("FileStore: Wait timeout after %lld ms", timeout_.count());
       return;
     }
-- 
2.43.0


From 158095d546a5c0cb241c68ac75ae243788909249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 44/70] fix: SmallVector copies a value that refers to its own
 storage before growing

---
 src/Utils/VectorUtils.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Utils/VectorUtils.h b/src/Utils/VectorUtils.h
index c02051c..b3878fc 100644
--- a/src/Utils/VectorUtils.h
+++ b/src/Utils/VectorUtils.h
@@ -122,9 +122,13 @@ class SmallVector {
   template <typename... Args>
   void pushBack(Args&&... args) {
     if (size_ == capacity_) {
+      // args may refer to an element of this vector
+      T value(std::forward<Args>(args)...);
       grow();
+      new (data_ + size_) T(std::move(value));
+    } else {
+      new (data_ + size_) T(std::forward<Args>(args)...);
     }
-    new (data_ + size_) T(std::forward<Args>(args)...);
     size_++;
   }
 
@@ -153,13 +157,17 @@ class SmallVector {
     if (size < size_) {
       std::destroy(data_ + size, data_ + size_);
     } else if (size > size_) {
+      // value may refer to an element of this vector
+      T newValue(value);
       reserve(size);
-      std::uninitialized_fill_n(data_ + size_, size - size_, value);
+      std::uninitialized_fill_n(data_ + size_, size - size_, newValue);
     }
     size_ = size;
   }
 
-  T* insert(T* pos, const T& value) {
+  T* insert(T* pos, const T& newValue) {
+    // newValue may refer to an element of this vector
+    T value(newValue);
     size_type idx = pos - data_;
     if (size_ == capacity_) {
       grow();
-- 
2.43.0


From 13745009e3dae9490197f5376ef7a97170cf1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 45/70] fix: comparison out variants dispatch on the operands
 instead of the Bool output

---
 src/Operation/OpElemWise.h | 12 ++++++------
 src/Tensor/Dispatch.h      | 13 +++++++++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/Operation/OpElemWise.h b/src/Operation/OpElemWise.h
index 8569c38..98b4cd2 100644
--- a/src/Operation/OpElemWise.h
+++ b/src/Operation/OpElemWise.h
@@ -149,27 +149,27 @@ DEFINE_OP(minimumOut, BinaryOpOutFn)
 
 // equal
 DEFINE_OP(eq, BinaryOpFn)
-DEFINE_OP(eqOut, BinaryOpOutFn)
+DEFINE_OP_INPUTS_KEY(eqOut, BinaryOpOutFn)
 
 // not equal
 DEFINE_OP(ne, BinaryOpFn)
-DEFINE_OP(neOut, BinaryOpOutFn)
+DEFINE_OP_INPUTS_KEY(neOut, BinaryOpOutFn)
 
 // less than
 DEFINE_OP(lt, BinaryOpFn)
-DEFINE_OP(ltOut, BinaryOpOutFn)
+DEFINE_OP_INPUTS_KEY(ltOut, BinaryOpOutFn)
 
 // less equal
 DEFINE_OP(le, BinaryOpFn)
-DEFINE_OP(leOut, BinaryOpOutFn)
+DEFINE_OP_INPUTS_KEY(leOut, BinaryOpOutFn)
 
 // greater than
 DEFINE_OP(gt, BinaryOpFn)
-DEFINE_OP(gtOut, BinaryOpOutFn)
+DEFINE_OP_INPUTS_KEY(gtOut, BinaryOpOutFn)
 
 // greater equal
 DEFINE_OP(ge, BinaryOpFn)
-DEFINE_OP(geOut, BinaryOpOutFn)
+DEFINE_OP_INPUTS_KEY(geOut, BinaryOpOutFn)
 
 // logicNot
 DEFINE_OP(logicNot, UnaryOpFn)
diff --git a/src/Tensor/Dispatch.h b/src/Tensor/Dispatch.h
index 0389dba..568fe82 100644
--- a/src/Tensor/Dispatch.h
+++ b/src/Tensor/Dispatch.h
@@ -73,13 +73,22 @@ DispatchKey getDispatchKeyFromArgs(First&& first, Rest&&... rest) {
   }
 }
 
-#define DEFINE_OP(opname, fnType)                                                                                  \
+// key of the operands, for ops whose output (first arg) has a different dtype
+template <typename Out, typename... Inputs>
+DispatchKey getDispatchKeyFromInputs(Out&&, Inputs&&... inputs) {
+  return getDispatchKeyFromArgs(std::forward<Inputs>(inputs)...);
+}
+
+#define DEFINE_OP(opname, fnType) DEFINE_OP_WITH_KEY(opname, fnType, getDispatchKeyFromArgs)
+#define DEFINE_OP_INPUTS_KEY(opname, fnType) DEFINE_OP_WITH_KEY(opname, fnType, getDispatchKeyFromInputs)
+
+#define DEFINE_OP_WITH_KEY(opname, fnType, keyFn)                                                                  \
   struct opname##Tag {};                                                                                           \
   using opname##Fn = fnType;                                                                                       \
   using opname##Registry = OpRegistry<opname##Tag, opname##Fn>;                                                    \
   template <typename... Args>                                                                                      \
   inline auto opname(Args&&... args) {                                                                             \
-    DispatchKey key = getDispatchKeyFromArgs(std::forward<Args>(args)...);                                         \
+    DispatchKey key = keyFn(std::forward<Args>(args)...);                                                          \
     auto fn = opname##Registry::lookup(key);                                                                       \
     if (!fn) {                                                                                                     \
       std::cerr << "Error call op: " << #opname << ", no impl for dispatch key = " << key.toString() << std::endl; \
-- 
2.43.0


From d20807e1bc779fd2c4eaf4bbc311a3520ce8cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 46/70] fix: caching allocator is used from several threads at
 once

---
 src/Tensor/CachedAllocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 6baa2c3..701cbda 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -8,6 +8,7 @@
 
 #include <array>
 #include <memory>
+#include <mutex>
 #include <set>
 
 #include "Utils/Logger.h"
@@ -251,6 +252,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
   void* allocate(int64_t nbytes) override {
+    std::lock_guard<std::mutex> lock(mutex_);
     Block* block = mallocImpl(nbytes);
     if (block) {
       activeBlocks[block->ptr] = block;
@@ -262,6 +264,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
   void deallocate(void* ptr) override {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto it = activeBlocks.find(ptr);
     if (it != activeBlocks.end()) {
       freeImpl(it->second);
@@ -280,6 +283,7 @@ class CachedAllocatorImpl : public Allocator {
 
  private:
   Allocator* base_;
+  std::mutex mutex_;  // tensors are created and released from any thread
   uint64_t totalAllocatedSize_;
 
   BlockPool largeBlocks;
-- 
2.43.0


From 4bfdfd67721ce269b9ed2d5d55fe79aff2c024cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 47/70] fix: releasing a long graph does not exhaust the call
 stack

---
 src/Tensor/Function.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index c1ca91d..a9c53b5 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <deque>
+#include <iterator>
 #include <type_traits>
 #include <vector>
 
@@ -31,6 +32,26 @@ struct AutogradContext {
   }
 
   explicit AutogradContext(TensorList&& inputs) : savedInputs(std::move(inputs)) {}
+
+  AutogradContext(const AutogradContext&) = delete;
+  AutogradContext& operator=(const AutogradContext&) = delete;
+
+  // a graph is released node by node, the depth of the call stack must not grow with its length
+  ~AutogradContext() {
+    static thread_local TensorList* pending = nullptr;
+    if (pending) {
+      pending->insert(pending->end(), std::make_move_iterator(savedInputs.begin()),
+                      std::make_move_iterator(savedInputs.end()));
+      return;
+    }
+    TensorList queue = std::move(savedInputs);
+    pending = &queue;
+    while (!queue.empty()) {
+      Tensor last = std::move(queue.back());
+      queue.pop_back();
+    }
+    pending = nullptr;
+  }
 };
 
 struct FunctionBase : std::enable_shared_from_this<FunctionBase> {
-- 
2.43.0


From 4f5a5f30a74d4f941cc70336a5af88b9abe876ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 48/70] fix: half and bfloat16 == and != compare values, not
 bit patterns

---
 src/Utils/BFloat16.h | 4 ++--
 src/Utils/Half.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils/BFloat16.h b/src/Utils/BFloat16.h
index 8b04b94..1599ae4 100644
--- a/src/Utils/BFloat16.h
+++ b/src/Utils/BFloat16.h
@@ -292,9 +292,9 @@ inline HOST_DEVICE bool operator>=(BFloat16& lhs, BFloat16& rhs) { return float(
 
 inline HOST_DEVICE bool operator<=(BFloat16& lhs, BFloat16& rhs) { return float(lhs) <= float(rhs); }
 
-inline HOST_DEVICE bool operator==(BFloat16& lhs, BFloat16& rhs) { return lhs.x == rhs.x; }
+inline HOST_DEVICE bool operator==(BFloat16& lhs, BFloat16& rhs) { return float(lhs) == float(rhs); }
 
-inline HOST_DEVICE bool operator!=(BFloat16& lhs, BFloat16& rhs) { return lhs.x != rhs.x; }
+inline HOST_DEVICE bool operator!=(BFloat16& lhs, BFloat16& rhs) { return float(lhs) != float(rhs); }
 
 }  // namespace tinytorch
 
diff --git a/src/Utils/Half.h b/src/Utils/Half.h
index bf99a6a..d1fe2a9 100644
--- a/src/Utils/Half.h
+++ b/src/Utils/Half.h
@@ -540,9 +540,9 @@ inline HOST_DEVICE bool operator>=(Half& lhs, Half& rhs) { return float(lhs) >=
 
 inline HOST_DEVICE bool operator<=(Half& lhs, Half& rhs) { return float(lhs) <= float(rhs); }
 
-inline HOST_DEVICE bool operator==(Half& lhs, Half& rhs) { return lhs.x == rhs.x; }
+inline HOST_DEVICE bool operator==(Half& lhs, Half& rhs) { return float(lhs) == float(rhs); }
 
-inline HOST_DEVICE bool operator!=(Half& lhs, Half& rhs) { return lhs.x != rhs.x; }
+inline HOST_DEVICE bool operator!=(Half& lhs, Half& rhs) { return float(lhs) != float(rhs); }
 
 }  // namespace tinytorch
 
-- 
2.43.0


From bc9d4b55ce4cbdf87319713cbcff277ab2f181f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 49/70] fix: frozen parameters no longer abort zeroGrad and
 optimizer steps

---
 src/Module/Module.h |  4 +++-
 src/Optimizer.cpp   | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Module/Module.h b/src/Module/Module.h
index cf436f9..e5e7157 100644
--- a/src/Module/Module.h
+++ b/src/Module/Module.h
@@ -85,7 +85,9 @@ class Module {
   virtual void zeroGrad() {
     auto allParameters = namedParameters();
     for (auto &[name, param] : allParameters) {
-      param->zeroGrad();
+      if (param->requiresGrad()) {
+        param->zeroGrad();
+      }
     }
   }
 
diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 9f3bae3..33d8caf 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -21,11 +21,16 @@ Optimizer::Optimizer(std::vector<TensorPtr> &&parameters, float lr, float weight
 
 void Optimizer::zeroGrad() const {
   for (auto &param : parameters_) {
-    param->zeroGrad();
+    if (param->requiresGrad()) {
+      param->zeroGrad();
+    }
   }
 }
 
 Tensor Optimizer::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (!ret.defined()) {
     return ret;
@@ -215,6 +220,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (ret.defined()) {
     *param *= (1.f - lr_ * weightDecay_);
-- 
2.43.0


From ecda95548f755f7be2c08d20854fdb9f50ae191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 50/70] fix: StepLR resumed right before a decay epoch applies
 the decay

---
 src/Scheduler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Scheduler.h b/src/Scheduler.h
index f351692..c7a6dc9 100644
--- a/src/Scheduler.h
+++ b/src/Scheduler.h
@@ -51,7 +51,11 @@ class Scheduler {
 class StepLR : public Scheduler {
  public:
   StepLR(Optimizer &optimizer, int64_t stepSize, float gamma = 0.1, int64_t lastEpoch = -1)
-      : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {}
+      : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {
+    // the base constructor's initial step cannot reach the override
+    lastLr_ = StepLR::getLr();
+    optimizer_.setLr(lastLr_);
+  }
 
   float getLr() override;
 
-- 
2.43.0


From 3815471a7e2fb3d6bae532ebd5acde1ddd107f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 51/70] fix: samplers shuffle with their own generator instead
 of restarting the shared one

---
 src/Data/Sampler.h                     | 4 ++--
 src/Distributed/DistributedSampler.cpp | 4 ++--
 src/Utils/RandomGenerator.h            | 2 ++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Data/Sampler.h b/src/Data/Sampler.h
index 8ee1d47..32939cd 100644
--- a/src/Data/Sampler.h
+++ b/src/Data/Sampler.h
@@ -53,8 +53,8 @@ class RandomSampler : public Sampler {
     indices_.resize(datasetSize_);
     std::iota(indices_.begin(), indices_.end(), 0);
 
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    // own generator, the shared one must not restart
+    RandomGeneratorCPU::Engine gen(seed_ + epoch_);
     std::shuffle(indices_.begin(), indices_.end(), gen);
   }
 
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index fce66f0..fc7151e 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -41,8 +41,8 @@ void DistributedSampler::generateIndices() {
   std::iota(allIndices.begin(), allIndices.end(), 0);
 
   if (shuffle_) {
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    // own generator, the shared one must not restart
+    RandomGeneratorCPU::Engine gen(seed_ + epoch_);
     std::shuffle(allIndices.begin(), allIndices.end(), gen);
   }
 
diff --git a/src/Utils/RandomGenerator.h b/src/Utils/RandomGenerator.h
index 4e19f92..b94afea 100644
--- a/src/Utils/RandomGenerator.h
+++ b/src/Utils/RandomGenerator.h
@@ -13,6 +13,8 @@ namespace tinytorch {
 
 class RandomGeneratorCPU {
  public:
+  using Engine = std::default_random_engine;
+
   static void setSeed(const unsigned long seed) {
     seed_ = seed;
     randomEngine_.seed(seed);
-- 
2.43.0


From 22b4cdff1056016cc48a728dd542998ce873da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 52/70] fix: every seed starts its own random sequence

---
 src/Utils/RandomGenerator.cpp | 2 +-
 src/Utils/RandomGenerator.h   | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Utils/RandomGenerator.cpp b/src/Utils/RandomGenerator.cpp
index 82a37d1..fdf561c 100644
--- a/src/Utils/RandomGenerator.cpp
+++ b/src/Utils/RandomGenerator.cpp
@@ -11,7 +11,7 @@ namespace tinytorch {
 static std::random_device _r;
 
 std::optional<unsigned long> RandomGeneratorCPU::seed_;
-std::default_random_engine RandomGeneratorCPU::randomEngine_(_r());
+RandomGeneratorCPU::Engine RandomGeneratorCPU::randomEngine_(_r());
 
 unsigned long RandomGeneratorCUDA::seed_ = _r();
 unsigned long RandomGeneratorCUDA::sequence_ = 0;
diff --git a/src/Utils/RandomGenerator.h b/src/Utils/RandomGenerator.h
index b94afea..4c6e1ff 100644
--- a/src/Utils/RandomGenerator.h
+++ b/src/Utils/RandomGenerator.h
@@ -13,13 +13,14 @@ namespace tinytorch {
 
 class RandomGeneratorCPU {
  public:
-  using Engine = std::default_random_engine;
+  // std::default_random_engine starts the same sequence for the seeds 0 and 1
+  using Engine = std::mt19937_64;
 
   static void setSeed(const unsigned long seed) {
     seed_ = seed;
     randomEngine_.seed(seed);
   }
-  static std::default_random_engine& getGenerator() {
+  static Engine& getGenerator() {
     if (!seed_.has_value()) {
       std::random_device r;
       randomEngine_.seed(r());
@@ -29,7 +30,7 @@ class RandomGeneratorCPU {
 
  private:
   static std::optional<unsigned long> seed_;
-  static std::default_random_engine randomEngine_;
+  static Engine randomEngine_;
 };
 
 class RandomGeneratorCUDA {
-- 
2.43.0


From 5f53d1de97da25a9e7e79523997f9798738ec145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 53/70] fix: multinomial does not select an outcome past the
 end when the draw rounds up

---
 src/Operation/OpSamplingCpu.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 26597e2..c86ff11 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -111,6 +111,10 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
 
       float r = dist(generator) * total;
       auto it = std::upper_bound(cdf.begin(), cdf.end(), r);
+      if (it == cdf.end()) {
+        // r was rounded up to the total, take the last outcome with a positive weight
+        it = std::lower_bound(cdf.begin(), cdf.end(), total);
+      }
       int64_t idx = std::distance(cdf.begin(), it);
 
       if (self.dim() == 2) {
-- 
2.43.0


From e3315b6aaeedf9e6adcbb8abf61be1c1e4d3faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 54/70] fix: dropout with probability 1 gives zeros instead of
 NaN

---
 src/Operation/OpNNLayerCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 584b9a6..0d643a8 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -173,7 +173,7 @@ Tensor dropoutMaskedOpCpuImpl(const Tensor& self, const Tensor& mask, float p) {
   auto outShape = iterator.setupBroadcast();
   ASSERT(iterator.isBroadcastOk());
   Tensor out(outShape, self.options().noGrad());
-  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return a * b / p; });
+  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return p > 0 ? T(a * b / p) : T(0); });
   return out;
 }
 
-- 
2.43.0


From 4a30871eeaafb27f5feed4ae4ba0987d2a3b427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 55/70] fix: attention dropout with probability 1 gives zeros
 instead of NaN

---
 src/Operation/OpNNLayerCpu.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 0d643a8..e044ecc 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -162,7 +162,8 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
-    outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
+    const bool keep = distribution(generator);
+    outPtr[i] = p > 0 ? static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(keep) / p) : T(0);
   }
   return out;
 }
-- 
2.43.0


From fe4fd2eb8e6414a3f4b375a8590563946fc10dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 56/70] fix: TCPStore reports failure instead of a partly
 received result

---
 src/Distributed/TCPStore.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 9b8500a..4fb2fdd 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -470,6 +470,7 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
   value.resize(valueSize);
   if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
+    value.clear();
     return false;
   }
 
@@ -496,10 +497,12 @@ bool TCPStore::ClientImpl::add(const std::string& key, int64_t addValue, int64_t
     return false;
   }
 
-  if (!detail::recvBytes(clientSock_, &newValue, sizeof(newValue))) {
+  int64_t result;
+  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive new value for ADD command");
     return false;
   }
+  newValue = result;
 
   return true;
 }
@@ -568,10 +571,12 @@ bool TCPStore::ClientImpl::getNumKeys(int64_t& numKeys) const {
     return false;
   }
 
-  if (!detail::recvBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  int64_t result;
+  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive number of keys");
     return false;
   }
+  numKeys = result;
 
   return true;
 }
-- 
2.43.0


From 6a0c64139628094475e028df26e4179b3ab38f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 57/70] fix: hook ids stay valid after another hook is
 unregistered

---
 src/Tensor/AutogradHook.h   |  3 +++
 src/Tensor/AutogradMeta.cpp | 15 +++++++++++----
 src/Tensor/AutogradMeta.h   |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Tensor/AutogradHook.h b/src/Tensor/AutogradHook.h
index f55176f..7022d4c 100644
--- a/src/Tensor/AutogradHook.h
+++ b/src/Tensor/AutogradHook.h
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <cstdint>
+
 namespace tinytorch {
 
 class Tensor;
@@ -14,6 +16,7 @@ struct Hook {
   using FnType = void (*)(void*, Tensor&);
   FnType fn;
   void* ctx;
+  int64_t id;
 };
 
 }  // namespace tinytorch
diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index c9f413f..c7ced84 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -6,6 +6,7 @@
 
 #include "AutogradMeta.h"
 
+#include <algorithm>
 #include <queue>
 #include <set>
 
@@ -87,13 +88,19 @@ void AutogradMeta::backward(const Tensor &grad) {
 }
 
 int64_t AutogradMeta::registerHook(Hook::FnType fn, void *ctx) {
-  hooks_.push_back({fn, ctx});
-  return static_cast<int64_t>(hooks_.size() - 1);
+  // ids stay valid when other hooks are removed
+  int64_t hid = nextHookId_++;
+  hooks_.push_back({fn, ctx, hid});
+  return hid;
 }
 
 void AutogradMeta::unregisterHook(int64_t hid) {
-  ASSERT(hid >= 0 && hid < static_cast<int64_t>(hooks_.size()));
-  hooks_.erase(hooks_.begin() + hid);
+  auto it = std::find_if(hooks_.begin(), hooks_.end(), [hid](const Hook &h) { return h.id == hid; });
+  if (it == hooks_.end()) {
+    LOGE("unregisterHook error: unknown hook id");
+    return;
+  }
+  hooks_.erase(it);
 }
 
 void AutogradMeta::applyHooks() {
diff --git a/src/Tensor/AutogradMeta.h b/src/Tensor/AutogradMeta.h
index 805a465..2b87f67 100644
--- a/src/Tensor/AutogradMeta.h
+++ b/src/Tensor/AutogradMeta.h
@@ -41,6 +41,7 @@ class AutogradMeta : public std::enable_shared_from_this<AutogradMeta> {
   std::shared_ptr<FunctionBase> gradFn_;
   std::vector<std::shared_ptr<FunctionBase>> backwardGraph_;
   std::vector<Hook> hooks_;
+  int64_t nextHookId_ = 0;
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From 7de9e84a1fa51312d5e75444d0a0770144791a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 58/70] fix: Reducer unregisters its hooks when destroyed

---
 src/Distributed/Reducer.cpp | 11 ++++++++++-
 src/Distributed/Reducer.h   |  6 +++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 367a69f..3a36fff 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -28,6 +28,15 @@ Reducer::Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedP
   registerHooks();
 }
 
+Reducer::~Reducer() {
+  // the parameters may outlive the reducer
+  for (auto& ctx : hookCtxs_) {
+    if (ctx->hookId >= 0) {
+      buckets_[ctx->bIdx].params[ctx->pIdx]->unregisterHook(ctx->hookId);
+    }
+  }
+}
+
 void Reducer::buildBuckets() {
   if (parameters_.empty()) {
     return;
@@ -91,7 +100,7 @@ void Reducer::registerHooks() {
       ctx->self = this;
       ctx->bIdx = bIdx;
       ctx->pIdx = pIdx;
-      param->registerHook(&parameterHookFn, ctx.get());
+      ctx->hookId = param->registerHook(&parameterHookFn, ctx.get());
       hookCtxs_.push_back(std::move(ctx));
     }
   }
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 7d27726..3159022 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -19,12 +19,16 @@ class Reducer {
     Reducer* self;
     int64_t bIdx;
     int64_t pIdx;
+    int64_t hookId;
   };
 
   Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedProcessGroup> processGroup,
           int64_t bucketBytesCap = kDefaultBucketBytesCap);
 
-  ~Reducer() = default;
+  ~Reducer();
+
+  Reducer(const Reducer&) = delete;
+  Reducer& operator=(const Reducer&) = delete;
 
   void prepareForBackward();
   void broadcastParameters(int rootRank = 0) const;
-- 
2.43.0


From 7ef2522efb31b4bc88a3664b5fe1eaf30edfa8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 59/70] fix: gradients are averaged when a parameter is frozen

---
 src/Distributed/Reducer.cpp | 16 ++++++++++++++--
 src/Distributed/Reducer.h   |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 3a36fff..2cf815b 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -102,6 +102,12 @@ void Reducer::registerHooks() {
       ctx->pIdx = pIdx;
       ctx->hookId = param->registerHook(&parameterHookFn, ctx.get());
       hookCtxs_.push_back(std::move(ctx));
+      if (param->requiresGrad()) {
+        bucket.gradCount++;
+      }
+    }
+    if (bucket.gradCount > 0) {
+      gradBucketCnt_++;
     }
   }
 }
@@ -119,7 +125,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
-  if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
+  if (bucket.readyCount == bucket.gradCount) {
     bucket.reduceStarted = true;
     reduceBucket(bucketIdx);
   }
@@ -167,7 +173,7 @@ void Reducer::broadcastParameters(int rootRank) const {
 }
 
 void Reducer::checkAllBucketsReady() {
-  if (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {
+  if (bucketReadyCnt_ < gradBucketCnt_) {
     return;
   }
 
@@ -219,6 +225,9 @@ void Reducer::copyGradsToFlattenedBuffer(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(grad.flatten());
@@ -232,6 +241,9 @@ void Reducer::copyFlattenedBufferToGrads(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     auto slice = bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]);
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 3159022..dbdb696 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -44,6 +44,7 @@ class Reducer {
     Tensor flatBuffer;
 
     int64_t totalSize = 0;
+    int64_t gradCount = 0;  // parameters requiring grad, others never get ready
     int64_t readyCount = 0;
     bool reduceStarted = false;
     std::shared_ptr<Work> work;
@@ -65,6 +66,7 @@ class Reducer {
   std::shared_ptr<DistributedProcessGroup> processGroup_;
   int64_t bucketBytesCap_;
   int64_t bucketReadyCnt_;
+  int64_t gradBucketCnt_ = 0;
   std::vector<Bucket> buckets_;
   std::vector<std::unique_ptr<ParameterHookCtx>> hookCtxs_;
 };
-- 
2.43.0


From a582d604e52e78eb2fca9ba38a003d1c83616d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 60/70] fix: NCCL allGather delivers into the output tensors

---
 src/Distributed/BackendNCCL.cpp | 25 +++++++++++++++++--------
 src/Distributed/BackendNCCL.h   |  9 +++++----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 4d578ee..bc9c9fc 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -14,7 +14,7 @@ std::shared_ptr<Work> BackendNCCL::broadcast(std::vector<Tensor>& tensors, const
   ASSERT(tensors.size() == 1);
   auto& tensor = tensors.back();
   return collective(
-      tensor, tensor,
+      tensor, {tensor},
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclBroadcast(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
                              opts.rootRank, comm->getNcclComm(), stream);
@@ -26,7 +26,7 @@ std::shared_ptr<Work> BackendNCCL::allReduce(std::vector<Tensor>& tensors, const
   ASSERT(tensors.size() == 1);
   auto& tensor = tensors.back();
   return collective(
-      tensor, tensor,
+      tensor, {tensor},
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclAllReduce(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
                              getNcclReduceOp(opts.reduceOp), comm->getNcclComm(), stream);
@@ -38,7 +38,7 @@ std::shared_ptr<Work> BackendNCCL::reduce(std::vector<Tensor>& tensors, const Re
   ASSERT(tensors.size() == 1);
   auto& tensor = tensors.back();
   return collective(
-      tensor, tensor,
+      tensor, {tensor},
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclReduce(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
                           getNcclReduceOp(opts.reduceOp), opts.rootRank, comm->getNcclComm(), stream);
@@ -51,12 +51,21 @@ std::shared_ptr<Work> BackendNCCL::allGather(std::vector<std::vector<Tensor>>& o
   ASSERT(outputTensors.size() == 1);
   ASSERT(inputTensors.size() == 1);
   auto& input = inputTensors.back();
-  auto output = op::stack(ArrayView<Tensor>(outputTensors.back()), 0);
+  auto& outputs = outputTensors.back();
+  ASSERT(static_cast<int>(outputs.size()) == getSize());
   return collective(
-      input, output,
+      input, outputs,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
-        return ncclAllGather(input.dataPtr<>(), output.dataPtr<>(), input.numel(), getNcclDataType(input.dtype()),
-                             comm->getNcclComm(), stream);
+        // every rank broadcasts its input right into the output tensors of all ranks
+        for (int i = 0; i < getSize(); i++) {
+          ASSERT(outputs[i].numel() == input.numel() && outputs[i].dtype() == input.dtype());
+          auto ret = ncclBroadcast(input.dataPtr<>(), outputs[i].dataPtr<>(), input.numel(),
+                                   getNcclDataType(input.dtype()), i, comm->getNcclComm(), stream);
+          if (ret != ncclSuccess && ret != ncclInProgress) {
+            return ret;
+          }
+        }
+        return ncclSuccess;
       },
       OpType::ALL_GATHER);
 }
@@ -69,7 +78,7 @@ std::shared_ptr<Work> BackendNCCL::reduceScatter(std::vector<Tensor>& outputTens
   auto input = op::stack(ArrayView<Tensor>(inputTensors.back()), 0);
   auto& output = outputTensors.back();
   return collective(
-      input, output,
+      input, {output},
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclReduceScatter(input.dataPtr<>(), output.dataPtr<>(), output.numel(), getNcclDataType(output.dtype()),
                                  getNcclReduceOp(opts.reduceOp), comm->getNcclComm(), stream);
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index b131ab7..0464989 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -106,11 +106,11 @@ class BackendNCCL : public Backend {
   }
 
   template <typename Func>
-  std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType);
+  std::shared_ptr<Work> collective(Tensor& input, const std::vector<Tensor>& outputs, Func&& ncclFunc, OpType opType);
 
   template <typename Func>
   std::shared_ptr<Work> pointToPoint(Tensor& tensor, Func&& ncclFunc, OpType opType) {
-    return collective(tensor, tensor, std::forward<Func>(ncclFunc), opType);
+    return collective(tensor, {tensor}, std::forward<Func>(ncclFunc), opType);
   }
 
   void workEnqueue(const std::shared_ptr<WorkNCCL>& work) {
@@ -149,7 +149,8 @@ class BackendNCCL : public Backend {
 };
 
 template <typename Func>
-std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType) {
+std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, const std::vector<Tensor>& outputs, Func&& ncclFunc,
+                                              OpType opType) {
   if (!input.defined()) {
     LOGE("BackendNCCL::collective error: input undefined");
     return nullptr;
@@ -174,7 +175,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
-  work->setOutputs({output});
+  work->setOutputs(std::vector<Tensor>(outputs));
 
   cuda::CudaDeviceGuard guard(device.index);
   NCCL_CALL(ncclGroupStart());
-- 
2.43.0


From 8f145c3aa7f1102cff2296dc3e8bb45d7d6cbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 61/70] fix: NCCL reduceScatter keeps its stacked input until
 the work is done

---
 src/Distributed/BackendNCCL.h | 1 +
 src/Distributed/WorkNCCL.h    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 0464989..ae608b7 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -175,6 +175,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, const std::vector<T
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
+  work->setInput(input);
   work->setOutputs(std::vector<Tensor>(outputs));
 
   cuda::CudaDeviceGuard guard(device.index);
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 1991e37..98d69c6 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -32,6 +32,7 @@ class WorkNCCL : public Work {
   void setStore(const std::shared_ptr<Store>& store) { store_ = store; }
   void setIsBarrierOp(bool isBarrierOp) { isBarrierOp_ = isBarrierOp; }
   void setCudaEvent(cuda::CUDAEvent&& event) { cudaEvent_ = std::move(event); }
+  void setInput(const Tensor& input) { input_ = input; }  // alive until the operation is done
   void setOutputs(std::vector<Tensor>&& output) { outputs_ = std::move(output); }
 
   const Device& getDevice() const { return device_; }
@@ -55,6 +56,7 @@ class WorkNCCL : public Work {
 
   bool isBarrierOp_{false};
   cuda::CUDAEvent cudaEvent_;
+  Tensor input_;
   std::vector<Tensor> outputs_;
 };
 
-- 
2.43.0


From 2397f1154024f62219c2ac310a7082b34895e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 62/70] fix: initProcessGroup passes its timeout and
 waitWorkers to the store

---
 src/Distributed/DistributedProcessGroup.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 9c90ca1..f82417d 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -132,13 +132,13 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 }
 
 std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& config) {
-  auto timeout = kBackendDefaultTimeout;
+  auto timeout = config.timeout;
 
   // env
   if (config.method == InitMethod::ENV) {
     bool isServer = (config.rank == 0);
     int numWorkers = config.worldSize;
-    bool waitWorkers = true;
+    bool waitWorkers = config.waitWorkers;
     return std::make_shared<TCPStore>(config.masterAddr,  // host
                                       config.masterPort,  // port
                                       isServer,           // isServer
@@ -152,7 +152,7 @@ std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& co
   if (config.method == InitMethod::TCP) {
     bool isServer = (config.rank == 0);
     int numWorkers = config.worldSize;
-    bool waitWorkers = true;
+    bool waitWorkers = config.waitWorkers;
     return std::make_shared<TCPStore>(config.masterAddr,                         // host
                                       static_cast<uint16_t>(config.masterPort),  // port
                                       isServer,                                  // isServer
-- 
2.43.0


From 0602cf3bd458b68e8bad47d0e8af775528fe5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 63/70] fix: initProcessGroup sets the timeout after the
 backend exists

---
 src/Distributed/DistributedProcessGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index f82417d..389a4a6 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -52,7 +52,6 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
 
   auto store = createStore(config);
   processGroup_ = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
-  processGroup_->setTimeout(timeout);
   processGroup_->setDefaultBackend(backend);
 
   switch (backend) {
@@ -67,6 +66,7 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
     }
   }
 
+  processGroup_->setTimeout(timeout);
   LOGD("Init ProcessGroup success, backend=%s", backendTypeToString(backend));
   return true;
 }
-- 
2.43.0


From 28825c44bf4674f37883043fa14da89b9ee88f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 64/70] fix: a failed initProcessGroup can be retried

---
 src/Distributed/DistributedProcessGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 389a4a6..ce228c7 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -62,6 +62,7 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
     }
     default: {
       LOGE("Invalid ProcessGroup backend, backend=%d", backend);
+      processGroup_.reset();
       return false;
     }
   }
-- 
2.43.0


From 096bac6157bd1d1211da5f9f722b75c601e91ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 65/70] fix: initProcessGroup rejects malformed ports, ranks
 and world sizes

---
 src/Distributed/DistributedProcessGroup.cpp | 34 ++++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index ce228c7..85fc8ea 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -7,6 +7,7 @@
 #include "DistributedProcessGroup.h"
 
 #include <iostream>
+#include <limits>
 #include <regex>
 
 #include "BackendNCCL.h"
@@ -15,6 +16,17 @@
 
 namespace tinytorch::distributed {
 
+static bool parseInt(const std::string& text, int maxValue, int& value) {
+  if (text.empty() || text.find_first_not_of("0123456789") != std::string::npos || text.size() > 9) {
+    return false;
+  }
+  value = std::stoi(text);
+  return value <= maxValue;
+}
+
+static constexpr int kMaxPort = std::numeric_limits<uint16_t>::max();
+static constexpr int kMaxRank = std::numeric_limits<int>::max();
+
 bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::string& initMethod, int rank,
                                                int worldSize, std::chrono::milliseconds timeout, bool waitWorkers) {
   if (processGroup_ != nullptr) {
@@ -25,7 +37,7 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
   config.timeout = timeout;
   config.waitWorkers = waitWorkers;
 
-  if (config.rank == -1 || config.worldSize == -1) {
+  if (config.rank < 0 || config.worldSize <= 0 || config.rank >= config.worldSize) {
     LOGE("Invalid ProcessGroup config");
     return false;
   }
@@ -92,16 +104,25 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     config.masterAddr = envAddr;
     if (envPort) {
-      config.masterPort = std::stoi(envPort);
+      if (!parseInt(envPort, kMaxPort, config.masterPort)) {
+        LOGE("InitMethod: env, invalid MASTER_PORT: %s", envPort);
+        return {};
+      }
     } else {
       config.masterPort = TCPStore::kDefaultPort;
     }
 
     if (envWorldSize && config.worldSize == -1) {
-      config.worldSize = std::stoi(envWorldSize);
+      if (!parseInt(envWorldSize, kMaxRank, config.worldSize)) {
+        LOGE("InitMethod: env, invalid WORLD_SIZE: %s", envWorldSize);
+        return {};
+      }
     }
     if (envRank && config.rank == -1) {
-      config.rank = std::stoi(envRank);
+      if (!parseInt(envRank, kMaxRank, config.rank)) {
+        LOGE("InitMethod: env, invalid RANK: %s", envRank);
+        return {};
+      }
     }
   } else if (initString.substr(0, 6) == "tcp://") {
     config.method = InitMethod::TCP;
@@ -113,7 +134,10 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     if (std::regex_match(initString, matches, tcpRegexWithPort)) {
       config.masterAddr = matches[1].str();
-      config.masterPort = std::stoi(matches[2].str());
+      if (!parseInt(matches[2].str(), kMaxPort, config.masterPort)) {
+        LOGE("InitMethod: tcp, invalid port: %s", matches[2].str().c_str());
+        return {};
+      }
     } else if (std::regex_match(initString, matches, tcpRegexNoPort)) {
       config.masterAddr = matches[1].str();
       config.masterPort = TCPStore::kDefaultPort;
-- 
2.43.0


From d872cc171039b8dc0dd0374a76acd7ce4ca388ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 66/70] fix: Reducer writes gradients and parameters into its
 flat buffer directly

---
 src/Distributed/Reducer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 2cf815b..db3e3d1 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -18,6 +18,14 @@ static void parameterHookFn(void* ctx, Tensor& grad) {
   c->self->onGradReady(c->bIdx, c->pIdx, grad);
 }
 
+static void copyToFlatBuffer(Tensor flatBuffer, int64_t offset, int64_t size, const Tensor& src) {
+  ASSERT(offset + size <= flatBuffer.numel());
+  ASSERT(src.numel() == size && src.dtype() == flatBuffer.dtype());
+  auto elemSize = static_cast<int64_t>(dtypeSize(flatBuffer.dtype()));
+  auto* dst = flatBuffer.dataPtr<uint8_t>() + offset * elemSize;
+  Storage::copyOnDevice(dst, flatBuffer.device(), src.dataPtr<>(), src.device(), size * elemSize);
+}
+
 Reducer::Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedProcessGroup> processGroup,
                  int64_t bucketBytesCap)
     : parameters_(std::move(parameters)),
@@ -121,7 +129,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
 
   int64_t offset = bucket.paramOffsets[paramIdx];
   int64_t size = bucket.paramSizes[paramIdx];
-  bucket.flatBuffer.narrow(0, offset, size).copy_(grad.flatten());
+  copyToFlatBuffer(bucket.flatBuffer, offset, size, grad);
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
@@ -201,7 +209,7 @@ void Reducer::copyParamsToFlattenedBuffer(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
-    bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(bucket.params[i]->flatten());
+    copyToFlatBuffer(bucket.flatBuffer, bucket.paramOffsets[i], bucket.paramSizes[i], *bucket.params[i]);
   }
 }
 
@@ -230,7 +238,7 @@ void Reducer::copyGradsToFlattenedBuffer(int64_t bucketIdx) const {
     }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
-    bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(grad.flatten());
+    copyToFlatBuffer(bucket.flatBuffer, bucket.paramOffsets[i], bucket.paramSizes[i], grad);
   }
 }
 
-- 
2.43.0


From 4da1205c0f6f41bfc67770c46bdf05ac2e9d92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 67/70] fix: initProcessGroup fails when its store could not be
 set up

---
 src/Distributed/DistributedProcessGroup.cpp | 4 ++++
 src/Distributed/FileStore.cpp               | 3 +++
 src/Distributed/Store.h                     | 4 ++++
 src/Distributed/TCPStore.cpp                | 1 +
 4 files changed, 12 insertions(+)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 85fc8ea..7f1db93 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -63,6 +63,10 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
   }
 
   auto store = createStore(config);
+  if (!store || !store->isReady()) {
+    LOGE("ProcessGroup store is not available, initMethod: %s", initMethod.c_str());
+    return false;
+  }
   processGroup_ = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
   processGroup_->setDefaultBackend(backend);
 
diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index fe176db..74a25ea 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -61,7 +61,10 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
   result = mkdir(path_.c_str(), 0755);
   if (result != 0 && errno != EEXIST) {
     LOGE("FileStore: Error creating directory: %s, errno: %d", path_.c_str(), errno);
+    return;
   }
+  struct stat info {};
+  ready_ = stat(path_.c_str(), &info) == 0 && S_ISDIR(info.st_mode);
 }
 
 // the lock file is next to the store directory: it is not a key, and deleting keys does not remove it
diff --git a/src/Distributed/Store.h b/src/Distributed/Store.h
index 9c0465f..19888c9 100644
--- a/src/Distributed/Store.h
+++ b/src/Distributed/Store.h
@@ -28,6 +28,9 @@ class Store {
 
   virtual ~Store() = default;
 
+  // false if the store could not be set up (e.g. server not reachable)
+  bool isReady() const { return ready_; }
+
   void set(const std::string& key, const std::string& value);
   virtual void set(const std::string& key, const std::vector<uint8_t>& value) = 0;
   virtual std::vector<uint8_t> get(const std::string& key) = 0;
@@ -40,6 +43,7 @@ class Store {
 
  protected:
   std::chrono::milliseconds timeout_;
+  bool ready_ = false;
 };
 
 }  // namespace tinytorch::distributed
diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 4fb2fdd..cdb7864 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -292,6 +292,7 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
       return;
     }
   }
+  ready_ = true;
 }
 
 TCPStore::~TCPStore() {
-- 
2.43.0


From eb7d54d28237802066da5994c758d1ae1ff00c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 68/70] fix: integer arange keeps the values before a stop that
 is not a multiple of the step

---
 src/Tensor/Tensor.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..3ad4481 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -327,7 +327,12 @@ Tensor::Tensor(const Array3d<T>& values) : Tensor(values, options::dtype(TypeToD
 template <typename T>
 Tensor Tensor::arange(T start, T stop, T step, Options options) {
   options.dtype(TypeToDType_v<T>);
-  auto steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  int64_t steps;
+  if constexpr (std::is_integral_v<T>) {
+    steps = static_cast<int64_t>((stop - start) / step) + ((stop - start) % step != 0 ? 1 : 0);
+  } else {
+    steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  }
   Tensor ret({steps}, options);
   ret.fillLinSpace_(start, step, steps);
   return ret;
-- 
2.43.0


From 231139fa031bd5b3f02d656ae9ad47e382463a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 69/70] fix: a Scalar converted to the Bool element type is 0
 or 1

---
 src/Tensor/Scalar.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tensor/Scalar.h b/src/Tensor/Scalar.h
index 2dab524..fb9fe3f 100644
--- a/src/Tensor/Scalar.h
+++ b/src/Tensor/Scalar.h
@@ -39,6 +39,8 @@ class Scalar {
           using U = std::decay_t<decltype(val)>;
           if constexpr (std::is_same_v<U, T>) {
             return val;
+          } else if constexpr (std::is_same_v<T, DTypeToType_t<DType::Bool>>) {
+            return static_cast<T>(static_cast<float>(val) != 0.f);
           } else {
             return static_cast<T>(val);
           }
-- 
2.43.0


From 3c083032f884cf34a12f69a0b0987819d54ee392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 70/70] fix: copy on write orders the reads of other owners
 before its own writes

---
 src/Tensor/TensorImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index cb5215d..1e5eee0 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -42,6 +42,10 @@ void TensorImpl::copyOnWrite() const {
   if (storage_ && storage_.use_count() > 1) {
     storage_ = storage_->clone();
     dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
+  } else if (storage_) {
+    // use_count() orders nothing: counting a reference up and down again makes the reads of an owner
+    // that has just left in another thread happen before the write
+    auto ordered = storage_;
   }
 }
 
-- 
2.43.0

