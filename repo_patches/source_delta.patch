From 66bcaf5211abb953c9e0d4d6b568f83fdcbed4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 01/28] fix: aitisa_resolve returns a status

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From c47350a1b7e59d3106e5323a15b3cb5f80580b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 02/28] fix: aitisa_conv returns a status on success

---
 src/nn/conv.c | 348 +++++++++++++++++++++++++-------------------------
 1 file changed, 175 insertions(+), 173 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..df24137 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -1,173 +1,175 @@
-#include "src/core/utils.h"
-#include "src/core/allocator.h"
-#include "src/basic/index_utils.h"
-#include "src/nn/conv.h"
-#include <stdio.h>
-
-/*
- * Compute the output dims based on input dims, filter dims and other related
- * configurations such as stride, padding, and dialation.
- */
-static void conv_output_dims(const int64_t *input_dims,
-                             const int64_t *filter_dims, const int *stride,
-                             const int *padding, const int *dilation,
-                             int64_t ndim, int64_t *output_dims) {
-  output_dims[0] = input_dims[0];
-  output_dims[1] = filter_dims[0];
-  for (int64_t d = 2; d < ndim; ++d) {
-    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
-                        - kernel) / stride[d - 2] + 1;
-  }
-}
-
-/* The implementation of convolution for the float data type */
-static Status aitisa_conv_float(const Tensor input, const Tensor filter,
-                                const int *stride, const int *padding,
-                                const int *dilation, const int groups,
-                                Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  int64_t *in_dims = aitisa_tensor_dims(input);
-  int64_t *fil_dims = aitisa_tensor_dims(filter);
-  int64_t *out_dims =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
-  int64_t *in_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
-  int64_t *fil_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
-  int64_t *out_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
-  int64_t *tmp_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
-  int64_t *in_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
-  int64_t *fil_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
-  int64_t *out_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
-
-  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
-
-  Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
-  Device device = aitisa_tensor_device(input);
-  // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
-  *output_ptr = new_tensor;
-
-  aitisa_get_all_strides(input, in_strides);
-  aitisa_get_all_strides(filter, fil_strides);
-  aitisa_get_all_strides(*output_ptr, out_strides);
-
-  float *in_data = aitisa_tensor_data(input);
-  float *fil_data = aitisa_tensor_data(filter);
-  float *out_data = aitisa_tensor_data(*output_ptr);
-
-  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
-  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
-  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
-
-  int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
-  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
-  int64_t sdim = ndim - 2;
-
-  for (int64_t b = 0; b < nbatch; ++b) {
-    for (int64_t oc = 0; oc < out_chan; ++oc) {
-      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
-        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
-        out_coords[0] = b;
-        out_coords[1] = oc;
-
-        for (int64_t d = 0; d < sdim; ++d) {
-          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
-        }
-        in_coords[0] = b;
-
-        float tmp = 0.0;
-        for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
-          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
-            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
-            fil_coords[0] = oc;
-            fil_coords[1] = ic;
-
-            int inside = 1;
-            for (int64_t d = 0; d < sdim && inside; ++d) {
-              tmp_coords[2 + d] =
-                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
-              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
-                inside = 0;
-            }
-            tmp_coords[0] = in_coords[0];
-            tmp_coords[1] = in_coords[1];
-
-            if (inside) {
-              int64_t in_offset =
-                  aitisa_coords_to_offset(input, tmp_coords, ndim);
-              int64_t fil_offset =
-                  aitisa_coords_to_offset(filter, fil_coords, ndim);
-              tmp += in_data[in_offset] * fil_data[fil_offset];
-            }
-          }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
-        }
-      }
-    }
-  }
-
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-}
-
-/*
- * The implementation of the convolution operation. For now, it is only support
- * the float data type.
- */
-Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
-                   const int *padding, const int *dilation, const int groups,
-                   Tensor *output_ptr) {
-  DataType dtype = aitisa_tensor_data_type(input);
-  switch (dtype.code) {
-    case TYPE_FLOAT:
-      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-                                     groups, output_ptr));
-      break;
-    default:
-      return STATUS_NOT_SUPPORTED;
-  }
-}
-
-Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 4){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
-Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 5){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
+#include "src/core/utils.h"
+#include "src/core/allocator.h"
+#include "src/basic/index_utils.h"
+#include "src/nn/conv.h"
+#include <stdio.h>
+
+/*
+ * Compute the output dims based on input dims, filter dims and other related
+ * configurations such as stride, padding, and dialation.
+ */
+static void conv_output_dims(const int64_t *input_dims,
+                             const int64_t *filter_dims, const int *stride,
+                             const int *padding, const int *dilation,
+                             int64_t ndim, int64_t *output_dims) {
+  output_dims[0] = input_dims[0];
+  output_dims[1] = filter_dims[0];
+  for (int64_t d = 2; d < ndim; ++d) {
+    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
+    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+                        - kernel) / stride[d - 2] + 1;
+  }
+}
+
+/* The implementation of convolution for the float data type */
+static Status aitisa_conv_float(const Tensor input, const Tensor filter,
+                                const int *stride, const int *padding,
+                                const int *dilation, const int groups,
+                                Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  int64_t *out_dims =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
+  int64_t *in_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
+  int64_t *fil_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
+  int64_t *out_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
+  int64_t *tmp_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
+  int64_t *in_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
+  int64_t *fil_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
+  int64_t *out_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+
+  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
+
+  Tensor new_tensor;
+  DataType dtype = aitisa_tensor_data_type(input);
+  Device device = aitisa_tensor_device(input);
+  // LayoutType layout_type = aitisa_tensor_layout_type(input);
+  CHECK_STATUS(
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  *output_ptr = new_tensor;
+
+  aitisa_get_all_strides(input, in_strides);
+  aitisa_get_all_strides(filter, fil_strides);
+  aitisa_get_all_strides(*output_ptr, out_strides);
+
+  float *in_data = aitisa_tensor_data(input);
+  float *fil_data = aitisa_tensor_data(filter);
+  float *out_data = aitisa_tensor_data(*output_ptr);
+
+  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
+  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
+  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
+
+  int64_t nbatch = aitisa_tensor_dim(input, 0);
+  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
+  int64_t sdim = ndim - 2;
+
+  for (int64_t b = 0; b < nbatch; ++b) {
+    for (int64_t oc = 0; oc < out_chan; ++oc) {
+      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
+        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
+        out_coords[0] = b;
+        out_coords[1] = oc;
+
+        for (int64_t d = 0; d < sdim; ++d) {
+          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
+        }
+        in_coords[0] = b;
+
+        float tmp = 0.0;
+        for (int64_t ic = 0; ic < in_chan; ++ic) {
+          in_coords[1] = ic;
+          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
+            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
+            fil_coords[0] = oc;
+            fil_coords[1] = ic;
+
+            int inside = 1;
+            for (int64_t d = 0; d < sdim && inside; ++d) {
+              tmp_coords[2 + d] =
+                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
+              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
+                inside = 0;
+            }
+            tmp_coords[0] = in_coords[0];
+            tmp_coords[1] = in_coords[1];
+
+            if (inside) {
+              int64_t in_offset =
+                  aitisa_coords_to_offset(input, tmp_coords, ndim);
+              int64_t fil_offset =
+                  aitisa_coords_to_offset(filter, fil_coords, ndim);
+              tmp += in_data[in_offset] * fil_data[fil_offset];
+            }
+          }
+          int64_t out_offset =
+              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+          out_data[out_offset] = tmp;
+        }
+      }
+    }
+  }
+
+  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
+}
+
+/*
+ * The implementation of the convolution operation. For now, it is only support
+ * the float data type.
+ */
+Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
+                   const int *padding, const int *dilation, const int groups,
+                   Tensor *output_ptr) {
+  DataType dtype = aitisa_tensor_data_type(input);
+  switch (dtype.code) {
+    case TYPE_FLOAT:
+      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
+                                     groups, output_ptr));
+      break;
+    default:
+      return STATUS_NOT_SUPPORTED;
+  }
+  return STATUS_SUCCESS;
+}
+
+Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 4){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
+Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 5){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
-- 
2.43.0


From b493f0c8915477ab5f6ce2d872bb0916942c5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 03/28] fix: release the partially built tensor when
 aitisa_create fails

---
 src/core/shape.c   | 10 +++++++++-
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 21 +++++++++++++++++----
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..be8281f 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,7 +41,15 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
+  Status status;
+  status = aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS) {
+    if (shape->dims) {
+      aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+      shape->dims = NULL;
+    }
+    return status;
+  }
   return STATUS_SUCCESS;
 }
 
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..c2c09bc 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,11 +11,24 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size) {
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  Status status;
+  status = aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 781a7f977c8cff9cb9e28b1b7e0119fe603ebe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 04/28] fix: count tensor elements with 64-bit loop counters

---
 src/basic/factories.c | 30 +++++++++++++++---------------
 src/basic/slice.c     |  3 ++-
 src/math/binary_op.c  |  8 ++++----
 src/math/dot.c        |  8 ++++----
 src/math/matmul.c     | 12 ++++++------
 src/nn/batch_norm.c   |  4 ++--
 src/nn/pooling.c      |  2 +-
 7 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index ce0b7d3..c9936d9 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -1,15 +1,15 @@
-#include "src/basic/factories.h"
-
-Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
-                   double value, Tensor *output) {
-  Tensor new_tensor;
-  CHECK_STATUS(
-      aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
-  int64_t size = aitisa_tensor_size(new_tensor);
-  aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int i = 0; i < size; ++i) {
-    aitisa_tensor_set_item(new_tensor, i, &value);
-  }
-  *output = new_tensor;
-  return STATUS_SUCCESS;
-}
+#include "src/basic/factories.h"
+
+Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
+                   double value, Tensor *output) {
+  Tensor new_tensor;
+  CHECK_STATUS(
+      aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
+  int64_t size = aitisa_tensor_size(new_tensor);
+  aitisa_castto_typed_value_func(dtype)(&value, &value);
+  for (int64_t i = 0; i < size; ++i) {
+    aitisa_tensor_set_item(new_tensor, i, &value);
+  }
+  *output = new_tensor;
+  return STATUS_SUCCESS;
+}
diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..5e9aceb 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -66,7 +66,8 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   typename *in_data = (typename *)aitisa_tensor_data(input);                  \
   typename *out_data = (typename *)aitisa_tensor_data(*output);               \
   int64_t out_size = aitisa_tensor_size(*output);                             \
-  for (int out_linear_idx = 0; out_linear_idx < out_size; out_linear_idx++) { \
+  for (int64_t out_linear_idx = 0; out_linear_idx < out_size;                 \
+       out_linear_idx++) {                                                    \
     /* Get the linear index of input data element */                          \
     int64_t in_linear_idx = 0;                                                \
     for (int i = 0; i < in_ndim; i++) {                                       \
diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..0b70712 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -235,7 +235,7 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
@@ -281,7 +281,7 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
@@ -327,7 +327,7 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
@@ -373,7 +373,7 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..6513e61 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -10,7 +10,7 @@
 
 #define dot_kernel(typename, data1, data2, size, data_out) \
   ((typename *)data_out)[0] = 0;                           \
-  for (int i = 0; i < size; i++) {                         \
+  for (int64_t i = 0; i < size; i++) {                     \
     ((typename *)data_out)[0] +=                           \
         ((typename *)data1)[i] * ((typename *)data2)[i];   \
   }
@@ -145,7 +145,7 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
-  for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
+  for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
     CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
     CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
     // Store the result into output
@@ -249,10 +249,10 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
-  for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
+  for (int64_t vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
     CHECK_STATUS(
         aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
-    for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
+    for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
       CHECK_STATUS(
           aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
       CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..19e185f 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -24,23 +24,23 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
 
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
-  for (int i = 0; i < L; ++i) {                                    \
+  for (int64_t i = 0; i < L; ++i) {                                \
     ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
-  for (int i = 0; i < M; ++i) {                                              \
-    for (int j = 0; j < N; ++j) {                                            \
+  for (int64_t i = 0; i < M; ++i) {                                          \
+    for (int64_t j = 0; j < N; ++j) {                                        \
       ((typename *)B)[i] += ((typename *)A)[i * N + j] * ((typename *)X)[j]; \
     }                                                                        \
   }
 
 // kernel of matrix-matrix multiply
 #define MM_KERNEL(typename, A, B, C, M, K, N)                        \
-  for (int i = 0; i < M; ++i) {                                      \
-    for (int j = 0; j < N; ++j) {                                    \
-      for (int q = 0; q < K; ++q) {                                  \
+  for (int64_t i = 0; i < M; ++i) {                                  \
+    for (int64_t j = 0; j < N; ++j) {                                \
+      for (int64_t q = 0; q < K; ++q) {                              \
         ((typename *)C)[i * N + j] +=                                \
             ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \
       }                                                              \
diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..d4182bc 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -325,7 +325,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         !*denominator || !var_array) {
       return STATUS_ALLOC_FAILED;
     } 
-    for (uint32_t c = 0; c < num_channels; c++) {
+    for (int64_t c = 0; c < num_channels; c++) {
       CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
                                  NULL, 0, &((*mean_array)[c])));
       CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
@@ -343,7 +343,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       char *bias_data = aitisa_tensor_data(bias);
       char *var_array_c_data = aitisa_tensor_data(var_array[c]);
       char *var_data = aitisa_tensor_data(variance);
-      for (uint32_t i = 0; i < tensor_size; i++) {
+      for (int64_t i = 0; i < tensor_size; i++) {
         memcpy((void *)(mean_array_c_data + i * ele_size),
                (void *)(mean_data + c * ele_size), ele_size);
         memcpy((void *)(scale_array_c_data + i * ele_size),
diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..7a2dd3a 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -101,7 +101,7 @@ static Status pooling_double(const Tensor input, const char *mode,
         k_head[i] = 0 - padding[i-c_start];
         k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
       }
-      int window_idx = 0;
+      int64_t window_idx = 0;
       int hasWindow = 1;
       while(hasWindow){
         // set index
-- 
2.43.0


From 457d959a955649fda9d04f6868099e4bafcc5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 05/28] fix: slice range check overflows int

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 5e9aceb..62d82be 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -53,7 +53,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || (int64_t)begin[i] + size[i] > in_dims[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 3b7c40ff9fbeae5208117fe391aef03ba3c92a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 06/28] fix: slice of a scalar tensor writes before its scratch
 array

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 62d82be..60664cd 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -109,7 +109,7 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) offset_recorder[in_ndim - 1] = 1;
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
-- 
2.43.0


From bc094165ebaf172945d05281d991eb340f8b9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 07/28] fix: slice and softmax hand out an uninitialised tensor
 when creation fails

---
 src/basic/slice.c | 4 +++-
 src/nn/softmax.c  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 60664cd..879a66f 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -40,7 +40,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..dfa1987 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   return status;
 }
 
-- 
2.43.0


From 896602a469849fda483ec4d38526ab1b71dfcd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 08/28] fix: squeeze reads dimensions out of range for an axis
 beyond the rank

---
 src/basic/squeeze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..5214c03 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
-- 
2.43.0


From 83f0a5c276585351f40d08b80acfcec54e1b8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 09/28] fix: squeeze overruns its dimension array on a repeated
 axis or an empty dimension

---
 src/basic/squeeze.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 5214c03..6e7759b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -27,14 +27,14 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+      if (processed_in_dims[axis[i]] == 1) {
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -43,10 +43,13 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From 7f938b72023307b58b70bd748520cbec9c232c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 10/28] fix: matmul reads out of bounds when the data types
 differ

---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 19e185f..067e836 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From b60eecc64b1179c1965f8918a43df2f157a4bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 11/28] fix: matmul leaks the output dimensions when the
 batches do not broadcast

---
 src/math/matmul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 067e836..7e5792e 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -288,10 +288,14 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
     CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-- 
2.43.0


From d3db08dbf13fd7ca6a981a827967547a4ea848da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 12/28] fix: dropout accepts a NaN rate

---
 src/nn/dropout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..ea977a1 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -25,7 +25,7 @@ static Status dropout_template(Tensor *tensor, const double rate) {
 
 Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   // Check if rate satisfy 0 <= rate <= 1
-  if (rate < 0 || rate > 1) {
+  if (!(rate >= 0 && rate <= 1)) {
     return STATUS_INVALID_ARGUMENT;
   }
   // Copy input
-- 
2.43.0


From 111b44905c6fa2abe0c9349683a5e3250d8bef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 13/28] fix: pooling leaks its scratch arrays when the window
 is too large

---
 src/nn/pooling.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 7a2dd3a..a8ce386 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -64,11 +64,21 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
   // Check whether the kernel window is larger than a channel
+  int too_large = 0;
   for(int64_t i=0; i<ndim-2; i++){
     if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
-      return STATUS_INVALID_ARGUMENT;
+      too_large = 1;
     }
   }
+  if (too_large) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(index);
+    aitisa_default_cpu_allocator()->raw_dealloc(k_head);
+    aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
+    aitisa_default_cpu_allocator()->raw_dealloc(strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    return STATUS_INVALID_ARGUMENT;
+  }
   // Create output
   Tensor new_tensor;
   CHECK_STATUS(
-- 
2.43.0


From 0249c27b89ebb3fa61912006dd01fb7769e23d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 14/28] fix: pooling returns uninitialised output for an
 unknown mode

---
 src/nn/pooling.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index a8ce386..fabc7ea 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -185,6 +185,9 @@ Status aitisa_pooling(const Tensor input, const char *mode,
                       const int *padding, const int *dilation,
                       Tensor *output){
     Status status;
+    if(strcmp(mode, "avg") && strcmp(mode, "max")){
+      return STATUS_INVALID_ARGUMENT;
+    }
     int64_t ndim = aitisa_tensor_ndim(input);
     if(ndim>2 && ndim<6){
       int axis = 1;
-- 
2.43.0


From a8207243005c880e18bdbc40bdd5bb47b11c2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 15/28] fix: max pooling of negative values returns zero

---
 src/nn/pooling.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index fabc7ea..dd0c6df 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -118,7 +118,7 @@ static Status pooling_double(const Tensor input, const char *mode,
         for(int64_t i=c_start; i<c_start+ndim-2; i++){
           index[i] = k_head[i];
         }
-        double temp = 0; 
+        double temp = strcmp(mode, "max") ? 0 : -INFINITY;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -134,6 +134,9 @@ static Status pooling_double(const Tensor input, const char *mode,
           // need to consider padding
           if(!padded){
             AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
+          }else if(!strcmp(mode, "max") && temp < 0){
+            // a padded element is zero
+            temp = 0;
           }
           // update index
           for(int64_t i=c_start+ndim-3; i>=c_start; i--){
-- 
2.43.0


From 5c8c525c7a77a61c7ce5794a20cc898ee82dc1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 16/28] fix: pooling and conv window arithmetic overflows int

---
 src/nn/conv.c    |  2 +-
 src/nn/pooling.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index df24137..bc6e026 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,7 +16,7 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index dd0c6df..4988b77 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -34,7 +34,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  (int64_t)dilation[i - c_start] * (ksize[i - c_start] - 1);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -66,7 +66,7 @@ static Status pooling_double(const Tensor input, const char *mode,
   // Check whether the kernel window is larger than a channel
   int too_large = 0;
   for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+    if((int64_t)(ksize[i]-1)*dilation[i]+1 > 2*(int64_t)padding[i]+in_dims[i+c_start]){
       too_large = 1;
     }
   }
@@ -109,7 +109,7 @@ static Status pooling_double(const Tensor input, const char *mode,
       // Set k_head and k_tail according to padding and dilation
       for(int64_t i=c_start; i<c_start+ndim-2; i++){
         k_head[i] = 0 - padding[i-c_start];
-        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+        k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
       }
       int64_t window_idx = 0;
       int hasWindow = 1;
@@ -157,12 +157,12 @@ static Status pooling_double(const Tensor input, const char *mode,
         // update k_head and k_tail
         for(int64_t i=c_start+ndim-3; i>=c_start; i--){
           k_head[i] = k_head[i] + stride[i-c_start];
-          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+          k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
           if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){
             // judge if there is still window
             if(i == c_start) hasWindow = 0;
             k_head[i] = - padding[i-c_start];
-            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+            k_tail[i] = k_head[i]+(int64_t)(ksize[i-c_start]-1)*dilation[i-c_start];
           }else{
             break;
           }
-- 
2.43.0


From 248761ad58722c6fc8f9cdc2335f53453527f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 17/28] fix: conv reads out of bounds when the filter does not
 match the input

---
 src/nn/conv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index bc6e026..85b69b2 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -29,6 +29,13 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t *fil_dims = aitisa_tensor_dims(filter);
+  // Check that the filter matches the input
+  if (aitisa_tensor_data_type(filter).code != TYPE_FLOAT) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  if (aitisa_tensor_ndim(filter) != ndim || fil_dims[1] != in_dims[1]) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
   int64_t *in_coords =
-- 
2.43.0


From c67b977cb0b36b76cb8361eb7c799e44810b3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 18/28] fix: conv computes negative output dimensions when the
 window is too large

---
 src/nn/conv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 85b69b2..8e51979 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -36,6 +36,13 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   if (aitisa_tensor_ndim(filter) != ndim || fil_dims[1] != in_dims[1]) {
     return STATUS_DIMENSIONS_MISMATCH;
   }
+  // Check whether the kernel window is larger than the padded input
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (dilation[d - 2] * (fil_dims[d] - 1) + 1 >
+        in_dims[d] + 2 * (int64_t)padding[d - 2]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
   int64_t *in_coords =
-- 
2.43.0


From 66afe1fc3a0f117c2d8dbab08588fc6e14fe4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 19/28] fix: dot rounds a 64-bit integer scalar through double

---
 src/math/dot.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 6513e61..be1e485 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,25 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  int64_t size = aitisa_tensor_size(new_tensor);
+  for (int64_t i = 0; i < size; i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From b814e5167a52aa4c8f69c3eb083c0e47dda81018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 20/28] fix: report a failed scratch allocation instead of
 dereferencing NULL

---
 src/basic/slice.c    |  4 ++++
 src/math/binary_op.c | 24 ++++++++++++++++++++++++
 src/math/matmul.c    |  7 +++++++
 src/nn/batch_norm.c  |  3 ++-
 src/nn/conv.c        |  4 ++++
 src/nn/pooling.c     |  3 +++
 6 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 879a66f..84b5992 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 0b70712..b80f2d4 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -235,6 +235,12 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
@@ -281,6 +287,12 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
@@ -327,6 +339,12 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
@@ -373,6 +391,12 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
diff --git a/src/math/matmul.c b/src/math/matmul.c
index 7e5792e..b4b95b7 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -190,6 +190,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
@@ -205,6 +206,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) return STATUS_ALLOC_FAILED;
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -238,6 +240,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
@@ -254,6 +257,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) return STATUS_ALLOC_FAILED;
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -288,6 +292,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
@@ -307,6 +312,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
+    if (!strides_t1 || !strides_t2) return STATUS_ALLOC_FAILED;
     batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
                   ndim_batch);
     batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
@@ -319,6 +325,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) return STATUS_ALLOC_FAILED;
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index d4182bc..878f3d9 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -197,6 +197,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
+  if (!squeeze_axis) return STATUS_ALLOC_FAILED;
   squeeze_axis[0] = 0;
   squeeze_axis[1] = axis;
   // Make parameters for data transportation
@@ -322,7 +323,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(*var_array) * num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
+        !*denominator || !temp || !var_array) {
       return STATUS_ALLOC_FAILED;
     } 
     for (int64_t c = 0; c < num_channels; c++) {
diff --git a/src/nn/conv.c b/src/nn/conv.c
index 8e51979..d56358e 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -59,6 +59,10 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    return STATUS_ALLOC_FAILED;
+  }
 
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 4988b77..8408eb7 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -63,6 +63,9 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
+  if(!out_dims || !index || !strides || !out_strides || !k_head || !k_tail){
+    return STATUS_ALLOC_FAILED;
+  }
   // Check whether the kernel window is larger than a channel
   int too_large = 0;
   for(int64_t i=0; i<ndim-2; i++){
-- 
2.43.0


From 7ed5add5ea5f4979a43d9f003d4a501e9afcee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 21/28] fix: tanh returns NaN when the exponentials overflow

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..c3f1eda 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh(in_data[i]);                       \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From 43cc26dede623d7ff8dc42bde89542f341689f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 22/28] fix: keep the original line endings of conv.c and
 factories.c

---
 src/basic/factories.c |  30 ++--
 src/nn/conv.c         | 386 +++++++++++++++++++++---------------------
 2 files changed, 208 insertions(+), 208 deletions(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index c9936d9..5038bad 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -1,15 +1,15 @@
-#include "src/basic/factories.h"
-
-Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
-                   double value, Tensor *output) {
-  Tensor new_tensor;
-  CHECK_STATUS(
-      aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
-  int64_t size = aitisa_tensor_size(new_tensor);
-  aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int64_t i = 0; i < size; ++i) {
-    aitisa_tensor_set_item(new_tensor, i, &value);
-  }
-  *output = new_tensor;
-  return STATUS_SUCCESS;
-}
+#include "src/basic/factories.h"
+
+Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
+                   double value, Tensor *output) {
+  Tensor new_tensor;
+  CHECK_STATUS(
+      aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
+  int64_t size = aitisa_tensor_size(new_tensor);
+  aitisa_castto_typed_value_func(dtype)(&value, &value);
+  for (int64_t i = 0; i < size; ++i) {
+    aitisa_tensor_set_item(new_tensor, i, &value);
+  }
+  *output = new_tensor;
+  return STATUS_SUCCESS;
+}
diff --git a/src/nn/conv.c b/src/nn/conv.c
index d56358e..a815461 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -1,193 +1,193 @@
-#include "src/core/utils.h"
-#include "src/core/allocator.h"
-#include "src/basic/index_utils.h"
-#include "src/nn/conv.h"
-#include <stdio.h>
-
-/*
- * Compute the output dims based on input dims, filter dims and other related
- * configurations such as stride, padding, and dialation.
- */
-static void conv_output_dims(const int64_t *input_dims,
-                             const int64_t *filter_dims, const int *stride,
-                             const int *padding, const int *dilation,
-                             int64_t ndim, int64_t *output_dims) {
-  output_dims[0] = input_dims[0];
-  output_dims[1] = filter_dims[0];
-  for (int64_t d = 2; d < ndim; ++d) {
-    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
-                        - kernel) / stride[d - 2] + 1;
-  }
-}
-
-/* The implementation of convolution for the float data type */
-static Status aitisa_conv_float(const Tensor input, const Tensor filter,
-                                const int *stride, const int *padding,
-                                const int *dilation, const int groups,
-                                Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  int64_t *in_dims = aitisa_tensor_dims(input);
-  int64_t *fil_dims = aitisa_tensor_dims(filter);
-  // Check that the filter matches the input
-  if (aitisa_tensor_data_type(filter).code != TYPE_FLOAT) {
-    return STATUS_TYPE_MISMATCH;
-  }
-  if (aitisa_tensor_ndim(filter) != ndim || fil_dims[1] != in_dims[1]) {
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-  // Check whether the kernel window is larger than the padded input
-  for (int64_t d = 2; d < ndim; ++d) {
-    if (dilation[d - 2] * (fil_dims[d] - 1) + 1 >
-        in_dims[d] + 2 * (int64_t)padding[d - 2]) {
-      return STATUS_INVALID_ARGUMENT;
-    }
-  }
-  int64_t *out_dims =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
-  int64_t *in_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
-  int64_t *fil_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
-  int64_t *out_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
-  int64_t *tmp_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
-  int64_t *in_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
-  int64_t *fil_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
-  int64_t *out_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
-  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
-      !in_strides || !fil_strides || !out_strides) {
-    return STATUS_ALLOC_FAILED;
-  }
-
-  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
-
-  Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
-  Device device = aitisa_tensor_device(input);
-  // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
-  *output_ptr = new_tensor;
-
-  aitisa_get_all_strides(input, in_strides);
-  aitisa_get_all_strides(filter, fil_strides);
-  aitisa_get_all_strides(*output_ptr, out_strides);
-
-  float *in_data = aitisa_tensor_data(input);
-  float *fil_data = aitisa_tensor_data(filter);
-  float *out_data = aitisa_tensor_data(*output_ptr);
-
-  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
-  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
-  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
-
-  int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
-  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
-  int64_t sdim = ndim - 2;
-
-  for (int64_t b = 0; b < nbatch; ++b) {
-    for (int64_t oc = 0; oc < out_chan; ++oc) {
-      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
-        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
-        out_coords[0] = b;
-        out_coords[1] = oc;
-
-        for (int64_t d = 0; d < sdim; ++d) {
-          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
-        }
-        in_coords[0] = b;
-
-        float tmp = 0.0;
-        for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
-          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
-            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
-            fil_coords[0] = oc;
-            fil_coords[1] = ic;
-
-            int inside = 1;
-            for (int64_t d = 0; d < sdim && inside; ++d) {
-              tmp_coords[2 + d] =
-                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
-              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
-                inside = 0;
-            }
-            tmp_coords[0] = in_coords[0];
-            tmp_coords[1] = in_coords[1];
-
-            if (inside) {
-              int64_t in_offset =
-                  aitisa_coords_to_offset(input, tmp_coords, ndim);
-              int64_t fil_offset =
-                  aitisa_coords_to_offset(filter, fil_coords, ndim);
-              tmp += in_data[in_offset] * fil_data[fil_offset];
-            }
-          }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
-        }
-      }
-    }
-  }
-
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-  return STATUS_SUCCESS;
-}
-
-/*
- * The implementation of the convolution operation. For now, it is only support
- * the float data type.
- */
-Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
-                   const int *padding, const int *dilation, const int groups,
-                   Tensor *output_ptr) {
-  DataType dtype = aitisa_tensor_data_type(input);
-  switch (dtype.code) {
-    case TYPE_FLOAT:
-      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-                                     groups, output_ptr));
-      break;
-    default:
-      return STATUS_NOT_SUPPORTED;
-  }
-  return STATUS_SUCCESS;
-}
-
-Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 4){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
-Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 5){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
+#include "src/core/utils.h"
+#include "src/core/allocator.h"
+#include "src/basic/index_utils.h"
+#include "src/nn/conv.h"
+#include <stdio.h>
+
+/*
+ * Compute the output dims based on input dims, filter dims and other related
+ * configurations such as stride, padding, and dialation.
+ */
+static void conv_output_dims(const int64_t *input_dims,
+                             const int64_t *filter_dims, const int *stride,
+                             const int *padding, const int *dilation,
+                             int64_t ndim, int64_t *output_dims) {
+  output_dims[0] = input_dims[0];
+  output_dims[1] = filter_dims[0];
+  for (int64_t d = 2; d < ndim; ++d) {
+    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
+                        - kernel) / stride[d - 2] + 1;
+  }
+}
+
+/* The implementation of convolution for the float data type */
+static Status aitisa_conv_float(const Tensor input, const Tensor filter,
+                                const int *stride, const int *padding,
+                                const int *dilation, const int groups,
+                                Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  // Check that the filter matches the input
+  if (aitisa_tensor_data_type(filter).code != TYPE_FLOAT) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  if (aitisa_tensor_ndim(filter) != ndim || fil_dims[1] != in_dims[1]) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  // Check whether the kernel window is larger than the padded input
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (dilation[d - 2] * (fil_dims[d] - 1) + 1 >
+        in_dims[d] + 2 * (int64_t)padding[d - 2]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  int64_t *out_dims =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
+  int64_t *in_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
+  int64_t *fil_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
+  int64_t *out_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
+  int64_t *tmp_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
+  int64_t *in_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
+  int64_t *fil_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
+  int64_t *out_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    return STATUS_ALLOC_FAILED;
+  }
+
+  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
+
+  Tensor new_tensor;
+  DataType dtype = aitisa_tensor_data_type(input);
+  Device device = aitisa_tensor_device(input);
+  // LayoutType layout_type = aitisa_tensor_layout_type(input);
+  CHECK_STATUS(
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  *output_ptr = new_tensor;
+
+  aitisa_get_all_strides(input, in_strides);
+  aitisa_get_all_strides(filter, fil_strides);
+  aitisa_get_all_strides(*output_ptr, out_strides);
+
+  float *in_data = aitisa_tensor_data(input);
+  float *fil_data = aitisa_tensor_data(filter);
+  float *out_data = aitisa_tensor_data(*output_ptr);
+
+  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
+  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
+  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
+
+  int64_t nbatch = aitisa_tensor_dim(input, 0);
+  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
+  int64_t sdim = ndim - 2;
+
+  for (int64_t b = 0; b < nbatch; ++b) {
+    for (int64_t oc = 0; oc < out_chan; ++oc) {
+      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
+        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
+        out_coords[0] = b;
+        out_coords[1] = oc;
+
+        for (int64_t d = 0; d < sdim; ++d) {
+          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
+        }
+        in_coords[0] = b;
+
+        float tmp = 0.0;
+        for (int64_t ic = 0; ic < in_chan; ++ic) {
+          in_coords[1] = ic;
+          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
+            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
+            fil_coords[0] = oc;
+            fil_coords[1] = ic;
+
+            int inside = 1;
+            for (int64_t d = 0; d < sdim && inside; ++d) {
+              tmp_coords[2 + d] =
+                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
+              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
+                inside = 0;
+            }
+            tmp_coords[0] = in_coords[0];
+            tmp_coords[1] = in_coords[1];
+
+            if (inside) {
+              int64_t in_offset =
+                  aitisa_coords_to_offset(input, tmp_coords, ndim);
+              int64_t fil_offset =
+                  aitisa_coords_to_offset(filter, fil_coords, ndim);
+              tmp += in_data[in_offset] * fil_data[fil_offset];
+            }
+          }
+          int64_t out_offset =
+              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+          out_data[out_offset] = tmp;
+        }
+      }
+    }
+  }
+
+  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
+}
+
+/*
+ * The implementation of the convolution operation. For now, it is only support
+ * the float data type.
+ */
+Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
+                   const int *padding, const int *dilation, const int groups,
+                   Tensor *output_ptr) {
+  DataType dtype = aitisa_tensor_data_type(input);
+  switch (dtype.code) {
+    case TYPE_FLOAT:
+      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
+                                     groups, output_ptr));
+      break;
+    default:
+      return STATUS_NOT_SUPPORTED;
+  }
+  return STATUS_SUCCESS;
+}
+
+Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 4){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
+Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 5){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
-- 
2.43.0


From 0e203d32afd89f1db3ed00de30d76019ea9ec310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 23/28] fix: batch_norm releases its intermediates when
 variance plus epsilon is negative

---
 src/nn/batch_norm.c | 47 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index 878f3d9..8726a6a 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -262,6 +262,9 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                                        const Tensor variance,
                                        const double epsilon,
                                        Tensor **denominator) {
+  // A failed square root is reported only after the intermediates are complete,
+  // so that the caller can release all of them
+  Status sqrt_status, status = STATUS_SUCCESS;
   int64_t in_ndim = aitisa_tensor_ndim(input);
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
@@ -279,7 +282,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
     CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
+    sqrt_status = aitisa_sqrt(temp, *denominator);
+    if (sqrt_status == STATUS_MATH_ERROR) {
+      status = sqrt_status;
+    } else {
+      CHECK_STATUS(sqrt_status);
+    }
     // Destroy epsilon and temp tensor
     aitisa_destroy(&eps_tensor);
     aitisa_destroy(&temp);
@@ -356,7 +364,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       }
       // sqrt(var_array[c] + epsilon_tensor)
       CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
+      sqrt_status = aitisa_sqrt(temp[c], &((*denominator)[c]));
+      if (sqrt_status == STATUS_MATH_ERROR) {
+        status = sqrt_status;
+      } else {
+        CHECK_STATUS(sqrt_status);
+      }
       aitisa_destroy(&(var_array[c]));
     }
     aitisa_destroy(&eps_tensor);
@@ -367,7 +380,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     }
     aitisa_default_cpu_allocator()->raw_dealloc(temp);
   }
-  return STATUS_SUCCESS;
+  return status;
 }
 
 Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
@@ -387,18 +400,26 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
     // Get denominator which is sqrt(variance+epsilon)
     Tensor denominator;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean, denominator,
+                                          output);
+    } else if (status != STATUS_MATH_ERROR) {
+      return status;
+    }
     aitisa_destroy(&denominator);
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, output);
+    } else if (status != STATUS_MATH_ERROR) {
+      return status;
+    }
     int64_t num_channels = aitisa_tensor_dim(input, axis);
     for(int64_t i = 0; i < num_channels; i++){
       aitisa_destroy(&scale_array[i]);
-- 
2.43.0


From 81dc47d54358a1f9bb9bfe83ef4cc2ac15a14530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 24/28] fix: duplicate accepts empty tensors and extents beyond
 the int range

---
 src/basic/duplicate.c | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..93d9ada 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -1,28 +1,18 @@
 #include "src/basic/duplicate.h"
-#include "src/basic/slice.h"
-#include "src/core/allocator.h"
+#include <string.h>
+#include "src/basic/factories.h"
 
 Status aitisa_duplicate(const Tensor input, Tensor *output) {
   Tensor new_tensor;
-  int64_t *dims = aitisa_tensor_dims(input);
-  int ndim = (int)(aitisa_tensor_ndim(input));
-  int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
-  int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
-  int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) {
-    return STATUS_ALLOC_FAILED;
-  }
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    size[i] = (int)(dims[i]);
-    step[i] = 1;
-  }
-  Status status = aitisa_slice(input, begin, size, step, &new_tensor);
+  DataType dtype = aitisa_tensor_data_type(input);
+  Status status =
+      aitisa_create(dtype, aitisa_tensor_device(input),
+                    aitisa_tensor_dims(input), aitisa_tensor_ndim(input), NULL,
+                    0, &new_tensor);
   if (status == STATUS_SUCCESS) {
+    memcpy(aitisa_tensor_data(new_tensor), aitisa_tensor_data(input),
+           aitisa_tensor_size(input) * dtype.size);
     *output = new_tensor;
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
   return status;
 }
-- 
2.43.0


From 1a628b5aceb8bc96f720650a14f704813c42d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 25/28] fix: broadcasting an empty axis with an axis of extent
 1 gives the empty axis

---
 src/basic/broadcast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/broadcast.c b/src/basic/broadcast.c
index 9499cca..739b528 100644
--- a/src/basic/broadcast.c
+++ b/src/basic/broadcast.c
@@ -12,7 +12,7 @@ Status aitisa_broadcast_array(int64_t* dims_in1, int64_t ndim_in1,
     int64_t d_in2 = dims_in2[ndim_in2 - i - 1];
     bool match = d_in1 == 1 || d_in2 == 1 || d_in1 == d_in2;
     if (match) {
-      dims_out[ndim_out - i - 1] = d_in1 > d_in2 ? d_in1 : d_in2;
+      dims_out[ndim_out - i - 1] = d_in1 == 1 ? d_in2 : d_in1;
       i++;
     } else {
       return STATUS_DIMENSIONS_MISMATCH;
-- 
2.43.0


From ea58b99afd23e5865ed4695e57b9d2c5200ee14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 26/28] fix: dot of tensors whose contracted axis is empty is
 zero instead of failing or dividing by zero

---
 src/math/dot.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/math/dot.c b/src/math/dot.c
index be1e485..29033b2 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -107,6 +107,13 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
+  if (tensor2_dims[0] == 0) {
+    // There is nothing to sum up, every element is zero
+    Status status =
+        aitisa_full(dtype, device, out_dims, out_ndim, 0.0, output);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    return status;
+  }
   CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
                              NULL, 0, &new_tensor));
   *output = new_tensor;
@@ -196,6 +203,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
+  if (tensor2_dims[ndim_tensor2 - 2] == 0) {
+    // There is nothing to sum up, every element is zero
+    Status status =
+        aitisa_full(dtype, device, out_dims, out_ndim, 0.0, output);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    return status;
+  }
   CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
                              NULL, 0, &new_tensor));
   *output = new_tensor;
-- 
2.43.0


From 26c7b8279c946a9327c568f7eb556e432ac781ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 27/28] fix: batch_norm of an input without elements is empty
 instead of an error

---
 src/nn/batch_norm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index 8726a6a..b4acde1 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -392,6 +392,8 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
                                            variance, epsilon));
   // Create output
   CHECK_STATUS(batch_norm_create_output(input, output));
+  // An input without elements leaves nothing to normalize
+  if (aitisa_tensor_size(input) == 0) return STATUS_SUCCESS;
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
-- 
2.43.0


From 81d16ff4bdef51fc35880384345df7d3c0d364f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 28/28] fix: convolution over no input channels gives zeros
 instead of uninitialized elements

---
 src/nn/conv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index a815461..c632de8 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -129,10 +129,10 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
               tmp += in_data[in_offset] * fil_data[fil_offset];
             }
           }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
         }
+        int64_t out_offset =
+            aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+        out_data[out_offset] = tmp;
       }
     }
   }
-- 
2.43.0

