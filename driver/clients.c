/* Client code of the library: each function is verified against its contract with the
 * real library bodies called, and is run by the concrete driver as well. */
#include <stdint.h>
#include "src/basic/duplicate.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/core/tensor.h"
#include "src/core/types.h"

/* typed access through the dispatch tables and the inline accessors */
Status cl_get(Tensor t, void *dst) { aitisa_get_typed_value_func(aitisa_tensor_data_type(t))(aitisa_tensor_data(t), dst); return STATUS_SUCCESS; }
Status cl_geta(Tensor t, int64_t i, void *dst) { aitisa_get_typed_array_value_func(aitisa_tensor_data_type(t))(aitisa_tensor_data(t), i, dst); return STATUS_SUCCESS; }
Status cl_set(Tensor t, Tensor v) { aitisa_set_typed_value_func(aitisa_tensor_data_type(t))(aitisa_tensor_data(t), aitisa_tensor_data(v)); return STATUS_SUCCESS; }
Status cl_seta(Tensor t, int64_t i, Tensor v) { aitisa_set_typed_array_value_func(aitisa_tensor_data_type(t))(aitisa_tensor_data(t), i, aitisa_tensor_data(v)); return STATUS_SUCCESS; }
Status cl_cast(Tensor t, double v) { aitisa_castto_typed_value_func(aitisa_tensor_data_type(t))(aitisa_tensor_data(t), &v); return STATUS_SUCCESS; }
Status cl_item(Tensor t, int64_t i, Tensor v) { aitisa_tensor_set_item(t, i, aitisa_tensor_data(v)); return STATUS_SUCCESS; }

/* what aitisa_resolve reports about a tensor */
Status cl_resolve(Tensor t, int64_t *out) {
  DataType dt; Device dev; int64_t *dims; int64_t ndim; void *data; unsigned int len;
  Status s = aitisa_resolve(t, &dt, &dev, &dims, &ndim, &data, &len);
  if (s != STATUS_SUCCESS) return s;
  out[0] = dt.code; out[1] = dt.size; out[2] = dev.type; out[3] = dev.id; out[4] = ndim; out[5] = len;
  out[6] = dims == aitisa_tensor_dims(t); out[7] = data == aitisa_tensor_data(t);
  return s;
}
/* the inline accessors of tensor.h */
Status cl_fields(Tensor t, int64_t *out) {
  out[0] = aitisa_tensor_ndim(t); out[1] = aitisa_tensor_size(t);
  out[2] = aitisa_tensor_data_type(t).code; out[3] = aitisa_tensor_data_type(t).size;
  out[4] = aitisa_tensor_device(t).type; out[5] = aitisa_tensor_device(t).id;
  out[6] = aitisa_tensor_layout_type(t); out[7] = aitisa_tensor_shape(t).ndim;
  for (int64_t i = 0; i < aitisa_tensor_ndim(t); ++i) out[8 + i] = aitisa_tensor_dim(t, i);
  return STATUS_SUCCESS;
}

/* life cycle: whatever is created can be destroyed, once, completely, and the handle is cleared */
Status cl_create_destroy(DataType dt, Device dev, int64_t *dims, int64_t ndim, int64_t *out) {
  Tensor t;
  Status s = aitisa_create(dt, dev, dims, ndim, NULL, 0, &t);
  if (s != STATUS_SUCCESS) return s;
  s = aitisa_destroy(&t);
  out[0] = t == NULL;
  out[1] = aitisa_destroy(&t); /* of an empty handle */
  return s;
}
Status cl_destroy(Tensor *t, int64_t *out) {
  Status s = aitisa_destroy(t);
  out[0] = *t == NULL;
  out[1] = aitisa_destroy(t);
  out[2] = *t == NULL;
  return s;
}
/* a copy outlives the tensor it was made from */
Status cl_dup_outlives(Tensor *t, Tensor *out) {
  Status s = aitisa_duplicate(*t, out);
  Status s2 = aitisa_destroy(t);
  return s != STATUS_SUCCESS ? s : s2;
}
/* coordinates and linear index are inverse to each other */
int64_t cl_roundtrip_lin(Tensor t, int64_t ix, int64_t *coords) {
  aitisa_linidx_to_coords(t, ix, coords);
  return aitisa_coords_to_linidx(t, coords, aitisa_tensor_ndim(t));
}
Status cl_roundtrip_coords(Tensor t, int64_t *coords, int64_t *out) {
  int64_t ix = aitisa_coords_to_linidx(t, coords, aitisa_tensor_ndim(t));
  aitisa_linidx_to_coords(t, ix, out);
  return STATUS_SUCCESS;
}
/* reshape there and back again */
Status cl_reshape_back(Tensor t, int64_t *dims, int64_t ndim, Tensor *out) {
  Tensor m;
  Status s = aitisa_reshape(t, dims, ndim, &m);
  if (s != STATUS_SUCCESS) return s;
  s = aitisa_reshape(m, aitisa_tensor_dims(t), aitisa_tensor_ndim(t), out);
  Status s2 = aitisa_destroy(&m);
  return s != STATUS_SUCCESS ? s : s2;
}
