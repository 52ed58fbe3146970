import numpy as np
from . import mapping
def to_array(t):
    dt = mapping.TENSOR_TYPE_TO_NP_TYPE[t.data_type]
    if t.HasField("raw_data"): return np.frombuffer(t.raw_data, dtype=dt).reshape(tuple(t.dims)).copy()
    if t.data_type == 1: a = t.float_data
    elif t.data_type in (7,): a = t.int64_data
    elif t.data_type == 11: a = t.double_data
    elif t.data_type in (12, 13): a = t.uint64_data
    elif t.data_type == 10: return np.asarray(t.int32_data, dtype=np.uint16).view(np.float16).reshape(tuple(t.dims))
    else: a = t.int32_data
    return np.asarray(list(a), dtype=dt).reshape(tuple(t.dims))
def from_array(arr, name=None):
    from . import TensorProto
    t = TensorProto(dims=list(arr.shape), data_type=mapping.NP_TYPE_TO_TENSOR_TYPE[arr.dtype])
    if name: t.name = name
    t.raw_data = np.ascontiguousarray(arr).tobytes()
    return t
