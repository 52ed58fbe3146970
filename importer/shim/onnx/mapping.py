import numpy as np
TENSOR_TYPE_TO_NP_TYPE = {1: np.dtype("float32"), 2: np.dtype("uint8"), 3: np.dtype("int8"), 4: np.dtype("uint16"), 5: np.dtype("int16"), 6: np.dtype("int32"),
                          7: np.dtype("int64"), 9: np.dtype("bool"), 10: np.dtype("float16"), 11: np.dtype("float64"), 12: np.dtype("uint32"), 13: np.dtype("uint64")}
NP_TYPE_TO_TENSOR_TYPE = {v: k for k, v in TENSOR_TYPE_TO_NP_TYPE.items()}
