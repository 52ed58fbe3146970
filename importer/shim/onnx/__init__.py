"""Stand-in for the parts of onnx 1.5.0 that the importer and the reference-data tools use."""
from ._proto import Message, Repeated
__version__ = "1.5.0"

class StringStringEntryProto(Message): FIELDS = {"key": (1, "string", 0), "value": (2, "string", 0)}
class TensorProto(Message):
    UNDEFINED, FLOAT, UINT8, INT8, UINT16, INT16, INT32, INT64, STRING, BOOL, FLOAT16, DOUBLE, UINT32, UINT64 = range(14)
    FIELDS = {"dims": (1, "int64", 1), "data_type": (2, "int32", 0), "float_data": (4, "float", 1, 1), "int32_data": (5, "int32", 1, 1), "string_data": (6, "bytes", 1),
              "int64_data": (7, "int64", 1, 1), "name": (8, "string", 0), "raw_data": (9, "bytes", 0), "double_data": (10, "double", 1, 1), "uint64_data": (11, "uint64", 1, 1), "doc_string": (12, "string", 0)}
class TensorShapeProto(Message):
    class Dimension(Message):
        FIELDS = {"dim_value": (1, "int64", 0), "dim_param": (2, "string", 0), "denotation": (3, "string", 0)}
        ONEOF = {"value": ("dim_value", "dim_param")}
    FIELDS = {"dim": (1, Dimension, 1)}
class TypeProto(Message):
    class Tensor(Message): FIELDS = {"elem_type": (1, "int32", 0), "shape": (2, TensorShapeProto, 0)}
    FIELDS = {"tensor_type": (1, Tensor, 0), "denotation": (6, "string", 0)}
    ONEOF = {"value": ("tensor_type",)}
class ValueInfoProto(Message): FIELDS = {"name": (1, "string", 0), "type": (2, TypeProto, 0), "doc_string": (3, "string", 0)}
class GraphProto(Message): pass
class AttributeProto(Message):
    UNDEFINED, FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS, TENSORS, GRAPHS = range(11)
    FIELDS = {"name": (1, "string", 0), "f": (2, "float", 0), "i": (3, "int64", 0), "s": (4, "bytes", 0), "t": (5, TensorProto, 0), "g": (6, GraphProto, 0),
              "floats": (7, "float", 1), "ints": (8, "int64", 1), "strings": (9, "bytes", 1), "tensors": (10, TensorProto, 1), "graphs": (11, GraphProto, 1), "doc_string": (13, "string", 0), "type": (20, "enum", 0), "ref_attr_name": (21, "string", 0)}
class NodeProto(Message):
    FIELDS = {"input": (1, "string", 1), "output": (2, "string", 1), "name": (3, "string", 0), "op_type": (4, "string", 0), "attribute": (5, AttributeProto, 1), "doc_string": (6, "string", 0), "domain": (7, "string", 0)}
GraphProto.FIELDS = {"node": (1, NodeProto, 1), "name": (2, "string", 0), "initializer": (5, TensorProto, 1), "doc_string": (10, "string", 0),
                     "input": (11, ValueInfoProto, 1), "output": (12, ValueInfoProto, 1), "value_info": (13, ValueInfoProto, 1)}
class OperatorSetIdProto(Message): FIELDS = {"domain": (1, "string", 0), "version": (2, "int64", 0)}
class ModelProto(Message):
    FIELDS = {"ir_version": (1, "int64", 0), "producer_name": (2, "string", 0), "producer_version": (3, "string", 0), "domain": (4, "string", 0), "model_version": (5, "int64", 0),
              "doc_string": (6, "string", 0), "graph": (7, GraphProto, 0), "opset_import": (8, OperatorSetIdProto, 1), "metadata_props": (14, StringStringEntryProto, 1)}

def load_model_from_string(s, *a): return ModelProto.FromString(s)
load_from_string = load_model_from_string
def load_model(f, *a, **k):
    data = f.read() if hasattr(f, "read") else open(f, "rb").read()
    return ModelProto.FromString(data)
load = load_model
def save_model(proto, f, *a, **k):
    data = proto if isinstance(proto, bytes) else proto.SerializeToString()
    if hasattr(f, "write"): f.write(data)
    else:
        with open(f, "wb") as h: h.write(data)
save = save_model
def load_tensor(f, *a):
    return TensorProto.FromString(f.read() if hasattr(f, "read") else open(f, "rb").read())

from . import numpy_helper, helper, checker, shape_inference, optimizer, utils, mapping  # noqa
