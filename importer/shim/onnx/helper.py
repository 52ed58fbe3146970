from . import *
from . import AttributeProto, NodeProto, GraphProto, ModelProto, ValueInfoProto, TensorProto, OperatorSetIdProto
from . import numpy_helper
def make_attribute(k, v):
    a = AttributeProto(name=k)
    if isinstance(v, bool): v = int(v)
    if isinstance(v, float): a.f = v; a.type = AttributeProto.FLOAT
    elif isinstance(v, int): a.i = v; a.type = AttributeProto.INT
    elif isinstance(v, (str, bytes)): a.s = v; a.type = AttributeProto.STRING
    elif isinstance(v, TensorProto): a.t.CopyFrom(v); a.type = AttributeProto.TENSOR
    else:
        v = list(v)
        if all(isinstance(x, int) for x in v): a.ints.extend(v); a.type = AttributeProto.INTS
        elif all(isinstance(x, (int, float)) for x in v): a.floats.extend(v); a.type = AttributeProto.FLOATS
        else: a.strings.extend(x.encode() if isinstance(x, str) else x for x in v); a.type = AttributeProto.STRINGS
    return a
def make_node(op, inputs, outputs, name=None, **attrs):
    n = NodeProto(op_type=op, input=inputs, output=outputs)
    if name: n.name = name
    n.attribute.extend(make_attribute(k, v) for k, v in sorted(attrs.items()))
    return n
def make_tensor_value_info(name, elem_type, shape):
    v = ValueInfoProto(name=name)
    t = v.type.tensor_type; t.elem_type = elem_type
    t.shape.__dict__["_set"] = True
    for d in shape:
        x = t.shape.dim.add()
        if isinstance(d, str): x.dim_param = d
        elif d is not None: x.dim_value = d
    return v
def make_tensor(name, data_type, dims, vals, raw=False):
    t = TensorProto(name=name, data_type=data_type, dims=dims)
    if raw: t.raw_data = vals
    elif data_type == 1: t.float_data.extend(float(x) for x in vals)
    elif data_type == 7: t.int64_data.extend(int(x) for x in vals)
    else: t.int32_data.extend(int(x) for x in vals)
    return t
def make_graph(nodes, name, inputs, outputs, initializer=(), value_info=()):
    return GraphProto(node=nodes, name=name, input=inputs, output=outputs, initializer=list(initializer), value_info=list(value_info))
def make_opsetid(domain, version): return OperatorSetIdProto(domain=domain, version=version)
def make_model(graph, opset=9, **kw):
    m = ModelProto(ir_version=4, producer_name="verif", opset_import=[OperatorSetIdProto(version=opset)])
    m.graph.CopyFrom(graph)
    return m
def strip_doc_string(proto):
    for f, v in list(proto.ListFields()):
        if f == "doc_string": proto.ClearField(f)
        elif isinstance(v, list):
            for x in v:
                if hasattr(x, "ListFields"): strip_doc_string(x)
        elif hasattr(v, "ListFields"): strip_doc_string(v)
