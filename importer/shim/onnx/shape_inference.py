"""Shape inference: element types and shapes of all values, obtained by evaluating the model on zeros.  As in onnx 1.5,
the output of Reshape is only known when its shape operand is an initializer, and nothing is known downstream of an
unknown shape (unless FULL is set)."""
import copy
from . import helper
FULL = False
KNOWN_OPS = None          # further operators without inference can be listed here
NO_INFERENCE = set()
def infer_shapes(model, *a, **k):
    import onnxref
    m = copy.deepcopy(model)
    g = m.graph
    vals = onnxref.evaluate(m, None)
    inits = {t.name for t in g.initializer}
    known = {i.name for i in g.input} | inits | {""}
    have = {v.name for v in g.value_info}
    outs = {o.name: o for o in g.output}
    for n in g.node:
        ok = all(i in known for i in n.input)
        if n.op_type == "Reshape" and not FULL: ok = ok and n.input[1] in inits
        if n.op_type in NO_INFERENCE: ok = False
        for o in n.output:
            if not o or o not in vals: continue
            if not (ok or o in have): continue
            known.add(o)
            shape, et = vals[o].shape, onnxref.elem_type(vals[o])
            if o in outs:
                t = outs[o].type.tensor_type
                t.elem_type = et
                if len(t.shape.dim) != len(shape):
                    del t.shape.dim[:]
                    for d in shape: t.shape.dim.add()
                for d, s in zip(t.shape.dim, shape): d.dim_value = s
            elif o not in have:
                g.value_info.append(helper.make_tensor_value_info(o, et, shape))
    return m
