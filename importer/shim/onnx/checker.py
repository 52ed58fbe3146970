"""Structural subset of onnx.checker: names defined before use, single assignment."""
class ValidationError(Exception): pass
def check_model(model, *a, **k): check_graph(model.graph)
def check_graph(g, *a, **k):
    known = {i.name for i in g.input} | {t.name for t in g.initializer} | {""}
    for n in g.node:
        if not n.op_type: raise ValidationError("node without operator")
        for i in n.input:
            if i not in known: raise ValidationError("Nodes in a graph must be topologically sorted, however input %r of node %r is not output of any previous nodes" % (i, n.name))
        for o in n.output:
            if o and o in known: raise ValidationError("Graph must be in single static assignment (SSA) form, however %r has been used multiple times" % o)
            known.add(o)
def check_node(n, *a): pass
def check_tensor(t, *a): pass
