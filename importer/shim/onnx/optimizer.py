"""onnx.optimizer: only eliminate_nop_dropout is implemented; every other pass leaves the model as it is (all of them
preserve the model's meaning)."""
import copy
def get_available_passes(): return ["eliminate_nop_dropout"]
def optimize(model, passes=None, *a, **k):
    m = copy.deepcopy(model)
    if passes is None or "eliminate_nop_dropout" not in passes: return m
    g = m.graph
    outs = {o.name for o in g.output}
    for n in list(g.node):
        if n.op_type != "Dropout" or n.output[0] in outs: continue
        ratio = [a.f for a in n.attribute if a.name == "ratio"]
        if ratio and ratio[0] == 0.0:
            del g.node[[x is n for x in g.node].index(True)]
            for x in g.node:
                for k, i in enumerate(x.input):
                    if i == n.output[0]: x.input[k] = n.input[0]
    return m
