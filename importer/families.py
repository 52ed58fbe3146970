"""Enumerated model families of properties N01..N07."""
import itertools
import numpy as np
from nmc import M, Case, vals

def two(shape):
    """Two inputs with different values (positive and negative)."""
    n = int(np.prod(shape))
    return [vals(shape, 3, 0.125), (-vals(shape, 7, 0.0625)).astype(np.float32)]

def rank(m, t):
    import onnxref
    from onnx import helper
    g = helper.make_graph(m.nodes, "g", [helper.make_tensor_value_info(n, 1, s) for n, s in m.inputs], [], m.inits)
    return onnxref.evaluate(helper.make_model(g, opset=m.opset), None)[t].ndim

def flat(m, t): return m.op("Flatten", t)

def start(shape, **kw):
    """A model whose value m.x has that shape. Networks have batch size 1: data of any other leading extent comes from a Reshape."""
    if shape[0] == 1: m = M(shape, **kw); return m, m.x
    m = M((1, int(np.prod(shape))), **kw)
    return m, m.op("Reshape", [m.x, m.param(np.array(shape, np.int64))])

def single(desc, shape, add, expect="produce", flatten=True, inputs=None, **kw):
    """One operator applied to the network input, wrapped to a 2-D output."""
    opts = {k: kw.pop(k) for k in list(kw) if k in ("full_shapes", "tol", "post", "params")}
    def build():
        m, t = start(shape, **kw)
        t = add(m, t)
        if flatten or (flatten is None and rank(m, t) != 2): t = flat(m, t)
        return [(m.done(t), inputs() if inputs else two(m.inputs[0][1]))]
    return Case(desc, build, expect, **opts)

def conv(m, x, w, bias=True, seed=1, **a):
    ins = [x, m.param(vals(w, seed))]
    if bias: ins.append(m.param(vals((w[0],), seed + 1)))
    return m.op("Conv", ins, kernel_shape=list(w[2:]), **a)

def pairs(it): return list(itertools.product(*it))

# ======================================================================================================= N01
def n01(tier):
    T = tier == "thorough"
    C = []
    # -- Conv 2-D
    hw = [(4, 4), (5, 3)] + ([(3, 6), (7, 5)] if T else [])
    ks = [(1, 1), (3, 3), (1, 3), (3, 1)] + ([(5, 5), (5, 1), (3, 5)] if T else [])
    ss = [(1, 1), (2, 2), (1, 2), (2, 1)] + ([(3, 1), (3, 3)] if T else [])
    ps = [None, (1, 1, 1, 1), (1, 0, 0, 1), (0, 1, 0, 2), (2, 1, 0, 0)] + ([(0, 0, 0, 0), (1, 2, 3, 4), (0, 0, 1, 0)] if T else [])
    cs = [(1, 1, 1, True), (2, 3, 1, False), (2, 2, 2, True), (4, 2, 2, True), (2, 4, 2, False)] + ([(3, 1, 1, True), (3, 6, 3, True), (1, 3, 1, False), (4, 4, 4, False)] if T else [])
    for (h, w), k, s, p, (c, o, g, b) in pairs((hw, ks, ss, ps, cs)):
        pp = p or (0, 0, 0, 0)
        if h + pp[0] + pp[2] < k[0] or w + pp[1] + pp[3] < k[1]: continue
        a = dict(strides=list(s))
        if p: a["pads"] = list(p)
        if g != 1: a["group"] = g
        C.append(single("Conv2D in=%dx%dx%d k=%dx%d s=%s p=%s out=%d g=%d bias=%d" % (c, h, w, k[0], k[1], s, p, o, g, b), (1, c, h, w),
                        lambda m, x, k=k, a=a, c=c, o=o, g=g, b=b: conv(m, x, (o, c // g) + k, b, **a)))
    # -- Conv 1-D
    for w, k, s, p, (c, o, g, b) in pairs(([4, 7], [1, 3, 5], [1, 2, 3], [None, (1, 1), (1, 0), (0, 2)] + ([(2, 2), (3, 1)] if T else []), cs)):
        pp = p or (0, 0)
        if w + sum(pp) < k: continue
        a = dict(strides=[s])
        if p: a["pads"] = list(p)
        if g != 1: a["group"] = g
        C.append(single("Conv1D in=%dx%d k=%d s=%d p=%s out=%d g=%d bias=%d" % (c, w, k, s, p, o, g, b), (1, c, w),
                        lambda m, x, k=k, a=a, c=c, o=o, g=g, b=b: conv(m, x, (o, c // g, k), b, **a)))
    # a single padding of one, on every side
    for i in range(4):
        p = [int(j == i) for j in range(4)]
        C.append(single("Conv2D one-sided padding %s" % p, (1, 2, 4, 5), lambda m, x, p=p: conv(m, x, (2, 2, 3, 3), True, strides=[1, 1], pads=p)))
        for kind in ("MaxPool", "AveragePool"):
            for inc in ([None] if kind == "MaxPool" else [0, 1]):
                a = dict(kernel_shape=[2, 3], strides=[1, 1], pads=p)
                if inc is not None: a["count_include_pad"] = inc
                C.append(single("%s2D one-sided padding %s inc=%s" % (kind, p, inc), (1, 2, 4, 5), lambda m, x, kind=kind, a=a: m.op(kind, x, **a)))
    for i in range(2):
        p = [int(j == i) for j in range(2)]
        C.append(single("Conv1D one-sided padding %s" % p, (1, 2, 5), lambda m, x, p=p: conv(m, x, (2, 2, 3), True, strides=[1], pads=p)))
    # many channels, long rows
    for o in (65, 130, 257) + ((600, 1025) if T else ()):
        C.append(single("Conv1D %d output channels" % o, (1, 2, 4), lambda m, x, o=o: conv(m, x, (o, 2, 3), True, strides=[1])))
        C.append(single("Conv1D %d input channels" % o, (1, o, 4), lambda m, x, o=o: conv(m, x, (2, o, 3), True, strides=[1])))
        C.append(single("Conv1D kernel of %d" % o, (1, 2, o + 3), lambda m, x, o=o: conv(m, x, (2, 2, o | 1), True, strides=[1])))
        C.append(single("Conv2D %d output channels" % o, (1, 2, 3, 4), lambda m, x, o=o: conv(m, x, (o, 2, 3, 1), False, strides=[1, 1])))
        C.append(single("Conv2D %d input channels" % o, (1, o, 3, 4), lambda m, x, o=o: conv(m, x, (3, o, 1, 3), True, strides=[1, 1])))
        C.append(single("Conv2D %d groups" % o, (1, o, 3, 3), lambda m, x, o=o: conv(m, x, (o, 1, 3, 3), True, strides=[1, 1], group=o, pads=[1, 1, 1, 1])))
        C.append(single("Gemm %d in" % o, (1, o), lambda m, x, o=o: m.op("Gemm", [x, m.param(vals((3, o), 1)), m.param(vals((3,), 2))], transB=1), flatten=False))
        C.append(single("Gemm %d out" % o, (1, 3), lambda m, x, o=o: m.op("Gemm", [x, m.param(vals((o, 3), 1)), m.param(vals((o,), 2))], transB=1), flatten=False))
        C.append(single("MatMul %d in, %d out" % (o, o), (1, o), lambda m, x, o=o: m.op("MatMul", [x, m.param(vals((o, o), 1))]), flatten=False))
        C.append(single("BatchNormalization of %d channels" % o, (1, o, 2, 2), lambda m, x, o=o: m.op("BatchNormalization", [x] + [m.param(np.abs(vals((o,), 5 + i)).astype(np.float32) + np.float32(0.125)) for i in range(4)], epsilon=1e-5)))
        C.append(single("Add of %d values" % o, (1, o), lambda m, x, o=o: m.op("Add", [x, m.param(vals((o,), 4))]), flatten=False))
        C.append(single("Concat of %d inputs" % min(o, 130), (1, 2, 2), lambda m, x, o=min(o, 130): m.op("Concat", [x if i % 3 else m.op("Relu", x) for i in range(o)], axis=1)))
        C.append(single("Concat with %d channels" % o, (1, o, 2), lambda m, x, o=o: m.op("Concat", [x, m.op("Relu", x), x], axis=1)))
        C.append(single("LRN of %d channels" % o, (1, o, 1, 2), lambda m, x: m.op("LRN", x, size=5, alpha=0.5, beta=0.75)))
        C.append(single("Softmax of %d values" % o, (1, o), lambda m, x: m.op("Softmax", x), flatten=False))
        C.append(single("Transpose of %d channels" % o, (1, o, 2, 3), lambda m, x: m.op("Transpose", x, perm=[0, 2, 3, 1])))
    # constants written into the code keep every digit
    E = "exact"
    for f in (0.12345678, 1.2345679, 123456.79, 16777215.0, 1.1754944e-38, 3.4028233e38, 0.1, -7.6293945e-06):
        f = float(np.float32(f))
        C.append(single("Mul by %r" % f, (1, 3), lambda m, x, f=f: m.op("Mul", [x, m.param(np.array(f, np.float32))]), flatten=False, tol=E, inputs=lambda: [np.array([[1, -0.5, 0.75]], np.float32)]))
        C.append(single("Clip at %r" % f, (1, 4), lambda m, x, f=f: m.op("Clip", x, min=-abs(f), max=abs(f)), flatten=False, tol=E, inputs=lambda: [np.array([[3.4e38, -3.4e38, 1, -1]], np.float32)]))
        C.append(single("Pad with %r" % f, (1, 2), lambda m, x, f=f: m.op("Pad", x, pads=[0, 1, 0, 1], mode="constant", value=f), flatten=False, tol=E, inputs=lambda: [np.array([[0, 1e-3]], np.float32)]))
    for eps in (1e-7, 1e-8, 1e-12, 1.2345675e-3, 0.98765435, 0.0):
        for var in (0.0, 1e-10, 1e-3):
            if eps + var: C.append(single("BatchNormalization variance %g eps=%r" % (var, eps), (1, 1, 3), lambda m, x, eps=eps, var=var: m.op("BatchNormalization", [x] + [m.param(np.array([v], np.float32)) for v in (1.0, 0.0, 0.0, var)], epsilon=eps), tol="tight"))
    for al, be in ((0.12345678, 0.75), (0.5, 0.98765435), (1.2345675e-4, 0.75)):
        C.append(single("LRN alpha=%r beta=%r" % (al, be), (1, 1, 1, 3), lambda m, x, a=dict(size=1, alpha=al, beta=be): m.op("LRN", x, **a), tol="tight", inputs=lambda: [np.array([[[[100, 50, -200]]]], np.float32), np.array([[[[1, 2, -3]]]], np.float32)]))
    # explicit default attributes are the same operator
    for extra in (dict(dilations=[1, 1]), dict(group=1), dict(dilations=[1, 1], group=1, pads=[0, 0, 0, 0])):
        C.append(single("Conv2D explicit defaults %s" % sorted(extra), (1, 2, 4, 4), lambda m, x, e=extra: conv(m, x, (2, 2, 3, 3), True, strides=[1, 1], **e)))
    C.append(single("Conv1D explicit defaults", (1, 2, 5), lambda m, x: conv(m, x, (2, 2, 3), True, strides=[1], dilations=[1], group=1)))
    # -- pools
    for kind in ("MaxPool", "AveragePool"):
        incs = [None] if kind == "MaxPool" else [None, 0, 1]
        for c, (h, w), k, s, p, inc in pairs(([1, 3], [(4, 4), (5, 3)], [(2, 2), (3, 3), (1, 2), (2, 1), (3, 2)], [(1, 1), (2, 2), (1, 2), (2, 1)], [None, (1, 1, 1, 1), (1, 0, 0, 1), (0, 1, 1, 0), (0, 0, 2, 1)], incs)):
            pp = p or (0, 0, 0, 0)
            if max(pp[0], pp[2]) >= k[0] or max(pp[1], pp[3]) >= k[1]: continue
            if h + pp[0] + pp[2] < k[0] or w + pp[1] + pp[3] < k[1]: continue
            if not T and c == 3 and (h, w) == (4, 4): continue
            a = dict(kernel_shape=list(k), strides=list(s))
            if p: a["pads"] = list(p)
            if inc is not None: a["count_include_pad"] = inc
            C.append(single("%s2D in=%dx%dx%d k=%s s=%s p=%s inc=%s" % (kind, c, h, w, k, s, p, inc), (1, c, h, w), lambda m, x, kind=kind, a=a: m.op(kind, x, **a)))
        for c, w, k, s, p, inc in pairs(([1, 3], [4, 7], [1, 2, 3], [1, 2, 3], [None, (0, 0), (1, 1), (1, 0), (0, 1)], incs)):
            if p and max(p) >= k: continue
            a = dict(kernel_shape=[k], strides=[s])
            if p: a["pads"] = list(p)
            if inc is not None: a["count_include_pad"] = inc
            C.append(single("%s1D in=%dx%d k=%s s=%s p=%s inc=%s" % (kind, c, w, k, s, p, inc), (1, c, w), lambda m, x, kind=kind, a=a: m.op(kind, x, **a)))
    for kind in ("GlobalMaxPool", "GlobalAveragePool"):
        for c, h, w in pairs(([1, 2, 5], [1, 3, 4], [1, 2, 5])):
            C.append(single("%s in=%dx%dx%d" % (kind, c, h, w), (1, c, h, w), lambda m, x, kind=kind: m.op(kind, x)))
    # -- dense
    for r, n, o, b in pairs(([1], [1, 3, 8], [1, 2, 5], [False, True])):
        for a in ({"transB": 1}, {"transB": 1, "transA": 0, "alpha": 1.0, "beta": 1.0}):
            def add(m, x, n=n, o=o, b=b, a=a):
                ins = [x, m.param(vals((o, n), 1))] + ([m.param(vals((o,), 2))] if b else [])
                return m.op("Gemm", ins, **a)
            C.append(single("Gemm rows=%d in=%d out=%d bias=%d attrs=%d" % (r, n, o, b, len(a)), (r, n), add, flatten=False))
        if not b: C.append(single("MatMul rows=%d in=%d out=%d" % (r, n, o), (r, n), lambda m, x, n=n, o=o: m.op("MatMul", [x, m.param(vals((n, o), 1))]), flatten=False))
    # -- element-wise and normalisation, every supported rank
    shapes = [(1, 6), (2, 3), (1, 3, 5), (1, 1, 4), (1, 3, 2, 4), (1, 1, 3, 3), (1, 4, 1, 1), (1, 5, 3, 1)]
    for sh in shapes:
        fl_ = len(sh) > 2
        C.append(single("Relu %s" % (sh,), sh, lambda m, x: m.op("Relu", x), flatten=fl_))
        for lo, hi in ((0.0, 6.0), (-0.3, 0.7), (0.1234567, 0.7654321), (-1e-3, 1e9), (-3.4028234663852886e38, 0.5), (-0.25, 3.4028234663852886e38), (2.0, 3.0)):
            C.append(single("Clip %s min=%g max=%g" % (sh, lo, hi), sh, lambda m, x, lo=lo, hi=hi: m.op("Clip", x, min=lo, max=hi), flatten=fl_))
        for f in (2.0, -0.5, 0.1234567, 1e-3, 0.0, 12345678.0):
            C.append(single("Mul %s by %g" % (sh, f), sh, lambda m, x, f=f: m.op("Mul", [x, m.param(np.array(f, np.float32))]), flatten=fl_))
        C.append(single("Add %s constant of same shape" % (sh,), sh, lambda m, x, sh=sh: m.op("Add", [x, m.param(vals(sh, 4))]), flatten=fl_))
        C.append(single("Add %s with itself" % (sh,), sh, lambda m, x: m.op("Add", [x, m.op("Relu", x)]), flatten=fl_))
        if len(sh) >= 3:
            for eps in (1e-5, 1e-3, 0.1, 0.1234567):
                def bn(m, x, c=sh[1], eps=eps):
                    return m.op("BatchNormalization", [x] + [m.param(np.abs(vals((c,), 5 + i)).astype(np.float32) + np.float32(0.0078125) if i == 3 else vals((c,), 5 + i)) for i in range(4)], epsilon=eps)
                C.append(single("BatchNormalization %s eps=%g" % (sh, eps), sh, bn))
        if len(sh) == 2 and sh[0] == 1: C.append(single("Softmax %s" % (sh,), sh, lambda m, x: m.op("Softmax", x), flatten=False)); C.append(single("Softmax %s axis=1" % (sh,), sh, lambda m, x: m.op("Softmax", x, axis=1), flatten=False))
        if len(sh) == 4:
            for size, al, be in ((1, 1.0, 1.0), (3, 0.75, 0.5), (5, 1e-1, 0.75), (3, 0.1234567, 0.7654321), (7, 2.0, 2.0)):
                C.append(single("LRN %s size=%d alpha=%g beta=%g" % (sh, size, al, be), sh, lambda m, x, a=dict(size=size, alpha=al, beta=be): m.op("LRN", x, **a)))
                C.append(single("LRN %s size=%d alpha=%g beta=%g bias=1" % (sh, size, al, be), sh, lambda m, x, a=dict(size=size, alpha=al, beta=be, bias=1.0): m.op("LRN", x, **a)))
    # -- shape operators
    for sh in [(1, 3, 2, 4), (1, 1, 3, 2), (1, 2, 1, 1)]:
        for p in ((0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 0, 2), (0, 2, 1, 0), (3, 1, 2, 4)):
            for v in (0.0, -1.5, 0.1234567):
                C.append(single("Pad4D %s hw=%s value=%g" % (sh, p, v), sh, lambda m, x, p=p, v=v: m.op("Pad", x, pads=[0, 0, p[0], p[1], 0, 0, p[2], p[3]], mode="constant", value=v)))
    for sh in [(1, 3, 4), (1, 1, 2)]:
        for p in ((0, 0), (1, 1), (2, 0), (0, 3)):
            for v in (0.0, -1.5):
                C.append(single("Pad3D %s w=%s value=%g" % (sh, p, v), sh, lambda m, x, p=p, v=v: m.op("Pad", x, pads=[0, 0, p[0], 0, 0, p[1]], mode="constant", value=v)))
    for sh in [(1, 4), (2, 3)]:
        for p in ((0, 0, 0, 0), (0, 1, 0, 2), (1, 0, 2, 1)):
            for v in (0.0, 2.5):
                C.append(single("Pad2D %s pads=%s value=%g" % (sh, p, v), sh, lambda m, x, p=p, v=v: m.op("Pad", x, pads=list(p), mode="constant", value=v), flatten=False))
    for perm in itertools.permutations(range(4)):
        C.append(single("Transpose %s" % (perm,), (1, 2, 3, 4), lambda m, x, perm=perm: m.op("Transpose", x, perm=list(perm))))
    for sh in [(1, 5), (2, 3), (3, 2)]:
        for perm in ((0, 1), (1, 0)): C.append(single("Transpose %s %s" % (sh, perm), sh, lambda m, x, perm=perm: m.op("Transpose", x, perm=list(perm)), flatten=False))
    for a_, b_, c_ in pairs(([1, 2, 3], [1, 2, 3], [0, 1, 2])):
        def cat(m, x, a=a_, b=b_, c=c_):
            ts = [conv(m, x, (k, 2, 1, 1), True, seed=3 * i + 1, strides=[1, 1]) for i, k in enumerate([a, b] + ([c] if c else []))]
            return m.op("Concat", ts, axis=1)
        C.append(single("Concat channels %d+%d+%d" % (a_, b_, c_), (1, 2, 3, 2), cat))
    for a_, b_ in pairs(([1, 2], [1, 3])):
        C.append(single("Concat3D %d+%d" % (a_, b_), (1, 2, 4), lambda m, x, a=a_, b=b_: m.op("Concat", [conv(m, x, (a, 2, 1), True, 1, strides=[1]), conv(m, x, (b, 2, 3), True, 5, strides=[1], pads=[1, 1])], axis=1)))
        C.append(single("Concat2D %d+%d" % (a_, b_), (1, 3), lambda m, x, a=a_, b=b_: m.op("Concat", [m.op("Gemm", [x, m.param(vals((k, 3), k + 9 * i))], transB=1) for i, k in enumerate((a, b))], axis=1), flatten=False))
    C.append(single("Concat same value twice", (1, 2, 2, 2), lambda m, x: m.op("Concat", [x, x], axis=1)))
    C.append(single("Concat one input", (1, 2, 2, 2), lambda m, x: m.op("Concat", [x], axis=1)))
    for sh, news in (((1, 2, 3, 2), [(1, -1), (1, 12), (0, -1), (3, 4), (-1, 6), (1, 6, 2), (0, 0, 6), (1, 3, 2, 2), (0, 0, -1, 1), (1, 12, 1, 1), (2, -1)]), ((1, 12), [(3, 4), (1, 3, 2, 2), (1, 3, 4), (12, 1), (0, 3, -1)]), ((1, 3, 4), [(1, 12), (1, 3, 2, 2), (4, 3), (0, -1)])):
        for nw in news:
            C.append(single("Reshape %s to %s" % (sh, nw), sh, lambda m, x, nw=nw: m.op("Reshape", [m.op("Relu", x), m.param(np.array(nw, np.int64))]), flatten=len(nw) != 2))
            C.append(single("Reshape input %s to %s then Relu" % (sh, nw), sh, lambda m, x, nw=nw: m.op("Relu", m.op("Reshape", [x, m.param(np.array(nw, np.int64))])), flatten=len(nw) != 2))
    for sh in [(1, 2, 3, 2), (1, 4, 3), (2, 3)]:
        for ax in range(len(sh) + 1):
            C.append(single("Flatten %s axis=%d" % (sh, ax), sh, lambda m, x, ax=ax: m.op("Flatten", m.op("Relu", x), axis=ax), flatten=False))
    for sh, ax in (((1, 3, 1, 1), (2, 3)), ((1, 3, 1, 2), (2,)), ((1, 1, 3, 2), (1,)), ((1, 1, 3, 2), (0, 1)), ((1, 3, 2, 1), (3,)), ((1, 3, 1), (2,)), ((1, 1, 4), (1,)), ((1, 1, 1, 5), (1, 2))):
        C.append(single("Squeeze %s axes=%s" % (sh, ax), sh, lambda m, x, ax=ax: m.op("Squeeze", m.op("Relu", x), axes=list(ax)), flatten=len(sh) - len(ax) != 2))
    return C

# ======================================================================================================= N04
def guarded(cases):
    """Drops the combinations that are not valid ONNX models (the reference evaluator rejects them)."""
    import onnxref
    out = []
    for c in cases:
        try: c.build()
        except (onnxref.Invalid, ValueError, IndexError, KeyError, AssertionError, NotImplementedError): continue
        out.append(c)
    return out

def reorder(built, order):
    """The same models with the data input listed last or between the parameters among the inputs of the graph."""
    for m, _ in built:
        par = {t.name for t in m.graph.initializer}; x = [i for i in m.graph.input if i.name not in par]; p = [i for i in m.graph.input if i.name in par]
        ins = x + p if order == "first" else p + x if order == "last" else p[:1] + x + p[1:]
        del m.graph.input[:]; m.graph.input.extend(ins)
    return built

def n04(tier):
    T = tier == "thorough"
    C = []
    def e(desc, shape, add, **kw): C.append(single(desc, shape, add, "either", **kw))
    P = lambda m, sh, seed=1: m.param(vals(sh, seed))
    # -- Conv
    for g in (1, 2):
        for dil in ((2, 2), (1, 2), (2, 1), (3, 1)):
            for k in ((1, 1), (3, 3), (3, 1), (1, 3)):
                e("Conv2D dilations=%s k=%s g=%d" % (dil, k, g), (1, 2, 7, 7), lambda m, x, k=k, d=dil, g=g: conv(m, x, (2, 2 // g) + k, True, strides=[1, 1], dilations=list(d), group=g))
        for d in (2, 3):
            for k in (1, 3): e("Conv1D dilations=%d k=%d g=%d" % (d, k, g), (1, 2, 9), lambda m, x, k=k, d=d, g=g: conv(m, x, (2, 2 // g, k), True, strides=[1], dilations=[d], group=g))
    for ap in ("SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"):
        for s in ((1, 1), (2, 2), (2, 1)):
            for k in ((1, 1), (3, 3), (5, 1), (2, 2)):
                e("Conv2D auto_pad=%s s=%s k=%s" % (ap, s, k), (1, 2, 6, 5), lambda m, x, ap=ap, s=s, k=k: conv(m, x, (2, 2) + k, True, strides=list(s), auto_pad=ap))
                for kind in ("MaxPool", "AveragePool"):
                    e("%s2D auto_pad=%s s=%s k=%s" % (kind, ap, s, k), (1, 2, 6, 5), lambda m, x, ap=ap, s=s, k=k, kind=kind: m.op(kind, x, kernel_shape=list(k), strides=list(s), auto_pad=ap))
        for s in (1, 2):
            for k in (1, 3, 2):
                e("Conv1D auto_pad=%s s=%d k=%d" % (ap, s, k), (1, 2, 6), lambda m, x, ap=ap, s=s, k=k: conv(m, x, (2, 2, k), True, strides=[s], auto_pad=ap))
                for kind in ("MaxPool", "AveragePool"):
                    e("%s1D auto_pad=%s s=%d k=%d" % (kind, ap, s, k), (1, 2, 6), lambda m, x, ap=ap, s=s, k=k, kind=kind: m.op(kind, x, kernel_shape=[k], strides=[s], auto_pad=ap))
    for k in ((2, 2), (2, 3), (3, 2), (4, 1), (1, 2), (2, 1)):
        for p in ((0, 0, 0, 0), (1, 1, 0, 0), (0, 0, 1, 1)): e("Conv2D even kernel %s p=%s" % (k, p), (1, 2, 5, 5), lambda m, x, k=k, p=p: conv(m, x, (2, 2) + k, True, strides=[1, 1], pads=list(p)))
    for k in (2, 4): e("Conv1D even kernel %d" % k, (1, 2, 6), lambda m, x, k=k: conv(m, x, (2, 2, k), True, strides=[1]))
    def noattr(m, x, w, drop, **a):
        a = dict(dict(kernel_shape=list(w[2:]), strides=[1] * (len(w) - 2), pads=[0] * (2 * len(w) - 4), group=1, dilations=[1] * (len(w) - 2)), **a)
        for d in drop: a.pop(d)
        return m.op("Conv", [x, P(m, w), P(m, (w[0],), 2)], **a)
    for w in ((2, 2, 3, 3), (2, 2, 3)):
        for drop in (("strides",), ("kernel_shape",), ("pads",), ("group",), ("dilations",), ("strides", "pads"), ("strides", "kernel_shape", "pads", "group", "dilations")):
            e("Conv%dD without %s" % (len(w) - 2, drop), (1, 2) + (5,) * (len(w) - 2), lambda m, x, w=w, drop=drop: noattr(m, x, w, drop))
    for p in ((-1, 0, 0, 0), (0, 0, 0, -1), (-1, -1, -1, -1)):
        e("Pool2D negative pads %s" % (p,), (1, 2, 6, 6), lambda m, x, p=p: m.op("MaxPool", x, kernel_shape=[2, 2], strides=[1, 1], pads=list(p)))
    e("Conv3D", (1, 1, 3, 3, 3), lambda m, x: conv(m, x, (2, 1, 3, 3, 3), True, strides=[1, 1, 1]))
    for n in (2, 3):
        e("Conv2D batch %d" % n, (n, 2, 4, 4), lambda m, x: conv(m, x, (2, 2, 3, 3), True, strides=[1, 1]))
        e("Conv2D padded batch %d" % n, (n, 2, 4, 4), lambda m, x: conv(m, x, (2, 2, 3, 3), True, strides=[1, 1], pads=[1, 1, 1, 1]))
        e("Conv1D batch %d" % n, (n, 2, 5), lambda m, x: conv(m, x, (2, 2, 3), True, strides=[1]))
        for kind in ("MaxPool", "AveragePool"):
            for p in (0, 1):
                e("%s2D batch %d p=%d" % (kind, n, p), (n, 2, 4, 4), lambda m, x, kind=kind, p=p: m.op(kind, x, kernel_shape=[2, 2], strides=[2, 2], pads=[p] * 4))
                e("%s1D batch %d p=%d" % (kind, n, p), (n, 2, 4), lambda m, x, kind=kind, p=p: m.op(kind, x, kernel_shape=[2], strides=[2], pads=[p] * 2))
        for kind in ("GlobalMaxPool", "GlobalAveragePool"): e("%s batch %d" % (kind, n), (n, 2, 4, 4), lambda m, x, kind=kind: m.op(kind, x))
        for sh in ((n, 2, 3, 2), (n, 2, 4)):
            e("BatchNormalization batch %s" % (sh,), sh, lambda m, x: m.op("BatchNormalization", [x] + [m.param(np.abs(vals((2,), 5 + i)) + np.float32(0.5)) for i in range(4)], epsilon=1e-3))
        e("LRN batch %d" % n, (n, 3, 2, 2), lambda m, x: m.op("LRN", x, size=3, alpha=0.5, beta=0.75))
        for sh in ((n, 2, 3, 2), (n, 3)):
            for op in ("Relu", "Softmax"): e("%s batch %s" % (op, sh), sh, lambda m, x, op=op: m.op(op, x), flatten=len(sh) != 2)
            e("Mul batch %s" % (sh,), sh, lambda m, x: m.op("Mul", [x, m.param(np.array(0.5, np.float32))]), flatten=len(sh) != 2)
        e("Pad batch %d" % n, (n, 2, 3, 2), lambda m, x: m.op("Pad", x, pads=[0, 0, 1, 2, 0, 0, 0, 1], mode="constant", value=0.0))
        e("Concat batch %d" % n, (n, 2, 3, 2), lambda m, x: m.op("Concat", [x, m.op("Relu", x)], axis=1))
        e("Concat3D batch %d" % n, (n, 2, 3), lambda m, x: m.op("Concat", [x, m.op("Relu", x)], axis=1))
        e("Concat2D batch %d" % n, (n, 2), lambda m, x: m.op("Concat", [x, m.op("Relu", x)], axis=1), flatten=False)
        e("Squeeze batch %d" % n, (n, 1, 3, 1), lambda m, x: m.op("Squeeze", x, axes=[1, 3]), flatten=False)
    # -- pools
    for kind in ("MaxPool", "AveragePool"):
        for hw, k, s, p in pairs(([(4, 4), (5, 6)], [(2, 2), (3, 2)], [(2, 2), (3, 2), (1, 1)], [(0, 0, 0, 0), (1, 1, 1, 1), (0, 0, 1, 1)])):
            for a in (dict(ceil_mode=1), dict(ceil_mode=0)) + ((dict(dilations=[2, 2]), dict(dilations=[1, 2]), dict(dilations=[1, 1])) if kind == "MaxPool" else ()):
                e("%s2D in=%s k=%s s=%s p=%s %s" % (kind, hw, k, s, p, a), (1, 2) + hw, lambda m, x, kind=kind, k=k, s=s, p=p, a=a: m.op(kind, x, kernel_shape=list(k), strides=list(s), pads=list(p), **a), opset=10)
        for w, k, s, p in pairs(([4, 7], [2, 3], [2, 3], [(0, 0), (1, 1), (0, 1)])):
            for a in (dict(ceil_mode=1),) + ((dict(dilations=[2]),) if kind == "MaxPool" else ()):
                e("%s1D in=%s k=%s s=%s p=%s %s" % (kind, w, k, s, p, a), (1, 2, w), lambda m, x, kind=kind, k=k, s=s, p=p, a=a: m.op(kind, x, kernel_shape=[k], strides=[s], pads=list(p), **a), opset=10)
        for n in (1, 2): e("%s%dD without strides" % (kind, n), (1, 2) + (4,) * n, lambda m, x, kind=kind, n=n: m.op(kind, x, kernel_shape=[2] * n))
        e("%s3D" % kind, (1, 2, 3, 3, 3), lambda m, x, kind=kind: m.op(kind, x, kernel_shape=[2, 2, 2], strides=[1, 1, 1]))
    e("MaxPool storage_order", (1, 2, 4, 4), lambda m, x: m.op("MaxPool", x, kernel_shape=[2, 2], strides=[2, 2], storage_order=1))
    e("MaxPool with indices", (1, 2, 4, 4), lambda m, x: m.op("MaxPool", x, nout=2, kernel_shape=[2, 2], strides=[2, 2]))
    for kind in ("GlobalMaxPool", "GlobalAveragePool"):
        e("%s 3-D" % kind, (1, 2, 4), lambda m, x, kind=kind: m.op(kind, x))
        e("%s 5-D" % kind, (1, 2, 2, 2, 2), lambda m, x, kind=kind: m.op(kind, x))
    # -- dense
    for r, tA, tB, al, be, c in pairs(([1, 2, 3], [None, 0, 1], [None, 0, 1], [None, 1.0, 0.5], [None, 1.0, 2.0], [None, "o", "1o", "1", "s", "r1", "ro", "11"])):
        if c is None and be is not None: continue
        if (al == 0.5) + (be == 2.0) > 1: continue
        for n, o in ((3, 3), (2, 3)):
            a = {k: v for k, v in (("transA", tA), ("transB", tB), ("alpha", al), ("beta", be)) if v is not None}
            if n != o and (al is not None or be is not None) and not T: continue
            def add(m, x, r=r, n=n, o=o, a=a, c=c):
                if a.get("transA"): x = m.op("Reshape", [x, m.param(np.array([n, r], np.int64))])
                ins = [x, P(m, (o, n) if a.get("transB") else (n, o))]
                if c: ins.append(P(m, {"o": (o,), "1o": (1, o), "1": (1,), "s": (), "r1": (r, 1), "ro": (r, o), "11": (1, 1)}[c], 2))
                return m.op("Gemm", ins, **a)
            e("Gemm rows=%d %dx%d %s C=%s" % (r, n, o, sorted(a.items()), c), (r, n), add, flatten=False)
    for r, n, o in pairs(([1, 2, 3], [1, 3], [1, 2, 3])): e("MatMul rows=%d %dx%d" % (r, n, o), (r, n), lambda m, x, n=n, o=o: m.op("MatMul", [x, P(m, (n, o))]), flatten=False)
    for sh, w in (((1, 2, 3), (3, 2)), ((1, 1, 3), (3, 2)), ((1, 2, 3), (1, 3, 2)), ((1, 2, 2, 3), (3, 2)), ((1, 3), (3,)), ((1, 1, 1, 3), (3, 2)), ((1, 3), (1, 3, 2)), ((1, 2, 2, 3), (2, 3, 2)), ((2, 2, 3), (2, 3, 2))):
        e("MatMul %s x %s" % (sh, w), sh, lambda m, x, w=w: m.op("MatMul", [x, P(m, w)]), flatten=len(sh) != 2 or len(w) != 2)
    for n in (1, 3):
        e("MatMul constant first %d" % n, (1, n), lambda m, x, n=n: m.op("MatMul", [P(m, (1, 1)), x]), flatten=False)
        e("MatMul constant first, transposed %d" % n, (1, n), lambda m, x, n=n: m.op("Transpose", m.op("MatMul", [P(m, (n, n)), m.op("Transpose", x, perm=[1, 0])]), perm=[1, 0]), flatten=False)
        e("Gemm constant first %d" % n, (1, n), lambda m, x, n=n: m.op("Gemm", [P(m, (1, n)), m.op("Reshape", [x, m.param(np.array([1, n], np.int64))])], transB=1), flatten=False)
        e("MatMul of two values %d" % n, (1, n), lambda m, x, n=n: m.op("MatMul", [x, m.op("Transpose", x, perm=[1, 0])]), flatten=False)
        e("MatMul outer product %d" % n, (1, n), lambda m, x, n=n: m.op("MatMul", [m.op("Transpose", x, perm=[1, 0]), x]), flatten=False)
        e("Gemm computed bias %d" % n, (1, n), lambda m, x, n=n: m.op("Gemm", [x, P(m, (n, n)), m.op("Relu", x)], transB=1), flatten=False)
    # -- softmax, normalisation
    for sh in ((1, 4), (2, 3), (1, 3, 4), (2, 2, 3), (1, 2, 3, 2), (1, 1, 3, 2), (1, 1, 1, 3), (1, 3, 1, 1)):
        for ax in [None] + list(range(-len(sh), len(sh))):
            a = {} if ax is None else dict(axis=ax)
            e("Softmax %s axis=%s" % (sh, ax), sh, lambda m, x, a=a: m.op("Softmax", x, **a), flatten=len(sh) != 2)
    for size in (1, 2, 3, 4, 5, 6):
        for bias in (None, 1.0, 2.0, 0.5):
            for drop in ((), ("alpha",), ("beta",)):
                if drop and bias is not None: continue
                a = dict(size=size, alpha=0.25, beta=0.5)
                for d in drop: a.pop(d)
                if bias is not None: a["bias"] = bias
                e("LRN %s" % sorted(a.items()), (1, 5, 2, 2), lambda m, x, a=a: m.op("LRN", x, **a))
    e("LRN 3-D", (1, 5, 3), lambda m, x: m.op("LRN", x, size=3, alpha=0.5, beta=0.5))
    for sh in ((1, 4), (3, 2), (1, 2, 3), (1, 2, 3, 2), (1, 2, 2, 1, 2)):
        for a in ({}, {"epsilon": 0.1}, {"momentum": 0.5, "epsilon": 0.1}):
            e("BatchNormalization %s %s" % (sh, sorted(a)), sh, lambda m, x, c=sh[1], a=a: m.op("BatchNormalization", [x] + [m.param(np.abs(vals((c,), 5 + i)) + np.float32(0.5)) for i in range(4)], **a), flatten=len(sh) != 2)
    e("BatchNormalization 5 outputs", (1, 2, 3, 2), lambda m, x: m.op("BatchNormalization", [x] + [m.param(np.abs(vals((2,), 5 + i)) + np.float32(0.5)) for i in range(4)], nout=5, epsilon=0.1))
    inf = float("inf")
    for a in ({}, {"min": -0.5}, {"max": 0.5}, {"min": -inf, "max": 0.5}, {"min": -0.5, "max": inf}, {"min": -inf, "max": inf}, {"min": 0.5, "max": 1e38}, {"min": -1e-40, "max": 1e-38}):
        e("Clip %s" % sorted(a.items()), (1, 6), lambda m, x, a=a: m.op("Clip", x, **a), flatten=False)
    # -- element-wise operators with a second operand, every shape of it
    dims = {(1, 6): [(), (1,), (6,), (1, 1), (1, 6), (6, 1), (2, 6), (1, 1, 6), (1, 1, 1, 6), (2, 3, 1, 6)], (2, 3): [(), (1,), (3,), (1, 3), (2, 1), (2, 3), (3, 1, 1), (1, 2, 3)],
            (1, 2, 3): [(), (1,), (3,), (2, 1), (1, 3), (2, 3), (1, 2, 3), (1, 1, 3), (1, 2, 1), (2, 2, 3)], (1, 2, 3, 3): [(), (1,), (3,), (2, 1, 1), (3, 3), (1, 2, 1, 1), (1, 1, 3, 3), (2, 3, 3), (1, 2, 3, 3), (1, 1, 1, 1), (3, 1), (2, 2, 3, 3), (1, 1, 1, 2, 3, 3)]}
    for sh, cs in dims.items():
        for c, op, first in pairs((cs, ["Add", "Mul", "Sub", "Div"], [False, True])):
            if op in ("Sub", "Div") and (first or len(c) > 2): continue
            def add(m, x, c=c, op=op, first=first, const=False):
                k = (np.abs(vals(c, 2)) + np.float32(0.5)).astype(np.float32)
                p = m.const(k) if const else m.param(k)
                return m.op(op, [p, x] if first else [x, p])
            e("%s %s with %sconstant %s" % (op, sh, "leading " if first else "", c), sh, add, flatten=None)
            if op in ("Add", "Mul") and len(c) in (0, 1, 2, len(sh)): e("%s %s with %sConstant node %s" % (op, sh, "leading " if first else "", c), sh, lambda m, x, add=add: add(m, x, const=True), flatten=None)
    for op in ("Add", "Mul"):
        for sh in ((1, 3), (1, 2, 3), (1, 2, 2, 3)):
            e("%s of two values %s" % (op, sh), sh, lambda m, x, op=op: m.op(op, [m.op("Relu", x), x]), flatten=len(sh) != 2)
            e("%s %s of value and a broadcast value" % (op, sh), sh, lambda m, x, op=op: m.op(op, [x, m.op("MatMul", [m.op("Flatten", x), P(m, (int(np.prod(x_ := [d for d in m.inputs[0][1]])), 1))])]), flatten=len(sh) != 2)
            e("%s %s of value and its transpose" % (op, sh), (1, 3) if len(sh) == 2 else sh, lambda m, x, op=op, n=len(sh): m.op(op, [x, m.op("Transpose", x, perm=list(range(n - 2)) + [n - 1, n - 2])]), flatten=None)
            e("%s %s of two constants" % (op, sh), sh, lambda m, x, op=op, sh=sh: m.op("Add", [x, m.op(op, [P(m, sh, 1), P(m, sh, 2)])]), flatten=len(sh) != 2)
            e("%s %s of a constant with itself" % (op, sh), sh, lambda m, x, op=op, sh=sh: (lambda p: m.op("Add", [x, m.op(op, [p, p])]))(P(m, sh, 1)), flatten=len(sh) != 2)
    # -- Pad
    for sh in ((1, 2, 3, 2), (1, 2, 3), (2, 3), (1, 4)):
        n = len(sh)
        for pos in range(2 * n):
            for v in (1, 2, -1):
                p = [0] * (2 * n); p[pos] = v
                for mode in ("constant", "reflect", "edge", None):
                    if mode in ("reflect", "edge") and v < 0: continue
                    if mode == "reflect" and sh[pos % n] <= v: continue
                    for val in (0.0, 1.5, None):
                        if val is None and mode is None and pos: continue
                        a = dict(pads=p); a.update({"mode": mode} if mode else {}); a.update({"value": val} if val is not None else {})
                        e("Pad %s %s" % (sh, sorted(a.items())), sh, lambda m, x, a=a: m.op("Pad", x, **a), flatten=n != 2)
        e("Pad %s value=inf" % (sh,), sh, lambda m, x, n=n: m.op("Pad", x, pads=[1 if i % n >= 2 else 0 for i in range(2 * n)], mode="constant", value=inf), flatten=n != 2)
    # -- layout
    for sh in ((1, 2, 3), (2, 3, 4)):
        for perm in itertools.permutations(range(3)): e("Transpose %s %s" % (sh, perm), sh, lambda m, x, perm=perm: m.op("Transpose", x, perm=list(perm)))
    for sh in ((1, 3), (2, 3), (1, 2, 3), (1, 2, 3, 2)): e("Transpose %s without perm" % (sh,), sh, lambda m, x: m.op("Transpose", x), flatten=len(sh) != 2)
    e("Transpose 5-D", (1, 2, 1, 3, 2), lambda m, x: m.op("Transpose", x, perm=[0, 4, 3, 2, 1]))
    for sh in ((1, 2), (2, 3), (1, 2, 3), (1, 2, 3, 2)):
        for ax in range(-len(sh), len(sh)):
            e("Concat %s axis=%d" % (sh, ax), sh, lambda m, x, ax=ax: m.op("Concat", [x, m.op("Relu", x)], axis=ax), flatten=len(sh) != 2)
            for first in (0, 1): e("Concat %s axis=%d with a constant%s" % (sh, ax, " first" if first else ""), sh, lambda m, x, ax=ax, sh=sh, f=first: m.op("Concat", [P(m, sh), x] if f else [x, P(m, sh)], axis=ax), flatten=len(sh) != 2)
    for sh in ((1, 6), (1, 2, 3), (1, 2, 3, 2)):
        for nw in ((-1,), (1, -1, 1, 1, 1), (1, 1, -1, 1, 1, 1), (int(np.prod(sh)), 1), (0, -1, 1), (2, -1, 1, 1)):
            e("Reshape %s to %s" % (sh, nw), sh, lambda m, x, nw=nw: m.op("Reshape", [m.op("Relu", x), m.param(np.array(nw, np.int64))]))
            e("Reshape %s by Constant node to %s" % (sh, nw), sh, lambda m, x, nw=nw: m.op("Relu", m.op("Reshape", [x, m.const(np.array(nw, np.int64))])))
        e("Reshape %s to its own shape as the only operator" % (sh,), sh, lambda m, x, sh=sh: m.op("Reshape", [x, m.param(np.array(sh, np.int64))]), flatten=False)
    for sh in ((1, 3, 1, 1), (1, 1, 1, 2), (1, 1, 2), (1, 2, 1), (1, 1, 1, 1)):
        e("Squeeze %s without axes" % (sh,), sh, lambda m, x: m.op("Squeeze", x))
        for n in range(1, 4):
            for ax in itertools.combinations(range(len(sh)), n):
                e("Squeeze %s axes=%s" % (sh, ax), sh, lambda m, x, ax=ax: m.op("Squeeze", x, axes=list(ax)))
                e("Squeeze %s axes=%s negative" % (sh, ax), sh, lambda m, x, ax=ax, n=len(sh): m.op("Squeeze", x, axes=[a - n for a in ax]))
    for sh in ((1, 6), (1, 2, 3), (1, 2, 3, 2)):
        for n in (1, 2):
            for ax in itertools.combinations(range(len(sh) + n), n):
                e("Unsqueeze %s axes=%s" % (sh, ax), sh, lambda m, x, ax=ax: m.op("Relu", m.op("Unsqueeze", x, axes=list(ax))))
                e("Unsqueeze %s axes=%s last" % (sh, ax), sh, lambda m, x, ax=ax: m.op("Unsqueeze", m.op("Relu", x), axes=list(ax)), flatten=False)
    e("Unsqueeze then Conv2D", (1, 2, 5), lambda m, x: conv(m, m.op("Unsqueeze", x, axes=[2]), (2, 2, 1, 3), True, strides=[1, 1]))
    e("Unsqueeze then Conv2D square", (1, 3, 3), lambda m, x: conv(m, m.op("Unsqueeze", x, axes=[1]), (2, 1, 3, 3), True, strides=[1, 1], pads=[1, 1, 1, 1]))
    e("Unsqueeze then MaxPool2D", (1, 4, 4), lambda m, x: m.op("MaxPool", m.op("Unsqueeze", x, axes=[1]), kernel_shape=[2, 2], strides=[2, 2]))
    e("Unsqueeze then GlobalAveragePool", (1, 3, 4), lambda m, x: m.op("GlobalAveragePool", m.op("Unsqueeze", x, axes=[1])))
    e("Unsqueeze twice", (1, 6), lambda m, x: m.op("Relu", m.op("Unsqueeze", m.op("Unsqueeze", x, axes=[1]), axes=[3])))
    e("Unsqueeze then Reshape last", (1, 6), lambda m, x: m.op("Reshape", [m.op("Unsqueeze", m.op("Relu", x), axes=[1]), m.param(np.array([2, 3], np.int64))]), flatten=False)
    # -- operators outside the subset
    for sh in ((1, 4), (1, 2, 3), (1, 2, 3, 3)):
        for op, a in (("LeakyRelu", {}), ("LeakyRelu", {"alpha": 0.5}), ("Elu", {}), ("Sigmoid", {}), ("Tanh", {}), ("Abs", {}), ("Neg", {}), ("Exp", {}), ("LogSoftmax", {}), ("LogSoftmax", {"axis": 0}), ("Identity", {}), ("Dropout", {"ratio": 0.5}), ("Cast", {"to": 1}), ("Slice", {"starts": [0], "ends": [1], "axes": [1]}), ("ReduceMean", {"axes": [1]}), ("Upsample", {})):
            if op == "Upsample" and len(sh) < 4: continue
            e("%s %s %s" % (op, sh, sorted(a.items())), sh, lambda m, x, op=op, a=a: m.op(op, x, **a), flatten=len(sh) != 2)
            e("%s %s %s then Relu" % (op, sh, sorted(a.items())), sh, lambda m, x, op=op, a=a: m.op("Relu", m.op(op, x, **a)), flatten=len(sh) != 2)
        for op in ("Sum", "Max", "Sub", "Div"): e("%s %s of two values" % (op, sh), sh, lambda m, x, op=op: m.op(op, [x, m.op("Add", [m.op("Relu", x), m.op("Relu", x)])] if op != "Div" else [x, x]), flatten=len(sh) != 2)
        if len(sh) > 2: e("InstanceNormalization %s" % (sh,), sh, lambda m, x: m.op("InstanceNormalization", [x, P(m, (2,)), P(m, (2,), 2)], epsilon=0.1))
    # -- parameters that are not initializers
    def viaconst(kind, how):
        def add(m, x):
            def K(sh, seed=1, pos=False):
                v = vals(sh, seed); v = np.abs(v) + np.float32(0.5) if pos else v
                if how == "Constant": return m.const(v)
                p = m.param(v)
                if how == "Relu": return m.op("Relu", p)
                if how == "Identity": return m.op("Identity", p)
                if how == "Reshape": return m.op("Reshape", [m.param(v.reshape(-1)), m.param(np.array(v.shape, np.int64))])
                if how == "ReshapeSame": return m.op("Reshape", [p, m.param(np.array(v.shape, np.int64))])
                if how == "Transpose": return m.op("Transpose", m.param(np.ascontiguousarray(v.T)), perm=list(range(v.ndim))[::-1])
                if how == "Squeeze": return m.op("Squeeze", m.param(v[None]), axes=[0])
                if how == "Unsqueeze": return m.op("Unsqueeze", m.param(v[0]) if v.shape[0] == 1 else m.param(v.reshape(v.shape[0], *v.shape[1:])), axes=[0]) if v.shape[0] == 1 else p
                if how == "Mul": return m.op("Mul", [p, m.param(np.array(2.0, np.float32))])
                if how == "Cast": return m.op("Cast", p, to=1)
                if how == "Clip": return m.op("Clip", p, min=-1.0, max=1.0)
            if kind == "ConvW": return m.op("Conv", [x, K((2, 2, 3, 3)), m.param(vals((2,), 2))], kernel_shape=[3, 3], strides=[1, 1])
            if kind == "ConvB": return m.op("Conv", [x, m.param(vals((2, 2, 3, 3), 2)), K((2,))], kernel_shape=[3, 3], strides=[1, 1])
            if kind == "GemmW": return m.op("Gemm", [m.op("Flatten", x), K((2, 32)), m.param(vals((2,), 2))], transB=1)
            if kind == "GemmB": return m.op("Gemm", [m.op("Flatten", x), m.param(vals((2, 32), 2)), K((2,))], transB=1)
            if kind == "MatMulW": return m.op("MatMul", [m.op("Flatten", x), K((32, 2))])
            if kind == "BN": return m.op("BatchNormalization", [x] + [K((2,), i, True) for i in range(4)], epsilon=0.1)
            if kind == "Add": return m.op("Add", [m.op("Flatten", x), K((1, 32))])
            if kind == "AddFirst": return m.op("Add", [K((1, 32)), m.op("Flatten", x)])
            if kind == "AddPlain": return m.op("Add", [m.op("Flatten", x), K((32,))])
            if kind == "Mul": return m.op("Mul", [m.op("Flatten", x), K((1,))])
            if kind == "MulScalar": return m.op("Mul", [m.op("Flatten", x), K(())])
            if kind == "Concat": return m.op("Concat", [m.op("Flatten", x), K((1, 32))], axis=1)
            if kind == "Relu": return m.op("Add", [m.op("Flatten", x), m.op("Relu", K((1, 32)))])
        return add
    for kind, how in pairs((["ConvW", "ConvB", "GemmW", "GemmB", "MatMulW", "BN", "Add", "AddFirst", "AddPlain", "Mul", "MulScalar", "Concat", "Relu"], ["Constant", "Relu", "Identity", "Reshape", "ReshapeSame", "Transpose", "Squeeze", "Mul", "Cast", "Clip"])):
        e("%s parameter computed by %s" % (kind, how), (1, 2, 4, 4), viaconst(kind, how), flatten=kind in ("ConvW", "ConvB", "BN"))
    e("Conv with empty bias name", (1, 2, 4, 4), lambda m, x: m.op("Conv", [x, P(m, (2, 2, 3, 3)), ""], kernel_shape=[3, 3], strides=[1, 1]))
    e("Gemm with empty bias name", (1, 4), lambda m, x: m.op("Gemm", [x, P(m, (2, 4)), ""], transB=1), flatten=False)
    # -- topologies
    def topo(desc, f): C.append(Case("topology: " + desc, f, "either"))
    def two_in(order):
        m = M((1, 3), name="x"); m.inputs.append(("y", [1, 3])); y = m.op("Relu", "x" if order == 1 else "y") if order else m.op("Add", ["x", "y"])
        return [(m.done(y), [])]
    for o in (0, 1, 2): topo("two inputs %d" % o, lambda o=o: two_in(o))
    def two_out(f):
        m = M((1, 3)); a = m.op("Relu", "x"); b = m.op("Clip", "x", min=-0.5, max=0.5)
        return [(m.done(*([a, b] if f == 0 else [b, a] if f == 1 else [a, a] if f == 2 else [])), [])]
    for f in (0, 1, 3): topo("outputs %d" % f, lambda f=f: two_out(f))
    def outrank(sh):
        m = M(sh); return [(m.done(m.op("Relu", "x")), two(sh))]
    # inputs declared for several pictures: the network is the one for a single picture
    def batch(sh, op, out):
        m = M(sh); c = sh[1] if len(sh) > 1 else 1; n = len(sh) - 2
        t = {"relu": lambda: m.op("Relu", "x"), "mul": lambda: m.op("Mul", ["x", m.param(np.float32([0.5]))]), "conv": lambda: conv(m, "x", (2, c) + (1,) * n, True, strides=[1] * n), "maxp": lambda: m.op("MaxPool", "x", kernel_shape=[1] * n, strides=[1] * n),
             "gap": lambda: m.op("GlobalAveragePool", "x"), "bn": lambda: m.op("BatchNormalization", ["x"] + [m.param(np.abs(vals((c,), 5 + i)) + np.float32(0.5)) for i in range(4)], epsilon=0.1), "softmax": lambda: m.op("Softmax", "x", axis=1),
             "gemm": lambda: m.op("Gemm", ["x", m.param(vals((2, sh[-1]), 1)), m.param(vals((2,), 2))], transB=1), "mm": lambda: m.op("MatMul", ["x", m.param(vals((sh[-1], 2), 1))]), "add": lambda: m.op("Add", ["x", m.param(vals((1,) + sh[1:], 4))]),
             "cat": lambda: m.op("Concat", ["x", m.op("Relu", "x")], axis=1)}[op]()
        if out == "flat": t = m.op("Flatten", t, axis=1)
        if out == "flat0": t = m.op("Flatten", t, axis=0)
        if out == "resh": t = m.op("Reshape", [t, m.param(I64(1, -1))])
        return [(m.done(t, declared=None), two((1,) + sh[1:]))]
    for sh in ((2, 3), (3, 1), (3, 4), (2, 2, 3), (3, 1, 4), (2, 1, 2, 2), (3, 2, 3, 3), (1, 1, 1, 2, 2), (2, 1, 1, 2, 2), (4,), (1,)):
        for op in ("relu", "mul", "conv", "maxp", "gap", "bn", "softmax", "gemm", "mm", "add", "cat"):
            if op in ("conv", "maxp", "gap") and len(sh) < 3 or op == "gap" and len(sh) != 4 or op in ("gemm", "mm") and len(sh) != 2 or op in ("bn", "softmax", "cat") and len(sh) < 2: continue
            for out in ("plain", "flat", "flat0", "resh"): topo("input %s %s %s" % (sh, op, out), lambda sh=sh, op=op, out=out: batch(sh, op, out))
    # parameters listed before the input among the inputs of the graph
    for sh, op, order in pairs(([(2, 4), (3, 4), (2, 2, 4), (2, 2, 3, 4)], ["relu", "conv", "bn", "gemm", "mm", "add", "cat", "mul"], ["first", "between", "last"])):
        if op == "conv" and len(sh) < 3 or op in ("gemm", "mm") and len(sh) > 2: continue
        topo("input %s %s listed %s" % (sh, op, order), lambda sh=sh, op=op, order=order: reorder(batch(sh, op, "flat"), order))
    for sh in ((1, 3, 4), (1, 2, 3, 3), (1, 2, 1, 2, 2), (1,), (1, 1, 1, 1), (1, 1, 1)): topo("output shape %s" % (sh,), lambda sh=sh: outrank(sh))
    def ident():
        m = M((1, 3)); m.op("Relu", "x"); return [(m.done("x"), two((1, 3)))]
    topo("the output is the input", ident)
    def constout(how):
        m = M((1, 3)); m.op("Relu", "x", out="r")
        o = m.param(vals((1, 3))) if how == 0 else m.const(vals((1, 3))) if how == 1 else m.op("Relu", m.param(vals((1, 3))))
        return [(m.done(o), two((1, 3)))]
    for h in (0, 1, 2): topo("the output is constant %d" % h, lambda h=h: constout(h))
    def shapeout():
        m = M((1, 3)); return [(m.done(m.op("Cast", m.op("Unsqueeze", m.op("Shape", "x"), axes=[0]), to=1)), two((1, 3)))]
    topo("the output is the shape of the input", shapeout)
    def dynamic(pos, sh):
        m = M(sh); t = m.op("Relu", "x"); mod = m.done(m.op("Flatten", t))
        d = mod.graph.input[0].type.tensor_type.shape.dim[pos]; d.ClearField("dim_value") if hasattr(d, "ClearField") else None; d.dim_param = "n"
        return [(mod, two(sh))]
    # -- names
    def named(nodes, vals_, inp="x"):
        def f():
            m = M((1, 3), name=inp)
            t = m.op("Relu", inp, name=nodes[0], out=vals_[0]); t = m.op("Clip", t, name=nodes[1], out=vals_[1], min=-0.5, max=0.25); t = m.op("Softmax", t, name=nodes[2], out=vals_[2], axis=1)
            return [(m.done(t), two((1, 3)))]
        return f
    NN = ["a", "a.b", "a_b", "a/b", "a:b", "1", "1a", "a-b", "a b", "int", "run", "kernels", "", "a__b", "\u00e9", "a(0)", "Network", "a\\b", 'a"b', "a\nb", "x_layer", "//", "a*/", "\\"]
    for i, n in enumerate(NN):
        topo("node name %r" % n, named([n, "q1", "q2"], ["v0", "v1", "v2"]))
        topo("last node name %r" % n, named(["q1", "q2", n], ["v0", "v1", "v2"]))
        if n:
            topo("value name %r" % n, named(["q0", "q1", "q2"], [n, "v1", "v2"]))
            topo("output name %r" % n, named(["q0", "q1", "q2"], ["v0", "v1", n]))
            topo("input name %r" % n, named(["q0", "q1", "q2"], ["v0", "v1", "v2"], n))
    for a, b in itertools.product(["a.b", "a_b", "a/b", "a:b", "a"], repeat=2):
        topo("node names %s and %s" % (a, b), named([a, b, "c"], ["v0", "v1", "v2"]))
        if a != b:
            topo("value names %s and %s" % (a, b), named(["q0", "q1", "q2"], [a, b, "v2"]))
            topo("value and input names %s and %s" % (a, b), named(["q0", "q1", "q2"], [a, "v1", "v2"], b))
            topo("value and output names %s and %s" % (a, b), named(["q0", "q1", "q2"], [a, "v1", b]))
            topo("input and output names %s and %s" % (a, b), named(["q0", "q1", "q2"], ["v0", "v1", a], b))
    topo("nodes a and a_padding", named(["a", "a_layer", "a_layer_layer"], ["buffer_a", "a", "buffer_buffer_a"]))
    return guarded(C)

# ======================================================================================================= N02
S = 1 / 64.0      # parameter scale that keeps values of chains of moderate size
def W(m, sh, seed): return m.param(vals(sh, seed, S))

def ops_by_rank():
    """name -> function(m, t, shape, i); i is the position in the chain (seeds parameters differently)"""
    def cv(o, k, g=1, s=1, p=0, b=True, dw=False):
        def f(m, t, sh, i):
            n = len(sh) - 2; c = sh[1]; gg = c if dw else g; oo = c if dw else o
            ins = [t, W(m, (oo, c // gg) + (k,) * n, i + 1)] + ([W(m, (oo,), i + 2)] if b else [])
            a = dict(kernel_shape=[k] * n, strides=[s] * n)
            if p: a["pads"] = [p] * (2 * n)
            if gg != 1: a["group"] = gg
            return m.op("Conv", ins, **a)
        return f
    def bn(m, t, sh, i):
        return m.op("BatchNormalization", [t, W(m, (sh[1],), i + 1), W(m, (sh[1],), i + 2), W(m, (sh[1],), i + 3), m.param(np.abs(vals((sh[1],), i + 4, S)) + np.float32(0.25))], epsilon=1e-3)
    def pool(kind, k, s, p=0):
        def f(m, t, sh, i):
            n = len(sh) - 2; a = dict(kernel_shape=[k] * n, strides=[s] * n)
            if p: a["pads"] = [p] * (2 * n)
            return m.op(kind, t, **a)
        return f
    u = lambda op, **a: (lambda m, t, sh, i: m.op(op, t, **a))
    addc = lambda m, t, sh, i: m.op("Add", [t, W(m, sh, i + 3)])
    addb = lambda m, t, sh, i: m.op("Add", [t, W(m, (sh[1],), i + 3)])
    mul = lambda m, t, sh, i: m.op("Mul", [t, m.param(np.array(0.75 - i / 4.0, np.float32))])
    res = lambda m, t, sh, i: m.op("Add", [m.op("Clip", t, min=-0.25, max=0.5 + i), t])
    cat = lambda m, t, sh, i: m.op("Concat", [t, m.op("Relu", t)], axis=1)
    rs = lambda f: (lambda m, t, sh, i: m.op("Reshape", [t, m.param(np.array(f(sh), np.int64))]))
    gemm = lambda b: (lambda m, t, sh, i: m.op("Gemm", [t, W(m, (4, sh[1]), i + 1)] + ([W(m, (4,), i + 2)] if b else []), transB=1))
    mm = lambda m, t, sh, i: m.op("MatMul", [t, W(m, (sh[1], 4), i + 1)])
    mmt = lambda m, t, sh, i: m.op("MatMul", [t, m.op("Transpose", W(m, (4, sh[1]), i + 1), perm=[1, 0])])
    drop = u("Dropout", ratio=0.5)
    A4 = dict(conv3=cv(2, 3, p=1), conv1=cv(4, 1, b=False), convg=cv(4, 3, g=2, p=1), convs=cv(2, 3, s=2, p=1), dw=cv(0, 3, p=1, dw=True), relu=u("Relu"), clip=u("Clip", min=-0.5, max=1.0), bn=bn, lrn=u("LRN", size=3, alpha=0.5, beta=0.75),
              maxp=pool("MaxPool", 2, 1), avgp=pool("AveragePool", 2, 2, 1), pad=u("Pad", pads=[0, 0, 1, 0, 0, 0, 0, 2], mode="constant", value=0.5), mul=mul, add=addc, res=res, cat=cat, tr=u("Transpose", perm=[0, 2, 1, 3]),
              gap=u("GlobalAveragePool"), gmp=u("GlobalMaxPool"), flat=u("Flatten"), resh=rs(lambda s: (0, -1)), resh4=rs(lambda s: (1, s[2], s[1], s[3])), resh3=rs(lambda s: (0, 0, -1)), drop=drop)
    A3 = dict(conv3=cv(2, 3, p=1), conv1=cv(4, 1, b=False), convg=cv(4, 3, g=2, p=1), convs=cv(2, 3, s=2, p=1), relu=u("Relu"), clip=u("Clip", min=-0.5, max=1.0), bn=bn, maxp=pool("MaxPool", 2, 1), avgp=pool("AveragePool", 2, 2, 1), pad=u("Pad", pads=[0, 0, 1, 0, 0, 2], mode="constant", value=0.5),
              mul=mul, add=addc, res=res, cat=cat, flat=u("Flatten"), resh4=rs(lambda s: (1, s[1], 1, s[2])), unsq=u("Unsqueeze", axes=[2]), drop=drop)
    A2 = dict(gemm=gemm(True), gemmn=gemm(False), mm=mm, mmt=mmt, relu=u("Relu"), clip=u("Clip", min=-0.5, max=1.0), softmax=u("Softmax", axis=1), add=addc, addb=addb, mul=mul, res=res, cat=cat, pad=u("Pad", pads=[0, 1, 0, 2], mode="constant", value=0.5), resh4=rs(lambda s: (1, 2, s[1] // 2, 1)), resh3=rs(lambda s: (1, 2, -1)), drop=drop)
    return {2: A2, 3: A3, 4: A4}

def chains(start_shape, depth, alphabet, last=None):
    """All operator sequences of exactly that length that are valid models. Yields (names, build)."""
    import onnxref
    from onnx import helper
    OPS = ops_by_rank()
    def shape(m, t):
        g = helper.make_graph(m.nodes, "g", [helper.make_tensor_value_info(n, 1, s) for n, s in m.inputs], [], m.inits)
        return onnxref.evaluate(helper.make_model(g, opset=m.opset), None)[t].shape
    def make(names):
        m = M(start_shape); t = m.x
        for i, n in enumerate(names):
            t = OPS[len(shape(m, t))][n](m, t, shape(m, t), i)
        sh = shape(m, t)
        if min(sh) < 1: raise onnxref.Invalid("empty")
        if len(sh) != 2: t = flat(m, t)
        return m, t
    def rank_after(names):
        m = M(start_shape); t = m.x
        try:
            for i, n in enumerate(names): t = OPS[len(shape(m, t))][n](m, t, shape(m, t), i)
            s = shape(m, t)
        except (onnxref.Invalid, ValueError, IndexError, KeyError): return None
        return None if min(s) < 1 else len(s)
    out = []
    def rec(names):
        r = rank_after(names)
        if r is None: return
        if len(names) == depth: out.append(names); return
        for n in OPS[r]:
            if alphabet is None or n in alphabet[r]: rec(names + [n])
    rec([])
    for names in out:
        def build(names=names):
            m, t = make(names); return [(m.done(t), two(start_shape))]
        yield names, build

def dags(shape, n, unary, binary, every_output=False):
    """All graphs of n nodes, each applying an operator to any earlier values (with repetition)."""
    def apply(m, vs, c, i):
        op, ins = c
        if op == "Clip": return m.op("Clip", vs[ins[0]], min=-0.5 + i / 8.0, max=0.75 - i / 8.0)
        if op == "Relu": return m.op("Relu", vs[ins[0]])
        if op == "Conv": return m.op("Conv", [vs[ins[0]], W(m, (2, 2) + (1,) * (len(shape) - 2), i + 1), W(m, (2,), i + 2)], kernel_shape=[1] * (len(shape) - 2), strides=[1] * (len(shape) - 2))
        if op == "Gemm": return m.op("Gemm", [vs[ins[0]], W(m, (shape[1], shape[1]), i + 1), W(m, (shape[1],), i + 2)], transB=1)
        if op == "Add": return m.op("Add", [vs[j] for j in ins])
        if op == "Concat": return m.op("Concat", [vs[j] for j in ins], axis=1)
    def rec(cs):
        k = len(cs) + 1
        if len(cs) == n: yield list(cs); return
        for u in unary:
            for j in range(k): yield from rec(cs + [(u, (j,))])
        for b in binary:
            for j in range(k):
                for l in range(k): yield from rec(cs + [(b, (j, l))])
    for cs in rec([]):
        for o in (range(1, n + 1) if every_output else [n]):
            def build(cs=cs, o=o):
                m = M(shape); vs = [m.x]
                for i, c in enumerate(cs): vs.append(apply(m, vs, c, i))
                t = vs[o]
                if len(shape) != 2: t = flat(m, t)
                return [(m.done(t), two(shape))]
            yield "dag %s %s out=%d" % (shape, " ".join("%s%s" % (c[0], "".join(map(str, c[1]))) for c in cs), o), build

def renamed(model, fv, fn):
    """The same model with every value and node renamed."""
    g = model.graph
    names = {}
    def v(n):
        if not n: return n
        if n not in names: names[n] = fv(len(names))
        return names[n]
    for x in list(g.input) + list(g.initializer) + list(g.output): x.name = v(x.name)
    for k, nd in enumerate(g.node):
        for i, s in enumerate(nd.input): nd.input[i] = v(s)
        for i, s in enumerate(nd.output): nd.output[i] = v(s)
        nd.name = fn(k, nd.output[0])
    for x in g.value_info: x.name = v(x.name)
    return model

def real(name, n=2):
    """One of the models shipped with the repository."""
    import os, onnx, nmc
    def build():
        m = onnx.load(os.path.join(nmc.REPO, "data", name, name + ".onnx"))
        inits = {t.name for t in m.graph.initializer}
        i = [i for i in m.graph.input if i.name not in inits][0]
        sh = [d.dim_value or 1 for d in i.type.tensor_type.shape.dim]; sh[0] = 1
        i.type.tensor_type.shape.dim[0].dim_value = 1
        return [(m, two(sh)[:n])]
    return build

def vector_ops():
    """name -> (model, tensor of shape (n,), n, seed) -> (tensor, its number of elements)"""
    one = lambda op, **k: lambda m, t, n, s: (m.op(op, t, **k), n)
    return {"relu": one("Relu"), "clip": one("Clip", min=-0.5, max=0.75), "softmax": one("Softmax", axis=0), "sigmoid": one("Sigmoid"), "tanh": one("Tanh"),
            "mul": lambda m, t, n, s: (m.op("Mul", [t, m.param(np.float32([0.5 + s]))]), n), "mulv": lambda m, t, n, s: (m.op("Mul", [t, m.param(vals((n,), s))]), n),
            "add": lambda m, t, n, s: (m.op("Add", [t, m.param(vals((n,), s))]), n), "res": lambda m, t, n, s: (m.op("Add", [t, m.op("Relu", t)]), n), "self": lambda m, t, n, s: (m.op("Sum", [t, t]), n),
            "cat": lambda m, t, n, s: (m.op("Concat", [t, m.op("Clip", t, min=0.0, max=1.0)], axis=0), 2 * n), "pad": lambda m, t, n, s: (m.op("Pad", t, pads=[1, 0]), n + 1),
            "resh": lambda m, t, n, s: (m.op("Reshape", [t, m.param(I64(n))]), n), "there and back": lambda m, t, n, s: (m.op("Reshape", [m.op("Reshape", [t, m.param(I64(1, n))]), m.param(I64(n))]), n),
            "transpose": one("Transpose", perm=[0]), "drop": one("Dropout"), "id": one("Identity"), "flat": lambda m, t, n, s: (m.op("Reshape", [m.op("Flatten", t, axis=0), m.param(I64(n))]), n)}

def n02(tier):
    T = tier == "thorough"
    C = []
    SH = {4: (1, 2, 4, 4), 3: (1, 2, 5), 2: (1, 6)}
    small = {4: ("conv3", "relu", "bn", "maxp", "res", "cat", "flat"), 3: ("conv3", "relu", "maxp", "cat", "flat"), 2: ("gemm", "mm", "relu", "softmax", "res", "cat", "resh4")}
    for r in (4, 3, 2):
        for d in ((1, 2, 3) if T else (1, 2)):
            for names, b in chains(SH[r], d, None): C.append(Case("chain %s: %s" % (SH[r], " ".join(names)), b, "either" if names[-1] == "drop" and r == 2 or names[-2:] == ["flat", "drop"] or names[-2:] == ["resh", "drop"] else "produce"))
    for d in ((4,) if T else (3,)):
        for r in (4, 2) if not T else (4, 3, 2):
            for names, b in chains(SH[r], d, small): C.append(Case("chain %s: %s" % (SH[r], " ".join(names)), b))
    # parameters listed before the input among the inputs of the graph
    for r in (4, 3, 2):
        for names, b in chains(SH[r], 1, None):
            for order in ("between", "last"):
                C.append(Case("chain %s: %s, input listed %s" % (SH[r], " ".join(names), order), lambda b=b, order=order: reorder(b(), order), "either" if names[-1] == "drop" and r == 2 else "produce"))
    # vectors in the middle of the network (most operators are refused there)
    V = vector_ops(); enter = {(1, 4): ("reshape", "squeeze", "reshape -1"), (1, 1): ("reshape", "squeeze"), (1, 2, 3): ("reshape", "reshape -1"), (1, 2, 1, 3): ("reshape",)}
    for sh in enter:
        for how in enter[sh]:
            for leave in ("reshape", "unsqueeze"):
                for d in range(0, 4 if T else 3):
                    for ops in itertools.product(V, repeat=d):
                        if d == (3 if T else 2) and (sh != (1, 4) or how != "reshape" or leave != "reshape"): continue
                        def vec(sh=sh, how=how, leave=leave, ops=ops):
                            m = M(sh); n = int(np.prod(sh)); t = m.op("Relu", m.x) if len(ops) % 2 else m.x
                            t = m.op("Squeeze", t, axes=[0]) if how == "squeeze" else m.op("Reshape", [t, m.param(I64(*([-1] if "-" in how else [n])))])
                            for i, o in enumerate(ops): t, n = V[o](m, t, n, i)
                            t = m.op("Unsqueeze", t, axes=[0]) if leave == "unsqueeze" else m.op("Reshape", [t, m.param(I64(1, n))])
                            return [(m.done(m.op("Relu", t)), two(sh))]
                        C.append(Case("vector %s by %s: %s, %s" % (sh, how, " ".join(ops), leave), vec, "either"))
    # deep chains of one operator, and alternating ones
    for r in (4, 3, 2):
        for n in small[r]:
            if n in ("flat", "resh4", "cat", "maxp"): continue
            for d in ((8, 16, 40) if T else (8, 16)):
                def deep(r=r, n=n, d=d, alt=None):
                    OPS = ops_by_rank()[r]; m = M(SH[r]); t = m.x; sh = SH[r]
                    for i in range(d):
                        t = OPS[n](m, t, sh, i % 5); sh = (1, 4) if n in ("gemm", "mm") else sh
                    if r != 2: t = flat(m, t)
                    return [(m.done(t), two(SH[r]))]
                C.append(Case("deep %s %d times %s" % (SH[r], d, n), deep))
    # graphs
    for desc, b in dags((1, 2, 2, 2), 3, ("Clip", "Conv"), ("Add", "Concat")): C.append(Case(desc, b))
    for desc, b in dags((1, 2, 2, 2), 2, ("Clip", "Conv"), ("Add", "Concat"), True): C.append(Case(desc, b))
    for sh, u in (((1, 3), ("Clip", "Gemm")), ((1, 2, 3), ("Clip", "Conv"))):
        for desc, b in dags(sh, 2, u, ("Add", "Concat"), True): C.append(Case(desc, b))
    if T:
        for desc, b in dags((1, 3), 3, ("Clip", "Gemm"), ("Add",), True): C.append(Case(desc, b))
        for desc, b in dags((1, 2, 2, 1), 4, ("Clip",), ("Add",)): C.append(Case(desc, b))
        for desc, b in dags((1, 2, 3), 3, ("Clip", "Conv"), ("Add", "Concat")): C.append(Case(desc, b))
    # wide merges
    for op in ("Concat",):
        for n in (3, 4, 8, 17) + ((64,) if T else ()):
            for same in (False, True):
                def wide(n=n, same=same):
                    m = M((1, 2, 2, 3)); b = m.op("Relu", m.x)
                    ts = [b if same and i % 2 else m.op("Conv", [b if i % 3 else m.x, W(m, (1 + i % 3, 2, 1, 1), i), W(m, (1 + i % 3,), i + 1)], kernel_shape=[1, 1], strides=[1, 1]) for i in range(n)]
                    return [(m.done(flat(m, m.op("Concat", ts, axis=1))), two((1, 2, 2, 3)))]
                C.append(Case("concat of %d%s" % (n, " with repeated inputs" if same else ""), wide))
    # names
    FV = {"dots": lambda i: "v.%d" % i, "scoped": lambda i: "net/block.%d/out:%d" % (i // 3, i), "numeric": lambda i: str(i), "mixed": lambda i: ["a%d", "a/%d", "a.b:%d"][i % 3] % i, "long": lambda i: "v" * 150 + str(i), "words": lambda i: ["int", "kernels", "biases", "run", "Network", "this", "class", "new"][i] if i < 8 else "w%d" % i}
    FN = {"none": lambda k, o: "", "output": lambda k, o: "n" + o if o[0].isdigit() else o, "scoped": lambda k, o: "block.%d/conv:%d" % (k // 2, k), "dots": lambda k, o: "L.%d" % k, "long": lambda k, o: "n" * 160 + str(k), "words": lambda k, o: ["int", "kernels", "biases", "run", "Network", "this", "class", "new"][k] if k < 8 else "w%d" % k}
    def base():
        sh = SH[4]; O = ops_by_rank()
        for names in (["conv3", "relu"], ["bn", "maxp", "conv1"], ["pad", "lrn", "clip"], ["res", "avgp"], ["cat", "convg"], ["mul", "add", "tr"], ["flat", "gemm", "softmax"], ["flat", "mm", "addb"], ["resh", "mmt", "resh4", "gap"], ["gmp", "flat", "gemmn"]):
            def build(names=names):
                m = M(sh); t = m.x; cur = sh
                for i, n in enumerate(names):
                    t = O[len(cur)][n](m, t, cur, i)
                    import onnxref
                    from onnx import helper
                    g = helper.make_graph(m.nodes, "g", [helper.make_tensor_value_info(a, 1, s) for a, s in m.inputs], [], m.inits)
                    cur = onnxref.evaluate(helper.make_model(g, opset=9), None)[t].shape
                if len(cur) != 2: t = flat(m, t)
                return m.done(t)
            yield names, build
    for (fv, f1), (fn, f2) in itertools.product(FV.items(), FN.items()):
        for names, b in base():
            C.append(Case("names values=%s nodes=%s %s" % (fv, fn, " ".join(names)), lambda b=b, f1=f1, f2=f2: [(renamed(b(), f1, f2), two(SH[4]))]))
    # Dropout, wherever it is
    for pos in range(3):
        for mask in (False, True):
            def dr(pos=pos, mask=mask):
                m = M((1, 6)); t = m.x
                for i in range(3):
                    if i == pos: t = m.op("Dropout", t, ratio=0.5, nout=2 if mask else 1)
                    t = m.op("Gemm", [t, W(m, (4, 6 if i == 0 else 4), i)], transB=1)
                return [(m.done(t), two((1, 6)))]
            C.append(Case("Dropout before layer %d mask=%d" % (pos, mask), dr))
    for name in ("lenet", "mnist_simple_perceptron"): C.append(Case("repository model " + name, real(name)))
    return guarded(C) if not T else C

# ======================================================================================================= N03
def partitions(n):
    """Restricted growth strings: every way of identifying n things."""
    def rec(a, m):
        if len(a) == n: yield tuple(a); return
        for v in range(m + 1): yield from rec(a + [v], max(m, v + 1))
    return list(rec([], 0)) if n else [()]

def some_partitions(n):
    """None shared, each pair shared, all shared."""
    out = [tuple(range(n))]
    for i, j in itertools.combinations(range(n), 2):
        a = list(range(n)); a[j] = i; out.append(tuple(a))
    if n > 2: out.append((0,) * n)
    return out

PARAM_OPS = {4: ("conv", "convn", "bn", "add4"), 3: ("conv", "convn", "bn", "add4"), 2: ("gemm", "gemmn", "mm", "mmt", "add2", "addv")}
def slots(op, e, r):
    """shapes of the parameters of an operator"""
    v, mat = (e,), (e, e)
    k, a = (e, e) + (1,) * (r - 2), (1, e) + (1,) * (r - 2)
    return {"conv": [k, v], "convn": [k], "bn": [v] * 4, "add4": [a], "gemm": [mat, v], "gemmn": [mat], "mm": [mat], "mmt": [mat], "add2": [(1, e)], "addv": [v]}[op]

def param_model(ops, share, e, r, order, listed, equal=False):
    """share: parameter index of every slot; equal: parameters of the same index are different initializers with equal values"""
    m = M((1, e) + (1,) * (r - 2), list_inits=listed); t = m.x
    ss = [s for o in ops for s in slots(o, e, r)]
    arrs = {}
    for s, k in zip(ss, share):
        if k not in arrs: arrs[k] = (np.abs(vals(s, 3 * k + 1, 1 / 64.0)) + np.float32(0.25 + k / 32.0)).astype(np.float32)
    if equal: arrs = {i: arrs[k] for i, k in enumerate(share)}; share = list(range(len(share)))
    for k in (list(arrs) if order is None else order): m.param(arrs[k], "P%d" % k)
    n = 0; rank_ = r
    for o in ops:
        p = ["P%d" % k for k in share[n:n + len(slots(o, e, r))]]; n += len(p)
        if o in PARAM_OPS[2] and rank_ != 2: t = flat(m, t); rank_ = 2
        if o in ("conv", "convn"): t = m.op("Conv", [t] + p, kernel_shape=[1] * (r - 2), strides=[1] * (r - 2))
        elif o == "bn": t = m.op("BatchNormalization", [t] + p, epsilon=0.125)
        elif o in ("gemm", "gemmn"): t = m.op("Gemm", [t] + p, transB=1)
        elif o == "mm": t = m.op("MatMul", [t] + p)
        elif o == "mmt": t = m.op("MatMul", [t, m.op("Transpose", p, perm=[1, 0])])
        else: t = m.op("Add", [t] + p)
    if rank_ != 2: t = flat(m, t)
    return [(m.done(t), two(m.inputs[0][1]))]

def sharings(ops, e, r, full):
    """Every (or some) way(s) of using one initializer for several parameters of equal shape."""
    ss = [s for o in ops for s in slots(o, e, r)]
    groups = {}
    for i, s in enumerate(ss): groups.setdefault(s, []).append(i)
    gl = list(groups.values())
    parts = [partitions(len(g)) if full else some_partitions(len(g)) for g in gl]
    if not full and len(gl) > 1:      # one group varies at a time
        combos = []
        for i in range(len(gl)):
            for p in parts[i]:
                c = [parts[j][0] for j in range(len(gl))]; c[i] = p
                if tuple(c) not in combos: combos.append(tuple(c))
    else: combos = list(itertools.product(*parts))
    for c in combos:
        share = [None] * len(ss); nxt = 0
        for g, p in zip(gl, c):
            m_ = {}
            for i, v in zip(g, p):
                if v not in m_: m_[v] = -1
                share[i] = (ss[i], v)
        ids = {}
        yield [ids.setdefault(s, len(ids)) for s in share]

def n03(tier):
    T = tier == "thorough"
    C = []
    def seqs(d, r):
        def rec(a, low):
            if len(a) == d: yield a; return
            if not low:
                for o in PARAM_OPS[r]: yield from rec(a + [o], False)
            for o in PARAM_OPS[2]: yield from rec(a + [o], True)
        return rec([], r == 2)
    def case(ops, share, e, r, order=None, listed=True, expect="produce", equal=False):
        C.append(Case("params e=%d rank=%d %s %s=%s order=%s listed=%d" % (e, r, " ".join(ops), "equal" if equal else "share", "".join(map(str, share)), "".join(map(str, order)) if order else "-", listed),
                      lambda: param_model(ops, share, e, r, order, listed, equal), expect, params=True))
    # different initializers with equal values, in every combination
    for d in (1, 2, 3):
        for r in (4, 3) if d < 3 else (4,):
            for ops in seqs(d, r):
                if r == 3 and all(o in PARAM_OPS[2] for o in ops): continue
                ss = [x for x in sharings(ops, 2, r, d == 1 or T and ops.count("bn") < 2) if len(set(x)) < len(x)]
                for sh in ss if d == 1 or T and d == 2 else ss[-1:]: case(ops, sh, 2, r, equal=True)
    for d in (1, 2):
        for ops in seqs(d, 4):
            ss = list(sharings(ops, 1, 4, False)); case(ops, ss[-1], 1, 4, equal=True)
    # every sharing pattern
    for d in (1, 2):
        for r in (4, 3):
            for ops in seqs(d, r):
                if r == 3 and all(o in PARAM_OPS[2] for o in ops): continue
                full = d == 1 or ops.count("bn") < 2 or T
                for sh in sharings(ops, 2, r, full): case(ops, sh, 2, r)
    for r in (4,) if not T else (4, 3):
        for ops in seqs(3, r):
            if T and ops.count("bn") == 0:
                for sh in sharings(ops, 2, r, True): case(ops, sh, 2, r)
            else:
                ss = list(sharings(ops, 2, r, False))
                for sh in ss if T else [ss[0], ss[-1]]: case(ops, sh, 2, r)
    if T:
        for ops in seqs(4, 4):
            ss = list(sharings(ops, 2, 4, False))
            case(ops, ss[0], 2, 4); case(ops, ss[-1], 2, 4)
    # one initializer in different roles: all extents 1, so that kernels and addends have equal shapes
    for d in (1, 2):
        for r in (4, 2):
            for ops in seqs(d, r):
                if ops.count("bn") > 1: continue
                for sh in sharings(ops, 1, r, True): case(ops, sh, 1, r, expect="either")
    # every order of the initializers, listed as graph inputs or not
    for d in (1, 2, 3):
        for ops in seqs(d, 4):
            n = sum(len(slots(o, 2, 4)) for o in ops)
            if n > (5 if T else 4): perms = [tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]
            else: perms = list(itertools.permutations(range(n)))
            if d == 3 and not T: perms = perms[-1:]
            for k, p in enumerate(perms):
                for listed in (True, False) if d < 3 else (k % 2 == 0,): case(ops, list(range(n)), 2, 4, list(p), listed)
    # unused initializers
    def unused(pos, shape):
        m = M((1, 3)); ar = [("w", vals((2, 3), 1)), ("b", vals((2,), 2))]; ar.insert(pos, ("unused", vals(shape, 3)))
        for n, a in ar: m.param(a, n)
        return [(m.done(m.op("Gemm", ["x", "w", "b"], transB=1)), two((1, 3)))]
    for pos in range(3):
        for sh in ((2,), (2, 3), (1, 2, 3, 3), ()): C.append(Case("unused initializer %s at %d" % (sh, pos), lambda pos=pos, sh=sh: unused(pos, sh), params=True))
    # many layers, large parameters, long names
    for n in (30, 100) + ((400,) if T else ()):
        def many(n=n):
            m = M((1, 2)); t = m.x
            for i in range(n): t = m.op("Gemm", [t, m.param(vals((2, 2), i, 1 / 64.0)), m.param(vals((2,), i, 1 / 64.0))], transB=1) if i % 3 else m.op("Add", [t, m.param(vals((1, 2), i, 1 / 64.0))])
            return [(m.done(t), two((1, 2)))]
        C.append(Case("%d layers" % n, many, params=True))
    for sh in ((300, 300), (2, 40000), (70000, 1)):
        C.append(single("Gemm %dx%d" % sh, (1, sh[1]), tol=10.0 if sh[1] > 1000 else None, add= lambda m, x, sh=sh: m.op("Gemm", [x, m.param(vals(sh, 1, S)), m.param(vals((sh[0],), 2, S))], transB=1), flatten=False))
    def large(*a, **k): return single(*a, params=True, **k)
    for o in (65, 257) + ((1025,) if T else ()):
        for sh in ((o, 2, 3), (2, o, 3), (2, 1, o | 1)): C.append(large("Conv1D kernel %dx%dx%d" % sh, (1, sh[1], o + 2), lambda m, x, sh=sh: conv(m, x, sh, True, strides=[1])))
        for sh in ((o, 2, 3, 1), (2, o, 1, 3), (2, 1, o | 1, 1), (1, 2, 1, o | 1)): C.append(large("Conv2D kernel %dx%dx%dx%d" % sh, (1, sh[1], sh[2] + 1, sh[3] + 1), lambda m, x, sh=sh: conv(m, x, sh, True, strides=[1, 1])))
        C.append(large("BatchNormalization of %d channels" % o, (1, o, 2, 1), lambda m, x, o=o: m.op("BatchNormalization", [x] + [m.param(np.abs(vals((o,), 5 + i)).astype(np.float32) + np.float32(0.125)) for i in range(4)], epsilon=1e-5)))
        for sh in ((1, o), (1, o, 2, 1), (1, 2, 1, o), (1, o, 2)): C.append(large("addend %s" % (sh,), sh, lambda m, x, sh=sh: m.op("Add", [x, m.param(vals(sh, 4))]), flatten=len(sh) != 2))
        C.append(large("MatMul %d" % o, (1, o), lambda m, x, o=o: m.op("MatMul", [x, m.param(vals((o, o), 1, S))]), flatten=False))
    for ln in (20, 99, 100, 101, 255, 256, 257, 1000):
        def named(ln=ln):
            m = M((1, 3)); return [(m.done(m.op("Gemm", ["x", m.param(vals((2, 3), 1), "w" * ln), m.param(vals((2,), 2), "b" * ln)], transB=1, name="n" * ln)), two((1, 3)))]
        C.append(Case("names of %d characters" % ln, named, params=True))
    # special values are stored exactly
    def special(v):
        m = M((1, 4)); a = np.array([v, 1, v, 2], np.float32).reshape(1, 4)
        return [(m.done(m.op("Add", ["x", m.param(a)])), [np.zeros((1, 4), np.float32)])]
    for v in (0.0, 1e-45, -1e-45, 1.17549435e-38, 3.4028234663852886e38, -3.4028234663852886e38, float("inf"), float("-inf"), 0.1, 1 / 3., 16777217.0, 1e-10):
        C.append(Case("parameter value %r" % v, lambda v=v: special(v), params=True))
    return C

# ======================================================================================================= N05
def shape_of(m, t):
    import onnxref
    from onnx import helper
    g = helper.make_graph(m.nodes, "g", [helper.make_tensor_value_info(n, 1, s) for n, s in m.inputs], [], m.inits)
    return onnxref.evaluate(helper.make_model(g, opset=m.opset), None)[t].shape

I64 = lambda *a: np.array(a, np.int64)
def piece(m, s, p):
    """One entry of a computed shape: ('c', value) constant, ('g', form, j) the j-th extent of value s."""
    if p[0] == "c": return m.const(I64(p[1]))
    if p[0] == "i": return m.param(I64(p[1]))
    form, j = p[1], p[2]
    sh = m.op("Shape", s)
    if form == "scalar": return m.op("Unsqueeze", m.op("Gather", [sh, m.const(np.array(j, np.int64))], axis=0), axes=[0])
    if form == "scalar init": return m.op("Unsqueeze", m.op("Gather", [sh, m.param(np.array(j, np.int64))], axis=0), axes=[0])
    if form == "vector": return m.op("Gather", [sh, m.const(I64(j))], axis=0)
    if form == "no axis": return m.op("Gather", [sh, m.const(I64(j))])
    if form == "negative": return m.op("Gather", [sh, m.const(I64(j - 4))], axis=0)
    if form == "cast": return m.op("Unsqueeze", m.op("Cast", m.op("Gather", [sh, m.const(np.array(j, np.int64))], axis=0), to=7), axes=[0])
    if form == "cast shape": return m.op("Gather", [m.op("Cast", sh, to=7), m.const(I64(j))], axis=0)
    if form == "squeeze": return m.op("Unsqueeze", m.op("Squeeze", m.op("Gather", [sh, m.const(I64(j))], axis=0), axes=[0]), axes=[0])
    if form == "twice": return m.op("Gather", [m.op("Gather", [sh, m.const(I64(j, j))], axis=0), m.const(I64(1))], axis=0)
    if form == "unsqueeze2": return m.op("Squeeze", m.op("Unsqueeze", m.op("Gather", [sh, m.const(np.array(j, np.int64))], axis=0), axes=[0, 1]), axes=[1])
    if form == "matrix": return m.op("Squeeze", m.op("Gather", [m.op("Unsqueeze", sh, axes=[0]), m.const(I64(j))], axis=1), axes=[0])
    if form == "slice": return m.op("Slice", sh, axes=[0], starts=[j], ends=[j + 1])
FORMS = ["scalar", "scalar init", "vector", "no axis", "negative", "cast", "cast shape", "squeeze", "twice", "unsqueeze2", "matrix", "slice"]
CANON = ("scalar", "scalar init", "vector", "cast", "cast shape", "squeeze")

def computed(m, s, ps):
    """Shape operand assembled from pieces."""
    xs = [piece(m, s, p) for p in ps]
    return m.op("Concat", xs, axis=0)

def n05(tier):
    T = tier == "thorough"
    C = []
    OPS = ops_by_rank()
    SH = {4: (1, 2, 4, 4), 3: (1, 2, 6), 2: (1, 8)}
    def add(desc, f, shape, expect="produce", modes=(False, True)):
        for full in modes:
            def build(f=f, shape=shape):
                m = M(shape); t = f(m, m.x)
                if len(shape_of(m, t)) != 2: t = flat(m, t)
                return [(m.done(t), two(shape))]
            # shapes that onnx does not infer may make a model unsupported; what is produced has to be right in any case
            C.append(Case("%s full=%d" % (desc, full), build, expect if full else "either", full_shapes=full))
    def view(m, t, ps, data=None): return m.op("Reshape", [data or t, computed(m, t, ps)])
    # every operator as the source of a computed shape (its recorded shape decides the result)
    for r in (4, 3, 2):
        for n, op in OPS[r].items():
            if n == "drop": continue
            for form in ("scalar", "vector"):
                for j in range(r):
                    def src(m, x, op=op, form=form, j=j, r=r):
                        t = op(m, x, SH[r], 0); sh = shape_of(m, t)
                        if j >= len(sh): raise ValueError
                        return m.op("Relu", view(m, t, [("g", form, j), ("c", -1)]))
                    add("shape of %s %d entry %d by %s, flattened" % (n, r, j, form), src, SH[r], "either" if j else "produce")
            def src4(m, x, op=op, r=r):
                t = op(m, x, SH[r], 0); sh = shape_of(m, t)
                if len(sh) == 2: ps = [("g", "scalar", 0), ("c", 2), ("c", -1), ("c", 1)]
                else: ps = [("g", "scalar", 0), ("g", "vector", 1), ("c", -1), ("c", 1)]
                return OPS[4]["conv3"](m, view(m, t, ps), shape_of(m, m.nodes[-1].output[0]), 1)
            add("shape of %s %d, then a 4-D convolution" % (n, r), src4, SH[r], "either")
            def after(m, x, op=op, r=r):      # the operator reads a value whose shape onnx cannot infer
                o = 8 if r == 2 else int(np.prod(SH[r]))
                m.inputs[0] = (x, [1, o])
                ps = [("g", "scalar", 0)] + [("c", d) for d in SH[r][1:-1]] + [("c", -1)]
                t = view(m, x, ps)
                return op(m, t, SH[r], 1)
            o = int(np.prod(SH[r]))
            for full in (False, True):
                def build(f=after, o=o):
                    m = M((1, o)); t = f(m, m.x)
                    if len(shape_of(m, t)) != 2: t = flat(m, t)
                    return [(m.done(t), two((1, o)))]
                C.append(Case("%s %d after a computed reshape full=%d" % (n, r, full), build, "either" if n in ("flat",) or not full else "produce", full_shapes=full))
                def build2(f=after, o=o, r=r):
                    m = M((1, o)); t = f(m, m.x); sh = shape_of(m, t)
                    k = {4: "conv1", 3: "conv1", 2: "gemm"}[len(sh)]
                    t = OPS[len(sh)][k](m, t, sh, 2)
                    if len(shape_of(m, t)) != 2: t = flat(m, t)
                    return [(m.done(t), two((1, o)))]
                C.append(Case("%s %d and a dense layer after a computed reshape full=%d" % (n, r, full), build2, "either", full_shapes=full))
    # every composition of the shape operand
    for sh in ((1, 2, 3, 2), (1, 12), (1, 3, 4)):
        targets = [(1, 12), (1, 2, 6), (1, 3, 2, 2), (1, 2, 3, 2), (1, 3, 4)] + ([(3, 4), (2, 6), (1, 4, 3), (1, 12, 1), (1, 2, 2, 3), (12, 1)] if T else [(3, 4)])
        for tg in targets:
            opts = []
            for i, d in enumerate(tg):
                o = [("c", d), ("i", d), ("c", -1)]
                if i < len(sh) and sh[i] == d: o.append(("c", 0))
                o += [("g", "scalar", j) for j in range(len(sh)) if sh[j] == d]
                opts.append(o)
            for ps in itertools.product(*opts):
                if sum(p == ("c", -1) for p in ps) > 1: continue
                if len(tg) > 2 and not T and (sum(p[0] == "i" for p in ps) > 0 or sum(p[0] == "g" for p in ps) > 2): continue
                nm = "".join("g%d" % p[2] if p[0] == "g" else ("i%d" if p[0] == "i" else "%d.") % p[1] for p in ps)
                def f(m, x, ps=ps, tg=tg):
                    t = view(m, m.op("Relu", x), ps)
                    if len(tg) == 4: t = m.op("Transpose", t, perm=[0, 2, 3, 1])
                    elif len(tg) == 3: t = OPS[3]["conv3"](m, t, tg, 1)
                    elif tg[0] == 1: t = OPS[2]["gemm"](m, t, tg, 1)
                    else: t = m.op("Transpose", t, perm=[1, 0])
                    return t
                add("view %s as %s by %s" % (sh, tg, nm), f, sh, "either" if tg[0] != 1 else "produce", (False,) if not T and len(tg) > 2 else (False, True))
    # every way of writing an entry
    for form in FORMS:
        for sh in ((1, 3, 2, 2), (1, 2, 2, 3)):
            for j in range(4):
                def f(m, x, form=form, j=j, sh=sh):
                    ps = [("c", 1), ("g", form, j), ("c", -1)]
                    return OPS[3]["conv3"](m, view(m, x, ps), (1, sh[j], 12 // sh[j]), 1)
                add("entry %d of %s by %s" % (j, sh, form), f, sh, "produce" if form in CANON else "either")
    # the shape operand as a whole
    def whole(kind):
        def f(m, x):
            t = m.op("Relu", x)
            if kind == "init": s = m.param(I64(1, 3, 4))
            elif kind == "constant": s = m.const(I64(1, 3, 4))
            elif kind == "constant cast": s = m.op("Cast", m.const(np.array([1, 3, 4], np.int32)), to=7)
            elif kind == "constant float cast": s = m.op("Cast", m.const(np.array([1, 3, 4], np.float32)), to=7)
            elif kind == "gathered constant": s = m.op("Gather", [m.const(I64(4, 3, 1)), m.const(I64(2, 1, 0))], axis=0)
            elif kind == "gathered initializer": s = m.op("Gather", [m.param(I64(4, 3, 1)), m.param(I64(2, 1, 0))], axis=0)
            elif kind == "row of a constant": s = m.op("Gather", [m.const(np.array([[2, 6, 1], [1, 3, 4]], np.int64)), m.const(np.array(1, np.int64))], axis=0)
            elif kind == "column of a constant": s = m.op("Gather", [m.const(np.array([[2, 1], [6, 3], [1, 4]], np.int64)), m.const(np.array(1, np.int64))], axis=1)
            elif kind == "concat same twice":
                one = m.const(I64(1)); s = m.op("Concat", [one, one, m.const(I64(-1))], axis=0)
            elif kind == "concat of concats": s = m.op("Concat", [m.op("Concat", [m.const(I64(1)), m.const(I64(3))], axis=0), m.const(I64(-1))], axis=0)
            elif kind == "squeezed": s = m.op("Squeeze", m.const(np.array([[1, 3, 4]], np.int64)), axes=[0])
            elif kind == "own shape": return m.op("Clip", m.op("Reshape", [t, m.op("Shape", t)]), min=-0.5, max=0.5)
            elif kind == "shape of the input": return m.op("Clip", m.op("Reshape", [t, m.op("Shape", x)]), min=-0.5, max=0.5)
            elif kind == "shape of another value":
                b = m.op("Conv", [x, W(m, (4, 2, 1, 1), 1)], kernel_shape=[1, 1], strides=[1, 1])
                return m.op("Concat", [m.op("Reshape", [m.op("Conv", [x, W(m, (4, 2, 1, 1), 3)], kernel_shape=[1, 1], strides=[1, 1]), m.op("Shape", b)]), b], axis=1)
            elif kind == "shape of a dead value":
                b = m.op("MaxPool", x, kernel_shape=[1, 1], strides=[1, 1])
                return m.op("Clip", m.op("Reshape", [t, m.op("Shape", b)]), min=-0.5, max=0.5)
            elif kind == "shared":
                s = m.op("Concat", [piece(m, t, ("g", "scalar", 0)), m.const(I64(-1))], axis=0)
                return m.op("Add", [m.op("Reshape", [t, s]), m.op("Reshape", [m.op("Clip", x, min=-1.0, max=0.5), s])])
            elif kind == "shared gather":
                g = piece(m, t, ("g", "scalar", 0))
                a = m.op("Reshape", [t, m.op("Concat", [g, m.const(I64(-1))], axis=0)]); b = m.op("Reshape", [m.op("Clip", x, min=-1.0, max=0.5), m.op("Concat", [g, m.const(I64(12))], axis=0)])
                return m.op("Concat", [a, b], axis=1)
            elif kind == "added entries": s = m.op("Concat", [m.const(I64(1)), m.op("Add", [m.const(I64(1)), m.const(I64(2))]), m.const(I64(-1))], axis=0)
            elif kind == "multiplied entries": s = m.op("Concat", [m.const(I64(1)), m.op("Mul", [m.const(I64(2)), m.const(I64(3))]), m.const(I64(-1))], axis=0)
            elif kind == "transposed": s = m.op("Transpose", m.const(I64(1, 3, 4)), perm=[0])
            y = m.op("Reshape", [t, s])
            sh = shape_of(m, y)
            return OPS[3]["conv3"](m, y, sh, 1)
        return f
    good = ("init", "constant", "gathered constant", "gathered initializer", "concat same twice", "concat of concats", "own shape", "shape of the input", "shared", "shared gather")
    for kind in good + ("constant cast", "constant float cast", "row of a constant", "column of a constant", "squeezed", "shape of another value", "shape of a dead value", "added entries", "multiplied entries", "transposed"):
        add("shape operand: " + kind, whole(kind), (1, 2, 3, 2), "produce" if kind in good else "either")
    # no-operations in every position, chained and with several consumers
    NOP = {"reshape init": lambda m, t: m.op("Reshape", [t, m.param(np.array(shape_of(m, t), np.int64))]),
           "reshape constant": lambda m, t: m.op("Reshape", [t, m.const(np.array(shape_of(m, t), np.int64))]),
           "reshape zeros": lambda m, t: m.op("Reshape", [t, m.param(I64(*[0] * len(shape_of(m, t))))]),
           "reshape -1": lambda m, t: m.op("Reshape", [t, m.param(I64(*(list(shape_of(m, t)[:-1]) + [-1])))]),
           "reshape own shape": lambda m, t: m.op("Reshape", [t, m.op("Shape", t)]),
           "there and back": lambda m, t: m.op("Reshape", [m.op("Reshape", [t, m.param(I64(1, -1))]), m.param(np.array(shape_of(m, t), np.int64))]),
           "squeeze unsqueeze": lambda m, t: m.op("Squeeze", m.op("Unsqueeze", t, axes=[1]), axes=[1]),
           "unsqueeze squeeze 0": lambda m, t: m.op("Unsqueeze", m.op("Squeeze", t, axes=[0]), axes=[0]),
           "dropout": lambda m, t: m.op("Dropout", t, ratio=0.5),
           "identity": lambda m, t: m.op("Identity", t),
           "transpose twice": lambda m, t: (lambda p: m.op("Transpose", m.op("Transpose", t, perm=p), perm=p))([0] + list(range(1, len(shape_of(m, t))))[::-1]),
           "prefix": lambda m, t: m.op("Reshape", [m.op("Reshape", [t, m.param(np.array(shape_of(m, t) + (1,), np.int64))]), m.param(np.array(shape_of(m, t), np.int64))])}
    for nm, nop in NOP.items():
        ex = "produce" if nm in ("reshape init", "reshape constant", "reshape zeros", "reshape -1", "reshape own shape", "there and back") else "either"
        for r in (4, 3, 2):
            for i, ops in enumerate((["conv3", "relu"], ["bn", "clip"], ["relu", "add"]) if r > 2 else (["gemm", "relu"], ["mm", "addb"], ["add", "softmax"])):
                for pos in range(3):
                    for n in (1, 2):
                        def f(m, x, ops=ops, pos=pos, n=n, nop=nop, r=r):
                            t = x
                            for k in range(3):
                                if k == pos:
                                    for _ in range(n): t = nop(m, t)
                                if k < 2: t = OPS[r][ops[k]](m, t, shape_of(m, t), k)
                            return t
                        add("no-op %s x%d at %d in %s %d" % (nm, n, pos, " ".join(ops), r), f, SH[r], "either" if pos == 2 and r == 2 or n == 2 and nm in ("prefix",) else ex)
            def fan(m, x, nop=nop, r=r):
                a = m.op("Relu", x); b = nop(m, a)
                return m.op("Add", [m.op("Clip", b, min=-0.5, max=0.5), m.op("Add", [a, b])])
            add("no-op %s with several consumers %d" % (nm, r), fan, SH[r], ex)
            def fan2(m, x, nop=nop, r=r):
                b = nop(m, x); return m.op("Concat", [b, x, m.op("Relu", b)], axis=1)
            add("no-op %s of the input with several consumers %d" % (nm, r), fan2, SH[r], ex)
            # one consumer that reads the value more than once
            add("no-op %s added to itself %d" % (nm, r), lambda m, x, nop=nop: (lambda b: m.op("Add", [b, b]))(nop(m, m.op("Relu", x))), SH[r], ex)
            for sel in ("bb", "bab", "abb", "bba", "bbb"):
                def fan3(m, x, nop=nop, sel=sel):
                    a = m.op("Relu", x); b = nop(m, a); return m.op("Concat", [{"a": a, "b": b}[c] for c in sel], axis=1)
                add("no-op %s joined with itself %s %d" % (nm, sel, r), fan3, SH[r], ex)
    # reshapes that look like no-operations
    for a, b in (((1, 12), (1, 12, 1)), ((1, 12), (1, 12, 1, 1)), ((1, 3, 4), (1, 3, 4, 1)), ((1, 10, 1, 1), (1, 10)), ((1, 10, 1), (1, 10)), ((1, 3, 4, 1), (1, 3, 4)), ((1, 2, 2, 3), (1, 2, -1)), ((1, 2, 2, 3), (1, 2, 6)), ((1, 2, 2, 3), (1, 2, 3, 2)), ((1, 2, 3, 2), (1, 2, -1, 3)), ((1, 4, 4), (1, 4, 4, 1)), ((1, 1, 1, 1), (1,)), ((1, 1, 1, 1), (1, 1)), ((1, 6), (1, -1)), ((1, 6), (-1, 6)), ((1, 6), (0, 0))):
        for how in ("init", "const", "computed"):
            for tail in ("none", "clip", "dense", "bn", "transpose"):
                def f(m, x, b=b, how=how, tail=tail):
                    t = m.op("Relu", x)
                    y = m.op("Reshape", [t, m.param(I64(*b)) if how == "init" else m.const(I64(*b)) if how == "const" else computed(m, t, [("c", v) for v in b])])
                    sh = shape_of(m, y)
                    if tail == "clip": y = m.op("Clip", y, min=-0.5, max=0.5)
                    if tail == "dense":
                        y = OPS[len(sh)]["gemm" if len(sh) == 2 else "conv1"](m, y, sh, 1)
                    if tail == "bn": y = OPS[len(sh)]["bn"](m, y, sh, 1)
                    if tail == "transpose": y = m.op("Transpose", y, perm=[0] + list(range(1, len(sh)))[::-1])
                    return y
                add("reshape %s to %s %s then %s" % (a, b, how, tail), f, a, "either")
    # dead nodes next to the output
    def dead(kind):
        def f(m, x):
            y = m.op("Gemm", [x, W(m, (4, 8), 1)], transB=1, out="y")
            if kind == 0: m.op("Shape", "y")
            if kind == 1: m.op("Gather", [m.op("Shape", "y"), m.const(np.array(0, np.int64))], axis=0)
            if kind == 2: m.op("Relu", "y")
            if kind == 3: m.const(I64(3))
            if kind == 4: m.op("Reshape", ["y", m.op("Shape", "y")])
            if kind == 5: m.op("Reshape", [x, m.op("Shape", "y")]) if False else m.op("Reshape", [x, m.param(I64(2, 4))])
            return "y"
        return f
    for k in range(6): add("dead node %d" % k, dead(k), (1, 8), "either")
    return guarded(C)

# ======================================================================================================= N07
def stateful():
    """name -> build(): models whose generated code keeps buffers, padded copies or parameters between runs."""
    O = ops_by_rank()
    def ch(shape, *names):
        def b():
            m = M(shape); t = m.x
            for i, n in enumerate(names):
                sh = shape_of(m, t)
                t = n(m, t, sh, i) if callable(n) else O[len(sh)][n](m, t, sh, i)
            if len(shape_of(m, t)) != 2: t = flat(m, t)
            return (m.done(t), two(shape))
        return b
    pad = lambda v: lambda m, t, sh, i: m.op("Pad", t, pads=[0, 0] + [1] * (len(sh) - 2) + [0, 0] + [2] * (len(sh) - 2) if len(sh) > 2 else [0, 1, 0, 2], mode="constant", value=v)
    avg = lambda inc: lambda m, t, sh, i: m.op("AveragePool", t, kernel_shape=[2] * (len(sh) - 2), strides=[1] * (len(sh) - 2), pads=[1, 0] * (len(sh) - 2), count_include_pad=inc)
    mx = lambda m, t, sh, i: m.op("MaxPool", t, kernel_shape=[3] * (len(sh) - 2), strides=[2] * (len(sh) - 2), pads=[1] * (2 * len(sh) - 4))
    return {
        "relu": ch((1, 3), "relu"), "gemm": ch((1, 4), "gemm"), "pad0": ch((1, 2, 2, 2), pad(0.0)), "pad5": ch((1, 2, 3), pad(0.5)), "padout": ch((1, 3), pad(0.0)), "pad2": ch((1, 3), pad(0.0), "gemm"),
        "padconv": ch((1, 2, 3, 3), "conv3", "relu", "convs"), "conv1d": ch((1, 2, 5), "conv3", "clip", "convs"), "group": ch((1, 2, 3, 3), "conv1", "convg", "dw"), "avg": ch((1, 2, 3, 3), avg(0), avg(1)), "avg1d": ch((1, 2, 4), avg(0)), "max": ch((1, 2, 4, 4), mx), "max1d": ch((1, 2, 5), mx),
        "bn": ch((1, 2, 2, 2), "bn", "mul"), "bn1d": ch((1, 2, 3), "bn"), "lrn": ch((1, 3, 2, 2), "lrn"), "softmax": ch((1, 4), "softmax", "mm", "softmax"), "residual": ch((1, 2, 2, 2), "res", "conv3", "res"),
        "cat": ch((1, 2, 2, 2), "cat", "conv1", "cat"), "cat2": ch((1, 3), "cat", "gemm", "cat"), "transpose": ch((1, 2, 2, 3), "tr", "add"), "reshape": ch((1, 2, 2, 2), "resh3", "conv3", "resh4"), "global": ch((1, 2, 3, 3), "gap", "flat", "gemmn", "addb"), "squeeze": ch((1, 3, 1, 1), lambda m, t, sh, i: m.op("Squeeze", t, axes=[2, 3]), "mmt"), "unsqueeze": ch((1, 2, 4), "unsq", "conv3", "gmp"),
        "cnn": ch((1, 1, 6, 6), "conv3", "maxp", "relu", "conv3", "avgp", "flat", "gemm", "relu", "gemm", "softmax")}

def sequences(depth, nm, nd=2):
    """All valid operation sequences of that length over two slots (the first operation creates slot 0)."""
    out = []
    def rec(ops, st):
        if len(ops) == depth: out.append(tuple(ops)); return
        for s in ((0,) if not ops else (0, 1)):
            if st[s] == 0: nxt = [("new", m) for m in range(nm)]
            elif st[s][0] == 1: nxt = [("load", 0), ("del", 0)]
            else: nxt = [("run", d) for d in range(nd)] + [("load", 0), ("del", 0)]
            for op, a in nxt:
                old = st[s]
                st[s] = (1, a) if op == "new" else 0 if op == "del" else (2, old[1])
                rec(ops + [(op, s, a, (old[1] if old else a))], st)
                st[s] = old
    rec([], [0, 0])
    return out

def n07(tier):
    T = tier == "thorough"
    C = []
    ST = stateful(); names = list(ST)
    def script(depth, nm):
        def f(k, models):
            ls = []
            for ops in sequences(depth, nm):
                ls.append("seq " + ",".join({"new": "new%d(model%d)", "load": "load%d", "del": "del%d", "run": "run%d(data%d)"}[op] % ((s, a) if op in ("new", "run") else (s,)) for op, s, a, m in ops))
                for op, s, a, m in ops:
                    ls.append({"new": "new %d @%d" % (s, a), "load": "load %d @%d" % (s, m), "run": "run %d @%d.%d" % (s, m, a), "del": "del %d" % s}[op])
            ls.append("seq end")
            return ls
        return f
    # every history of two networks of the same model, and of two models
    for i, n in enumerate(names):
        C.append(Case("histories of %s" % n, lambda n=n: [ST[n]()], script=script(7 if T else 6, 1)))
        for j in range(1, len(names) if T else 4):
            o = names[(i + j) % len(names)]
            C.append(Case("histories of %s and %s" % (n, o), lambda n=n, o=o: [ST[n](), ST[o]()], script=script(5, 2)))
    if T:
        for n, o in (("pad0", "padconv"), ("avg", "max"), ("bn", "lrn")): C.append(Case("longer histories of %s and %s" % (n, o), lambda n=n, o=o: [ST[n](), ST[o]()], script=script(6, 2)))
    # every operator on tensors of one value, and every parameter operator
    def life(k, models): return script(4, 1)(k, models)
    for sh in ((1, 1, 1, 1), (1, 1, 1), (1, 1), (1, 2, 2, 2), (1, 2, 2), (1, 2)):
        for d in (1, 2) if T else (1,):
            for ns, b in chains(sh, d, None):
                if "drop" not in ns: C.append(Case("histories of %s: %s" % (sh, " ".join(ns)), b, script=life))
    for e in (1, 2):
        for r in (4, 3, 2):
            for o in PARAM_OPS[r]:
                for o2 in [None] + (list(PARAM_OPS[2]) if T or e == 1 else []):
                    ops = [o] + ([o2] if o2 else [])
                    C.append(Case("histories of e=%d rank=%d %s" % (e, r, " ".join(ops)), lambda ops=ops, e=e, r=r: param_model(ops, list(range(sum(len(slots(x, e, r)) for x in ops))), e, r, None, True), script=life))
    # many runs of one network, in every order of three inputs
    def orders(k, models):
        ls = ["new 0 @0", "load 0 @0"]
        for seq in itertools.product(range(3), repeat=4 if not T else 6): ls.append("run 0 @0.%d" % 0); ls += ["run 0 @0.%d" % d for d in seq]
        return ls + ["del 0"]
    def three(b):
        m, ins = b(); sh = ins[0].shape
        big = (vals(sh, 9) * 32).astype(np.float32)
        return [(m, list(ins) + [big])]
    for n in names: C.append(Case("orders of inputs of %s" % n, lambda n=n: three(ST[n]), script=orders))
    # many networks at once, destroyed in different orders
    def many(order):
        def f(k, models):
            ls = []
            for rep in range(3):
                for s in range(4): ls += ["new %d @%d" % (s, s % len(models)), "load %d @%d" % (s, s % len(models))]
                for s in order: ls += ["run %d @%d.%d" % (s, s % len(models), (s + rep) % 2)]
                for s in order: ls += ["del %d" % s] + ["run %d @%d.%d" % (t, t % len(models), rep % 2) for t in order[order.index(s) + 1:]]
            return ls
        return f
    for order in itertools.permutations(range(4)):
        a, b, c, d = [names[(7 * order[0] + 5 * order[1] + 3 * order[2] + k * 6) % len(names)] for k in range(4)]
        C.append(Case("four networks %s %s %s %s, order %s" % (a, b, c, d, order), lambda a=a, b=b, c=c, d=d: [ST[n]() for n in (a, b, c, d)], script=many(list(order))))
    # importing again gives an equivalent network and weights file, whatever the interpreter's hash seed
    seeds = [0, 1, 2, 3, 4, 5] if T else [0, 1, 2]
    def cross(k, models):
        n = len(models); ls = []
        for i in range(n):
            for j in range(n): ls += ["new 0 @%d" % i, "load 0 @%d" % j, "run 0 @%d.0" % i, "run 0 @%d.1" % j, "del 0"]
        return ls
    wide = dict(ST)
    def shared():
        m = M((1, 6)); ps = [W(m, (6, 6), k) for k in range(4)] + [W(m, (6,), k) for k in range(4)]
        t = m.x
        for k in (2, 0, 3, 1, 0): t = m.op("Gemm", [t, ps[k], ps[4 + (k + 1) % 4]], transB=1)
        t = m.op("Add", [t, ps[6]]); return (m.done(t), two((1, 6)))
    def branches():
        m = M((1, 2, 3, 3)); ts = [m.op("Conv", [m.x, W(m, (2, 2, 1, 1), k), W(m, (2,), k + 9)], kernel_shape=[1, 1], strides=[1, 1]) for k in range(5)]
        a = m.op("Concat", ts, axis=1); b = m.op("Add", [ts[3], ts[0]]); return (m.done(flat(m, m.op("Concat", [b, a, ts[1]], axis=1))), two((1, 2, 3, 3)))
    wide["shared parameters"] = shared; wide["branches"] = branches
    for n, b in wide.items():
        C.append(Case("imported again: %s" % n, lambda b=b: [b() for _ in seeds], script=cross, hashseeds=seeds))
    for i, n in enumerate(names):
        o = names[(i + 5) % len(names)]
        C.append(Case("%s imported over %s" % (n, o), lambda n=n: [ST[n]()], over=lambda o=o: [ST[o]()]))
        C.append(Case("%s imported twice in the same place" % n, lambda n=n: [ST[n]()], over=lambda n=n: [ST[n]()]))
    return C

RULES = {"N01": "one case per single-operator model", "N02": "one case per model graph", "N03": "one case per (sequence of parameterised operators, sharing pattern, initializer order)", "N04": "one case per model outside or at the edge of the supported subset",
         "N05": "one case per model with computed shapes or no-operations, with and without onnx's inference behind computed reshapes", "N07": "one case per (models, set of operation histories); transitions counts the operations of all histories"}
FAMILIES = {"N07": n07, "N01": n01, "N02": n02, "N03": n03, "N04": n04, "N05": n05}
