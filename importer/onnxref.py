"""Reference evaluator for ONNX models (operator definitions of opset 7..10), written from the ONNX operator
specification, independent of the importer.  Data values are computed in float64."""
import math
import numpy as np
from onnx import numpy_helper

class Invalid(Exception): pass

def attrs(node):
    d = {}
    for a in node.attribute:
        if a.HasField("f"): d[a.name] = a.f
        elif a.HasField("i"): d[a.name] = a.i
        elif a.HasField("s"): d[a.name] = a.s.decode()
        elif a.HasField("t"): d[a.name] = numpy_helper.to_array(a.t)
        elif len(a.floats): d[a.name] = list(a.floats)
        elif len(a.ints): d[a.name] = list(a.ints)
        elif len(a.strings): d[a.name] = list(a.strings)
        else: d[a.name] = []
    return d

def elem_type(a):
    return {"f": 1, "i": 7, "b": 9, "u": 7}[a.dtype.kind]

def window(a, dims, kernel, n):
    """Spatial attributes shared by Conv and the pools: returns strides, pads, dilations, output size."""
    st = a.get("strides") or [1] * n
    dil = a.get("dilations") or [1] * n
    pads = list(a.get("pads") or [0] * (2 * n))
    ap = a.get("auto_pad", "NOTSET")
    eff = [(k - 1) * d + 1 for k, d in zip(kernel, dil)]
    out = []
    if ap in ("SAME_UPPER", "SAME_LOWER"):
        for i in range(n):
            o = -(-dims[i] // st[i]); tot = max(0, (o - 1) * st[i] + eff[i] - dims[i])
            lo = tot // 2 if ap == "SAME_UPPER" else tot - tot // 2
            pads[i], pads[i + n] = lo, tot - lo
            out.append(o)
        return st, pads, dil, eff, out
    if ap == "VALID": pads = [0] * (2 * n)
    for i in range(n):
        q = (dims[i] + pads[i] + pads[i + n] - eff[i]) / st[i]
        o = (math.ceil(q) if a.get("ceil_mode", 0) else math.floor(q)) + 1
        if o < 1: raise Invalid("empty output")
        out.append(o)
    return st, pads, dil, eff, out

def conv(a, x, w, b=None):
    n = x.ndim - 2
    k = w.shape[2:]
    if "kernel_shape" in a and list(a["kernel_shape"]) != list(k): raise Invalid("kernel_shape")
    g = a.get("group", 1)
    N, C, M = x.shape[0], x.shape[1], w.shape[0]
    if C % g or M % g or w.shape[1] != C // g: raise Invalid("groups")
    st, pads, dil, eff, out = window(a, x.shape[2:], k, n)
    xp = np.pad(x, [(0, 0), (0, 0)] + [(pads[i], pads[i + n]) for i in range(n)])
    y = np.zeros((N, M) + tuple(out))
    for m in range(M):
        c0 = (m // (M // g)) * (C // g)
        for pos in np.ndindex(*out):
            sl = tuple(slice(p * s, p * s + e, d) for p, s, e, d in zip(pos, st, eff, dil))
            y[(slice(None), m) + pos] = (xp[(slice(None), slice(c0, c0 + C // g)) + sl] * w[m]).reshape(N, -1).sum(1)
    if b is not None: y += b.reshape((1, M) + (1,) * n)
    return y

def pool(a, x, kind):
    n = x.ndim - 2
    k = a["kernel_shape"]
    if len(k) != n: raise Invalid("kernel_shape")
    st, pads, dil, eff, out = window(a, x.shape[2:], k, n)
    inc = a.get("count_include_pad", 0)
    y = np.zeros(x.shape[:2] + tuple(out))
    for pos in np.ndindex(*out):
        lo = [p * s - pads[i] for i, (p, s) in enumerate(zip(pos, st))]
        rng = [[l + j * d for j in range(kk) if 0 <= l + j * d < x.shape[2 + i]] for i, (l, kk, d) in enumerate(zip(lo, k, dil))]
        full = 1
        for i, (l, kk, d) in enumerate(zip(lo, k, dil)):   # positions inside the padded input
            full *= len([j for j in range(kk) if l + j * d < x.shape[2 + i] + pads[i + n]])
        cells = x[(slice(None), slice(None)) + np.ix_(*rng)].reshape(x.shape[0], x.shape[1], -1)
        if kind == "max":
            if cells.shape[2] == 0: raise Invalid("window without data")
            y[(slice(None), slice(None)) + pos] = cells.max(2)
        else:
            cnt = full if inc else cells.shape[2]
            if cnt == 0: raise Invalid("window without data")
            y[(slice(None), slice(None)) + pos] = cells.sum(2) / cnt
    return y

def softmax(x, axis):
    axis = axis + x.ndim if axis < 0 else axis
    r = x.reshape(int(np.prod(x.shape[:axis], dtype=int)), -1)
    e = np.exp(r - r.max(1, keepdims=True))
    return (e / e.sum(1, keepdims=True)).reshape(x.shape)

def lrn(a, x):
    size, alpha, beta, bias = a["size"], a.get("alpha", np.float32(1e-4)), a.get("beta", 0.75), a.get("bias", 1.0)
    C = x.shape[1]; sq = np.zeros_like(x)
    for c in range(C):
        lo, hi = max(0, c - (size - 1) // 2), min(C - 1, c + -(-(size - 1) // 2))
        sq[:, c] = (x[:, lo:hi + 1] ** 2).sum(1)
    return x / (bias + float(alpha) / size * sq) ** float(beta)

def reshape(x, shape):
    s = [int(v) for v in shape]
    s = [x.shape[i] if v == 0 else v for i, v in enumerate(s)]
    return x.reshape(s)

def gemm(a, A, B, C=None):
    A = A.T if a.get("transA", 0) else A
    B = B.T if a.get("transB", 0) else B
    y = a.get("alpha", 1.0) * (A @ B)
    if C is not None: y = y + a.get("beta", 1.0) * np.broadcast_to(C, y.shape)
    return y

def pad(a, x):
    p, n = a["pads"], x.ndim
    if len(p) != 2 * n: raise Invalid("pads")
    pos = [(max(0, p[i]), max(0, p[i + n])) for i in range(n)]
    mode = {"constant": "constant", "reflect": "reflect", "edge": "edge"}[a.get("mode", "constant")]
    y = np.pad(x, pos, mode=mode, **({"constant_values": a.get("value", 0.0)} if mode == "constant" else {}))
    sl = tuple(slice(max(0, -p[i]), y.shape[i] - max(0, -p[i + n])) for i in range(n))
    return y[sl]

def cast(a, x):
    return x.astype({1: np.float64, 6: np.int64, 7: np.int64, 9: bool, 10: np.float64, 11: np.float64}[a["to"]])

def one(node, a, i):
    op = node.op_type
    if op == "Conv": return conv(a, *i)
    if op == "Gemm": return gemm(a, *i)
    if op == "MatMul": return np.matmul(i[0], i[1])
    if op == "MaxPool": return pool(a, i[0], "max")
    if op == "AveragePool": return pool(a, i[0], "avg")
    if op == "GlobalMaxPool": return i[0].max(axis=tuple(range(2, i[0].ndim)), keepdims=True)
    if op == "GlobalAveragePool": return i[0].mean(axis=tuple(range(2, i[0].ndim)), keepdims=True)
    if op == "Relu": return np.maximum(i[0], 0)
    if op == "LeakyRelu": return np.where(i[0] < 0, a.get("alpha", 0.01) * i[0], i[0])
    if op == "Elu": return np.where(i[0] < 0, a.get("alpha", 1.0) * (np.exp(i[0]) - 1), i[0])
    if op == "Sigmoid": return 1 / (1 + np.exp(-i[0]))
    if op == "Tanh": return np.tanh(i[0])
    if op == "Abs": return np.abs(i[0])
    if op == "Neg": return -i[0]
    if op == "Exp": return np.exp(i[0])
    if op == "Clip": return np.clip(i[0], a.get("min", -3.4028234663852886e38), a.get("max", 3.4028234663852886e38))
    if op == "LRN": return lrn(a, i[0])
    if op == "Softmax": return softmax(i[0], a.get("axis", 1))
    if op == "LogSoftmax": return np.log(softmax(i[0], a.get("axis", 1)))
    if op == "BatchNormalization":
        s = (1, -1) + (1,) * (i[0].ndim - 2)
        g, b, m, v = (t.reshape(s) for t in i[1:5])
        return (i[0] - m) / np.sqrt(v + a.get("epsilon", float(np.float32(1e-5)))) * g + b
    if op == "InstanceNormalization":
        ax = tuple(range(2, i[0].ndim)); s = (1, -1) + (1,) * (i[0].ndim - 2)
        return (i[0] - i[0].mean(ax, keepdims=True)) / np.sqrt(i[0].var(ax, keepdims=True) + a.get("epsilon", 1e-5)) * i[1].reshape(s) + i[2].reshape(s)
    if op == "Add": return i[0] + i[1]
    if op == "Sub": return i[0] - i[1]
    if op == "Mul": return i[0] * i[1]
    if op == "Div": return i[0] / i[1] if i[0].dtype.kind == "f" else i[0] // i[1]
    if op == "Sum":
        y = i[0]
        for t in i[1:]: y = y + t
        return y
    if op == "Max": return np.maximum.reduce(np.broadcast_arrays(*i))
    if op == "Pad": return pad(a, i[0])
    if op == "Transpose": return np.transpose(i[0], a.get("perm"))
    if op == "Concat": return np.concatenate(i, axis=a["axis"])
    if op == "Reshape": return reshape(i[0], i[1])
    if op == "Flatten":
        ax = a.get("axis", 1); return i[0].reshape(int(np.prod(i[0].shape[:ax], dtype=int)), -1)
    if op == "Squeeze": return np.squeeze(i[0], axis=tuple(a["axes"]) if "axes" in a else None)
    if op == "Unsqueeze":
        x = i[0]; n = x.ndim + len(a["axes"])
        for ax in sorted(a["axes"]): x = np.expand_dims(x, ax)
        return x
    if op == "Shape": return np.array(i[0].shape, dtype=np.int64)
    if op == "Gather": return np.take(i[0], i[1], axis=a.get("axis", 0))
    if op == "Slice":
        x = i[0]; ax = a.get("axes", list(range(len(a["starts"]))))
        sl = [slice(None)] * x.ndim
        for d, s, e in zip(ax, a["starts"], a["ends"]): sl[d] = slice(s, e)
        return x[tuple(sl)]
    if op == "Cast": return cast(a, i[0])
    if op == "Constant": return fl(a["value"])
    if op in ("Identity", "Dropout"): return i[0]
    if op == "ReduceMean": return i[0].mean(axis=tuple(a["axes"]), keepdims=bool(a.get("keepdims", 1)))
    if op == "Upsample": return i[0].repeat(2, -1).repeat(2, -2)
    raise Invalid("operator " + op)

def fl(t): return t.astype(np.float64) if t.dtype.kind == "f" else t.astype(np.int64) if t.dtype.kind in "iu" else t

def evaluate(model, inputs):
    """inputs: {name: array} or None (zeros of the declared shape). Returns every value by name."""
    g = model.graph
    v = {t.name: fl(numpy_helper.to_array(t)) for t in g.initializer}
    for i in g.input:
        if i.name in v: continue
        if inputs is not None: v[i.name] = np.asarray(inputs[i.name], dtype=np.float64)
        else: v[i.name] = np.zeros([d.dim_value for d in i.type.tensor_type.shape.dim])
    for n in g.node:
        with np.errstate(all="ignore"):
            r = one(n, attrs(n), [v[x] for x in n.input if x])
        v[n.output[0]] = r
        for o in n.output[1:]:
            if o: v[o] = np.zeros(r.shape)      # second outputs (Dropout mask, MaxPool indices) are never compared
    return v
