"""X01: the example programs, compiled with generated networks and run on enumerated data sets and damage."""
import os, re, struct, itertools, math, shutil, subprocess, concurrent.futures
import numpy as np
import nmc, onnx, onnxref
from nmc import M, vals, REPO, CXX, HERE
from refdata import Bad, Ctx, run_forked, run, sanitizer, ENV, write_importer_output

# The example programs go on after a report (the library does not), so that a known defect of theirs hides nothing else.
FLAGS = "-std=c++11 -O1 -g1 -U_FORTIFY_SOURCE -w -DINFO -fno-omit-frame-pointer -fsanitize=address,undefined -fsanitize-recover=address,undefined"
# ------------------------------------------------------------------------------------------- networks
def tiny_mnist(flat):
    """Output k is pixel 78k plus a little of some others; sums are exact for an empty picture."""
    def b():
        m = M((1, 784) if flat else (1, 1, 28, 28))
        W = np.zeros((10, 784), np.float32)
        for k in range(10): W[k, 78 * k] = 4; W[k, 78 * k + 29] = 0.5; W[k, (78 * k + 391) % 784] = -0.25; W[k, 783] = (k % 3) / 8.0
        t = m.x if flat else m.op("Flatten", m.x)
        t = m.op("Gemm", [t, m.param(W), m.param(np.zeros(10, np.float32))], transB=1)
        return m.done(t)
    return b
def tiny_mlp():
    m = M((1, 784))
    W = np.zeros((12, 784), np.float32)
    for k in range(12): W[k, 65 * k] = 4; W[k, 65 * k + 1] = 0.5
    t = m.op("Relu", m.op("Gemm", [m.x, m.param(W), m.param(np.zeros(12, np.float32))], transB=1))
    V = np.zeros((10, 12), np.float32)
    for k in range(10): V[k, k] = 1; V[k, 10] = (k % 4) / 16.0; V[k, 11] = -(k % 3) / 16.0
    return m.done(m.op("Gemm", [t, m.param(V), m.param(np.zeros(10, np.float32))], transB=1))
def tiny_imagenet(salt):
    def b():
        m = M((1, 3, 224, 224))
        t = m.op("MaxPool" if salt else "AveragePool", m.x, kernel_shape=[112, 56], strides=[112, 56])
        t = m.op("Flatten", t); n = 3 * 2 * 4
        k = np.arange(1000 * n).reshape(1000, n)
        W = ((k * 7919 + salt * 31) % 1009 - 504).astype(np.float32) / 65536
        return m.done(m.op("Gemm", [t, m.param(W), m.param(((np.arange(1000) * 613) % 1000 / 4096.0).astype(np.float32))], transB=1))
    return b
def real(name):
    import families
    return lambda: families.real(name)()[0][0]

PROGRAMS = {   # name -> (example, model)
 "lenet/tiny": ("lenet", tiny_mnist(False)), "lenet/model": ("lenet", real("lenet")),
 "mnist_simple_perceptron/tiny": ("mnist_simple_perceptron", tiny_mnist(True)), "mnist_simple_perceptron/model": ("mnist_simple_perceptron", real("mnist_simple_perceptron")),
 "mnist_mlp/tiny": ("mnist_mlp", lambda: tiny_mlp()),
 "alexnet/tiny": ("alexnet", tiny_imagenet(0)), "vgg/tiny": ("vgg", tiny_imagenet(1)),
}

# ------------------------------------------------------------------------------------------- MNIST programs
def idx_images(a): return struct.pack(">4i", 2051, a.shape[0], a.shape[1], a.shape[2]) + a.astype(np.uint8).tobytes()
def idx_labels(l): return struct.pack(">2i", 2049, len(l)) + np.asarray(l, np.uint8).tobytes()

def predict(ctx, pr, imgs):
    """Label per image: first largest output; None where two outputs are too close for float arithmetic to decide."""
    m = ctx.models[pr]
    shape = [d.dim_value for d in m.graph.input[[i.name for i in m.graph.input].index(ctx.inp[pr])].type.tensor_type.shape.dim]
    out = []
    for a in imgs:
        y = np.asarray(onnxref.evaluate(m, {ctx.inp[pr]: (a.astype(np.float64) / 255.0).astype(np.float32).reshape(shape)})[m.graph.output[0].name], float).ravel()
        s = np.sort(y); out.append(int(np.argmax(y)) if s[-1] - s[-2] > 1e-4 * max(1, abs(s[-1])) or not a.any() else None)
    return out

def pictures(n, salt, real_model):
    a = np.zeros((n, 28, 28), np.uint8)
    for i in range(n):
        j = i * 7 + salt
        if real_model: a[i] = ((np.arange(784) * (j % 13 + 1) + j * 29) % 256).reshape(28, 28) * (((np.arange(784) // 28 + np.arange(784) % 28 + j) % 7) < 3).reshape(28, 28)
        else:
            f = a[i].reshape(-1); f[:] = (np.arange(784) * 3 + j) % 5
            f[78 * (j % 10)] = 255 - (j % 50); f[78 * ((j // 10 + 3) % 10)] = max(f[78 * ((j // 10 + 3) % 10)], 90 + j % 90)
            f[65 * (j % 10)] = 250 - j % 40
    return a

def distinct_pictures(ctx, pr, n, salt):
    """n pictures whose prediction is decided by a clear margin."""
    key = (pr, salt)
    k, res, lab = 0, [], []
    while len(res) < n:
        a = pictures(1, salt + k, pr.endswith("model")); k += 1
        l = predict(ctx, pr, a)[0]
        if l is not None: res.append(a[0]); lab.append(l)
        if k > 40 * n + 400: raise RuntimeError("no pictures")
    return np.array(res), lab

def mnist_files(tmp, imgs, labels, d="data"):
    p = os.path.join(tmp, d); os.makedirs(p, exist_ok=True)
    open(os.path.join(p, "t10k-images.idx3-ubyte"), "wb").write(idx_images(imgs) if not isinstance(imgs, bytes) else imgs)
    open(os.path.join(p, "t10k-labels.idx1-ubyte"), "wb").write(idx_labels(labels) if not isinstance(labels, bytes) else labels)
    return p

def reports(ctx, pr, err):
    """Sanitizer reports: (kind, source text of the innermost line of the example program, or the innermost frame)."""
    src = ctx.source[pr]; ex = PROGRAMS[pr][0] + ".cpp"; out = []
    text = lambda n: src[n - 1].strip() if 0 < n <= len(src) else "?"
    for m in re.finditer(r"ERROR: AddressSanitizer:? ?([\w-]+)(.*?)(?=ERROR: AddressSanitizer|\Z)", err, re.S):
        if m.group(1) == "DEADLYSIGNAL": continue
        st = m.group(2).split("\n\n")[0]                       # the access; allocation stacks follow
        f = re.search(r"#\d+ .*/%s:(\d+)" % ex, st); g = re.search(r"#0 \S+ in (\S+)", st); outer = re.search(r"#\d+ \S+ in ([\w:]+)\S* .*?/pico-cnn/", st)
        out.append((m.group(1), ("%s, called " % outer.group(1) if outer else "") + "at '%s'" % text(int(f.group(1))) if f else "in " + (outer or g).group(1) if (outer or g) else "?"))
    for m in re.finditer(r"(\S+):(\d+):\d+: runtime error: (.*)", err):
        out.append((re.sub("0x[0-9a-f]+", "#", m.group(3))[:90], "at '%s'" % text(int(m.group(2)))) if m.group(1).endswith(ex) else (m.group(3)[:90], m.group(1).split("/")[-1]))
    if not out and sanitizer(err): out.append((sanitizer(err), "?"))
    return out

def mnist_run(ctx, pr, args, tmp, halt=False):
    """Runs the program; problems that concern memory or files are added to ctx.msgs. tainted: what it printed means nothing."""
    cwd = os.path.join(tmp, "cwd"); shutil.rmtree(cwd, ignore_errors=True); os.makedirs(cwd)
    halt = halt or any(len(a) >= 1024 for a in args)
    p = subprocess.run([ctx.exe[pr]] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":halt_on_error=%d" % halt))
    rc, out, err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    for f in sorted(os.listdir(cwd)): ctx.msgs.append("leaves %s in the working directory" % f)
    rep = reports(ctx, pr, err)
    ctx.msgs += ["memory: %s %s" % r for r in rep]
    tainted = any("t10k_images_path" not in r[1] and "t10k_labels_path" not in r[1] for r in rep)      # 4 bytes behind these arrays change nothing else
    if rc < 0 and not tainted: ctx.msgs.append("ended by signal %d" % -rc)
    ctx.n += 1
    return Result((rc, out, err, tainted or rc < 0))
class Result(tuple): pass

def collect(f):
    """A case's problems: those noted on the way and what its function returns."""
    def go(ctx, tmp):
        ctx.msgs = []
        try: e = f(ctx, tmp)
        except Bad as b: e = str(b)
        return list(dict.fromkeys(ctx.msgs + ([e] if e else []))) or None
    return go

def judge_mnist(ctx, rc, out, err, tainted, want, labels):
    if tainted: return None
    n = len(want)
    if rc != 0: return "ended with %d: %s" % (rc, (out + err)[-200:])
    lines = out.splitlines()
    l = [x for x in lines if x.startswith("Error rate:")]
    if len(l) != 1: return "prints no error rate"
    right = sum(a == b for a, b in zip(want, labels))
    head, tail = l[0][len("Error rate:"):].split("(")
    if tail.strip() != "%d/%d)" % (right, n): return "prints (%s instead of (%d/%d)" % (tail, right, n)
    rate = 1 - right / float(n)
    if abs(float(head) - rate) > 2e-6: ctx.msgs.append("error rate %s instead of %g%s" % (head.strip(), rate, ", which is its first digit" if float(head) in (float("%.1g" % (rate - 2e-7)), float("%.1g" % (rate + 2e-7))) else ""))
    m = np.zeros((10, 10), int)
    for a, b in zip(want, labels): m[a, b] += 1
    k = [i for i, x in enumerate(lines) if x.startswith("*")]
    if len(k) != 1: return "prints no table"
    got = np.array([[int(v) for v in x.split()] for x in lines[k[0] + 1:k[0] + 11]])
    if got.shape != (10, 11) or not (got[:, 0] == np.arange(10)).all(): return "the table has another form"
    if not (got[:, 1:] == m).all():
        i, j = np.argwhere(got[:, 1:] != m)[0]; return "table: predicted %d, actual %d is %d instead of %d" % (i, j, got[i, j + 1], m[i, j])
    return None

def mnist_case(pr, n, lab, salt, where="data", zero=False, different=12):
    """lab: function (index, predicted) -> label"""
    def go(ctx, tmp):
        base, bl = distinct_pictures(ctx, pr, min(n, different), salt)
        imgs = np.array([base[i % len(base)] for i in range(n)]); want = [bl[i % len(base)] for i in range(n)]
        if zero: imgs[:] = 0; want = predict(ctx, pr, imgs[:1]) * n
        labels = [lab(i, w) for i, w in enumerate(want)]
        p = mnist_files(tmp, imgs, labels, where)
        k = min(n, 1000)
        return judge_mnist(ctx, *mnist_run(ctx, pr, [ctx.weights[pr], p], tmp), want[:k], labels[:k])
    return go

def mnist_bad(pr, what, many=False):
    """what(imgs bytes, labels bytes) -> list of (description, images, labels); all must be reported, none may crash."""
    def go(ctx, tmp):
        imgs, want = distinct_pictures(ctx, pr, 3, 1)
        if many: imgs, want = np.concatenate([imgs] * 334)[:1000], (want * 334)[:1000]
        for d, i, l in what(idx_images(imgs), idx_labels(want)):
            p = mnist_files(tmp, i, l)
            rc, out, err, tainted = mnist_run(ctx, pr, [ctx.weights[pr], p], tmp)
            if rc == 0 and not tainted: return "%s: no error is reported: %s" % (d, out[-100:].replace("\n", " "))
        return None
    return go

def mnist_args(pr):
    def go(ctx, tmp):
        imgs, want = distinct_pictures(ctx, pr, 3, 2)
        p = mnist_files(tmp, imgs, want); w = ctx.weights[pr]
        for a in ([], [w], [w, p + "/nothing"], [p, p], [w + ".none", p], ["", p], [w, ""], [p + "/t10k-labels.idx1-ubyte", p]):
            rc, out, err, tainted = mnist_run(ctx, pr, a, tmp)
            if rc == 0: return "arguments %s: no error is reported" % a
        for f in os.listdir(p):
            os.rename(os.path.join(p, f), os.path.join(tmp, "kept")); rc, out, err, tainted = mnist_run(ctx, pr, [w, p], tmp); os.rename(os.path.join(tmp, "kept"), os.path.join(p, f))
            if rc == 0: return "no error although %s is missing" % f
        data = open(w, "rb").read()
        for k in (0, 1, 4, 10, len(data) // 2, len(data) - 5, len(data) - 1):
            b = os.path.join(tmp, "w"); open(b, "wb").write(data[:k]); rc, out, err, tainted = mnist_run(ctx, pr, [b, p], tmp)
            if rc == 0: return "no error although the weights file ends after %d bytes" % k
        return None
    return go

def long_path(tmp, n):
    d, left = tmp, n - len(tmp)
    while left > 1:
        k = min(left - 1, 200)
        if left - 1 - k == 1: k -= 1
        d = os.path.join(d, "d" * k); left = n - len(d)
    os.makedirs(d, exist_ok=True); return d

def mnist_paths(pr, lens):
    def go(ctx, tmp):
        imgs, want = distinct_pictures(ctx, pr, 10, 3); imgs, want = np.concatenate([imgs] * 100), want * 100
        for n in lens:
            if n <= len(tmp) + 2: continue
            d = long_path(tmp, n); mnist_files(d, imgs, want, ".")
            w = os.path.join(d, "w"); shutil.copy(ctx.weights[pr], w)
            for a in ([ctx.weights[pr], d], [w, d]):
                e = judge_mnist(ctx, *mnist_run(ctx, pr, a, tmp), want, want)
                if e: return "paths of %d characters: %s" % (n, e)
        return None
    return go

# ------------------------------------------------------------------------------------------- ImageNet programs
def imagenet_setup(ctx, tmp, h=224, w=224, mode=1, q=90, salt=0, labels=None, means=None):
    f = {}
    f["jpg"] = os.path.join(tmp, "p.jpg"); subprocess.run([ctx.mkjpeg, f["jpg"], str(h), str(w), str(mode), str(q), str(salt)], check=True)
    raw = np.frombuffer(open(f["jpg"] + ".raw", "rb").read(), np.uint8).reshape(h, w, 3)
    means = [104.0, 116.7, 122.7] if means is None else means
    f["means"] = os.path.join(tmp, "m.means"); open(f["means"], "wb").write(ctx.means_file(means))
    labels = labels if labels is not None else ["label %d, thing" % k for k in range(1000)]
    f["labels"] = os.path.join(tmp, "l.txt"); open(f["labels"], "w").write("".join(x + "\n" for x in labels))
    return f, raw, np.array(means, np.float32), labels

def imagenet_run(ctx, pr, f, tmp, args=None, halt=False):
    return mnist_run(ctx, pr, args if args is not None else [f.get("w", ctx.weights[pr]), f["means"], f["labels"], f["jpg"]], tmp, halt)

def judge_imagenet(ctx, pr, rc, out, err, tainted, raw, means, labels):
    if tainted: return None
    if rc != 0: return "ended with %d: %s" % (rc, (out + err)[-200:])
    x = np.stack([raw[:, :, 2 - k].astype(np.float32) - means[k] for k in range(3)])[None]
    m = ctx.models[pr]
    y = np.asarray(onnxref.evaluate(m, {ctx.inp[pr]: x})[m.graph.output[0].name], float).ravel()
    lines = [l[len("[INFO] "):].split("\t") for l in out.splitlines() if l.startswith("[INFO]") and l.count("\t") >= 2]
    if len(lines) != 10: return "prints %d predictions" % len(lines)
    tol = 1e-4 * max(1.0, np.abs(y).max()); order = np.argsort(-y, kind="stable"); used = set()
    pos = {}
    for k, l in enumerate(labels[:1000]): pos.setdefault(l, []).append(k)
    for k, (num, val, lab) in enumerate(lines):
        if num != "%d:" % (k + 1): return "line %d is numbered %s" % (k + 1, num)
        if abs(float(val) - y[order[k]]) > tol + 1e-5 * abs(y[order[k]]): return "line %d: value %s instead of %g" % (k + 1, val, y[order[k]])
        c = [i for i in pos.get(lab, []) if i not in used and abs(y[i] - float(val)) <= 2 * tol]
        if not c: return "line %d: label '%s' does not belong to value %s" % (k + 1, lab, val)
        used.add(c[0])
    return None

def imagenet_case(pr, **kw):
    def go(ctx, tmp):
        f, raw, means, labels = imagenet_setup(ctx, tmp, **kw)
        return judge_imagenet(ctx, pr, *imagenet_run(ctx, pr, f, tmp), raw, means, labels)
    return go

def imagenet_size(pr, h, w, mode):
    def go(ctx, tmp):
        f, raw, means, labels = imagenet_setup(ctx, tmp, h, w, mode)
        rc, out, err, tainted = imagenet_run(ctx, pr, f, tmp, halt=True)
        return "no error for a picture of %dx%d" % (h, w) if rc == 0 and not tainted else None
    return go

def imagenet_bad(pr):
    def go(ctx, tmp):
        f, raw, means, labels = imagenet_setup(ctx, tmp, salt=5)
        full = [ctx.weights[pr], f["means"], f["labels"], f["jpg"]]
        for k in range(4):
            if imagenet_run(ctx, pr, f, tmp, full[:k])[0] == 0: return "no error for %d arguments" % k
            for bad in (os.path.join(tmp, "none"), "", tmp):
                a = list(full); a[k] = bad
                if imagenet_run(ctx, pr, f, tmp, a)[0] == 0: return "no error although argument %d is %r" % (k + 1, bad)
        if imagenet_run(ctx, pr, f, tmp, full + ["x"])[0] == 0: return "no error for 5 arguments"
        for k, l in ((1, [0, 1, 3, 8, 11, 15]), (0, [0, 1, 5, 9, 300, 4000]), (3, [0, 1, 2, 100])):
            b = open(full[k], "rb").read()
            for n in l:
                if n >= len(b): continue
                t = os.path.join(tmp, "cut"); open(t, "wb").write(b[:n]); a = list(full); a[k] = t
                if imagenet_run(ctx, pr, f, tmp, a)[0] == 0: return "no error although argument %d ends after %d bytes" % (k + 1, n)
        for n in (0, 1, 500, 999):
            t = os.path.join(tmp, "few"); open(t, "w").write("".join(x + "\n" for x in labels[:n])); a = list(full); a[2] = t
            if imagenet_run(ctx, pr, f, tmp, a)[0] == 0: return "no error for %d labels" % n
        return None
    return go

def imagenet_paths(pr, lens):
    def go(ctx, tmp):
        f, raw, means, labels = imagenet_setup(ctx, tmp, salt=6)
        full = [ctx.weights[pr], f["means"], f["labels"], f["jpg"]]
        for n in lens:
            d = long_path(tmp, n - 2)
            for k in range(4):
                p = os.path.join(d, "f%d" % k)[:]; shutil.copy(full[k], p); a = list(full); a[k] = p
                e = judge_imagenet(ctx, pr, *imagenet_run(ctx, pr, f, tmp, a), raw, means, labels)
                if e: return "argument %d of %d characters: %s" % (k + 1, len(p), e)
        return None
    return go

def cases(tier):
    T = tier == "thorough"; C = []
    for pr in PROGRAMS:
        if "alexnet" in pr or "vgg" in pr: continue
        add = lambda d, g: C.append(("%s: %s" % (pr, d), g))
        tiny = pr.endswith("tiny")
        for n in ([1000, 1001, 1200] if tiny else [1000]): add("%d pictures, all right" % n, mnist_case(pr, n, lambda i, w: w, n))
        for n in ([1000, 1003] if tiny else [1000]): add("%d pictures, all wrong" % n, mnist_case(pr, n, lambda i, w: (w + 1 + i % 9) % 10, n + 1))
        for n in ([1, 2, 3, 9, 10, 11, 13, 100, 999] if tiny else [12]): add("fewer pictures: %d, all right" % n, mnist_case(pr, n, lambda i, w: w, n))
        for k in range(10 if tiny else 2): add("1000 pictures, label %d" % k, mnist_case(pr, 1000, lambda i, w, k=k: k, k))
        for s in range((12 if T else 6) if tiny else 2):
            add("set %d of 1000 different pictures, labels drifting" % s, mnist_case(pr, 1000, lambda i, w, s=s: (w + i // 97 + s) % 10, 100 + 41 * s, different=1000 if tiny else 40))
        if tiny:
            add("1000 empty pictures", mnist_case(pr, 1000, lambda i, w: i % 10, 0, zero=True))
            for k in list(range(0, 13)) + [99, 100, 101, 499, 500, 501, 700] + list(range(988, 1000)): add("1000 pictures, the first %d right" % k, mnist_case(pr, 1000, lambda i, w, k=k: w if i < k else (w + 3) % 10, 5))
            for p in range(0, 1000, 20 if T else 50): add("1000 pictures, only number %d right" % p, mnist_case(pr, 1000, lambda i, w, p=p: w if i == p else (w + 5) % 10, 6))
            add("pictures cut at every header byte and row", mnist_bad(pr, lambda a, b: [("%d bytes of pictures" % k, a[:k], b) for k in list(range(17)) + [16 + 28 * r for r in range(0, 84, 5)] + [len(a) - 1]]))
            add("labels cut at every byte", mnist_bad(pr, lambda a, b: [("%d bytes of labels" % k, a, b[:k]) for k in range(len(b))]))
            add("picture header", mnist_bad(pr, lambda a, b: [("picture count %d" % k, a[:4] + struct.pack(">i", k) + a[8:], b) for k in (0, 1, 2, 4, 1000, 2**31 - 1)] + [("magic byte %d" % k, a[:k] + bytes([a[k] ^ 1]) + a[k + 1:], b) for k in range(4)]))
            add("label header", mnist_bad(pr, lambda a, b: [("label count %d" % k, a, b[:4] + struct.pack(">i", k) + b[8:]) for k in (0, 1, 2, 4, 1000, 2**31 - 1)] + [("magic byte %d" % k, a, b[:k] + bytes([b[k] ^ 1]) + b[k + 1:]) for k in range(4)]))
            for p in (0, 500, 999): add("label %d out of range" % p, mnist_bad(pr, lambda a, b, p=p: [("label %d" % v, a, b[:8 + p] + bytes([v]) + b[9 + p:]) for v in ([10, 11, 20, 50, 99, 100, 101, 127, 128, 255] if p != 999 else range(10, 256) if T else [10, 255])], many=True))
            add("paths", mnist_paths(pr, list(range(80, 130)) + [200, 255, 256, 500, 999, 1000, 1001, 1023, 1024, 1025, 1100, 2000, 3000]))
        add("arguments and damaged weights", mnist_args(pr))
    for pr in PROGRAMS:
        if not ("alexnet" in pr or "vgg" in pr): continue
        add = lambda d, g: C.append(("%s: %s" % (pr, d), g))
        for salt in range(32 if T else 16):
            for mode in (0, 1, 3): add("picture %d mode %d" % (salt, mode), imagenet_case(pr, mode=mode, salt=salt, q=(50, 90, 100)[salt % 3]))
        for k in range(3):
            for v in (0.0, -50.0, 255.0, 1000.0): add("mean %d is %g" % (k, v), imagenet_case(pr, salt=1, means=[v if i == k else 100.0 + 10 * i for i in range(3)]))
        add("labels with tabs removed, empty parts and equal texts", imagenet_case(pr, salt=2, labels=["n%08d %s" % (k, "x" * (k % 90)) for k in range(1000)])); add("equal labels", imagenet_case(pr, salt=2, labels=["same"] * 1000)); add("1003 labels", imagenet_case(pr, salt=3, labels=["l%d" % k for k in range(1003)]))
        for h, w in ((223, 224), (224, 223), (225, 224), (224, 225), (1, 1), (224, 1), (1, 224), (112, 448), (448, 112), (300, 300), (256, 256), (227, 227), (512, 224), (224, 512), (8, 6272)): add("picture of %dx%d" % (h, w), imagenet_size(pr, h, w, 1))
        add("picture of 225x223 in grey", imagenet_size(pr, 225, 223, 0))
        add("arguments and damaged files", imagenet_bad(pr)); add("paths", imagenet_paths(pr, [200, 255, 256, 1000, 1022, 1023, 1024, 1025, 1200, 3000]))
    return [(d, collect(g)) for d, g in C]

def check(tier, libobjs, root, only=None):
    C = cases(tier)
    sel = list(range(len(C))) if only is None else only
    ctx = Ctx(); ctx.exe, ctx.models, ctx.inp, ctx.weights, ctx.source = {}, {}, {}, {}, {}
    def means_file(v): return ("FD\n" + "".join(float(np.float32(x)).hex() + "\n" for x in v)).encode()
    ctx.means_file = means_file
    need = [p for p in PROGRAMS if any(C[i][0].startswith(p + ":") for i in sel)]
    lib = os.path.join(root, "libpico.a"); nmc.sh("ar rcs %s %s" % (lib, " ".join(libobjs)))
    ctx.mkjpeg = os.path.join(root, "mkjpeg"); jobs = [("g++ -O1 -w %s/mkjpeg.cpp -o %s -ljpeg" % (HERE, ctx.mkjpeg), "mkjpeg")]
    viol, broken = [], {}
    for k, pr in enumerate(need):
        ex, build = PROGRAMS[pr]; d = os.path.join(root, "p%d" % k)
        m = build(); e = write_importer_output(d, m)
        if e: broken[pr] = "the importer refused the model: " + e[-200:]; continue
        ctx.models[pr] = onnx.ModelProto.FromString(m.SerializeToString())
        ctx.inp[pr] = [i.name for i in m.graph.input if i.name not in {t.name for t in m.graph.initializer}][0]
        g = os.path.join(d, "generated_code", "m"); ctx.weights[pr] = os.path.join(g, "network.weights.bin"); ctx.exe[pr] = os.path.join(d, ex)
        shutil.copy(os.path.join(REPO, "examples", ex + ".cpp"), g); ctx.source[pr] = open(os.path.join(g, ex + ".cpp")).read().split("\n")
        jobs.append(("%s %s -I%s %s/%s.cpp %s/network.cpp %s -o %s -ljpeg -lm -lpthread" % (CXX, FLAGS, REPO, g, ex, g, lib, ctx.exe[pr]), pr))
    with concurrent.futures.ThreadPoolExecutor(nmc.JOBS) as ex:
        for out, r in ex.map(lambda j: (j[1], nmc.sh(j[0])), jobs):
            if r.returncode:
                if out == "mkjpeg": raise RuntimeError(r.stdout[-1000:])
                broken[out] = "the program does not compile: " + ([l for l in r.stdout.splitlines() if "error" in l] or ["?"])[0][-250:]
    for pr in broken:
        i = [i for i in sel if C[i][0].startswith(pr + ":")][0]; viol.append(dict(idx=i, desc=C[i][0], msg=broken[pr]))
    sel = [i for i in sel if not any(C[i][0].startswith(pr + ":") for pr in broken)]
    steps, seen = run_forked(C, sel, root, ctx, viol)
    viol.sort(key=lambda v: v["idx"])
    return dict(total=len(C), cases=len(sel), checks=steps, steps=steps, distinct=len(seen), complete=True, samples=[C[i][0] for i in sel[::max(1, len(sel) // 7)]][:8], violations=viol, counters={"programs": len(need)},
                rules=["one case per (example program, data set / picture / damage); states are cases"])
