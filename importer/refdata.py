"""N06: reference-data tools and generated validation programs.  Cases are functions executed in forked children."""
import os, sys, io, json, struct, subprocess, itertools, shutil, traceback, concurrent.futures, types, glob, math
import numpy as np
import nmc, onnx, onnxref
from nmc import M, vals, REPO, CXX, CXXFLAGS, HERE
from onnx import numpy_helper

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0")

class Bad(Exception): pass

# ------------------------------------------------------------------------------------------- file format (independent)
def pack_in(a, shape=None):
    a = np.asarray(a, np.float32)
    c, h, w = shape or (a.shape[1:] if a.ndim == 4 else (a.shape[1], 1, a.shape[2]) if a.ndim == 3 else (1,) + a.shape)
    return b"FCI\n" + struct.pack("<4i", 1, c, h, w) + a.tobytes() + b"end\n"
def pack_out(a):
    a = np.asarray(a, np.float32).ravel()
    return b"FCO\n" + struct.pack("<2i", 1, a.size) + a.tobytes() + b"end\n"

# ------------------------------------------------------------------------------------------- running things
def run(args, timeout=60, **kw):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)
    return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")

def sanitizer(err):
    for k in ("AddressSanitizer", "runtime error"):
        i = err.find(k)
        if i >= 0: return err[i:i + 160].replace("\n", " ")
    return None

def read_back(ctx, kind, dims, path):
    """(return code, float32 bits) of the library's reader on a tensor of that shape."""
    rc, out, err = run([ctx.reader, kind, path] + [str(d) for d in dims])
    if sanitizer(err): raise Bad("the library's reader: " + sanitizer(err))
    if rc != 0: raise RuntimeError("reader ended with %d %s" % (rc, err[-200:]))
    w = out.split()
    return int(w[0]), np.array([int(x, 16) for x in w[1:]], np.uint32)

def same_bits(bits, want):
    want = np.ascontiguousarray(want, np.float32).ravel()
    w = want.view(np.uint32)
    if bits.size != w.size: return "%d values instead of %d" % (bits.size, w.size)
    bad = np.where((bits != w) & ~(np.isnan(want) & np.isnan(bits.view(np.float32))))[0]
    return None if not bad.size else "value %d is %.9g instead of %.9g" % (bad[0], bits.view(np.float32)[bad[0]], want[bad[0]])

class Log(io.StringIO): pass

def tool(name, argv, extra=None):
    """Runs one of the util scripts' main() in this (forked) process; returns (exit code, log)."""
    log, keep = Log(), (sys.stdout, sys.stderr, sys.argv)
    for k, v in (extra or {}).items(): sys.modules[k] = v
    rc = 0
    sys.stdout = sys.stderr = log; sys.argv = [name] + argv
    try:
        src = open(os.path.join(REPO, "util", name)).read()
        g = {"__name__": "tool", "__file__": os.path.join(REPO, "util", name)}
        exec(compile(src, name, "exec"), g); g["main"]()
    except SystemExit as e: rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception: log.write(traceback.format_exc()); rc = 1
    finally: sys.stdout, sys.stderr, sys.argv = keep
    return rc, log.getvalue()

# ------------------------------------------------------------------------------------------- tools
SPECIAL = np.array([0.0, -0.0, 1e-45, -1e-40, 1.17549435e-38, 3.4028235e38, -3.4028235e38, np.inf, -np.inf, np.nan, 1 / 3, -math.pi, 16777217.0, 1e-30], np.float32)
def content(shape, how, seed=0):
    n = int(np.prod(shape))
    if how == "plain": return vals(shape, seed)
    if how == "special": return np.resize(np.roll(SPECIAL, seed), n).reshape(shape)
    if how == "double": return (np.arange(n) / 7.0 - seed).reshape(shape)
    if how == "int32": return (np.arange(n, dtype=np.int32) * 3 - 7 + seed).reshape(shape)
    if how == "float16": return (np.arange(n, dtype=np.float16) / 3 - seed).reshape(shape)

def pb(a, raw=True):
    t = numpy_helper.from_array(np.asarray(a))
    if not raw and a.dtype == np.float32:
        t = onnx.TensorProto(dims=list(a.shape), data_type=1); t.float_data.extend(float(v) for v in a.ravel())
    return t.SerializeToString()

def parse_case(ins, outs, raw=True, name="ref", stale=False):
    def go(ctx, tmp):
        d = os.path.join(tmp, name); os.makedirs(d)
        for k, a in enumerate(ins): open(os.path.join(d, "input_%d.pb" % k), "wb").write(pb(a, raw))
        for k, a in enumerate(outs): open(os.path.join(d, "output_%d.pb" % k), "wb").write(pb(a, raw))
        if stale:                                                     # longer files of an earlier run are in the way
            for kind, n in (("input", len(ins)), ("output", len(outs))):
                for k in range(n): open(os.path.join(d, "%s_%d.data" % (kind, k)), "wb").write(b"FCI\n" + b"old" * 5000)
        rc, log = tool("parse_onnx_reference_files.py", ["--input", d])
        okin = lambda a: a.ndim == 4 and a.shape[0] == 1
        okout = lambda a: a.ndim == 2 and a.shape[0] == 1
        good = len(ins) > 0 and len(outs) > 0 and all(map(okin, ins)) and all(map(okout, outs))
        if not good:
            for p in glob.glob(os.path.join(d, "*.data")):        # nothing may be written for an unsupported tensor
                k = int(p.rsplit("_", 1)[1][:-5]); isin = os.path.basename(p).startswith("input")
                if not (okin(ins[k]) if isin else okout(outs[k])): return "wrote %s for a tensor of shape %s" % (os.path.basename(p), (ins if isin else outs)[k].shape)
            if (not ins or not outs) and rc == 0: return "no error although there are no files"
            return None
        if rc != 0: return "the tool ended with %d: %s" % (rc, log[-200:])
        for kind, arrs in (("input", ins), ("output", outs)):
            for k, a in enumerate(arrs):
                p = os.path.join(d, "%s_%d.data" % (kind, k))
                if not os.path.exists(p): return "no file %s" % os.path.basename(p)
                rc, bits = read_back(ctx, kind, a.shape, p)
                if rc != 0: return "the library rejects %s (%s)" % (os.path.basename(p), a.shape)
                e = same_bits(bits, a.astype(np.float32))
                if e: return "%s: %s" % (os.path.basename(p), e)
                if open(p, "rb").read() != (pack_in(a) if kind == "input" else pack_out(a)) and not np.isnan(a.astype(np.float32)).any(): return "%s is not in the documented format" % os.path.basename(p)
        return None
    return go

def shims(seen):
    """Stand-ins for the packages generate_reference_data.py needs."""
    b = types.ModuleType("caffe2.python.onnx.backend")
    def run_model(model, x, device="CPU"):
        name = [i.name for i in model.graph.input if i.name not in {t.name for t in model.graph.initializer}][0]
        v = onnxref.evaluate(model, {name: np.asarray(x)})
        y = np.asarray(v[model.graph.output[0].name], np.float32)
        seen.append((np.array(x, copy=True), y)); return [y]
    b.run_model = run_model
    mods = {}
    parent = None
    for n in ("caffe2", "caffe2.python", "caffe2.python.onnx"):
        mods[n] = types.ModuleType(n)
        if parent is not None: setattr(parent, n.rsplit(".", 1)[1], mods[n])
        parent = mods[n]
    mods["caffe2.python.onnx"].backend = b; mods["caffe2.python.onnx.backend"] = b
    mg = types.ModuleType("magic"); mg.from_file = lambda p, mime=False: {"wav": "audio/x-wav", "jpg": "image/jpeg", "pgm": "image/x-portable-greymap", "png": "image/png", "txt": "text/plain"}[p.rsplit(".", 1)[1]]
    io_ = types.ModuleType("imageio"); io_.imread = lambda p: np.load(p + ".npy")      # decoding is not the tool's work
    wv = types.ModuleType("scipy.io.wavfile"); wv.read = lambda p: (16000, np.load(p + ".npy"))
    sc, si = types.ModuleType("scipy"), types.ModuleType("scipy.io"); sc.io = si; si.wavfile = wv
    mods.update({"magic": mg, "imageio": io_, "scipy": sc, "scipy.io": si, "scipy.io.wavfile": wv})
    return mods

def gen_model(shape, outn):
    m = M(shape)
    n = int(np.prod(shape))
    t = m.op("Flatten", m.x) if len(shape) != 2 else m.x
    t = m.op("Gemm", [t, m.param(vals((outn, n), 1, 1 / 64.0)), m.param(vals((outn,), 2))], transB=1) if outn else m.op("Relu", t)
    return m.done(t)

def generate_case(shape, outn, file=None, data=None, rng=None, seed=None, name="net.onnx", twice=False, refuse=False, stale=False):
    def go(ctx, tmp):
        os.chdir(tmp)
        d = os.path.join(tmp, "models dir"); os.makedirs(d)
        mp = os.path.join(d, name)
        ok = len(shape) in (2, 3, 4) and shape[0] == 1
        open(mp, "wb").write(gen_model(shape if ok else (1, 4), outn).SerializeToString())
        argv = ["--model", mp, "--shape"] + [str(v) for v in shape]
        if rng: argv += ["--range", str(rng[0]), str(rng[1])]
        if seed is not None: argv += ["--seed", str(seed)]
        stem = "random"
        if file:
            f = os.path.join(tmp, file); open(f, "w").write("x"); np.save(f + ".npy", data); argv += ["--file", f]; stem = file.rsplit(".", 1)[0]
        base = os.path.splitext(name)[0]
        pin, pout = os.path.join(d, "%s_%s_input.data" % (stem, base)), os.path.join(d, "%s_%s_output.data" % (stem, base))
        if stale:
            for p in (pin, pout): open(p, "wb").write(b"FCI\n" + b"old" * 5000)
        runs = []
        for k in range(2 if twice else 1):
            seen = []
            rc, log = tool("generate_reference_data.py", argv, shims(seen))
            if refuse or not ok:
                if rc == 0: return "no error for an unsupported request"
                if os.path.exists(pout): return "wrote an output file for an unsupported request"
                return None
            if rc != 0: return "the tool ended with %d: %s" % (rc, log[-300:])
            if len(seen) != 1: return "the model was run %d times" % len(seen)
            x, y = seen[0]
            for p in (pin, pout):
                if not os.path.exists(p): return "no file %s" % os.path.basename(p)
            rc, bits = read_back(ctx, "input", shape, pin)
            if rc != 0: return "the library rejects the input file for a tensor of shape %s" % (shape,)
            e = same_bits(bits, x.astype(np.float32))
            if e: return "the input file does not hold the data the model was run on: " + e
            rc, bits = read_back(ctx, "output", y.shape, pout)
            if rc != 0: return "the library rejects the output file"
            e = same_bits(bits, y)
            if e: return "the output file does not hold the model's output: " + e
            if stale and (os.path.getsize(pin) >= 15000 or os.path.getsize(pout) >= 15000): return "the end of an older file is left behind the data"
            if tuple(x.shape) != tuple(shape): return "the model was run on shape %s" % (x.shape,)
            if not file:
                lo, hi = rng or (0, 1)
                if not ((x >= np.float32(min(lo, hi))) & (x <= np.float32(max(lo, hi)))).all(): return "random input outside the range"
                if x.size > 3 and lo != hi and len(set(x.ravel().tolist())) < 2: return "random input is constant"
            else:
                want = np.asarray(data, float)
                if file.endswith("wav"): want = want / max(want)
                if file.endswith("pgm"): want = want / 255.0
                e = same_bits(bits if False else np.ascontiguousarray(x, np.float32).ravel().view(np.uint32), want.astype(np.float32))
                if e: return "the model was not run on the file's data: " + e
            runs.append((open(pin, "rb").read(), open(pout, "rb").read()))
        if twice and runs[0] != runs[1]: return "the same seed gave different files"
        return None
    return go

# ------------------------------------------------------------------------------------------- generated programs
def program_models(tier):
    """name -> (build() -> ModelProto, [input arrays])"""
    P = {}
    def relu(shape):
        def b():
            m = M(shape); t = m.op("Relu", m.x); return m.done(m.op("Flatten", t) if len(shape) != 2 else t)
        return b
    def gemm(shape, n): return lambda: gen_model(shape, n)
    def cnn(shape):
        def b():
            m = M(shape); c = shape[1]
            t = m.op("Conv", [m.x, m.param(vals((2, c) + (3,) * (len(shape) - 2), 1, 1 / 64.0)), m.param(vals((2,), 2, 1 / 64.0))], kernel_shape=[3] * (len(shape) - 2), strides=[1] * (len(shape) - 2), pads=[1] * (2 * len(shape) - 4))
            t = m.op("Relu", t); t = m.op("MaxPool", t, kernel_shape=[2] * (len(shape) - 2), strides=[1] * (len(shape) - 2)); return m.done(m.op("Flatten", t))
        return b
    pos = lambda sh: np.abs(vals(sh, 3)) + np.float32(0.125)
    for sh in ((1, 1), (1, 2), (1, 5), (1, 2, 2), (1, 1, 4), (1, 3, 1), (1, 1, 1, 1), (1, 2, 1, 2), (1, 1, 2, 3), (1, 3, 2, 1)): P["relu %s" % (sh,)] = (relu(sh), [pos(sh)])
    for sh, n in (((1, 3), 1), ((1, 4), 3), ((1, 2, 3), 2), ((1, 2, 2, 3), 4), ((1, 1, 4, 2), 7)): P["gemm %s to %d" % (sh, n)] = (gemm(sh, n), [vals(sh, 3, 1 / 16.0)])
    for sh in ((1, 1, 3, 4), (1, 2, 4)): P["cnn %s" % (sh,)] = (cnn(sh), [vals(sh, 3, 1 / 16.0)])
    P["relu large values"] = (relu((1, 4)), [np.array([[1000.0, 4096.5, 16384.0, 0.5]], np.float32)])
    P["relu long"] = (relu((1, 300)), [pos((1, 300)) if True else None])
    if tier == "thorough":
        for sh in itertools.product([1], [1, 2, 3], [1, 2, 3], [1, 2, 3]): P.setdefault("relu %s" % (sh,), (relu(sh), [pos(sh)]))
        for sh in itertools.product([1], [1, 2, 4], [1, 2, 5]): P.setdefault("relu %s" % (sh,), (relu(sh), [pos(sh)]))
    return P

class Program(object):
    """Imported and compiled on first use in the parent."""
    def __init__(self, name, build, inputs): self.name, self.build, self.inputs = name, build, inputs

def verdict(rc, out, err):
    if sanitizer(err): raise Bad(sanitizer(err))
    if rc < 0 or rc > 255: raise Bad("ended by signal %d" % -rc)
    yes = "almost equal to reference output" in out and "not almost equal" not in out + err
    no = "not almost equal" in out + err
    return "agree" if yes and rc == 0 else "disagree" if no else "error" if rc != 0 else "nothing"

def prog_setup(ctx, pr, tmp):
    f = {}
    d = os.path.join(ctx.progs[pr], "generated_code", "m")
    f["w"] = os.path.join(d, "network.weights.bin"); f["exe"] = os.path.join(ctx.progs[pr], "reference_input"); f["dummy"] = os.path.join(ctx.progs[pr], "dummy_input")
    x, y = ctx.data[pr]
    f["i"], f["o"] = os.path.join(tmp, "in.data"), os.path.join(tmp, "out.data")
    open(f["i"], "wb").write(pack_in(x)); open(f["o"], "wb").write(pack_out(y))
    return f, x, np.asarray(y, np.float32)

def ref_run(f, **over):
    g = dict(f, **over)
    return verdict(*run([g["exe"], g["w"], g["i"], g["o"]]))

def expect(got, want, what):
    if got != want: raise Bad("%s: the program says '%s', right is '%s'" % (what, got, want))

def agree_case(pr):
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, pr, tmp)
        for k in range(2): expect(ref_run(f), "agree", "intact files")
        # a different input gives a different output: the program really runs the network on the file's data
        y2 = ctx.other[pr]
        if np.abs(np.asarray(y2[1]) - y).max() > 0.01:
            i2 = os.path.join(tmp, "i2"); open(i2, "wb").write(pack_in(y2[0])); expect(ref_run(f, i=i2), "disagree", "input of another run")
            o2 = os.path.join(tmp, "o2"); open(o2, "wb").write(pack_out(y2[1])); expect(ref_run(f, i=i2, o=o2), "agree", "second pair of files")
    return go

DELTAS = [0.0005, -0.0005, 0.00095, -0.00095, 0.00105, -0.00105, 0.002, -0.002, 0.1, -0.1, 1.0, -1.0, 1e6, -1e6, 3e38, -3e38, "nan", "inf", "-inf"]
def perturb_case(pr, pos, deltas):
    """The reference value at pos (several positions: the same amount at each, alternating sign) is off by each delta."""
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, pr, tmp)
        for dl in deltas:
            r = y.astype(np.float64).ravel().copy()
            for n, p in enumerate(pos): r[p] = float(dl) if isinstance(dl, str) else r[p] + (dl if n % 2 == 0 else -dl)
            r32 = r.astype(np.float32)
            with np.errstate(all="ignore"): diff = np.abs(r32.astype(np.float64) - y.ravel())
            if ((diff > 0.00097) & (diff < 0.00103)).any(): continue
            want = "agree" if (diff <= 0.001).all() else "disagree"
            open(f["o"], "wb").write(pack_out(r32))
            expect(ref_run(f), want, "reference output off by %s at %s" % (dl, pos))
            ctx.n += 1
    return go

def nan_output_case(pr):
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, pr, tmp)
        for v, want in ((np.nan, "disagree"),):
            xx = np.array(x, np.float32); xx.ravel()[0] = v
            open(f["i"], "wb").write(pack_in(xx))
            expect(ref_run(f), want, "input with %s" % v)
    return go

def missing_case(pr):
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, pr, tmp)
        for k in "wio":
            for bad in (os.path.join(tmp, "nothing"), tmp, os.path.join(tmp, "no", "such", "dir"), ""):
                expect(ref_run(f, **{k: bad}), "error", "argument %s is %r" % (k, bad)); ctx.n += 1
        for a, b in (("i", "o"), ("w", "i"), ("w", "o")): expect(ref_run(f, **{a: f[b], b: f[a]}), "error", "arguments %s and %s exchanged" % (a, b))
        for args in ([], [f["w"]], [f["w"], f["i"]], [f["w"], f["i"], f["o"], f["o"]]):
            rc, out, err = run([f["exe"]] + args); expect(verdict(rc, out, err), "error", "%d arguments" % len(args)); ctx.n += 1
        for n in (200, 1000, 1023, 1024, 1025, 1500, 3000):          # long paths to existing files
            d, left = tmp, n - len(tmp) - 5
            while left > 0: k = min(left, 200); d = os.path.join(d, "d" * max(1, k - 1)); left -= k
            os.makedirs(d, exist_ok=True)
            for k in "wio":
                p = os.path.join(d, "f" + k); shutil.copy(f[k], p)
                expect(ref_run(f, **{k: p}), "agree", "path of %d characters for argument %s" % (len(p), k)); ctx.n += 1
                if k == "w":
                    rc, out, err = run([f["dummy"], p, "1", "1"])
                    if sanitizer(err) or rc != 0: raise Bad("dummy_input with a path of %d characters: %d %s" % (len(p), rc, sanitizer(err)))
            expect(ref_run(f, i=os.path.join(d, "missing")), "error", "missing file with a long path")
    return go

def damage_case(pr, which, lo, hi):
    """Every prefix and every damaged structural byte of one of the three files, for offsets lo..hi."""
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, pr, tmp)
        b = open(f[which], "rb").read(); p = os.path.join(tmp, "damaged")
        n = len(b)
        struct_bytes = set(range(20 if which == "i" else 12)) | set(range(n - 4, n)) if which != "w" else set(range(3)) | set(range(n - 4, n))
        for k in range(lo, min(hi, n)):
            open(p, "wb").write(b[:k]); expect(ref_run(f, **{which: p}), "error", "first %d of %d bytes of argument %s" % (k, n, which)); ctx.n += 1
            if k in struct_bytes:
                for x_ in (0x01, 0x80, 0xff):
                    if which == "w" and False: continue
                    open(p, "wb").write(b[:k] + bytes([b[k] ^ x_]) + b[k + 1:]); expect(ref_run(f, **{which: p}), "error", "byte %d of argument %s changed by 0x%02x" % (k, which, x_)); ctx.n += 1
    return go

CLOCKS = ("0 0", "1700000000 0", "1700000000 1", "2147483646 1", "1 60")
def records(b):
    out, p = [], 0
    while p < len(b):
        n, = struct.unpack_from("<i", b, p); d = struct.unpack_from("<%di" % n, b, p + 4); p += 4 + 4 * n
        k = int(np.prod(d)); out.append(np.frombuffer(b, "<f4", k, p).reshape(d)); p += 4 * k
    return out

def bench_run(ctx, pr, f, x, rec, tmp, runs, once, clock):
    log = os.path.join(tmp, "rec"); open(log, "wb").close()
    what = "benchmark program, %d runs, GENERATE_ONCE=%s, clock '%s': " % (runs, once, clock)
    ENV["DUMMYREC"], ENV["DUMMYCLOCK"] = log, clock
    rc, out, err = run([rec, f["w"], str(runs), once]); ctx.n += 1
    if sanitizer(err): raise Bad(what + sanitizer(err))
    if rc: raise Bad(what + "ends with %d" % rc)
    r = records(open(log, "rb").read())
    if len(r) != 3 * runs: raise Bad(what + "runs the network %d times" % (len(r) // 3))
    ins = r[0::3]; w = None
    for a, b, y in zip(ins, r[1::3], r[2::3]):
        if a.shape != tuple(x.shape): raise Bad(what + "the input has shape %s, the network's is %s" % (a.shape, x.shape))
        if not (np.isfinite(a).all() and a.min() >= 0 and a.max() <= 1): raise Bad(what + "input outside 0..1: %s" % a.ravel()[:5])
        if w is None or once == "0": w = np.asarray(nmc.reference(ctx.models[pr], [a])[0])
        if w.size != y.size or np.abs(w.ravel() - y.ravel()).max() > 1e-4 * max(1, np.abs(w).max()): raise Bad(what + "the network's output is %s, right for its input and weights is %s" % (y.ravel()[:4], w.ravel()[:4]))
    if once == "0" and len(ins) >= 7:
        for k in np.flatnonzero((np.stack([a.ravel() for a in ins]) == ins[0].ravel()).all(0)): raise Bad(what + "input element %d has the same value in every run" % k)
    for i in range(min(len(ins), 40)):
        if ins[i].size > 8 and len(set(ins[i].ravel().tolist())) < 3: raise Bad(what + "the input is not random: %s" % ins[i].ravel()[:9])
        for j in range(i):
            same = np.array_equal(ins[i], ins[j])
            if once == "1" and not same: raise Bad(what + "the inputs of runs %d and %d differ" % (j + 1, i + 1))
            if once == "0" and same and ins[i].size > 1: raise Bad(what + "runs %d and %d have the same input, not new random input" % (j + 1, i + 1))

def dummy_case(pr):
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, pr, tmp)
        def d(*a):
            rc, out, err = run([f["dummy"]] + list(a)); ctx.n += 1
            if sanitizer(err): raise Bad("dummy_input: " + sanitizer(err))
            return rc
        for runs in ("0", "1", "2", "5"):
            for once in ("0", "1"):
                if d(f["w"], runs, once) != 0: return "dummy_input %s runs (once=%s) fails" % (runs, once)
        rec = f["dummy"] + ".rec"
        if os.path.exists(rec):     # the same program with Network::run and the clock recorded / replaced
            for runs in (0, 1, 2, 3, 7, 300):
                for once in ("0", "1"):
                    for clock in CLOCKS[:1] if runs == 300 else CLOCKS: bench_run(ctx, pr, f, x, rec, tmp, runs, once, clock)
        for a in ([], [f["w"]], [f["w"], "1"], [f["w"], "1", "1", "1"]):
            if d(*a) == 0: return "dummy_input accepts %d arguments" % len(a)
        for bad in (os.path.join(tmp, "nothing"), tmp, f["i"]):
            if d(bad, "1", "1") == 0: return "dummy_input succeeds with weights file %r" % bad
        b = open(f["w"], "rb").read(); p = os.path.join(tmp, "damaged")
        for k in range(0, len(b), max(1, len(b) // 40)):
            open(p, "wb").write(b[:k])
            if d(p, "1", "0") == 0: return "dummy_input succeeds with the first %d of %d bytes of the weights" % (k, len(b))
    return go

def shipped_case(name, fin, fout):
    """The repository's own reference data for its own models."""
    def go(ctx, tmp):
        f, x, y = prog_setup(ctx, "repository model " + name, tmp)
        d = os.path.join(REPO, "data", name)
        expect(ref_run(f, i=os.path.join(d, fin), o=os.path.join(d, fout)), "agree", "reference data of the repository")
    return go

def makefile_case(ctx, tmp):
    """The generated Makefile builds both programs, in a copy of the repository's layout."""
    root = os.path.join(tmp, "copy"); os.makedirs(os.path.join(root, "onnx_import"))
    shutil.copytree(os.path.join(REPO, "pico-cnn"), os.path.join(root, "pico-cnn"), ignore=shutil.ignore_patterns("*.o", "*.a"))
    m = gen_model((1, 2, 2, 3), 4)
    ok, log = nmc.run_importer(os.path.join(root, "onnx_import"), m, "tiny")
    if not ok: return "the importer refused the model: " + log[-200:]
    d = os.path.join(root, "onnx_import", "generated_code", "tiny")
    for t in ("dummy_input", "reference_input"):
        r = subprocess.run(["make", "-j8", t], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if r.returncode != 0 or not os.path.exists(os.path.join(d, t)): return "make %s fails: %s" % (t, r.stdout[-300:])
    x = vals((1, 2, 2, 3), 3, 1 / 16.0); y = nmc.reference(m, [x])[0]
    open(os.path.join(tmp, "i"), "wb").write(pack_in(x)); open(os.path.join(tmp, "o"), "wb").write(pack_out(y))
    expect(verdict(*run([os.path.join(d, "reference_input"), os.path.join(d, "network.weights.bin"), os.path.join(tmp, "i"), os.path.join(tmp, "o")])), "agree", "program built by make")
    open(os.path.join(tmp, "o"), "wb").write(pack_out(y + 0.01))
    expect(verdict(*run([os.path.join(d, "reference_input"), os.path.join(d, "network.weights.bin"), os.path.join(tmp, "i"), os.path.join(tmp, "o")])), "disagree", "program built by make")
    rc, out, err = run([os.path.join(d, "dummy_input"), os.path.join(d, "network.weights.bin"), "2", "0"])
    if rc != 0: return "dummy_input built by make ends with %d" % rc

def roundtrip_case(shape, outn):
    """Tool to program: files written by generate_reference_data.py make the generated program of the same model agree."""
    pr = "gemm %s to %d" % (shape, outn)
    def go(ctx, tmp):
        os.chdir(tmp)
        f, x, y = prog_setup(ctx, pr, tmp)
        mp = os.path.join(tmp, "net.onnx"); open(mp, "wb").write(gen_model(shape, outn).SerializeToString())
        rc, log = tool("generate_reference_data.py", ["--model", mp, "--shape"] + [str(v) for v in shape] + ["--seed", "3"], shims([]))
        if rc: return "the tool ended with %d" % rc
        expect(ref_run(f, i=os.path.join(tmp, "random_net_input.data"), o=os.path.join(tmp, "random_net_output.data")), "agree", "files of the tool")
    return go

# ------------------------------------------------------------------------------------------- the enumeration
def cases(tier):
    T = tier == "thorough"
    C = [("generated Makefile", makefile_case)]
    E = (1, 2, 3, 4) if T else (1, 2, 3)
    hows = ("plain", "special")
    for c, h, w in itertools.product(E, E, E):
        for how in hows:
            for raw in (True, False):
                if not T and raw is False and how == "plain" and (c + h + w) % 2: continue
                n = 1 + (c * 7 + h * 3 + w) % (5 if not T else 9)
                C.append(("parse (1, %d, %d, %d) and (1, %d) %s raw=%d" % (c, h, w, n, how, raw), parse_case([content((1, c, h, w), how, 1)], [content((1, n), how, 2)], raw)))
    for n in range(1, 41 if T else 21): C.append(("parse output of %d" % n, parse_case([content((1, 1, 1, n), "plain")], [content((1, n), "special", n)])))
    for how in ("double", "int32", "float16"): C.append(("parse %s tensors" % how, parse_case([content((1, 2, 2, 3), how)], [content((1, 4), how)])))
    for k, l in ((1, 3), (3, 1), (3, 3), (11, 12)): C.append(("parse %d inputs and %d outputs" % (k, l), parse_case([content((1, 1 + i % 2, 2, 1 + i % 3), "plain", i) for i in range(k)], [content((1, 1 + i % 4), "plain", i) for i in range(l)])))
    C.append(("parse large", parse_case([content((1, 3, 40, 50), "special")], [content((1, 1000), "special")])))
    for sh in ((2, 1, 2, 2), (1, 2, 2), (1, 4), (4,), (1, 1, 2, 2, 1), ()): C.append(("parse unsupported input %s" % (sh,), parse_case([content(sh, "plain")], [content((1, 2), "plain")])))
    for sh in ((2, 2), (1, 2, 2), (4,), (1, 1, 2, 2), ()): C.append(("parse unsupported output %s" % (sh,), parse_case([content((1, 1, 2, 2), "plain")], [content(sh, "plain")])))
    C.append(("parse second input unsupported", parse_case([content((1, 1, 2, 2), "plain"), content((1, 4), "plain")], [content((1, 2), "plain")])))
    C.append(("parse second output unsupported", parse_case([content((1, 1, 2, 2), "plain")], [content((1, 2), "plain"), content((4,), "plain")])))
    C.append(("parse no inputs", parse_case([], [content((1, 2), "plain")]))); C.append(("parse no outputs", parse_case([content((1, 1, 2, 2), "plain")], [])))
    for k, l in ((1, 1), (3, 2)): C.append(("parse %d inputs and %d outputs over older files" % (k, l), parse_case([content((1, 1 + i % 2, 2, 2), "plain", i) for i in range(k)], [content((1, 2 + i), "plain", i) for i in range(l)], stale=True)))
    for sh in ((1, 4), (1, 2, 3), (1, 2, 2, 3)): C.append(("generate random %s over older files" % (sh,), generate_case(sh, 2, seed=3, stale=True)))
    C.append(("generate from wav over older files", generate_case((1, 1, 4), 2, "s.wav", np.array([3, -2, 5, 1], np.int16), stale=True)))
    C.append(("generate from pgm over older files", generate_case((1, 1, 2, 2), 2, "s.pgm", np.array([[3, 2], [255, 1]], np.uint8), stale=True)))
    C.append(("generate from jpeg over older files", generate_case((1, 1, 2, 2), 2, "s.jpg", np.array([[3, 2], [255, 1]], np.uint8), stale=True)))
    C.append(("parse directory with spaces and dots", parse_case([content((1, 1, 2, 2), "plain")], [content((1, 2), "plain")], name="a b.c d")))
    # -- generate_reference_data
    shapes = [(1, n) for n in E] + [(1, a, b) for a in E for b in E] + [(1, a, b, c) for a in E for b in E for c in E]
    for sh in shapes:
        for outn in (0, 1, 3):
            if not T and outn == 1 and len(sh) == 4: continue
            C.append(("generate random %s out=%d" % (sh, outn), generate_case(sh, outn, seed=sum(sh) + outn)))
    for rng in ((0, 1), (-1, 1), (-5, -2), (0, 255), (3, 3), (-128, 127)):
        for sh in ((1, 4), (1, 2, 3), (1, 2, 2, 3)):
            for seed in (None, 0, 7): C.append(("generate random %s range %s seed %s" % (sh, rng, seed), generate_case(sh, 2, rng=rng, seed=seed, twice=seed is not None)))
    for nm in ("a.b.onnx", "net", "x-y.pb"): C.append(("generate for a model named %s" % nm, generate_case((1, 2, 3), 2, seed=1, name=nm)))
    for sh in ((2, 4), (2, 1, 2, 2), (4,), (1, 1, 1, 2, 2)): C.append(("generate unsupported shape %s" % (sh,), generate_case(sh, 2, seed=1)))
    for n in (1, 2, 5, 16):
        wav = ((np.arange(n) * 37 % 23 + 1) * np.where(np.arange(n) % 3 == 1, -1, 1)).astype(np.int16); wav[-1] = 30000
        for sh in ((1, 1, n), (1, 1, 1, n)) + (((1, 2, n // 2), (1, 2, 1, n // 2), (1, 1, 2, n // 2), (1, n // 2, 2), (1, 1, n // 2, 2)) if n % 2 == 0 else ()):
            C.append(("generate from wav of %d as %s" % (n, sh), generate_case(sh, 2, "s.wav", wav)))
    for h, w in itertools.product(E, E):
        img = (np.arange(h * w) * 53 % 256).astype(np.uint8).reshape(h, w)
        C.append(("generate from pgm %dx%d" % (h, w), generate_case((1, 1, h, w), 2, "s.pgm", img)))
        C.append(("generate from grey jpeg %dx%d" % (h, w), generate_case((1, 1, h, w), 2, "s.jpg", img)))
        C.append(("generate from rgb jpeg %dx%d" % (h, w), generate_case((1, 3, h, w), 2, "s.jpg", (np.arange(h * w * 3) * 53 % 256).astype(np.uint8).reshape(h, w, 3))))
    for fn in ("s.t.wav", "two words.wav", "0.5.wav", "x.onnx.wav"): C.append(("generate from a file named %s" % fn, generate_case((1, 1, 4), 2, fn, np.array([3, -2, 5, 1], np.int16))))
    for fn in ("s.t.pgm", "s.t.jpg"): C.append(("generate from a file named %s" % fn, generate_case((1, 1, 2, 2), 2, fn, np.array([[3, 2], [255, 1]], np.uint8))))
    C.append(("generate from an unsupported file", generate_case((1, 1, 2, 2), 2, "s.txt", np.zeros((2, 2)), refuse=True)))
    C.append(("generate from png", generate_case((1, 1, 2, 2), 2, "s.png", np.zeros((2, 2)), refuse=True)))
    # -- programs
    P = program_models(tier)
    for pr in P:
        n = int(np.prod(nmc.reference(P[pr][0](), [P[pr][1][0]])[0].shape))
        C.append(("program %s: agreement" % pr, agree_case(pr)))
        C.append(("program %s: NaN" % pr, nan_output_case(pr)))
        ps = range(n) if n <= 40 else list(range(0, n, 7)) + [n - 1, 255, 256, 257]
        for p in ps: C.append(("program %s: position %d" % (pr, p), perturb_case(pr, (p,), DELTAS if n <= 40 or p in (0, n - 1) else [0.002, -0.002])))
        if n <= (8 if T else 5):
            for k in range(2, min(n, 4) + 1):
                for ps in itertools.combinations(range(n), k): C.append(("program %s: positions %s" % (pr, ps), perturb_case(pr, ps, [0.0006, -0.0006, 0.0009, 0.002, 1.0, -1.0, "nan"])))
        C.append(("program %s: dummy_input" % pr, dummy_case(pr)))
    for pr in list(P) if T else ["relu (1, 2)", "gemm (1, 3) to 1", "gemm (1, 2, 3) to 2", "gemm (1, 2, 2, 3) to 4", "cnn (1, 2, 4)", "relu (1, 2, 1, 2)"]:
        if pr == "relu long": continue
        C.append(("program %s: arguments" % pr, missing_case(pr)))
        for k, size in (("i", 60 if "(1, 2, 2, 3)" not in pr else 80), ("o", 64), ("w", 700)):
            for lo in range(0, size, 25): C.append(("program %s: damaged %s %d.." % (pr, k, lo), damage_case(pr, k, lo, lo + 25)))
    for sh, n in (((1, 3), 1), ((1, 4), 3), ((1, 2, 3), 2), ((1, 2, 2, 3), 4), ((1, 1, 4, 2), 7)): C.append(("tool and program %s to %d" % (sh, n), roundtrip_case(sh, n)))
    for name, files in (("lenet", (("input.data", "output.data"), ("random_lenet_input.data", "random_lenet_output.data"))), ("mnist_simple_perceptron", (("random_mnist_simple_perceptron_input.data", "random_mnist_simple_perceptron_output.data"),))):
        for a, b in files: C.append(("repository data %s %s" % (name, a), shipped_case(name, a, b)))
    return C

def run_forked(C, sel, root, ctx, viol):
    """Runs each case (description, go(ctx, scratch folder)) in a forked child, several workers at once."""
    # cases in forked children, several per worker
    def worker(w):
        out = []
        for i in sel[w::nmc.JOBS]:
            tmp = os.path.join(root, "t%d" % i); os.makedirs(tmp)
            r, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); msg, n = None, 0
                try:
                    ctx.n = 1
                    try: msg = C[i][1](ctx, tmp)
                    except Bad as e: msg = str(e)
                    except subprocess.TimeoutExpired as e: msg = "does not finish: %s" % (e.cmd,)
                    n = ctx.n
                except BaseException: n, msg = -1, traceback.format_exc()
                os.write(wr, json.dumps([n, msg]).encode()); os._exit(0)
            os.close(wr); b = b""
            while True:
                x = os.read(r, 65536)
                if not x: break
                b += x
            os.close(r); os.waitpid(pid, 0); shutil.rmtree(tmp, ignore_errors=True)
            out.append((i, json.loads(b) if b else [-1, "the case's process died"]))
        return out
    pipes = []
    for w in range(nmc.JOBS):
        r, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(wr, "w") as f: json.dump(worker(w), f)
            os._exit(0)
        os.close(wr); pipes.append((r, pid))
    steps = 0; seen = set()
    for r, pid in pipes:
        with os.fdopen(r) as f: t = f.read()
        os.waitpid(pid, 0)
        for i, (n, msg) in json.loads(t):
            if n < 0: raise RuntimeError("case %s: %s" % (C[i][0], msg))
            steps += n; seen.add(C[i][0])
            for e in msg if isinstance(msg, list) else [msg] if msg else []: viol.append(dict(idx=i, desc=C[i][0], msg=e))
    return steps, seen

class Ctx(object): pass

def check(tier, libobjs, root, only=None):
    C = cases(tier)
    sel = list(range(len(C))) if only is None else only
    ctx = Ctx(); ctx.progs, ctx.data, ctx.other, ctx.models = {}, {}, {}, {}
    # library reader
    ctx.reader = os.path.join(root, "reader")
    lib = os.path.join(root, "libpico.a"); nmc.sh("ar rcs %s %s" % (lib, " ".join(libobjs)))
    inc = "-I%s -iquote %s" % (REPO, HERE)
    viol, broken = [], {}
    need = [pr for pr in list(program_models(tier)) + ["repository model lenet", "repository model mnist_simple_perceptron"] if any(("program %s:" % pr) in C[i][0] or C[i][0].startswith("tool and program " + pr[5:]) or (pr.startswith("repository model") and ("repository data " + pr[17:]) in C[i][0]) for i in sel)]
    P = program_models(tier)
    import families
    def prepare(pr):
        if pr.startswith("repository"): m, ins = families.real(pr[17:])()[0]; x = ins[0]
        else: m, x = P[pr][0](), P[pr][1][0]
        x2 = (x * 0.5 + 0.25).astype(np.float32)
        y, y2 = nmc.reference(onnx.ModelProto.FromString(m.SerializeToString()), [x, x2])
        return m, x, y, x2, y2
    for k, pr in enumerate(need):       # imported in forked children, as always
        d = os.path.join(root, "p%d" % k); ctx.progs[pr] = d
        m, x, y, x2, y2 = prepare(pr); ctx.data[pr] = (x, y); ctx.other[pr] = (x2, y2); ctx.models[pr] = onnx.ModelProto.FromString(m.SerializeToString())
        pid = os.fork()
        if pid == 0:
            try:
                ok, log = nmc.run_importer(d, m); open(os.path.join(d, "log"), "w").write("" if ok else log)
            finally: os._exit(0)
        os.waitpid(pid, 0)
        e = open(os.path.join(d, "log")).read()
        if e: broken[pr] = "the importer refused the model: " + e[-200:]
    def comp(job):
        cmd, out = job
        return out, nmc.sh(cmd)
    jobs = [("%s %s %s %s/refread.cpp %s -o %s -ljpeg -lm -lpthread" % (CXX, CXXFLAGS, inc, HERE, lib, ctx.reader), "reader")]
    for pr in need:
        if pr in broken: continue
        g = os.path.join(ctx.progs[pr], "generated_code", "m")
        for t in ("reference_input", "dummy_input"):
            fl = CXXFLAGS.replace("-DINFO=0", "-DINFO=1")
            if t == "dummy_input":
                q = "%s/%s" % (ctx.progs[pr], t)
                jobs.append(("%s %s %s -c %s/network.cpp -o %s.net.o && %s %s %s -c %s/%s.cpp -o %s.o && %s %s %s.o %s.net.o %s -o %s -ljpeg -lm -lpthread && if R=$(nm %s.o | grep -o '_ZN7Network3run[A-Za-z0-9_]*') && [ $(echo \"$R\" | wc -l) = 1 ]; then %s %s %s -DRUN_SYM=$R %s/dummyrec.cpp %s.o %s.net.o %s -Wl,--wrap=$R,--wrap=time -o %s.rec -ljpeg -lm -lpthread; fi" % (CXX, fl, inc, g, q, CXX, fl, inc, g, t, q, CXX, fl, q, q, lib, q, q, CXX, fl, inc, HERE, q, q, lib, q), pr)); continue
            jobs.append(("%s %s %s %s/%s.cpp %s/network.cpp %s -o %s/%s -ljpeg -lm -lpthread" % (CXX, fl, inc, g, t, g, lib, ctx.progs[pr], t), pr))
    with concurrent.futures.ThreadPoolExecutor(nmc.JOBS) as ex:
        for out, r in ex.map(comp, jobs):
            if r.returncode:
                if out == "reader": raise RuntimeError(r.stdout[-2000:])
                broken[out] = "the generated program does not compile: " + ([l for l in r.stdout.splitlines() if "error" in l] or ["?"])[0][-250:]
    for pr in broken:
        i = [i for i in sel if pr in C[i][0] or pr[17:] and pr[17:] in C[i][0]]
        viol.append(dict(idx=i[0], desc=C[i[0]][0], msg=broken[pr])); 
    sel = [i for i in sel if not any(("program %s:" % pr) in C[i][0] or ("and program " + pr[5:]) in C[i][0] or (pr.startswith("repository") and pr[17:] in C[i][0] and C[i][0].startswith("repository")) for pr in broken)]
    steps, seen = run_forked(C, sel, root, ctx, viol)
    viol.sort(key=lambda v: v["idx"])
    return dict(total=len(C), cases=len(sel), checks=steps, steps=steps, distinct=len(seen), complete=True, samples=[C[i][0] for i in sel[::max(1, len(sel) // 7)]][:8], violations=viol, counters={"programs compiled": len(jobs) - 1, "program and reader runs": steps},
                rules=["one case per (tool input shape and content), per (generated program, damaged or perturbed file); states are cases"])

def write_importer_output(d, m):
    """Imports the model into folder d in a forked child; the log if it was refused."""
    os.makedirs(d, exist_ok=True)
    pid = os.fork()
    if pid == 0:
        try:
            ok, log = nmc.run_importer(d, m); open(os.path.join(d, "log"), "w").write("" if ok else log or "?")
        finally: os._exit(0)
    os.waitpid(pid, 0)
    return open(os.path.join(d, "log")).read()
