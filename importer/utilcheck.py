"""N08: the remaining utility scripts (image preparation, model check, intermediate outputs), each run through its main()
with stand-ins for the packages it uses (PIL, caffe2, onnx_tf); what the script does with them is judged."""
import os, sys, io, json, itertools, types, math, shutil
import numpy as np
import nmc, onnx, onnxref
from nmc import M, vals, REPO
from onnx import numpy_helper, helper
from refdata import tool, pb, Bad, Ctx, run_forked

# ------------------------------------------------------------------------------------------- PIL stand-in
FILTERS = dict(NEAREST=0, LANCZOS=1, ANTIALIAS=1, BILINEAR=2, BICUBIC=3, BOX=4, HAMMING=5)
def scaled(a, w, h, f):
    """An invertible record of the operation: every result pixel names the source position and the filter."""
    H, W = a.shape[:2]
    ys, xs = (np.arange(h) * H) // max(h, 1), (np.arange(w) * W) // max(w, 1)
    return (a[ys][:, xs].astype(np.int64) * 8 + f + 1) % 251
class Img(object):
    def __init__(self, a): self.a = a
    size = property(lambda s: (s.a.shape[1], s.a.shape[0])); width = property(lambda s: s.a.shape[1]); height = property(lambda s: s.a.shape[0])
    mode = "RGB"; format = "JPEG"
    def copy(self): return Img(self.a.copy())
    def load(self): pass
    def close(self): pass
    def convert(self, m): return self
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def resize(self, size, resample=0, box=None, **k):
        w, h = size
        if w <= 0 or h <= 0: raise ValueError("height and width must be > 0")
        a = self.a if box is None else self.crop(box).a
        return Img(scaled(a, w, h, resample))
    def crop(self, box=None):
        l, t, r, b = [int(round(v)) for v in box]
        if r < l: raise ValueError("Coordinate 'right' is less than 'left'")
        if b < t: raise ValueError("Coordinate 'lower' is less than 'upper'")
        out = np.zeros((b - t, r - l) + self.a.shape[2:], np.int64)
        for y in range(max(t, 0), min(b, self.a.shape[0])):
            for x in range(max(l, 0), min(r, self.a.shape[1])): out[y - t, x - l] = self.a[y, x]
        return Img(out)
    def save(self, fp, format=None, **k):
        if self.a.shape[0] == 0 or self.a.shape[1] == 0: raise SystemError("tile cannot extend outside image")
        with open(fp, "wb") as f: np.save(f, self.a)
def pil():
    p, i = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
    def op(fp, mode="r"):
        if mode != "r": raise ValueError("bad mode")
        with open(fp, "rb") as f: return Img(np.load(f))
    i.open = op; i.Image = Img
    for k, v in FILTERS.items(): setattr(i, k, v)
    i.Resampling = types.SimpleNamespace(**FILTERS)
    p.Image = i
    return {"PIL": p, "PIL.Image": i}

def picture(w, h, salt, channels=3):
    n = w * h * channels
    return ((np.arange(n) * 37 + salt * 11 + 5) % 251).astype(np.int64).reshape(h, w, channels)

def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files: out[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), "rb").read()
    return out

def image_case(mode, size, files, pos=None, twice=False, slash=False, others=True, valid=True):
    """files: list of (name, width, height). size/pos: the numbers given on the command line."""
    def go(ctx, tmp):
        os.chdir(tmp)
        d = os.path.join(tmp, "imgs"); os.makedirs(d)
        pics = {}
        for k, (n, w, h) in enumerate(files):
            pics[n] = picture(w, h, k); f = open(os.path.join(d, n), "wb"); np.save(f, pics[n]); f.close()
        if others:
            for n in ("notes.txt", "a.png", "JPEG", "x.JPEG.bak", ".hidden"): open(os.path.join(d, n), "w").write("no image")
            os.makedirs(os.path.join(d, "sub")); open(os.path.join(d, "sub", "in.JPEG"), "w").write("no image")
        before = listing(d)
        argv = ["--directory", d + ("/" if slash else ""), "--size"] + [str(v) for v in size] + ["--mode", mode] + (["--crop_pos"] + [str(v) for v in pos] if pos is not None else [])
        for _ in range(2 if twice else 1): rc, log = tool("prepare_images.py", argv, pil())
        after = listing(d)
        for n, b in before.items():
            if after.get(n) != b: return "%s was changed" % n
        new = {n: b for n, b in after.items() if n not in before}
        if [n for n in os.listdir(tmp) if n != "imgs"]: return "wrote outside the folder: %s" % os.listdir(tmp)
        if not valid:
            return "wrote %s for an invalid request" % sorted(new) if new else None
        w, h = (size * 2)[:2]
        if len(size) == 2: w, h = size
        want = {}
        px, py = ((list(pos) * 2)[:2] if len(pos) == 1 else pos) if pos is not None else (None, None)
        folder, tag = {"scale": ("scaled", "scale"), "center_crop": ("center_cropped", "center_crop"), "crop": ("cropped", "crop")}[mode]
        for n, a in pics.items():
            H, W = a.shape[:2]
            if mode == "scale": r = scaled(a, w, h, 1)
            elif mode == "center_crop": r = Img(a).crop(((W - w) // 2, (H - h) // 2, (W - w) // 2 + w, (H - h) // 2 + h)).a
            else: r = a[py:py + h, px:px + w]
            want[os.path.join("%s_%dx%d" % (folder, w, h), "%dx%d_%s_%s" % (w, h, tag, n))] = r
        if rc not in (0, None): return "the tool ended with %s: %s" % (rc, log[-200:])
        if sorted(new) != sorted(want): return "wrote %s instead of %s" % (sorted(new), sorted(want))
        for n, r in want.items():
            got = np.load(io.BytesIO(new[n]))
            if got.shape != r.shape: return "%s has size %dx%d instead of %dx%d" % (n, got.shape[1], got.shape[0], r.shape[1], r.shape[0])
            if not (got == r).all():
                p = np.argwhere(got != r)[0]; return "%s: pixel (%d,%d) of channel %d is wrong" % (n, p[1], p[0], p[2])
        ctx.n += len(want)
        return None
    return go

# ------------------------------------------------------------------------------------------- model check
def backend(name, fn):
    mods, parent = {}, None
    parts = name.split(".")
    for i in range(len(parts)):
        n = ".".join(parts[:i + 1]); mods[n] = types.ModuleType(n)
        if parent is not None: setattr(parent, parts[i], mods[n])
        parent = mods[n]
    for k, v in fn.items(): setattr(parent, k, v)
    return mods

def multi_model(shape, nout):
    """One input, nout outputs of different shapes."""
    m = M(shape); t = m.op("Flatten", m.x); n = int(np.prod(shape)); outs = []
    for k in range(nout): outs.append(m.op("Gemm", [t, m.param(vals((k + 2, n), k, 1 / 64.0)), m.param(vals((k + 2,), 7 + k))], transB=1))
    return m.done(*outs)

def inputs_of(model): return [i.name for i in model.graph.input if i.name not in {t.name for t in model.graph.initializer}]

def evaluate_all(model, xs):
    v = onnxref.evaluate(model, dict(zip(inputs_of(model), [np.asarray(x) for x in xs])))
    return [np.asarray(v[o.name], np.float32) for o in model.graph.output]

def modelcheck_case(shape, nout, change=None, nfiles=None, missing=None, elsewhere=False):
    """change: (output, position, delta); nfiles: reference outputs written (default: all)"""
    def go(ctx, tmp):
        d = os.path.join(tmp, "model dir"); os.makedirs(os.path.join(d, "test_data_set_0"))
        m = multi_model(shape, nout); open(os.path.join(d, "n.onnx"), "wb").write(m.SerializeToString())
        x = vals(shape, 3, 1 / 16.0); ys = evaluate_all(m, [x]); ok = True
        refs = [y.copy() for y in ys]
        if change:
            o, p, dl = change
            if dl == "shape": refs[o] = np.concatenate([refs[o], refs[o][:, :1]], 1); ok = False
            elif dl == "reorder": refs[o] = refs[o][:, ::-1].copy(); ok = False
            else:
                refs[o].ravel()[p] = np.float32(float(dl)) if isinstance(dl, str) else refs[o].ravel()[p] + np.float32(dl)
                with np.errstate(all="ignore"): ok = bool((np.abs(refs[o].astype(np.float64) - ys[o]) < 1.5e-4).all())
        k = len(refs) if nfiles is None else nfiles
        if k != len(ys): ok = False
        td = os.path.join(d, "test_data_set_0")
        if missing != "inputs": open(os.path.join(td, "input_0.pb"), "wb").write(pb(x))
        else: ok = False
        for i in range(k): open(os.path.join(td, "output_%d.pb" % i), "wb").write(pb(refs[i] if i < len(refs) else refs[-1]))
        if missing == "all": shutil.rmtree(td); ok = False
        if missing == "model": os.unlink(os.path.join(d, "n.onnx")); ok = False
        os.chdir(d if elsewhere else tmp)
        got = []
        def run_model(model, ins, device="CPU"):
            got.append([np.asarray(i) for i in ins])
            if len(ins) != 1: raise RuntimeError("wrong number of inputs")
            return evaluate_all(model, ins)
        rc, log = tool("check_onnx_model.py", ["--input", "n.onnx" if elsewhere else os.path.join(d, "n.onnx")], backend("caffe2.python.onnx.backend", dict(run_model=run_model)))
        says = rc in (0, None) and "matches" in log
        if says != ok: return "says %s, right is %s" % ("match" if says else "no match: " + log[-120:].replace("\n", " "), "match" if ok else "no match")
        if ok and not (len(got) == 1 and (got[0][0] == x).all()): return "the model was not run on the reference input"
        return None
    return go

# ------------------------------------------------------------------------------------------- intermediate outputs
def intermediate_case(shape, names, ask, base="net.onnx"):
    """A chain of Relu/Mul nodes with the given tensor names; ask: indices of the tensors requested."""
    def go(ctx, tmp):
        os.chdir(tmp)
        m = M(shape); t = m.x
        for k, n in enumerate(names): t = m.op("Mul", [t, m.param(vals(shape, k, 1 / 8.0, 3.0))], out=n)
        m = m.done(t)
        os.makedirs("models"); open(os.path.join("models", base), "wb").write(m.SerializeToString())
        seen = []
        def prepare(model, device="CPU"):
            r = types.SimpleNamespace(); r.tensor_dict = {}
            def run(ins):
                seen.append([np.array(i, copy=True) for i in ins])
                v = onnxref.evaluate(model, dict(zip(inputs_of(model), [np.asarray(i) for i in ins])))
                return {o.name: np.asarray(v[o.name], np.float32) for o in model.graph.output}
            r.run = run; return r
        args = ["%s,%s" % (names[i], ",".join(str(v) for v in shape)) for i in ask]
        rc, log = tool("save_intermediate_outputs.py", ["--input", os.path.join("models", base), "--input_shape"] + [str(v) for v in shape] + ["--out_to_check"] + args, backend("onnx_tf.backend", dict(prepare=prepare)))
        if rc not in (0, None): return "the tool ended with %s: %s" % (rc, log[-300:])
        if len(seen) != 1 or len(seen[0]) != 1 or seen[0][0].shape != tuple(shape): return "the model was not run once on an input of the requested shape"
        v = onnxref.evaluate(m, {m.graph.input[0].name: seen[0][0]})
        want = {"%s_%s.tf" % (base.split(".")[0], names[i].replace("/", "_").replace(".", "_").replace(":", "_")): np.asarray(v[names[i]], np.float32).ravel() for i in ask}
        files = [f for f in os.listdir(tmp) if f != "models"]
        if sorted(files) != sorted(want): return "wrote %s instead of %s" % (sorted(files), sorted(want))
        for f, y in want.items():
            g = np.atleast_1d(np.loadtxt(f, delimiter="\t"))
            if g.shape != y.shape: return "%s holds %s values instead of %d" % (f, g.shape, y.size)
            if not (g.astype(np.float32) == y).all(): return "%s: wrong values" % f
        return None
    return go

def cases(tier):
    T = tier == "thorough"; C = []
    N, S = (7, 9) if T else (5, 6)
    I = lambda *wh: [("ILSVRC2012_val_%08d.JPEG" % k, w, h) for k, (w, h) in enumerate(wh)]
    for W in range(1, N + 1):
        for H in range(1, N + 1):
            for w in range(1, S + 1):
                for h in range(1, S + 1):
                    for mode in ("scale", "center_crop"): C.append(("prepare_images %s of %dx%d to %dx%d" % (mode, W, H, w, h), image_case(mode, [w, h], I((W, H)), others=(W + H + w + h) % 4 == 0, twice=w == h, slash=w == 1)))
                    if w < W and h < H:
                        for x in range(0, W - w):
                            for y in range(0, H - h): C.append(("prepare_images crop of %dx%d to %dx%d at (%d,%d)" % (W, H, w, h, x, y), image_case("crop", [w, h], I((W, H)), [x, y], others=(x + y) % 2 == 0, twice=x == y, slash=x == 1)))
                    for x in sorted({0, 1, W, W + 1}):
                        for y in sorted({0, 1, H, H + 1}):
                            if x + w > W or y + h > H: C.append(("prepare_images crop of %dx%d to %dx%d beyond the image at (%d,%d)" % (W, H, w, h, x, y), image_case("crop", [w, h], I((W, H)), [x, y], valid=False)))
    # one number for both extents, wrong counts of numbers, no position, unknown mode
    for n in range(1, 5):
        for mode in ("scale", "center_crop"): C.append(("prepare_images %s to one number %d" % (mode, n), image_case(mode, [n], I((5, 4), (3, 7)))))
        C.append(("prepare_images crop to one number %d" % n, image_case("crop", [n], I((9, 8)), [1, 2]))); C.append(("prepare_images crop at one number %d" % n, image_case("crop", [2, 3], I((9, 8)), [n])))
    for mode in ("scale", "center_crop", "crop"):
        for size in ([1, 2, 3], [2, 2, 2, 2]): C.append(("prepare_images %s with size %s" % (mode, size), image_case(mode, size, I((5, 4)), [0, 0] if mode == "crop" else None, valid=False)))
    for pos in (None, [0, 1, 2]): C.append(("prepare_images crop with position %s" % pos, image_case("crop", [2, 2], I((5, 4)), pos, valid=False)))
    for mode in ("Scale", "centre_crop", "none"): C.append(("prepare_images mode %s" % mode, image_case(mode, [2, 2], I((5, 4)), [0, 0], valid=False)))
    # several pictures of different sizes in one folder, in every order of their sizes
    sizes = [(4, 6), (7, 5), (6, 6), (9, 4)]
    for k in range(1, 5):
        for perm in itertools.permutations(sizes, k):
            for mode in ("scale", "center_crop", "crop"): C.append(("prepare_images %s of pictures %s" % (mode, perm), image_case(mode, [3, 2], I(*perm), [0, 1] if mode == "crop" else None)))
    for names in (["a.JPEG"], ["b c.JPEG", "ILSVRC.JPEG"], ["x.y.JPEG", "0.JPEG"]):
        for mode in ("scale", "center_crop"): C.append(("prepare_images %s of files %s" % (mode, names), image_case(mode, [2, 3], [(n, 4 + k, 5) for k, n in enumerate(names)])))
    for mode in ("scale", "center_crop", "crop"): C.append(("prepare_images %s of an empty folder" % mode, image_case(mode, [2, 3], [], [0, 0] if mode == "crop" else None)))
    for W, H, w, h in ((500, 375, 224, 224), (375, 500, 256, 227), (256, 257, 255, 256)):
        for mode in ("scale", "center_crop", "crop"): C.append(("prepare_images %s of %dx%d to %dx%d" % (mode, W, H, w, h), image_case(mode, [w, h], I((W, H)), [W - w - 1, H - h - 1] if mode == "crop" else None)))
    # model check
    shapes = [(1, 3), (1, 2, 2), (1, 1, 2, 3)]
    deltas = [1e-5, -1e-5, 1e-4, -1e-4, 2e-4, -2e-4, 1e-3, 1.0, -1.0, 1e30, "nan", "inf"]
    for sh in shapes:
        for n in (1, 2, 3) + ((12, 101) if sh == shapes[0] else ()):
            C.append(("check_onnx_model %s %d outputs intact" % (sh, n), modelcheck_case(sh, n))); C.append(("check_onnx_model %s %d outputs intact, relative path" % (sh, n), modelcheck_case(sh, n, elsewhere=True)))
            for o in range(n):
                if n > 3 and o not in (0, 1, 2, 9, 10, 11, n - 1): continue
                for p in range(o + 2) if n <= 12 else (0, o + 1):
                    for dl in deltas: C.append(("check_onnx_model %s %d outputs, value %d of output %d off by %s" % (sh, n, p, o, dl), modelcheck_case(sh, n, (o, p, dl))))
                for what in ("shape", "reorder"): C.append(("check_onnx_model %s %d outputs, output %d with another %s" % (sh, n, o, what), modelcheck_case(sh, n, (o, 0, what))))
            for k in range(0, n + 2):
                if k != n and (n < 12 or k in (0, 1, 2, n - 2, n - 1, n + 1)): C.append(("check_onnx_model %s %d outputs but %d reference files" % (sh, n, k), modelcheck_case(sh, n, nfiles=k)))
            for w in ("inputs", "all", "model"): C.append(("check_onnx_model %s %d outputs without %s" % (sh, n, w), modelcheck_case(sh, n, missing=w)))
    # intermediate outputs
    for sh in ((1, 3), (1, 2, 2), (1, 1, 2, 3), (1, 1)):
        names = ["conv1", "pool/5", "fc.8:0"] + (["d", "e.f/g"] if T else [])
        for k in range(1, len(names) + 1):
            for ask in itertools.permutations(range(len(names)), k): C.append(("save_intermediate_outputs %s of %s" % (sh, [names[i] for i in ask]), intermediate_case(sh, names, ask)))
    C.append(("save_intermediate_outputs model name with dots", intermediate_case((1, 2), ["a", "b"], (0, 1), "my.net.onnx")))
    return C

def check(tier, libobjs, root, only=None):
    C = cases(tier)
    sel = list(range(len(C))) if only is None else only
    viol = []
    steps, seen = run_forked(C, sel, root, Ctx(), viol)
    viol.sort(key=lambda v: v["idx"])
    return dict(total=len(C), cases=len(sel), checks=steps, steps=steps, distinct=len(seen), complete=True, samples=[C[i][0] for i in sel[::max(1, len(sel) // 7)]][:8], violations=viol, counters={},
                rules=["one case per (script, request, files in the folder / damage of the reference); states are cases"])
