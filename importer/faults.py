"""N09: exit status and repeatability of the importer and the data tools under every single (thorough: also every double)
failing file operation, and for every model of the refusal family.  The scripts run exactly as from the command line
(run_name "__main__") in forked children of a process that preloads iofault.c."""
import os, sys, io, json, ctypes, glob, shutil, itertools, subprocess, runpy, traceback, gc, errno, types
import numpy as np
import nmc, onnx, onnxref, families, refdata, utilcheck
from nmc import M, vals, REPO
from refdata import Bad, Ctx, run_forked, pb, pack_in, pack_out

NONE, FAIL, FULL, PARTIAL, KILL, TORN = range(6)
KINDS = {FAIL: "fails", FULL: "fails as does everything after it", PARTIAL: "is cut short, then the disk is full", KILL: "is not reached: the process ends", TORN: "is cut short by the end of the process"}
def preload(so):
    """Restarts this process with the fault injector preloaded, once."""
    if os.environ.get("VERIF_IOFAULT"): return
    e = dict(os.environ, LD_PRELOAD=so, VERIF_IOFAULT=so)
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, e)
def shim():
    L = ctypes.CDLL(os.environ["VERIF_IOFAULT"])
    L.verif_arm.argtypes = [ctypes.c_char_p] + [ctypes.c_int] * 4; L.verif_trace.restype = ctypes.c_char_p
    return L

class Result(object): pass
def execute(script, argv, cwd, mods=None, fault=None, full_shapes=False):
    """Runs a script of the repository as a program in a forked child; exit status, text printed, and what the injector saw.
    fault: (reading, kind, operation, errno)"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 1; L = shim(); out = io.StringIO()
        try:
            os.close(r); os.chdir(cwd)
            onnx.shape_inference.FULL = full_shapes
            for k, v in (mods or {}).items(): sys.modules[k] = v
            d = os.path.join(REPO, os.path.dirname(script))
            if d not in sys.path: sys.path.insert(0, d)
            sys.stdout = sys.stderr = out; sys.argv = [os.path.join(REPO, script)] + argv
            f = fault or (0, NONE, -1, 0)
            L.verif_arm(cwd.encode(), f[0], f[1], f[2], f[3])
            try: runpy.run_path(os.path.join(REPO, script), run_name="__main__"); code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if e.code is not None and not isinstance(e.code, int): out.write(str(e.code))
            except BaseException: out.write(traceback.format_exc()); code = 1
            gc.collect()
        finally:
            L.verif_disarm()
            os.write(w, json.dumps([L.verif_count(), L.verif_fired(), L.verif_trace().decode()[:3000], out.getvalue()[-1500:]]).encode()); os._exit(code & 255)
    os.close(w); b = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        b += x
    os.close(r); st = os.waitpid(pid, 0)[1]
    R = Result(); R.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 1000 + os.WTERMSIG(st)
    R.count, R.fired, R.trace, R.log = json.loads(b) if b else [0, True, "", ""]
    R.killed = not b
    return R

def files(d):
    out = {}
    for base, dirs, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as h: out[os.path.relpath(p, d)] = h.read()
    return out

# ------------------------------------------------------------------------------------------- the programs
class Program(object):
    """setup(d): writes the inputs; then script argv is run in d. keep: files that must survive whatever happens."""
    def __init__(self, name, script, argv, setup, mods=lambda: {}): self.name, self.script, self.argv, self.setup, self.mods = name, script, argv, setup, mods
    def run(self, d, fault=None): return execute(self.script, self.argv, d, self.mods(), fault)

USER = {"generated_code/m/m.cpp": b"int main() { return 0; }\n", "generated_code/other/network.cpp": b"// another network\n", "notes.txt": b"user's notes\n", "polished_models/keep.onnx": b"unrelated\n"}
def put(d, fs):
    for k, b in fs.items():
        p = os.path.join(d, k); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(b)

def importer(name, build, path="m.onnx", user=False):
    def setup(d):
        put(d, {path: build().SerializeToString()})
        if user: put(d, USER)
    return Program("import of %s%s" % (name, " beside other files" if user else ""), "onnx_import/onnx_to_pico_cnn.py", ["--input", path], setup)

def cnn(n=2, big=False):
    def b():
        m = M((1, 2, 6, 6)); t = m.op("Conv", [m.x, m.param(vals((n, 2, 3, 3), 1)), m.param(vals((n,), 2))], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
        t = m.op("Relu", t); t = m.op("MaxPool", t, kernel_shape=[2, 2], strides=[2, 2]); t = m.op("Flatten", t)
        return m.done(m.op("Gemm", [t, m.param(vals((700 if big else 3, 9 * n), 3)), m.param(vals((700 if big else 3,), 4))], transB=1))
    return b
def small():
    m = M((1, 4)); return m.done(m.op("Relu", m.x))
def onedim():
    m = M((1, 2, 8)); t = m.op("Conv", [m.x, m.param(vals((2, 2, 3), 1)), m.param(vals((2,), 2))], kernel_shape=[3], strides=[1], pads=[1, 1]); return m.done(m.op("Softmax", m.op("Flatten", t), axis=1))

def parser_(ins, outs):
    def setup(d): put(d, dict([("ref/input_%d.pb" % k, pb(a)) for k, a in enumerate(ins)] + [("ref/output_%d.pb" % k, pb(a)) for k, a in enumerate(outs)]))
    return Program("parse_onnx_reference_files %s to %s" % ([a.shape for a in ins], [a.shape for a in outs]), "util/parse_onnx_reference_files.py", ["--input", "ref"], setup)
def generator(shape, n, file=None, data=None):
    def setup(d):
        put(d, {"models/net.onnx": refdata.gen_model(shape, n).SerializeToString()})
        if file: put(d, {file: b"x"}); np.save(os.path.join(d, file + ".npy"), data)
    argv = ["--model", "models/net.onnx", "--shape"] + [str(v) for v in shape] + ["--seed", "5"] + (["--file", file] if file else [])
    return Program("generate_reference_data %s to %s%s" % (shape, n, " from " + file if file else ""), "util/generate_reference_data.py", argv, setup, lambda: refdata.shims([]))
def images(mode, n, pos=None):
    def setup(d):
        os.makedirs(os.path.join(d, "imgs"))
        for k in range(n):
            with open(os.path.join(d, "imgs", "ILSVRC_%d.JPEG" % k), "wb") as f: np.save(f, utilcheck.picture(5 + k, 6, k))
        put(d, {"imgs/notes.txt": b"x"})
    return Program("prepare_images %s of %d pictures" % (mode, n), "util/prepare_images.py", ["--directory", "imgs", "--size", "2", "3", "--mode", mode] + (["--crop_pos"] + [str(p) for p in pos] if pos else []), setup, utilcheck.pil)
def intermediate(shape, names):
    def setup(d):
        m = M(shape); t = m.x
        for k, n in enumerate(names): t = m.op("Mul", [t, m.param(vals(shape, k, 1 / 8.0, 3.0))], out=n)
        put(d, {"models/net.onnx": m.done(t).SerializeToString()})
    def mods():
        def prepare(model, device="CPU"):
            r = types.SimpleNamespace(tensor_dict={})
            def run(ins):
                v = onnxref.evaluate(model, dict(zip(utilcheck.inputs_of(model), [np.asarray(i) for i in ins])))
                return {o.name: np.asarray(v[o.name], np.float32) for o in model.graph.output}
            r.run = run; return r
        return utilcheck.backend("onnx_tf.backend", dict(prepare=prepare))
    sh = ",".join(str(v) for v in shape)
    return Program("save_intermediate_outputs %s" % (names,), "util/save_intermediate_outputs.py", ["--input", "models/net.onnx", "--input_shape"] + [str(v) for v in shape] + ["--out_to_check"] + ["%s,%s" % (n, sh) for n in names], setup, mods)

def programs(T):
    A = [importer("a small convolutional network", cnn()), importer("a network of one Relu", small), importer("a one-dimensional network", onedim), importer("a small convolutional network", cnn(3), user=True),
         importer("a network with large weights", cnn(4, True), "sub dir/m.x.onnx")]
    v = lambda sh, k=0: vals(sh, k)
    A += [parser_([v((1, 2, 3, 2))], [v((1, 5))]), parser_([v((1, 1, 1, 3)), v((1, 3, 2, 2), 1)], [v((1, 1)), v((1, 4), 3), v((1, 2), 5)]), parser_([v((1, 3, 40, 50))], [v((1, 3000))])]
    A += [generator((1, 2, 3, 4), 3), generator((1, 3, 4), 2), generator((1, 5), 4), generator((1, 2, 40, 30), 2500), generator((1, 1, 1, 6), 3, "a.wav", np.array([1, -5, 3, 9, 2, 0], np.int16)),
          generator((1, 1, 3, 2), 3, "b.pgm", np.array([[1, 2], [3, 4], [250, 0]], np.uint8)), generator((1, 3, 2, 2), 3, "c.jpg", np.arange(12).reshape(2, 2, 3))]
    A += [images("scale", 2), images("center_crop", 2), images("crop", 2, (1, 2))]
    A += [intermediate((1, 3), ["a", "b/c"]), intermediate((1, 2, 40, 20), ["a"])]
    return A

# ------------------------------------------------------------------------------------------- cases
def clean_run(p, d):
    """Runs the program undisturbed in a fresh folder: its results (files it created or changed)."""
    p.setup(d); before = files(d); r = p.run(d)
    if r.status != 0: raise Bad("the undisturbed run ended with %d: %s" % (r.status, r.log[-300:]))
    after = files(d)
    bad = [k for k in before if after.get(k) != before[k]]
    if bad: raise Bad("the undisturbed run changed %s" % bad)
    return {k: b for k, b in after.items() if k not in before}, before, r

def judge(p, d, r, want, before, fired, what):
    got = files(d)
    for k, b in before.items():
        if got.get(k) != b: return "%s: %s was changed" % (what, k)
    if r.status == 0 and not r.killed:
        for k, b in want.items():
            if got.get(k) != b: return "%s: ended with status 0 although %s is %s" % (what, k, "missing" if k not in got else "incomplete" if len(got[k]) < len(b) else "wrong")
    elif not fired: return "%s: ended with %d: %s" % (what, r.status, r.log[-250:])
    elif r.status != 99 and not r.log.strip(): return "%s: ended with %d without saying anything" % (what, r.status)
    return None

ERR = {0: errno.ENOSPC, 1: errno.EIO}
def fault_case(p, start, reading, kind, at, second=None):
    """start: 'fresh', 'over' (the results of another, longer content lie there), 'again' (its own results lie there)"""
    def go(ctx, tmp):
        want, before, _ = ctx.clean[p.name]
        d = os.path.join(tmp, "d"); os.makedirs(d); p.setup(d)
        if start == "again": put(d, want)
        if start == "over": put(d, {k: b"old content " * (len(b) // 8 + 3) for k, b in want.items()})
        what = "operation %d %s" % (at, KINDS[kind])
        r = p.run(d, (reading, kind, at, ERR[reading])); ctx.n = 2
        e = judge(p, d, r, want, before, r.fired, what)
        if e: return e
        if second:
            r = p.run(d, (0, second[0], second[1], errno.EIO)); ctx.n += 1
            e = judge(p, d, r, want, before, r.fired, what + ", then operation %d of the next run %s" % (second[1], KINDS[second[0]]))
            if e: return e
        r = p.run(d)
        return judge(p, d, r, want, before, False, "running again after: " + what)
    return go

def twice_case(p, over):
    """The results do not depend on what earlier runs left."""
    def go(ctx, tmp):
        want, before, _ = ctx.clean[p.name]
        d = os.path.join(tmp, "d"); os.makedirs(d); p.setup(d)
        put(d, {k: over(b) for k, b in want.items()})
        for k in range(3):
            r = p.run(d); ctx.n += 1
            e = judge(p, d, r, want, before, False, "run %d over earlier results" % (k + 1))
            if e: return e
    return go

def refusal_case(case):
    """A model of the refusal family: refused with a failing status and without touching earlier output, or produced."""
    def go(ctx, tmp):
        ctx.n = 0
        for mi, (model, _) in enumerate(case.build()):
            d = os.path.join(tmp, str(mi)); old = {"generated_code/m/" + n: b"old " + n.encode() for n in ("network.cpp", "network.h", "network.weights.bin", "Makefile", "dummy_input.cpp", "reference_input.cpp")}
            put(d, {"m.onnx": model.SerializeToString()}); put(d, old); put(d, USER)
            r = execute("onnx_import/onnx_to_pico_cnn.py", ["--input", "m.onnx"], d, full_shapes=case.opts.get("full_shapes", False)); ctx.n += 1
            got = files(d)
            for k, b in USER.items():
                if got.get(k) != b: return "%s was changed" % k
            same = [k for k in old if got.get(k) == old[k]]
            if r.status == 0 and same: return "ended with status 0 and left the earlier %s in place: %s" % (same[0], r.log[max(0, r.log.rfind("ERROR")):][:160].replace("\n", " "))
            if r.status != 0 and len(same) < len(old): return "ended with %d but changed the earlier %s" % (r.status, [k for k in old if k not in same][0])
            if r.status != 0 and not r.log.strip(): return "refused without saying anything"
        return None
    return go

def invalid_case(script, argv, setup, mods=lambda: {}, made=()):
    """Requests that cannot be carried out: failing status, message, nothing changed (apart from the folders and files in made)."""
    def go(ctx, tmp):
        d = os.path.join(tmp, "d"); os.makedirs(d); put(d, setup); put(d, USER); before = files(d)
        r = execute(script, argv, d, mods())
        if r.status == 0: return "ended with status 0: %s" % r.log[-200:]
        if not r.log.strip(): return "failed without saying anything"
        got = files(d)
        for k, b in before.items():
            if got.get(k) != b: return "changed %s" % k
        new = [k for k in got if k not in before and k not in made]
        return "wrote %s" % new if new else None
    return go

def cases(tier, counts=None):
    """counts: name -> (write operations, read operations) of the undisturbed run (None: when the case list alone is wanted)"""
    T = tier == "thorough"; C = []
    for c in families.n04(tier): C.append(("refusal: " + c.desc, refusal_case(c)))
    # requests that cannot be carried out
    I, Pz, G = "onnx_import/onnx_to_pico_cnn.py", "util/parse_onnx_reference_files.py", "util/generate_reference_data.py"
    mod = small().SerializeToString(); big = cnn()().SerializeToString()
    for what, argv, setup in (("no such file", ["--input", "x.onnx"], {}), ("a folder", ["--input", "sub"], {"sub/a": b"x"}), ("no argument", [], {}), ("an empty name", ["--input", ""], {}),
                              ("a missing folder", ["--input", "a/b/c.onnx"], {}), ("a file in place of the folder for results", ["--input", "q.onnx"], {"q.onnx": mod, "generated_code/q": b"a file"})):
        C.append(("import request: " + what, invalid_case(I, argv, setup, made=("polished_models/q_polished.onnx",))))
    for n in sorted({k for k in range(1, len(big))} if T else {k for k in range(1, len(big), 7)} | set(range(1, 40))):
        if n < len(big) - 12: C.append(("import request: model cut to %d of %d bytes" % (n, len(big)), invalid_case(I, ["--input", "q.onnx"], {"q.onnx": big[:n]})))
    bad_in, bad_out = [(3,), (1, 4), (1, 2, 3), (2, 1, 2, 2), (1, 1, 2, 2, 2), ()], [(3,), (2, 3), (1, 2, 3), (1, 2, 1, 1), ()]
    v = lambda sh, k=0: vals(sh, k)
    for n in (1, 2, 3):
        for k in range(n):
            for sh in bad_in:
                s = {"ref/input_%d.pb" % i: pb(v(sh if i == k else (1, 1, 2, 2), i)) for i in range(n)}; s["ref/output_0.pb"] = pb(v((1, 3)))
                C.append(("parse request: input %d of %d has shape %s" % (k, n, sh), invalid_case(Pz, ["--input", "ref"], s, made=["ref/input_%d.data" % i for i in range(n) if i != k] + ["ref/output_0.data"])))
            for sh in bad_out:
                s = {"ref/output_%d.pb" % i: pb(v(sh if i == k else (1, 4), i)) for i in range(n)}; s["ref/input_0.pb"] = pb(v((1, 1, 2, 2)))
                C.append(("parse request: output %d of %d has shape %s" % (k, n, sh), invalid_case(Pz, ["--input", "ref"], s, made=["ref/output_%d.data" % i for i in range(n) if i != k] + ["ref/input_0.data"])))
    a, b = pb(v((1, 2, 2, 3))), pb(v((1, 5)))
    for n in range(len(a)): C.append(("parse request: input cut to %d of %d bytes" % (n, len(a)), invalid_case(Pz, ["--input", "ref"], {"ref/input_0.pb": a[:n], "ref/output_0.pb": b}, made=["ref/output_0.data"])))
    for n in range(len(b)): C.append(("parse request: output cut to %d of %d bytes" % (n, len(b)), invalid_case(Pz, ["--input", "ref"], {"ref/input_0.pb": a, "ref/output_0.pb": b[:n]}, made=["ref/input_0.data"])))
    for what, argv, setup in (("empty folder", ["--input", "ref"], {"ref/x": b""}), ("no outputs", ["--input", "ref"], {"ref/input_0.pb": a}), ("no inputs", ["--input", "ref"], {"ref/output_0.pb": b}), ("no such folder", ["--input", "nowhere"], {}), ("no argument", [], {}),
                              ("inputs not numbered from 0", ["--input", "ref"], {"ref/input_1.pb": a, "ref/output_0.pb": b}), ("outputs not numbered from 0", ["--input", "ref"], {"ref/input_0.pb": a, "ref/output_1.pb": b})):
        C.append(("parse request: " + what, invalid_case(Pz, argv, setup, made=["ref/input_0.data", "ref/output_0.data"])))
    for what, argv, setup in (("no such model", ["--model", "x.onnx", "--shape", "1", "4"], {}), ("no shape", ["--model", "q.onnx"], {"q.onnx": mod}), ("batch of two", ["--model", "q.onnx", "--shape", "2", "4"], {"q.onnx": mod}),
                              ("five extents", ["--model", "q.onnx", "--shape", "1", "1", "1", "1", "4"], {"q.onnx": mod}), ("no such file", ["--model", "q.onnx", "--shape", "1", "4", "--file", "n.wav"], {"q.onnx": mod}), ("a text file", ["--model", "q.onnx", "--shape", "1", "4", "--file", "n.txt"], {"q.onnx": mod, "n.txt": b"x"}), ("a png file", ["--model", "q.onnx", "--shape", "1", "4", "--file", "n.png"], {"q.onnx": mod, "n.png": b"x"})):
        C.append(("generate request: " + what, invalid_case(G, argv, setup, lambda: refdata.shims([]))))
    # faults
    for p in programs(T):
        for what, over in (("its own results", lambda x: x), ("longer files", lambda x: x + b"tail" * 40), ("shorter files", lambda x: x[:len(x) // 2]), ("empty files", lambda x: b""), ("files of equal size", lambda x: b"#" * len(x))):
            C.append(("%s over %s" % (p.name, what), twice_case(p, over)))
        if counts is None: continue
        nw, nr = counts[p.name]
        for start in ("fresh", "over", "again"):
            for kind in (FAIL, FULL, PARTIAL, KILL, TORN):
                for at in range(nw + 2): C.append(("%s (%s): write operation %d %s" % (p.name, start, at, KINDS[kind]), fault_case(p, start, 0, kind, at)))
            for at in range(nr):
                C.append(("%s (%s): read operation %d %s" % (p.name, start, at, KINDS[FAIL]), fault_case(p, start, 1, FAIL, at)))
        if T or p.name.startswith("import of a network of one Relu"):
            for k1, k2 in ((TORN, PARTIAL), (PARTIAL, TORN)) if not T else itertools.product((FULL, PARTIAL, TORN), (FAIL, PARTIAL, TORN)):
                for a in range(nw):
                    for b in range(nw): C.append(("%s: write operation %d %s, then %d of the next run %s" % (p.name, a, KINDS[k1], b, KINDS[k2]), fault_case(p, "fresh", 0, k1, a, (k2, b))))
    return C

def check(tier, libobjs, root, only=None):
    so = os.environ.get("VERIF_IOFAULT") or os.path.join(root, "iofault.so")
    if not os.environ.get("VERIF_IOFAULT"):
        r = nmc.sh("gcc -O1 -fPIC -shared -w %s/iofault.c -o %s -ldl" % (nmc.HERE, so))
        if r.returncode: raise RuntimeError(r.stdout)
        env = dict(os.environ, LD_PRELOAD=so, VERIF_IOFAULT=so); out = os.path.join(root, "result.json"); objs = os.path.join(root, "objs"); open(objs, "w").write(" ".join(libobjs))
        p = subprocess.run([sys.executable, "-B", os.path.join(nmc.HERE, "run.py"), "N09", tier, out, objs] + ([",".join(map(str, only))] if only is not None else []), env=env)
        if p.returncode: raise RuntimeError("the check's process ended with %d" % p.returncode)
        return json.load(open(out))
    keep = sys.stdout; sys.stdout = io.StringIO(); sys.path.insert(0, os.path.join(REPO, "onnx_import"))
    try: import onnx_to_pico_cnn                                     # warms the modules the children share
    except Exception: pass
    finally: sys.stdout = keep
    ctx = Ctx(); ctx.clean, counts, viol = {}, {}, []
    broken = {}
    for k, p in enumerate(programs(tier == "thorough")):
        d = os.path.join(root, "clean%d" % k); os.makedirs(d)
        try:
            ctx.clean[p.name] = clean_run(p, d); r = ctx.clean[p.name][2]
            shutil.rmtree(d); os.makedirs(d); p.setup(d); counts[p.name] = (r.count, p.run(d, (1, NONE, -1, 0)).count)
        except Bad as e: broken[p.name] = str(e); counts[p.name] = (0, 0)
        shutil.rmtree(d)
    C = cases(tier, counts)
    sel = list(range(len(C))) if only is None else [i for i in only if i < len(C)]
    for n, e in broken.items():
        i = [i for i in range(len(C)) if C[i][0].startswith(n + " over")][0]; viol.append(dict(idx=i, desc=C[i][0], msg=e))
    sel = [i for i in sel if not any(C[i][0].startswith(n + " ") for n in broken)]
    steps, seen = run_forked(C, sel, root, ctx, viol)
    viol.sort(key=lambda v: v["idx"])
    return dict(total=len(C), cases=len(sel), checks=steps, steps=steps, distinct=len(seen), complete=True, samples=[C[i][0] for i in sel[::max(1, len(sel) // 7)]][:8], violations=viol,
                counters={"write operations of the undisturbed runs": sum(c[0] for c in counts.values()), "read operations of the undisturbed runs": sum(c[1] for c in counts.values()), "program runs": steps},
                rules=["one case per refused or accepted model, per request that cannot be carried out, per (program, earlier results, failing operation, kind of failure); states are cases, transitions are program runs"])
