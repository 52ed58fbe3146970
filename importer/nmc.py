"""Machinery of the importer checks: runs the real importer (through its command line entry point) on every model of an
enumerated family, compiles every generated network as the generated Makefile does (plus AddressSanitizer), executes
scripts on them and compares with the reference evaluation of the model.  See DESIGN.md, section 'Importer checks'."""
import os, sys, io, json, struct, time, shutil, subprocess, hashlib, re, traceback, tempfile, glob
import concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PICO_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "shim"), HERE]
import numpy as np
np.float = float            # the importer targets numpy 1.16
np.int = int; np.bool = bool; np.object = object
import onnx, onnxref
from onnx import helper, numpy_helper, shape_inference
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
CXX = os.environ.get("NMC_CXX", "g++")
CXXFLAGS = "-std=c++11 -O0 -w -DDEBUG=0 -DINFO=0 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"

class Case(object):
    """One enumerated model (or script over models).
    build() -> list of (ModelProto, [input arrays]) ; script(k) lines are given in terms of those models."""
    __slots__ = ("desc", "build", "expect", "script", "opts")
    def __init__(self, desc, build, expect="produce", script=None, **opts):
        self.desc, self.build, self.expect, self.script, self.opts = desc, build, expect, script, opts

# ------------------------------------------------------------------------------------------- building models
def vals(shape, seed=0, scale=0.125, off=0.0):
    """Deterministic values, pairwise distinct within a tensor of up to 97 elements and across small seeds."""
    n = int(np.prod(shape, dtype=int)) if len(shape) else 1
    k = np.arange(n)
    v = ((k * 37 + seed * 11 + 5) % 97 - 48) * scale + seed / 64.0 + off
    return v.astype(np.float32).reshape(shape)

class M(object):
    """Small model builder."""
    def __init__(self, shape, name="x", list_inits=True, opset=9):
        self.nodes, self.inits, self.k, self.opset, self.list_inits = [], [], 0, opset, list_inits
        self.inputs = [(name, list(shape))] if shape is not None else []
        self.x = name
        self.order = None
    def fresh(self, p): self.k += 1; return "%s%d" % (p, self.k)
    def param(self, arr, name=None):
        name = name or self.fresh("p")
        self.inits.append(numpy_helper.from_array(np.asarray(arr), name)); return name
    def op(self, op, inputs, name=None, out=None, nout=1, **a):
        outs = out if isinstance(out, list) else [out or self.fresh("t")] + [self.fresh("u") for _ in range(nout - 1)]
        self.nodes.append(helper.make_node(op, [inputs] if isinstance(inputs, str) else list(inputs), outs, name=name, **a))
        return outs[0]
    def const(self, arr, name=None):
        return self.op("Constant", [], out=name, value=numpy_helper.from_array(np.asarray(arr)))
    def done(self, *outs, declared=None):
        """declared: shape to declare for the output (default: true shape; None entries: unknown)"""
        g = helper.make_graph(self.nodes, "g", [helper.make_tensor_value_info(n, 1, s) for n, s in self.inputs], [], self.inits)
        if self.list_inits:
            g.input.extend(helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)) for t in self.inits)
        m = helper.make_model(g, opset=self.opset)
        v = onnxref.evaluate(m, None)
        for o in outs:
            m.graph.output.append(helper.make_tensor_value_info(o, onnxref.elem_type(v[o]), declared or list(v[o].shape)))
        return m

def reference(model, inputs):
    """Expected outputs and, per element, whether float32 arithmetic on the model is well defined there."""
    out = []
    name = [i.name for i in model.graph.input if i.name not in {t.name for t in model.graph.initializer}]
    for x in inputs:
        v = onnxref.evaluate(model, {name[0]: x})
        out.append(v[model.graph.output[0].name])
    return out

def write_data(path, x, y, tol=None):
    x, y = np.asarray(x, np.float32), np.asarray(y, np.float64)
    fin = np.abs(y[np.isfinite(y)])
    top = float(fin.max()) if fin.size else 1.0
    # "exact": one rounding of a float; "tight": a handful of roundings
    t = {"exact": 1.2e-7, "tight": 1e-6}[tol] * top if isinstance(tol, str) else tol if tol is not None else 1e-5 * max(1.0, top)
    with open(path, "wb") as f:
        f.write(struct.pack("%di" % (x.ndim + 1), x.ndim, *x.shape) + struct.pack("%di" % (y.ndim + 1), y.ndim, *y.shape) + struct.pack("d", t))
        f.write(np.ascontiguousarray(x).tobytes() + np.ascontiguousarray(y).tobytes() + b"\1" * y.size)

def write_params(path, model):
    """The values of every initializer some node uses as a kernel, bias, normalisation parameter or addend."""
    used = {i for n in model.graph.node if n.op_type in ("Conv", "Gemm", "MatMul", "BatchNormalization", "Add", "Transpose") for i in n.input}
    with open(path, "wb") as f:
        for t in model.graph.initializer:
            if t.name in used:
                a = numpy_helper.to_array(t).astype(np.float32).ravel()
                f.write(struct.pack("i", a.size) + a.tobytes())

# ------------------------------------------------------------------------------------------- running the importer
def run_importer(folder, model, name="m", full_shapes=False):
    """Runs the importer's command line entry point in this (forked) process. Returns (produced, log)."""
    os.makedirs(folder, exist_ok=True); os.chdir(folder)
    path = os.path.join(folder, name + ".onnx")
    with open(path, "wb") as f: f.write(model.SerializeToString())
    shape_inference.FULL = full_shapes
    d = os.path.join(REPO, "onnx_import")
    if d not in sys.path: sys.path.insert(0, d)
    log, keep, argv = io.StringIO(), (sys.stdout, sys.stderr), sys.argv
    sys.stdout = sys.stderr = log; sys.argv = ["onnx_to_pico_cnn.py", "--input", path]
    try:
        import onnx_to_pico_cnn
        onnx_to_pico_cnn.main()
    except SystemExit as e: log.write("\nexit(%s)" % (e.code,))
    except Exception: log.write("\n" + traceback.format_exc())
    finally:
        sys.stdout, sys.stderr = keep; sys.argv = argv
    gen = os.path.join(folder, "generated_code", name)
    return os.path.exists(os.path.join(gen, "network.cpp")), log.getvalue()

def run_child(folder, model, name, hashseed):
    """As run_importer, in a fresh Python process with that hash seed (None: in a forked child)."""
    if hashseed is None:
        p = os.fork()
        if p == 0:
            try: run_importer(folder, model, name)
            finally: os._exit(0)
        os.waitpid(p, 0); log = ""
    else:
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, "model.in"), "wb") as f: f.write(model.SerializeToString())
        code = "import sys; sys.path.insert(0, %r); import nmc, onnx; print(nmc.run_importer(%r, onnx.ModelProto.FromString(open(%r, 'rb').read()), %r)[1][-800:])" % (HERE, folder, os.path.join(folder, "model.in"), name)
        r = subprocess.run([sys.executable, "-B", "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hashseed), PICO_REPO=REPO), timeout=50)
        log = r.stdout
    return os.path.exists(os.path.join(folder, "generated_code", name, "network.cpp")), log

def import_case(idx, case, root):
    """In a forked child: builds the case's models, imports them, writes reference data. Result goes to <folder>/result.json"""
    folder = os.path.join(root, str(idx)); os.makedirs(folder)
    res = {"models": []}
    for mi, (model, inputs) in enumerate(case.build()):
        sub = os.path.join(folder, str(mi))
        exp = reference(onnx.ModelProto.FromString(model.SerializeToString()), inputs)
        name = case.opts.get("names", ["m"] * 99)[mi]
        if case.opts.get("over") and mi == 0:           # another model was imported in the same place before (same model name)
            for other, _ in case.opts["over"](): run_child(sub, other, name, None)
        if case.opts.get("hashseeds"): ok, log = run_child(sub, model, name, case.opts["hashseeds"][mi])
        else: ok, log = run_importer(sub, model, name=name, full_shapes=case.opts.get("full_shapes", False))
        if case.opts.get("params"): write_params(os.path.join(sub, "params"), model)
        for k, (x, y) in enumerate(zip(inputs, exp)): write_data(os.path.join(sub, "d%d" % k), x, y, case.opts.get("tol"))
        res["models"].append({"ok": ok, "log": log[-1500:], "n": len(inputs), "name": name, "outrank": exp[0].ndim if exp else 0})
        if case.opts.get("post"):
            m = case.opts["post"](sub, model, res["models"][-1])
            if m: res.setdefault("post", m)
    with open(os.path.join(folder, "result.json"), "w") as f: json.dump(res, f)

def import_all(cases, root):
    """Forks one process per case (the importer is a command line tool: one model per process)."""
    sys.path.insert(0, os.path.join(REPO, "onnx_import"))
    keep = sys.stdout; sys.stdout = io.StringIO()
    warm = None
    try:
        import onnx_to_pico_cnn  # noqa  warmed up once, shared by the forked processes
    except SystemExit as e: warm = "importing onnx_to_pico_cnn.py exits with %s" % e.code
    except Exception: warm = traceback.format_exc()
    finally: sys.stdout = keep
    pids, nxt, res = {}, 0, {}
    sys.stdout.flush()
    W = JOBS
    def chunk(lo):
        hangs = 0
        for i in range(lo, len(cases), W):
            if hangs >= 2: os.makedirs(os.path.join(root, str(i)), exist_ok=True); open(os.path.join(root, str(i), "skipped"), "w").close(); continue
            p = os.fork()
            if p == 0:
                rc = 7
                try: import_case(i, cases[i], root); rc = 0
                except BaseException:
                    os.makedirs(os.path.join(root, str(i)), exist_ok=True)
                    open(os.path.join(root, str(i), "error"), "w").write(traceback.format_exc())
                finally: os._exit(rc)
            t0 = time.time()
            while True:
                q, st = os.waitpid(p, os.WNOHANG)
                if q: break
                if time.time() - t0 > 60:
                    hangs += 1; os.kill(p, 9); os.waitpid(p, 0); open(os.path.join(root, str(i), "hang"), "w").close(); break
                time.sleep(0.0005 if time.time() - t0 < 0.05 else 0.01)
    for w in range(W):
        p = os.fork()
        if p == 0:
            try: chunk(w)
            finally: os._exit(0)
        pids[p] = w
    while pids: pids.pop(os.wait()[0], None)
    out = []
    for i, c in enumerate(cases):
        f = os.path.join(root, str(i), "result.json")
        if os.path.exists(f): out.append(json.load(open(f)))
        else:
            e = os.path.join(root, str(i), "error")
            if os.path.exists(os.path.join(root, str(i), "skipped")): out.append({"skipped": True, "models": []}); continue
            out.append({"hang": True, "models": []} if os.path.exists(os.path.join(root, str(i), "hang")) else {"broken": open(e).read() if os.path.exists(e) else "importing process died", "models": []})
    return out, warm

# ------------------------------------------------------------------------------------------- compiling
def guard(header):
    m = re.search(r"^\s*#\s*ifndef\s+(\w+)\s*\n\s*#\s*define\s+\1\b", header, re.M)
    return m.group(1) if m else None

def sh(cmd, timeout=600):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

class Builder(object):
    def __init__(self, root, libobjs):
        self.root, self.libobjs = root, libobjs
        self.inc = "-I%s -iquote %s" % (REPO, HERE)
        self.pch = os.path.join(root, "pch"); os.makedirs(self.pch)
        shutil.copy(os.path.join(HERE, "nrt.h"), self.pch)
        # one archive, one precompiled header, one object with the runtime
        self.lib = os.path.join(root, "libpico.a")
        jobs = ["ar rcs %s %s" % (self.lib, " ".join(libobjs)),
                "%s %s %s -x c++-header %s/nrt.h -o %s/nrt.h.gch" % (CXX, CXXFLAGS, self.inc, self.pch, self.pch),
                "%s %s %s -g1 -c %s/nrt_main.cpp -o %s/main.o" % (CXX, CXXFLAGS, self.inc, HERE, root)]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for c, r in zip(jobs, ex.map(sh, jobs)):
                if r.returncode: raise RuntimeError(c + "\n" + r.stdout[-3000:])
    def tu(self, path, models, namespaces=True):
        """models: list of (global id, generated folder)"""
        with open(path, "w") as f:
            f.write('#include "nrt.h"\n')
            for gid, d in models:
                g = guard(open(os.path.join(d, "network.h")).read())
                if namespaces:
                    if g: f.write("#undef %s\n" % g)
                    f.write('namespace m%d {\n#include "%s/network.cpp"\n}\nNRT_REGISTER(%d, m%d::Network)\n' % (gid, d, gid, gid))
                else:
                    f.write('#define Network Network_%d\n#include "%s/network.cpp"\nNRT_REGISTER(%d, Network)\n' % (gid, d, gid))
    def compile(self, path):
        return sh("%s %s -I%s %s -c %s -o %s.o" % (CXX, CXXFLAGS, self.pch, self.inc, path, path))
    def batch(self, bi, models):
        """Compiles a batch; returns (exe, {gid: compiler message})"""
        base = os.path.join(self.root, "b%d" % bi)
        objs, bad = [], {}
        self.tu(base + ".cpp", models)
        r = self.compile(base + ".cpp")
        if r.returncode == 0: objs.append(base + ".cpp.o")
        else:
            for gid, d in models:           # each on its own, the way the generated Makefile compiles it
                if len(bad) >= 5: bad[gid] = None; continue      # enough found in this batch: the rest is skipped
                p = "%s_%d.cpp" % (base, gid)
                self.tu(p, [(gid, d)], False)
                r = self.compile(p)
                if r.returncode == 0: objs.append(p + ".o")
                else:
                    e = [l for l in r.stdout.splitlines() if "error:" in l]
                    bad[gid] = (e or r.stdout.splitlines() or ["?"])[0][-300:]
        if not objs: return None, bad
        exe = base + ".exe"
        r = sh("%s %s %s %s/main.o %s -o %s -ljpeg -lm -lpthread" % (CXX, CXXFLAGS, " ".join(objs), self.root, self.lib, exe))
        if r.returncode == 0: return exe, bad
        for gid, d in models:                                    # the one that does not link is reported, the others run
            if gid in bad: continue
            p = "%s_%d.cpp" % (base, gid); self.tu(p, [(gid, d)], False)
            c = self.compile(p)
            l = sh("%s %s %s.o %s/main.o %s -o %s.x -ljpeg -lm -lpthread" % (CXX, CXXFLAGS, p, self.root, self.lib, p)) if c.returncode == 0 else c
            if l.returncode: bad[gid] = "does not link: " + ([x for x in l.stdout.splitlines() if "undefined" in x or "error" in x or "multiple" in x] or ["?"])[0][-250:]
            else: objs.append(p + ".o")
        objs = [o for o in objs if o != base + ".cpp.o"]
        if not objs: return None, bad
        r = sh("%s %s %s %s/main.o %s -o %s -ljpeg -lm -lpthread" % (CXX, CXXFLAGS, " ".join(dict.fromkeys(objs)), self.root, self.lib, exe))
        if r.returncode: raise RuntimeError("linking: " + r.stdout[-2000:])
        return exe, bad

# ------------------------------------------------------------------------------------------- whole check
def default_script(k, models, params=False):
    """new, load, run all inputs, run the first again, delete"""
    n = models[0]["n"]
    return ["new 0 @0", "load 0 @0"] + (["params 0 @0"] if params else []) + ["run 0 @0.%d" % j for j in list(range(n)) + [0]] + ["del 0"]

def run_cases(cases, libobjs, root, only=None):
    """Returns dict for check.py. Case indices are positions in 'cases'."""
    part = int(os.environ.get("VERIF_MT", "0")) if only is None else 0      # mutation surveys only: every n-th case, stop at the first alarm
    sel = list(range(0, len(cases), part or 1)) if only is None else only
    todo = [cases[i] for i in sel]
    viol, counters, steps, checks, outcomes, samples = [], {}, 0, 0, set(), []
    def count(k, n=1): counters[k] = counters.get(k, 0) + n
    def fail(pos, msg): viol.append(dict(idx=sel[pos], desc=todo[pos].desc, msg=msg))
    t0 = time.time(); skipped, stop = [], [0]
    bld = concurrent.futures.ThreadPoolExecutor(1).submit(Builder, root, libobjs)   # compiled while models are imported
    builder = bld.result()
    res, warm = import_all(todo, root)
    if warm: raise_or = fail(0, "the importer cannot be started: " + warm[-400:])
    t1 = time.time()
    gid, work = 0, []           # work: (pos, [(gid, folder)])
    for pos, (c, r) in enumerate(zip(todo, res)):
        if warm: continue
        if r.get("skipped"): skipped.append(pos); continue        # several imports of this worker did not end
        if r.get("hang"): fail(pos, "the importer did not finish within 60 s"); continue
        if r.get("broken"): raise RuntimeError("case %s: %s" % (c.desc, r["broken"][-1500:]))
        if r.get("post"): fail(pos, r["post"]); continue
        bad = [m for m in r["models"] if not m["ok"]]
        if bad:
            count("models refused")
            if c.expect == "produce": fail(pos, "the importer refused a supported model: " + " / ".join(bad[0]["log"].strip().splitlines()[-2:])[-300:])
            else: outcomes.add("refused")
            checks += 1; steps += 1
            continue
        if c.expect == "refuse": fail(pos, "the importer produced a network for a model it cannot represent"); continue
        gs = []
        for mi, m in enumerate(r["models"]):
            gs.append((gid, os.path.join(root, str(pos), str(mi), "generated_code", m["name"]))); gid += 1
        work.append((pos, gs))
        count("networks generated", len(gs))
    # batches
    size = max(1, min(40, -(-len(work) // (JOBS * 2))))
    batches = [work[i:i + size] for i in range(0, len(work), size)]
    def go(bi):
        ws = batches[bi]
        # nothing is skipped unless enough was found already, or something was found and time is short
        if len(viol) + stop[0] >= (1 if part else 60) or (len(viol) + stop[0] and time.time() - t0 > 420): return ws, None, ""
        exe, bad = builder.batch(bi, [g for _, gs in ws for g in gs])
        with open(os.path.join(root, "c%d" % bi), "w") as f:
            for pos, gs in ws:
                if any(g in bad for g, _ in gs): continue
                script = todo[pos].script(pos, res[pos]["models"]) if todo[pos].script else default_script(pos, res[pos]["models"], todo[pos].opts.get("params"))
                f.write("case %d\n" % pos)
                for l in script:
                    w = l.split()
                    if w[0] == "new": w[2] = str(gs[int(w[2][1:])][0])
                    elif w[0] == "params": w[2] = os.path.join(root, str(pos), w[2][1:], "params")
                    elif w[0] == "load": w[2] = os.path.join(gs[int(w[2][1:])][1], "network.weights.bin")
                    elif w[0] == "run": a, b = w[2][1:].split("."); w[2] = os.path.join(root, str(pos), a, "d" + b)
                    f.write(" ".join(w) + "\n")
                f.write("end\n")
        out = ""
        if exe:
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
            r = subprocess.run([exe, os.path.join(root, "c%d" % bi)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3000, env=env)
            if r.returncode: raise RuntimeError("runtime ended with %d: %s" % (r.returncode, r.stderr[-500:]))
            out = r.stdout
        stop[0] += len(bad) + sum(1 for l in out.splitlines() if l.startswith("F "))
        for e in glob.glob(os.path.join(root, "b%d.*" % bi)) + glob.glob(os.path.join(root, "b%d_*" % bi)): os.unlink(e)
        return ws, bad, out
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for ws, bad, out in ex.map(go, range(len(batches))):
            got = {}
            for l in out.splitlines():
                w = l.split(" ", 2)
                if len(w) == 3 and w[0] in "PF": got[int(w[1])] = (w[0], w[2])
            if bad is None: skipped.extend(pos for pos, _ in ws); continue
            for pos, gs in ws:
                b = [bad[g] for g, _ in gs if g in bad]
                if None in b: skipped.append(pos); continue
                if b: fail(pos, "the generated network does not compile: " + b[0]); continue
                if pos not in got and "S" in out.splitlines(): skipped.append(pos); continue
                if pos not in got: raise RuntimeError("no result for case " + todo[pos].desc)
                k, t = got[pos]
                if k == "F": fail(pos, t)
                else:
                    a, b_, h = t.split(); steps += int(a); checks += int(b_); outcomes.add(h)
    for i in range(0, len(todo), max(1, len(todo) // 6)): samples.append(todo[i].desc)
    counters["seconds importing"] = int(t1 - t0); counters["seconds compiling and running"] = int(time.time() - t1)
    viol.sort(key=lambda v: v["idx"])
    return dict(total=len(cases), cases=len(todo), checks=checks, steps=steps, distinct=len(outcomes), complete=not skipped and not part, samples=samples[:8], violations=viol, counters=counters)
