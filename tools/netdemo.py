"""Demonstrations for planted bugs in the importer: imports a model with the working directory's importer, compiles the
generated network and runs it."""
import os, sys, subprocess, tempfile, shutil, struct, atexit, glob
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ["PICO_REPO"] = REPO = os.getcwd()
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import numpy as np, nmc, onnxref
from nmc import M, vals
TMP = tempfile.mkdtemp(); atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
MAIN = r'''
#include "network.h"
#include "pico-cnn/io/read_binary_weights.h"
#include <cstdio>
#include <vector>
using pico_cnn::naive::Tensor;
static Tensor *make(FILE *f) { int n, d[4] = {0}; fread(&n, 4, 1, f); fread(d, 4, n, f);
  return n == 4 ? new Tensor(d[0], d[1], d[2], d[3]) : n == 3 ? new Tensor(d[0], d[1], d[2]) : n == 2 ? new Tensor(d[0], d[1]) : new Tensor(d[0]); }
int main(int, char **a) { FILE *f = fopen(a[2], "rb"); Tensor *x = make(f), *y = make(f); int runs; fread(&runs, 4, 1, f);
  Network *net = new Network(); if (read_binary_weights(a[1], &net->kernels, &net->biases) != 0) return 3;
  FILE *o = fopen(a[3], "wb");
  for (int r = 0; r < runs; r++) { for (unsigned i = 0; i < x->num_elements(); i++) { float v; fread(&v, 4, 1, f); x->access_blob(i) = v; }
    for (unsigned i = 0; i < y->num_elements(); i++) y->access_blob(i) = 12345; net->run(x, y);
    for (unsigned i = 0; i < y->num_elements(); i++) { float v = y->access_blob(i); fwrite(&v, 4, 1, o); } }
  fclose(o); delete net; delete x; delete y; return 0; }
'''
_objs = None
def lib():
    global _objs
    if _objs is None:
        d = os.path.join(TMP, "lib"); os.makedirs(d)
        src = [os.path.join(p, f) for p, _, fs in os.walk(os.path.join(REPO, "pico-cnn")) for f in fs if f.endswith(".cpp")]
        ps = [subprocess.Popen(["g++", "-std=c++11", "-O1", "-w", "-DDEBUG=0", "-DINFO=0", "-I", REPO, "-c", s, "-o", os.path.join(d, "%d.o" % i)]) for i, s in enumerate(src)]
        assert not any(p.wait() for p in ps)
        _objs = glob.glob(os.path.join(d, "*.o"))
    return _objs
_n = 0
def imported(model, seed=None):
    """Folder of the generated code, or None if the importer refused."""
    global _n
    _n += 1; f = os.path.join(TMP, "m%d" % _n)
    ok, log = nmc.run_child(f, model, "m", seed)
    return os.path.join(f, "generated_code", "m") if ok else None
def compiled(folder, san=False):
    open(os.path.join(folder, "drive.cpp"), "w").write(MAIN)
    r = subprocess.run(["g++", "-std=c++11", "-O1", "-w", "-DDEBUG=0", "-DINFO=0"] + (["-fsanitize=address"] if san else []) + ["-I", REPO, os.path.join(folder, "drive.cpp"), os.path.join(folder, "network.cpp")] + lib() + ["-o", os.path.join(folder, "drive"), "-ljpeg", "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-600:])
    return r.returncode == 0
def outputs(folder, model, inputs, weights=None):
    want = nmc.reference(model, inputs)
    p = os.path.join(TMP, "in"); o = os.path.join(TMP, "out")
    sh = lambda a: struct.pack("%di" % (a.ndim + 1), a.ndim, *a.shape)
    with open(p, "wb") as f: f.write(sh(inputs[0]) + sh(want[0]) + struct.pack("i", len(inputs)) + b"".join(np.asarray(x, np.float32).tobytes() for x in inputs))
    if os.path.exists(o): os.unlink(o)
    r = subprocess.run([os.path.join(folder, "drive"), weights or os.path.join(folder, "network.weights.bin"), p, o], timeout=60, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1"))
    if r.returncode: return r.returncode, want
    return np.fromfile(o, np.float32), want
def right(model, inputs, refusal=False, **k):
    """The generated network computes the model (or, with refusal, the importer refuses it)."""
    f = imported(model)
    if f is None: print("refused"); return refusal
    if not compiled(f): return False
    got, want = outputs(f, model, inputs, **k)
    if isinstance(got, int): print("ended with", got); return False
    w = np.concatenate([np.asarray(y, float).ravel() for y in want])
    ok = got.shape == w.shape and bool((abs(got - w) <= 1e-4 * max(1, abs(w).max())).all())
    if not ok: print("outputs", got[:8], "right", w[:8])
    return ok
bad = 0
def need(x, what):
    global bad
    if not x: bad = 1; print("wrong:", what)
def done(): sys.exit(bad)
