#!/usr/bin/env python3
"""Mutation survey of the checks (development tool, no check uses it).

  python3 tools/mutate.py FILE_GLOB... [--limit N] [--lanes 8] [--out /tmp/mt/out.jsonl]

Applies one small change at a time to a scratch copy of /repo (never to /repo itself), runs the checks that cover the
changed file until one alarms, and lists the changes nothing noticed. A survivor is either an equivalent change, a
change outside every property, or a gap in a check."""
import sys, os, re, json, glob, subprocess, shutil, random, concurrent.futures, argparse, time
SRC = "/repo"
MAP = [
 (r"pico-cnn/layers/convolution\.", "L01 L02 E01"),
 (r"pico-cnn/layers/fully_connected\.", "L06 E01"),
 (r"pico-cnn/layers/batch_norm", "L07 E01"),
 (r"pico-cnn/layers/layer\.", "L01 E01"),
 (r"pooling/global", "L05 E01"),
 (r"pooling/", "L03 L04 E01"),
 (r"activation_functions/lrn", "L10"),
 (r"activation_functions/softmax", "L09"),
 (r"activation_functions/", "L08 E01"),
 (r"pico-cnn/(tensor|utils)\.", "T01 T02 T03 T04 T05 E04 E01"),
 (r"io/read_binary_weights", "I01 I02"),
 (r"io/read_binary_reference", "I03"),
 (r"io/read_mnist", "I04"),
 (r"io/read_jpeg", "I07"),
 (r"io/read_pgm", "I05"),
 (r"io/write_pgm", "I05 I08"),
 (r"io/write_float", "I06 I08"),
 (r"io/read_(means|imagenet)", "I06"),
 (r"onnx_import/backend\.py", "N02 N03 N05 N01 N04 N07 N06"),
 (r"onnx_import/constprop", "N05 N03 N02 N04"),
 (r"onnx_import/(pico_cnn|code_templates)", "N01 N03 N02 N05 N04 N07 N06"),
 (r"onnx_import/memory", "N02 N01 N07"),
 (r"onnx_import/(compute_graph|ir|utils)", "N02 N05 N03 N04"),
 (r"onnx_import/(onnx_importer|onnx_to)", "N02 N07 N06"),
 (r"util/(parse|generate)", "N06 N09"), (r"util/", "N08 N09"), (r"generate_dummy", "N06"), (r"examples/", "X01"),
]
def checks_for(f):
    for r, c in MAP:
        if re.search(r, f): return c.split()
    return []

CPP = [
 (r"(?<![<>=!+\-])<(?![<=>])(?=[^>]*[;)])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
 (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r"\+=", ["-=", "="]), (r"\*=", ["="]), (r"-=", ["+="]),
 (r"\b0\b(?![.x])", ["1"]), (r"\b1\b(?![.])", ["0", "2"]), (r"\b2\b(?![.])", ["1", "3"]), (r"\b3\b(?![.])", ["2", "4"]), (r"\b4\b", ["3", "8"]),
 (r"\buint32_t\b", ["uint16_t", "uint8_t"]), (r"\bsize_t\b", ["uint16_t"]), (r"\bint32_t\b", ["int16_t"]), (r"\bfp_t (\w+) =", [r"int \1 ="]), (r"\buint8_t\b", ["int8_t"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\breturn (.+);", [r"return 0;"]), (r"!(?=[\w(])", [""]),
 (r"height", ["width"]), (r"width", ["height"]), (r"\brow\b", ["col"]), (r"\bcol\b", ["row"]), (r"channel", ["batch"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"\[2\]", ["[3]"]), (r"\[3\]", ["[2]"]),
 (r"\bMAX\b", ["MIN"]), (r"INFINITY", ["0"]), (r"FLT_MIN|FLT_MAX", ["0"]), (r"expf", ["exp"]), (r"break;", ["continue;"]), (r"continue;", ["break;"]),
 (r"^(\s*)([\w>\-.\[\]*(]+.*;)\s*$", [r"\1;"]),
]
PY = [
 (r"(?<![<>=!\-])<(?![<=>])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
 (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot ", [""]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" // ", [" * "]), (r"\+=", ["="]),
 (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b3\b", ["2"]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\bNone\b", ["0"]),
 (r"\breturn (.+)$", ["return None"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["pass"]), (r"^(\s+)(self\.[\w.]+\(.*\)|\w[\w.\[\]\"']* = .*|\w[\w.]*\.(append|update|extend|add|remove)\(.*\))$", [r"\1pass"]),
 (r"\[0\]", ["[1]", "[-1]"]), (r"\[1\]", ["[0]"]), (r"\[2\]", ["[1]", "[3]"]), (r"\[3\]", ["[2]"]), (r"\[1:\]", ["[:]", "[2:]"]), (r"\[2:\]", ["[1:]"]), (r"\[-1\]", ["[0]"]),
]
def code_part(line, py):
    return line.split("#")[0] if py and '"' not in line and "'" not in line else (line.split("//")[0] if not py else line)

def mutants(path):
    py = path.endswith(".py")
    lines = open(os.path.join(SRC, path)).read().split("\n")
    out, seen, incomment = [], set(), False
    for i, l in enumerate(lines):
        st = l.strip()
        if not py:
            if st.startswith("/*"): incomment = True
            if incomment:
                if "*/" in st: incomment = False
                continue
            if st.startswith(("//", "#include", "* ", "*\n")) or "PRINT_" in st: continue
        elif st.startswith(("#", "import", "from", '"""', "print(")): continue
        code = code_part(l, py)
        for rx, reps in (PY if py else CPP):
            for m in re.finditer(rx, code):
                for rep in reps:
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l and (i, new) not in seen:
                        seen.add((i, new)); out.append((path, i, l, new))
    # swap adjacent statements of the same indentation
    for i in range(len(lines) - 1):
        a, b = lines[i], lines[i + 1]
        if not py and a.strip().endswith(";") and b.strip().endswith(";") and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()) and a != b and "PRINT_" not in a + b and not a.strip().startswith(("/", "*", "return")):
            out.append((path, i, a + "\n" + b, b + "\n" + a))
    return out

def lane_setup(k):
    d = "/tmp/mt/%d" % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s/ --one-top-level=repo && mkdir %s/verif && cp -a /verif/bin /verif/harness /verif/importer /verif/known_findings.jsonl %s/verif/" % (d, d, d), shell=True, check=True)
    return d

def run_one(d, m, build):
    path, i, old, new = m
    f = os.path.join(d, "repo", path)
    orig = open(f).read()
    lines = orig.split("\n")
    n = old.count("\n") + 1
    assert "\n".join(lines[i:i + n]) == old, (path, i)
    lines[i:i + n] = new.split("\n")
    t = time.time()
    try:
        open(f, "w").write("\n".join(lines))
        env = dict(os.environ, PICO_REPO=d + "/repo", VERIF_JOBS="1", VERIF_REUSE_OBJECTS=d + "/obj", VERIF_MT=os.environ.get("VERIF_MT", "1"))
        for c in checks_for(path):
            try: r = subprocess.run(["timeout", os.environ.get("MT_TIMEOUT", "1500"), "python3", d + "/verif/bin/check.py", c, "quick"], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            except Exception as e: return dict(res="error", why=str(e))
            if r.returncode == 1 and "VIOLATION" in r.stdout: return dict(res="caught", by=c, t=round(time.time() - t, 1))
            if r.returncode == 2 and "enumeration incomplete" in r.stdout: continue
            if r.returncode != 0:
                if "error:" in r.stdout: return dict(res="nobuild")
                return dict(res="broken", by=c, rc=r.returncode, out=r.stdout[-600:])
        return dict(res="SURVIVED", t=round(time.time() - t, 1))
    finally:
        open(f, "w").write(orig)
        for x in glob.glob(d + "/verif/.build/lib-*"): shutil.rmtree(x, ignore_errors=True)
        for x in glob.glob(d + "/verif/replays/*"): os.unlink(x) if os.path.isfile(x) else None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+"); ap.add_argument("--limit", type=int, default=0); ap.add_argument("--lanes", type=int, default=8)
    ap.add_argument("--out", default="/tmp/mt-out.jsonl"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    ms = []
    for g in a.files:
        for f in sorted(glob.glob(os.path.join(SRC, g), recursive=True)): ms += mutants(os.path.relpath(f, SRC))
    random.Random(a.seed).shuffle(ms)
    if a.limit: ms = ms[:a.limit]
    print("%d mutants" % len(ms), flush=True)
    if a.list:
        for m in ms: print(m)
        return
    import queue
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = __import__("threading").Lock()
    counts = {}
    def lane(k):
        d = lane_setup(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            r = run_one(d, m, True)
            r.update(file=m[0], line=m[1] + 1, old=m[2], new=m[3])
            with lock:
                counts[r["res"]] = counts.get(r["res"], 0) + 1
                open(a.out, "a").write(json.dumps(r) + "\n")
                if r["res"] in ("SURVIVED", "broken", "error"): print(r["res"], r.get("by", ""), "%s:%d" % (m[0], m[1] + 1), "|", m[2].strip(), "=>", m[3].strip(), r.get("out", "")[-200:].replace("\n", " / "), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(a.lanes) as ex: list(ex.map(lane, range(a.lanes)))
    print(counts)
main()
