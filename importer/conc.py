"""N10: network objects used by several threads at the same time (each thread its own object). The networks are generated by
the importer; they and the library are compiled for our scheduler (harness/ctl_sched.h), which executes every schedule up
to a preemption bound and checks every memory access for unordered conflicts."""
import os, re, subprocess, time, concurrent.futures
import nmc, families
from nmc import Case
WRAP = "fopen fread fclose fgetc fgets strtok rand srand fseek malloc free calloc realloc memcpy memset memmove pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort"
LINK = "-Wl," + ",".join("--wrap=" + f for f in WRAP.split())
FLAGS = "-std=c++11 -O1 -g1 -w -DDEBUG=0 -DINFO=0 -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove"
HARNESS = os.path.join(os.path.dirname(nmc.HERE), "harness")

def models(T):
    ST = families.stateful()
    out = [(n, ST[n]) for n in ST]
    for sh in ((1, 2, 2, 2), (1, 2, 2), (1, 2)):
        for ns, b in families.chains(sh, 1, None):
            if "drop" not in ns: out.append(("%s:%s" % ("x".join(map(str, sh)), " ".join(ns)), b))
    for r in (4, 3, 2):
        for o in families.PARAM_OPS[r]:
            out.append(("param rank=%d %s" % (r, o), lambda o=o, r=r: families.param_model([o], list(range(len(families.slots(o, 2, r)))), 2, r, None, True)))
    return out, len(ST)

def scenarios(names, nst, T):
    """(description, bound, [(kind, model index)])"""
    S = []; n = len(names); PB = 3 if T else 2
    both = [("run", "run"), ("life", "life"), ("run", "life"), ("load", "run"), ("load", "load"), ("make", "make"), ("make", "life")]
    for i in range(n):
        for a, b in both: S.append(("two threads: %s and %s of %s" % (a, b, names[i]), PB if (a, b) != ("life", "life") else PB - 1, [(a, i), (b, i)]))
        S.append(("three threads creating, loading, running and destroying %s" % names[i], 1, [("life", i)] * 3))
    for i in range(nst):
        for j in range(i + 1, nst) if T else [(i + k) % nst for k in (1, 5)]:
            for a, b in (("run", "run"), ("life", "life"), ("run", "life"), ("load", "run")):
                S.append(("two threads: %s of %s and %s of %s" % (a, names[i], b, names[j]), 1, [(a, i), (b, j)]))
    return S

def check(tier, objs, root, only=None):
    T = tier == "thorough"; t0 = time.time()
    ms, nst = models(T); names = [m[0] for m in ms]
    S = scenarios(names, nst, T)
    sel = set(range(len(S)) if only is None else only)
    used = sorted({i for k in sel for _, i in S[k][2]})
    viol, counters, skipped = [], {}, False
    def fail(k, msg): viol.append(dict(idx=k, desc=S[k][0], msg=msg))
    cases = [Case(names[i], ms[i][1] if isinstance(ms[i][1]()[0], tuple) else (lambda b=ms[i][1]: [b()])) for i in used]
    imp = os.path.join(root, "imp"); os.makedirs(imp)
    res, warm = nmc.import_all(cases, imp)
    bad = {}
    for p, (i, r) in enumerate(zip(used, res)):
        if warm: bad[i] = "the importer cannot be started: " + warm[-300:]
        elif r.get("broken"): raise RuntimeError("model %s: %s" % (names[i], r["broken"][-1500:]))
        elif r.get("hang"): bad[i] = "the importer did not finish within 60 s"
        elif r.get("skipped"): bad[i] = None
        elif not r["models"][0]["ok"]: bad[i] = "the importer refused a supported model: " + r["models"][0]["log"][-200:]
    folder = {i: os.path.join(imp, str(p), "0") for p, i in enumerate(used)}
    gen = {i: os.path.join(folder[i], "generated_code", "m") for i in used}
    good = [i for i in used if i not in bad]
    # everything in one executable; a network that does not compile is reported, the rest goes on
    inc = "-I%s -iquote %s -iquote %s" % (nmc.REPO, nmc.HERE, HARNESS)
    def tu(path, gs):
        with open(path, "w") as f:
            f.write('#include "nrt.h"\n')
            for i in gs:
                g = nmc.guard(open(os.path.join(gen[i], "network.h")).read())
                if g: f.write("#undef %s\n" % g)
                f.write('namespace m%d {\n#include "%s/network.cpp"\n}\nNRT_REGISTER(%d, m%d::Network)\n' % (i, gen[i], i, i))
        return nmc.sh("g++ %s %s -c %s -o %s.o" % (FLAGS, inc, path, path))
    def one(b):
        gs = good[b::W]
        if not gs: return []
        p = os.path.join(root, "t%d.cpp" % b)
        if tu(p, gs).returncode == 0: return [p + ".o"]
        out = []
        for i in gs:
            q = os.path.join(root, "t%d_%d.cpp" % (b, i)); r = tu(q, [i])
            if r.returncode == 0: out.append(q + ".o")
            else: bad[i] = "the generated network does not compile: " + ([l for l in r.stdout.splitlines() if "error" in l] or ["?"])[0][-250:]
        return out
    W = max(1, min(nmc.JOBS * 2, len(good)))
    with concurrent.futures.ThreadPoolExecutor(nmc.JOBS) as ex:
        main = ex.submit(nmc.sh, "g++ -std=c++17 -O2 -g1 -w -DDEBUG=0 -DINFO=0 %s -c %s/nconc.cpp -o %s/main.o" % (inc, nmc.HERE, root))
        no = [o for l in ex.map(one, range(W)) for o in l]
        if main.result().returncode: raise RuntimeError(main.result().stdout[-3000:])
    exe = os.path.join(root, "conc.exe")
    # instrumented objects first: where both sides emit an inline function, the instrumented one is used
    r = nmc.sh("g++ %s %s %s/main.o -o %s %s -ljpeg -lm -lpthread" % (" ".join(no), " ".join(objs), root, exe, LINK))
    if r.returncode:
        for k in sorted(sel)[:3]: fail(k, "the generated networks do not link: " + ([x for x in r.stdout.splitlines() if "undefined" in x or "error" in x or "multiple" in x] or ["?"])[0][-250:])
        todo = []
    else: todo = []
    t1 = time.time()
    for k in sorted(sel):
        b = [bad[i] for _, i in S[k][2] if i in bad]
        if b:
            if b[0] is None: skipped = True
            elif len(viol) < 40: fail(k, b[0])
        elif r.returncode == 0: todo.append(k)
    def shard(w):
        f = os.path.join(root, "s%d" % w)
        with open(f, "w") as o:
            for k in todo[w::nmc.JOBS]:
                o.write("case %d %d\n" % (k, S[k][1]))
                for t, (kind, i) in enumerate(S[k][2]): o.write("arm %s %d %s/network.weights.bin %s/d%d\n" % (kind, i, gen[i], folder[i], t % 2))
                o.write("end\n")
        r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=6000)
        if r.returncode: raise RuntimeError("runtime ended with %d: %s" % (r.returncode, r.stderr[-500:]))
        return r.stdout
    steps = checks = acc = 0; outcomes = set(); done = set()
    with concurrent.futures.ThreadPoolExecutor(nmc.JOBS) as ex:
        for out in ex.map(shard, range(nmc.JOBS)):
            for l in out.splitlines():
                w = l.split(" ", 2)
                if w[0] == "S": skipped = True
                elif w[0] == "F": fail(int(w[1]), w[2]); done.add(int(w[1]))
                elif w[0] == "P": a, b, h, n = w[2].split(); steps += int(a); checks += int(b); outcomes.add((w[1], h)); acc += int(n); done.add(int(w[1]))
    if not skipped and set(todo) - done: raise RuntimeError("no result for " + S[min(set(todo) - done)][0])
    counters.update({"networks generated": len(good), "monitored_accesses": acc, "seconds importing and compiling": int(t1 - t0), "seconds exploring": int(time.time() - t1)})
    viol.sort(key=lambda v: v["idx"])
    return dict(total=len(S), cases=len(sel), checks=checks, steps=steps, distinct=len(outcomes), complete=not skipped, samples=[S[k][0] for k in sorted(sel)[::max(1, len(sel) // 6)]][:8], violations=viol, counters=counters,
                rules=["one case per (models, what each thread does); transitions counts schedules executed on the real code; every memory access of library and generated code is checked for unordered conflicts"])
