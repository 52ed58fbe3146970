#!/usr/bin/env python3
"""Driver:  python3 bin/check.py <PROPERTY> [quick|thorough]      run a check
            python3 bin/check.py --replay <replay file>           re-run one recorded violation

Builds the library from /repo's current working tree (outside /repo), builds the property's harness, runs its
exhaustive enumeration, writes evidence/<id>.json, and prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, subprocess, hashlib, time, glob, re, shutil, concurrent.futures, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PICO_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "bin"))
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4

FLAVORS = {
    # -O1 with Address+UB sanitizer; DEBUG off as in the shipped library build
    "asan": dict(cxx="g++", flags="-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"),
    "fast": dict(cxx="g++", flags="-std=c++17 -O2 -g1"),
    # library instrumented for our own scheduler/monitor runtime (harness/ctl_sched.h), not linked against libtsan
    "sched": dict(cxx="g++", flags="-std=c++17 -O1 -g1 -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove",
                  hflags="-std=c++17 -O2 -g1", link="-Wl," + ",".join("--wrap=" + f for f in
                  "malloc free calloc realloc memcpy memset memmove pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split())),
}
COMMON = "-DDEBUG=0 -DINFO=0 -w"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "pico-cnn", "**", "*.cpp"), recursive=True))

def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "pico-cnn", "**", "*"), recursive=True)):
        if os.path.isfile(f) and f.rsplit(".", 1)[-1] in ("cpp", "h", "hpp", "c", "cc", "inc"):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def header_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "pico-cnn", "**", "*.h"), recursive=True)): h.update(open(f, "rb").read())
    return h.hexdigest()

class BuildError(Exception): pass

def compile_many(jobs):
    """jobs: list of (cmd, output). Runs in parallel."""
    def one(j):
        cmd, out = j
        r = sh(cmd)
        return (cmd, r.returncode, r.stdout)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cmd, rc, out in ex.map(one, jobs):
            if rc != 0:
                raise BuildError("%s\n%s" % (cmd, out[-4000:]))

def build_lib(flavor, extra=""):
    """Compiles every library source of the working tree; returns list of objects."""
    fl = FLAVORS[flavor]
    key = hashlib.sha256((tree_hash() + fl["flags"] + COMMON + extra + REPO).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "lib-%s-%s" % (flavor, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, "ok")
        objs = []
        jobs = []
        reuse = os.environ.get("VERIF_REUSE_OBJECTS")                             # tools/mutate.py: objects of unchanged sources
        for s in lib_sources():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            cmd = "%s %s %s %s -I%s -c %s -o %s" % (fl["cxx"], fl["flags"], COMMON, extra, REPO, s, o)
            if reuse:
                os.makedirs(reuse, exist_ok=True)
                h = hashlib.sha256((cmd.replace(o, "") + header_hash()).encode() + open(s, "rb").read()).hexdigest()[:24]
                keep = os.path.join(reuse, h + ".o")
                cmd = "if [ -e %s ]; then cp %s %s; else %s && cp %s %s; fi" % (keep, keep, o, cmd, o, keep)
            jobs.append((cmd, o))
        if not os.path.exists(stamp):
            for old in glob.glob(os.path.join(BUILD, "lib-%s-*" % flavor)):      # keep only current builds
                if old != d and time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            compile_many(jobs)
            open(stamp, "w").close()
    return objs, d

def build_harness(src, flavor, extra="", link=""):
    objs, d = build_lib(flavor)
    fl = FLAVORS[flavor]
    path = os.path.join(VERIF, "harness", src)
    h = hashlib.sha256()
    for f in [path] + sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))): h.update(open(f, "rb").read())
    h.update((extra + link).encode())
    exe = os.path.join(d, src.rsplit(".", 1)[0] + "-" + h.hexdigest()[:12])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        # library objects come first: where both sides emit an inline function, the library's (instrumented) one is used
        cmd = "%s %s %s %s -I%s -iquote %s %s %s -o %s -ljpeg -lm -lpthread %s %s" % (fl["cxx"], fl.get("hflags", fl["flags"]), COMMON, extra, REPO, os.path.join(VERIF, "harness"), " ".join(objs), path, tmp, link, fl.get("link", ""))
        reuse = os.environ.get("VERIF_REUSE_OBJECTS")
        if reuse:
            hk = hashlib.sha256((h.hexdigest() + flavor + header_hash()).encode()).hexdigest()[:24]
            ho = os.path.join(reuse, hk + ".o")
            cmd = "if [ ! -e %s ]; then %s %s %s %s -I%s -iquote %s -c %s -o %s || exit 1; fi; %s" % (ho, fl["cxx"], fl.get("hflags", fl["flags"]), COMMON, extra, REPO, os.path.join(VERIF, "harness"), path, ho, cmd.replace(path, ho))
        r = sh(cmd)
        if r.returncode != 0: raise BuildError("%s: %s" % (src, r.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe

# Build configurations of the library for E05: (name, compiler, flags of the library)
ASAN = "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
VARIANTS = [
    ("no output, -O0", "g++", "-std=c++17 -O0 -DDEBUG=0 -DINFO=0"),
    ("debug output, sanitizers", "g++", "-std=c++17 -DDEBUG=1 -DINFO=1 " + ASAN),
    ("information output, sanitizers", "g++", "-std=c++17 -DDEBUG=0 -DINFO=1 " + ASAN),
    ("the Makefile's flags", "g++", "-std=c++11 -O2 -march=native -DINFO"),
    ("the Makefile's flags and -DDEBUG", "g++", "-std=c++11 -O2 -march=native -DINFO -DDEBUG"),
    ("-O3 and -DNDEBUG", "g++", "-std=c++17 -O3 -DNDEBUG -DDEBUG=0 -DINFO=1"),
    ("clang -O2", "clang++", "-std=c++14 -O2 -DDEBUG=0 -DINFO=1"),
    ("uninitialised variables filled with a pattern", "g++", "-std=c++17 -O1 -ftrivial-auto-var-init=pattern -DDEBUG=1 -DINFO=0"),
    ("uninitialised variables filled with zeros", "g++", "-std=c++17 -O1 -ftrivial-auto-var-init=zero -DDEBUG=0 -DINFO=0"),
    ("unsigned char", "g++", "-std=c++17 -O1 -funsigned-char -DDEBUG=0 -DINFO=1"),
]

def build_variants():
    """Shared objects of the library, one per configuration; returns "path|name|path|name..."."""
    h = hashlib.sha256((tree_hash() + repr(VARIANTS) + REPO).encode())
    for f in [os.path.join(VERIF, "harness", "vlib.cpp")] + sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))): h.update(open(f, "rb").read())
    d = os.path.join(BUILD, "lib-variants-" + h.hexdigest()[:16])
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-variants"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so = [os.path.join(d, "v%d.so" % i) for i in range(len(VARIANTS))]
        if not os.path.exists(os.path.join(d, "ok")):
            for old in glob.glob(os.path.join(BUILD, "lib-variants-*")):
                if old != d and time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            jobs, objs = [], {}
            for i, (_, cxx, flags) in enumerate(VARIANTS):
                o = os.path.join(d, "v%d-vlib.o" % i)
                jobs.append(("%s %s -std=c++17 -fPIC -fno-gnu-unique -w -I%s -iquote %s -c %s -o %s" % (cxx, flags.replace("-std=c++11", "").replace("-std=c++14", ""), REPO, os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", "vlib.cpp"), o), o)); objs[i] = [o]
            for i, (_, cxx, flags) in enumerate(VARIANTS):
                for s in lib_sources():
                    o = os.path.join(d, "v%d-%s.o" % (i, os.path.relpath(s, REPO).replace("/", "_"))); objs[i].append(o)
                    jobs.append(("%s %s -fPIC -fno-gnu-unique -w -I%s -c %s -o %s" % (cxx, flags, REPO, s, o), o))
            jobs = [(c.replace("-fno-gnu-unique ", "") if c.startswith("clang") else c, o) for c, o in jobs]
            compile_many(jobs)
            compile_many([("%s %s -shared -Wl,-Bsymbolic %s -o %s -ljpeg -lm" % (VARIANTS[i][1], VARIANTS[i][2], " ".join(objs[i]), so[i]), so[i]) for i in objs])
            for os_ in objs.values():
                for o in os_: os.unlink(o)
            open(os.path.join(d, "ok"), "w").close()
    return "|".join("%s|%s" % (s, v[0]) for s, v in zip(so, VARIANTS))

def part_exe(part):
    extra = part.get("extra", "")
    if part.get("variants"): extra += " '-DVARIANTS=\"%s\"'" % build_variants().replace("'", "'\\''")
    return build_harness(part["src"], part.get("flavor", "asan"), extra, part.get("link", ""))

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out

def load_checks():
    import checks
    return checks.CHECKS

def run_harness(exe, tier, timeout):
    env = dict(os.environ)
    env.setdefault("VERIF_SEED", "1")
    t = time.time()
    r = subprocess.run([exe, "--tier", tier, "--jobs", str(JOBS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=timeout)
    lines = [l for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode not in (0, 1, 3) or not lines:
        raise RuntimeError("harness ended with %d\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
    return json.loads(lines[-1])

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        spec = load_checks()[rep["property"]]
        return importer_replay(rep) if spec.get("importer") else generic_replay(spec, rep)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = load_checks()[pid]
    t0 = time.time()
    res = importer_run(pid, tier) if spec.get("importer") else generic_run(spec, pid, tier)
    return report(pid, tier, spec, res, t0)

def generic_run(spec, pid, tier):
    """Runs one or more harness binaries and merges their results."""
    total = dict(total=0, cases=0, checks=0, steps=0, distinct=0, complete=True, samples=[], violations=[], counters={}, rules=[])
    for pi, part in enumerate(spec["parts"]):
        exe = part_exe(part)
        r = run_harness(exe, tier, spec.get("timeout", 840 if tier == "quick" else 7200))
        if r["flaky"] and not r["violations"]:
            raise RuntimeError("%s: %d case(s) failed in the enumeration but not when replayed alone" % (part["src"], r["flaky"]))
        for k in ("total", "cases", "checks", "steps", "distinct"): total[k] += r[k]
        total["complete"] = total["complete"] and r["complete"]
        total["samples"] += r["samples"][:5]
        for v in r["violations"]:
            v["part"] = pi; total["violations"].append(v)
        for k, n in r["counters"].items(): total["counters"][k] = total["counters"].get(k, 0) + n
        total["rules"].append(r["rule"])
    return total

def importer_run(pid, tier, only=None):
    """Importer checks: models are imported, generated code is compiled with the library and run (importer/nmc.py)."""
    import tempfile
    objs, _ = build_lib(load_checks()[pid].get("flavor", "asan"))
    tmp = tempfile.mkdtemp(prefix="verif-imp-")
    try:
        with open(os.path.join(tmp, "objs"), "w") as f: f.write(" ".join(objs))
        out = os.path.join(tmp, "out.json")
        r = subprocess.run(["python3-vt", os.path.join(VERIF, "importer", "run.py"), pid, tier, out, os.path.join(tmp, "objs")] + ([str(only)] if only is not None else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=840 if tier == "quick" else 7200, env=dict(os.environ, PICO_REPO=REPO))
        if not os.path.exists(out): raise RuntimeError("importer run ended with %d\n%s" % (r.returncode, r.stdout[-3000:]))
        return json.load(open(out))
    finally: shutil.rmtree(tmp, ignore_errors=True)

def importer_replay(rep):
    r = importer_run(rep["property"], rep["tier"], rep["violation"]["idx"])
    for v in r["violations"]: print("case: %s\n%s" % (v["desc"], v["msg"]))
    return 1 if r["violations"] else 0

def generic_replay(spec, rep):
    v = rep["violation"]
    part = spec["parts"][v["part"]]
    exe = part_exe(part)
    r = subprocess.run([exe, "--tier", rep["tier"], "--only", str(v["idx"])] + (["--history", str(v["history"])] if "history" in v else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    print(r.stdout.strip())
    return 1 if r.returncode == 1 else (0 if r.returncode == 0 else 2)

def report(pid, tier, spec, res, t0):
    kf = [k for k in known_findings() if k["property"] == pid and k.get("status") == "known"]
    fresh, known_hit = [], {}
    for v in res["violations"]:
        hit = None
        for k in kf:
            if re.fullmatch(k["case"], v["desc"]) and re.search(k.get("message", ""), v["msg"]): hit = k; break
        if hit is not None: known_hit.setdefault(hit["what"], []).append(v)
        else: fresh.append(v)
    for k in kf:
        if k["what"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    level = spec.get("level", "model_checking")
    # "states" are the distinct results observed on the real code, "transitions" the operations executed on it and
    # "traces_validated_against_impl" the enumerated executions compared step by step with the reference model.
    cov = {"exhaustive": bool(res["complete"])}
    samples = [s for s in res["samples"]][:8] or ["(none)"]
    if level == "model_checking":
        cov.update(states=res["distinct"], transitions=res["steps"], traces_validated_against_impl=res["cases"], samples=samples)
    else:
        cov.update(evaluations=res["cases"], distinct_nontrivial=res["distinct"], operations_executed=res["steps"], samples=samples)
    cov.update(value_comparisons=res["checks"], rule=" || ".join(dict.fromkeys(res["rules"])))
    cov.update({k: v for k, v in res.get("counters", {}).items() if k not in cov})
    import meta
    m = meta.META[pid]
    cov["bounds"] = m["bounds"]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              assumptions=m["assumes"], wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    rdir = os.path.join(VERIF, "replays")
    for i, v in enumerate(fresh[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        json.dump(dict(property=pid, tier=tier, violation=v, how="python3 bin/check.py --replay <this file>"), open(path, "w"), indent=1)
        print("  case: %s\n  %s" % (v["desc"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if len(fresh) > 5: print("  ... and %d more" % (len(fresh) - 5))
    if fresh: return 1
    if not res["complete"]:
        if known_hit: pass
        else:
            print("enumeration incomplete"); return 2
    print("%s %s: held on %d cases (%d comparisons, %d distinct outcomes) in %.1fs" % (pid, tier, res["cases"], res["checks"], res["distinct"], time.time() - t0))
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except BuildError as e:
        print("BUILD ERROR\n%s" % e); rc = 2
    except subprocess.TimeoutExpired as e:
        print("TIMEOUT %s" % e); rc = 2
    except RuntimeError as e:
        print("ERROR %s" % e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
