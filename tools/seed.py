#!/usr/bin/env python3
"""Plants one bug: builds seeded/<id>/ from tools/seeds.py, confirms it (patch applies, tests pass, demo passes without
and fails with it) and runs the property's check against it.   python3 tools/seed.py ID... | all"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
R = "/repo"
DEMO = r'''#!/bin/bash
# Run with the repository as working directory: 0 if the behaviour is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export t FLAGS="%s"
find pico-cnn -name '*.cpp' | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O1 -w -DDEBUG=0 -DINFO=0 $FLAGS -I. -c {} -o $t/$(echo {} | tr / _).o' || exit 2
g++ -std=c++17 -O1 -w -DDEBUG=0 -DINFO=0 $FLAGS -I. "$here/demo.cpp" $t/*.o -o $t/demo -ljpeg -lm -lpthread || exit 2
cd $t && timeout 120 ./demo
'''
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): run("git -C /repo checkout -- .")
def plant(i):
    s = SEEDS[i]; d = os.path.join(V, "seeded", i)
    assert run("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    try:
        for f, a, b in s["edits"]:
            p = os.path.join(R, f); t = open(p).read(); n = t.count(a)
            assert n == 1, (i, f, a, n)
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        for n, c in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
        if "demo" in s: open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or DEMO % s.get("flags", ""))
        for o, n in s.get("copy", {}).items(): (shutil.copytree(os.path.join(V, o), os.path.join(d, n), dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__')) if os.path.isdir(os.path.join(V, o)) else shutil.copy(os.path.join(V, o), os.path.join(d, n)))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        t = run("bash /opt/vp/test.sh /tmp/seed-test.json"); j = json.load(open("/tmp/seed-test.json"))
        base = json.load(open("/opt/vp/BASELINE.json")); base = base["stable"] if isinstance(base, dict) else base
        missing = [x for x in base if x not in j["passed"]]
        bad = run("bash %s/demo.sh" % d, cwd=R)
        chk = run("python3 bin/check.py %s quick" % s["property"], cwd=V)
        others = [o for o in s.get("also", []) if run("python3 bin/check.py %s quick" % o, cwd=V).returncode == 1]
    finally: clean()
    run("bash /opt/vp/build.sh")
    good = run("bash %s/demo.sh" % d, cwd=R)
    caught = chk.returncode == 1 and ("VIOLATION property=%s " % s["property"]) in chk.stdout
    print("%-28s %s tests:%s demo clean:%d patched:%d  %s %s" % (i, s["property"], "ok" if not missing else "FAIL %s" % missing[:2], good.returncode, bad.returncode, "CAUGHT" if caught else "MISSED rc=%d" % chk.returncode, ("also " + ",".join(others)) if others else ""), flush=True)
    if good.returncode: print(good.stdout[-1500:])
    if bad.returncode == 0: print("patched demo:", bad.stdout[-1500:])
    if not caught: print(chk.stdout[-600:])
ids = list(SEEDS) if sys.argv[1:] == ["all"] else sys.argv[1:]
for i in ids: plant(i)
