"""python3-vt run.py PROPERTY TIER OUT [--only I] [--objs file]: runs an importer check, writes the result as JSON."""
import sys, os, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nmc, families
def main():
    pid, tier, out, objs = sys.argv[1:5]
    only = [int(x) for x in sys.argv[5].split(",")] if len(sys.argv) > 5 else None
    libobjs = open(objs).read().split()
    root = tempfile.mkdtemp(prefix="verif-nmc-")
    try:
        os.chmod(root, 0o755)
        if pid in ("N06", "N08", "N09", "N10", "X01"): r = __import__({"N06": "refdata", "N08": "utilcheck", "N09": "faults", "N10": "conc", "X01": "examples"}[pid]).check(tier, libobjs, root, only)
        else: r = nmc.run_cases(families.FAMILIES[pid](tier), libobjs, root, only)
    finally:
        if os.environ.get("NMC_KEEP"): print("kept", root)
        else: shutil.rmtree(root, ignore_errors=True)
    if "rules" not in r: r["rules"] = [families.RULES.get(pid, "")] if hasattr(families, "RULES") else []
    json.dump(r, open(out, "w"))
main()
