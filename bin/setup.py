#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there. The checks build everything themselves from /repo."""
import shutil, sys
missing = [t for t in ("g++", "python3", "python3-vt") if not shutil.which(t)]
if missing: print("missing: " + ", ".join(missing))
sys.exit(1 if missing else 0)
