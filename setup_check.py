"""Nothing has to be built: checks that the tools the checks need are there."""
import shutil, subprocess, sys
sys.dont_write_bytecode = True
import z3
for t in ("lean", "/opt/venv/bin/python"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
print("z3", z3.get_version_string())
