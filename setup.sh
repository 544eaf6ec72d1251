#!/bin/bash
# Builds the verifier from the committed sources.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys, tempfile, shutil
sys.argv = ["check.py"]
src = open("check.py").read().rsplit("\nmain()", 1)[0].replace("__file__", "'check.py'")
exec(compile(src, "check.py", "exec"))
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    tenv, genv = go_env(d)
    print(build_tool(tenv))
finally:
    shutil.rmtree(d, ignore_errors=True)
P
