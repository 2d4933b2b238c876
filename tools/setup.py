"""Sanity of the toolchain; nothing has to be built ahead: every check compiles what it needs from /repo."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv
assert shutil.which("g++") and shutil.which("java")
os.makedirs(os.path.join(mbv.EVID, "replay"), exist_ok=True)
for m in sorted(f for f in os.listdir(mbv.SPEC) if f.endswith(".tla")):
    p = subprocess.run(["java", "-cp", mbv.CP, "tla2sany.SANY", m], cwd=mbv.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout:
        print(p.stdout); sys.exit(1)
print("setup ok")
