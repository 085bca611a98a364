#!/usr/bin/env python3
"""Nothing to build: parse every specification once, so that a broken toolchain shows here."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import tlc
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    w = tlc.prepare(d, "spec")
    mods = sorted(f for f in os.listdir(w) if f.endswith(".tla"))
    for f in mods:
        r = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", f], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or "*** Errors" in r.stdout:
            print(f, r.stdout)
            sys.exit(1)
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, sys; print(sys.version)"])
    print(len(mods), "specifications parsed")
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
