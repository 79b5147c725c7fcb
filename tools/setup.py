#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the specification parses."""
import os, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from repo import env
import tla
ok = True
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    p = subprocess.run(["java", "-DTLA-Library=" + os.path.join(V, "spec"), "-cp", tla.JARS, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tempfile.gettempdir())
    if p.returncode: ok = False; print(p.stdout.decode()[-1500:])
print(subprocess.run(["cargo", "--version"], env=env(), stdout=subprocess.PIPE).stdout.decode().strip())
sys.exit(0 if ok else 1)
