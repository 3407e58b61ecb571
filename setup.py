#!/usr/bin/env python3
"""Checks that the toolchain the checks need is there and prepares folders."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import vf
os.makedirs(os.path.join(V, "build", "tmp"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "replays"), exist_ok=True)
for t in ("gcc", "g++", "objcopy", "java"):
    if shutil.which(t) is None:
        sys.exit("missing " + t)
for f in ("sched", "asan"):
    vf.lib(f)
r = subprocess.run(["java", "-cp", vf.JAR, "tla2sany.SANY", "TraceBase.tla"], cwd=vf.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
sys.exit(r.returncode)
