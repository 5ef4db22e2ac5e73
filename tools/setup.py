#!/usr/bin/env python3
"""Checks that the compiler with OpenMP and the sanitizers is there; the harnesses are built by each check from /repo's current tree."""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <omp.h>\nint main(){return omp_get_max_threads() > 0 ? 0 : 1;}\n")
    for flags in (["-O2"], ["-O1", "-fsanitize=address,undefined"]):
        if subprocess.run(["g++", "-std=c++17", "-fopenmp"] + flags + [src, "-o", os.path.join(d, "a")]).returncode:
            sys.exit("g++ with " + " ".join(flags) + " does not work")
        if subprocess.run([os.path.join(d, "a")]).returncode:
            sys.exit("the test program does not run")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence", "replays"), exist_ok=True)
print("ready")
