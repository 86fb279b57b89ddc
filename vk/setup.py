#!/usr/bin/env python3
"""Checks that the tools the monitors need are present and work (there is nothing to install)."""
import os, subprocess, sys, tempfile
src = "#include <cstdio>\nint main(){ puts(\"ok\"); }\n"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.cpp")
    open(p, "w").write(src)
    for san in ([], ["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
        subprocess.run(["clang++-18", "-std=gnu++17", p, "-o", os.path.join(d, "a")] + san, check=True)
        subprocess.run([os.path.join(d, "a")], check=True, stdout=subprocess.DEVNULL)
    subprocess.run(["clang++-18", "-std=gnu++17", "-x", "c++", "-fsyntax-only", "-include", "valgrind/memcheck.h", "/dev/null"], check=True)
    subprocess.run(["valgrind", "-q", "--error-exitcode=1", "/bin/true"], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build"), exist_ok=True)
print("tools present")
