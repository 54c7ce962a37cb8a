#!/usr/bin/env python3
"""Makes sure the compilers and sanitizers the checks need work here."""
import os
import subprocess
import sys
import tempfile

SRC = "#include <vector>\nint main(){ std::vector<int> v(3); return v[1]; }\n"
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.cpp")
    open(f, "w").write(SRC)
    for cmd in (["g++", "-fsanitize=address,undefined"], ["g++", "-fsanitize=thread"], ["clang++", "-O2"],
                ["clang++", "-fsanitize=fuzzer-no-link,address,undefined"]):
        subprocess.run(cmd + [f, "-o", os.path.join(d, "a")], check=True)
        subprocess.run([os.path.join(d, "a")], check=True)
    subprocess.run(["valgrind", "--version"], check=True)
sys.exit(0)
