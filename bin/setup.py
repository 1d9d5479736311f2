#!/usr/bin/env python3
"""Checks that the tools every check needs are present; the checks build what they need themselves."""
import shutil, subprocess, sys, tempfile, os
for t in ("g++", "python3"):
    if not shutil.which(t): print("missing tool", t); sys.exit(1)
d = tempfile.mkdtemp()
try:
    s = os.path.join(d, "a.cpp"); open(s, "w").write("int main(){return 0;}\n")
    for san in ("address,undefined", "thread"):
        e = os.path.join(d, "a")
        if subprocess.call(["g++", "-std=c++20", "-fsanitize=" + san, s, "-o", e]) or subprocess.call([e]): print("no", san); sys.exit(1)
finally: shutil.rmtree(d)
print("ok")
