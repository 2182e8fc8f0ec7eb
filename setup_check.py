#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (each check compiles its harness from /repo's current headers); this only makes sure the tools are there."""
import os, shutil, subprocess, sys, tempfile
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
d = tempfile.mkdtemp(prefix="lalib-setup-")
try:
    src = os.path.join(d, "a.cpp")
    open(src, "w").write("#include <cblas.h>\n#include <lapacke.h>\n#include <omp.h>\nint main() { double x = 3, y = 4; return cblas_ddot(1, &x, 1, &y, 1) != 12; }\n")
    for extra in ([], ["-fsanitize=address,undefined"]):
        subprocess.run(["g++", "-std=gnu++20", "-fopenmp", *extra, src, "-o", src + ".out", "-llapacke", "-lopenblas"], check=True)
        subprocess.run([src + ".out"], check=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ok")
