#!/usr/bin/env python3
"""rustc for the coverage-guided build: instruments the code under test and the monitors (where its
generic code ends up), and links libFuzzer to the monitors."""
import glob, os, sys

a = sys.argv[1:]
name = a[a.index("--crate-name") + 1] if "--crate-name" in a else ""
kind = a[a.index("--crate-type") + 1] if "--crate-type" in a else ""
if any(x.startswith("--target") for x in a) and name:
    monitor = kind == "bin" and len(name) == 3 and name[0] == "c"
    if name in ("matchit", "rapiddlt") or monitor:
        a += ["-Cpasses=sancov-module", "-Ccodegen-units=1"]
        for o in ("level=4", "inline-8bit-counters", "pc-table", "trace-compares"):
            a.append("-Cllvm-args=-sanitizer-coverage-" + o)
    if monitor:
        lib = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"))[-1]
        a += ["-Clink-arg=" + lib, "-Clink-arg=-lstdc++"]
os.execvp(a[0], a)
