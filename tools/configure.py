#!/usr/bin/env python3
"""Writes build/build.ninja: /repo's library sources (instrumented) + the simulator and its scenarios -> build/sim."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
EXCL = ("test", "benchmark", "benchmarks", "example", "examples", "fuzz")

def lib_sources():
    out = []
    for root in ("src/common/src", "src/decoders"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x not in EXCL)
            if root == "src/decoders" and "/src" not in d[len(REPO):].replace("/src/decoders", "", 1):
                continue
            out += [os.path.join(d, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx"))]
    return out

def main():
    os.makedirs(B, exist_ok=True)
    inc = f"-I{REPO}/include -I{V}/shims"
    defs = "-DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR -DEDIE_SIM -DNDEBUG -D_GLIBCXX_ASSERTIONS"
    base = f"-std=c++17 -g1 -fno-omit-frame-pointer -w {defs} {inc}"
    lib = "-O1 -fsanitize=address -fsanitize-coverage=trace-pc-guard"
    # The scenarios themselves run un-instrumented by coverage but with ASan, so inlined library templates are still checked.
    har = "-O1 -fsanitize=address -fsanitize-coverage=trace-pc-guard"
    core = "-O2 -fsanitize=address"
    L = ["ninja_required_version = 1.3", f"builddir = {B}",
         "rule cxx", "  command = clang++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
         "rule link", "  command = clang++ -fsanitize=address -rdynamic $in -o $out -lspdlog -lfmt -ldl -lpthread", "  description = LINK $out"]
    objs = []
    def add(src, flags, tag):
        o = os.path.join(B, "obj", tag + "_" + os.path.relpath(src, "/").replace("/", "_") + ".o")
        L.append(f"build {o}: cxx {src}")
        L.append(f"  flags = {base} {flags}")
        objs.append(o)
    for s in lib_sources():
        add(s, lib, "lib")
    S = os.path.join(V, "sim")
    for d, dirs, files in os.walk(S):
        for f in sorted(files):
            if f.endswith(".cpp"):
                p = os.path.join(d, f)
                add(p, core if d == S else har, "sim")
    L.append(f"build {B}/sim: link " + " ".join(objs))
    L.append(f"default {B}/sim")
    text = "\n".join(L) + "\n"
    p = os.path.join(B, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)

main()
