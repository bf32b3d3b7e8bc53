"""C29: the harness is instrumented by the compiler; its runtime (src/rt29.cpp) replaces the sanitizer's and schedules the threads."""
import os
import rt
from common import *
def build(bd):
    src = os.path.join(VERIF, "src"); exe = os.path.join(bd, "c29")
    cmds = [["g++", "-std=c++17", "-w", "-O1", "-g1", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-threadsafe-statics", "-c", src + "/rt29.cpp", "-o", exe + ".rt.o"],
      ["g++", "-std=c++17", "-w", "-O1", "-g1", "-fsanitize=thread", "-include", src + "/notempl29.hpp", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign",
       "-I" + REPO, "-I" + REPO + "/external", "-I" + src, "-c", src + "/c29.cpp", "-o", exe + ".o"],
      ["g++", exe + ".o", exe + ".rt.o", "-o", exe, "-ldl", "-lpthread"]]
    for c in cmds:
        r = sh(c, timeout=600)
        if r.returncode: return exe, r
    return exe, r
def run(pid):
    res = Result(pid); exe, r = build(builddir(pid))
    if r.returncode: res.add("compile:c29.cpp", "the documented API used by this harness no longer compiles:\n" + errlines(r.stderr)); return res
    rt.drive([exe], NCPU, res=res); return res
