"""Driver of the runtime explorers: compile a C++ harness against /repo's headers, run it sharded."""
import glob, json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=return,null,bounds,shift,integer-divide-by-zero", "-fno-sanitize-recover=all"]
PLAIN = ["-O2", "-DNDEBUG"]   # release build: other optimisation, no assertions, the allocator reuses addresses at once (ASan never does)
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1")

def compile_one(src, out, flags, extra=[]):
    return sh(["g++", "-std=c++17", "-w"] + flags + ["-I" + REPO, "-I" + os.path.join(VERIF, "src"), "-I" + REPO + "/external", src, "-o", out] + extra, timeout=600)

def run(pid, srcs, flags=SAN, shards=NCPU, timeout=800, extra=[], args=[], res=None, env=ENV, plain=True):
    """srcs: list of harness sources, each run with `shards` shards"""
    res = res or Result(pid); bd = builddir(pid)
    comp = [(s, os.path.join(bd, os.path.basename(s)[:-4]), flags) for s in srcs]
    if plain: comp += [(s, os.path.join(bd, os.path.basename(s)[:-4]) + ".plain", PLAIN) for s in srcs]
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(lambda c: compile_one(os.path.join(VERIF, "src", c[0]), c[1], c[2], extra), comp))
    ok = []
    for (s, o, _), r in zip(comp, outs):
        if r.returncode != 0:
            if o.endswith(".plain"): s += " (plain)"
            res.add("compile:" + s, "the documented API used by this harness no longer compiles:\n" + errlines(r.stderr))
        else: ok.append(o)
    return drive(ok, shards, timeout, args, res, env)

def drive(ok, shards, timeout=800, args=[], res=None, env=ENV):
    """runs every shard of the compiled explorers and collects what they report"""
    jobs = []
    for o in ok:
        for i in range(shards):
            tag = "%s.%d" % (o, i)
            cmd = [o, "--shard", str(i), str(shards), "--out", tag + ".json", "--cur", tag + ".cur"] + (["--thorough"] if TIER == "thorough" else []) + args
            jobs.append((tag, cmd))
    def one(j):
        tag, cmd = j
        r = sh(cmd, timeout=timeout, env=env); return tag, r
    with ThreadPoolExecutor(NCPU) as ex: done = list(ex.map(one, jobs))
    for tag, r in done:
        if r.returncode == 0 and os.path.exists(tag + ".json"):
            res.merge(json.load(open(tag + ".json")), ".plain." in tag)
        else:
            cur = open(tag + ".cur", "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(tag + ".cur") else "?"
            why = "does not terminate" if ("HARNESS-HANG" in r.stderr) else "time limit" if r.returncode == -999 else "crash (exit %d)" % r.returncode
            if r.returncode == -999: why = "does not finish within %d s" % timeout
            lines = [l for l in r.stderr.splitlines() if l.startswith("SUMMARY") or "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l or "terminate" in l or "what()" in l or l.strip().startswith("#")]
            res.add("abort:" + cur, why + "\n" + "\n".join(lines[:14]))
    return res
