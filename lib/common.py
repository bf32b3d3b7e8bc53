import json, os, re, subprocess, sys, time, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(1, min(8, os.cpu_count() or 1))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def builddir(pid):
    d = os.path.join(VERIF, "build", pid)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        q = os.path.join(d, f)
        if os.path.isfile(q): os.unlink(q)
    return d

def known(pid):
    """entries 'KNOWN property=<id> key=<key> :: text' of the committed known-findings file"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            mm = re.match(r"KNOWN property=(\S+) key=(.*?) :: (.*)$", line.rstrip("\n"))
            if mm and mm.group(1) == pid: out[mm.group(2)] = mm.group(3)
    return out

class Result:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples, self.viol, self.extra, self.assume = [], [], {}, []
    def add(self, key, detail): self.viol.append((key, detail))
    def merge(self, j, again=False):
        """again: the same states explored once more in another build configuration"""
        if again: self.extra["states_in_plain_build"] = self.extra.get("states_in_plain_build", 0) + j["states"]
        else: self.cov["states"] += j["states"]
        self.cov["transitions"] += j["transitions"]
        self.cov["traces_validated_against_impl"] += j["validated"]
        for k, v in j.get("counters", {}).items(): self.extra[k] = self.extra.get(k, 0) + v
        if j.get("nontrivial"): self.extra["nontrivial"] = self.extra.get("nontrivial", 0) + j["nontrivial"]
        for s in j.get("samples", []):
            if len(self.samples) < 12: self.samples.append(s)
        for v in j["violations"]: self.add(v["key"], v["detail"])
    def finish(self, level="model_checking", rule=None, bounds=None, exhaustive=True):
        kn = known(self.pid); unk = []; seen = set()
        for k, d in self.viol:
            if k in kn:
                if k not in seen: print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, kn[k], k))
                seen.add(k)
            else: unk.append((k, d))
        cov = dict(self.cov)
        if level == "fault_enumeration":
            cov = {"evaluations": cov["transitions"], "distinct_nontrivial": self.extra.pop("nontrivial", 0), "rule": rule or ""}
            cov["states"] = self.cov["states"]
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = bool(exhaustive) and not unk
        if bounds: cov["bounds"] = bounds
        cov.update({("n_" + k): v for k, v in self.extra.items()})
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(unk))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        if unk:
            rp = os.path.join(VERIF, "build", self.pid, "violations.txt")
            with open(rp, "w") as f:
                for k, d in unk[:200]: f.write("%s\n    %s\n" % (k, d))
            for k, d in unk[:4]: print("  %s\n    %s" % (k[:300], d[:500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp)); sys.stdout.flush()
            sys.exit(1)
        print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs" % (self.pid, self.cov["states"],
              self.cov["transitions"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        sys.exit(0)

def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -999; r.stdout = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        r.stderr = "TIMEOUT"; return r

def errlines(txt, n=12):
    ls = [l for l in txt.splitlines() if " error" in l or "required from here" in l or "undefined reference" in l]
    return "\n".join(ls[:n]) or txt[-1500:]
