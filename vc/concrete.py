"""Concrete replay: small-scope histories on the real code, compiled with sanitizers (replay/*.cpp).

It never decides that a property holds: it supplies failing inputs for failed obligations, and is the bounded
stand-in for a unit that is outside the verifier's reach."""
import os, re, shlex, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPLAY = os.path.join(os.path.dirname(HERE), "replay")
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"
ASAN = ["-std=gnu++17", "-O0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-std=gnu++17", "-O1", "-g1", "-w", "-fsanitize=thread"]
PROGS = {"sig": ASAN, "opt": ASAN, "cow": ASAN, "thr": TSAN, "oom": ASAN}
WHICH = {"C09": ["thr"], "C05": ["sig", "thr"], "C08": ["sig", "thr"], "C12": ["sig", "thr"], "C15": ["opt"], "C16": ["opt"], "C21": ["opt"], "C17": ["cow"], "C20": ["sig", "opt", "oom"]}
BAD = re.compile(r"^FAIL |WARNING: ThreadSanitizer: data race|WARNING: ThreadSanitizer: (lock-order|heap-use|double lock|unlock of)|ERROR: AddressSanitizer|: runtime error: ", re.M)


def start(prop, tier, seed, tmp):
    return Run(prop, tier, seed, tmp)


class Run:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.seed = prop, seed
        self.rounds = 1500 if tier == "quick" else 60000
        self.tmo = 120 if tier == "quick" else 400
        self.out, self.procs = {}, {}
        for p in WHICH.get(prop, ["sig"]):
            self._start(p, tmp)

    def _start(self, p, tmp):
        """compile and run in the background, without threads (the check forks its workers meanwhile)"""
        exe = os.path.join(tmp, "replay_" + p)
        cc = [CXX] + PROGS[p] + ["-I" + REPO, "-I" + REPLAY, os.path.join(REPLAY, p + ".cpp"), "-o", exe, "-ldl", "-pthread"]
        rounds = self.rounds // 8 if p == "thr" else self.rounds
        run = [exe, self.prop, str(self.seed), str(rounds)]
        shown = " ".join(cc).replace(exe, "/tmp/replay_" + p) + " && /tmp/replay_%s %s %d %d" % (p, self.prop, self.seed, rounds)
        salv = " ".join(map(shlex.quote, [sys.executable, os.path.abspath(__file__), exe] + cc))
        script = "timeout 300 %s >%s.cc 2>&1 || %s >%s.cc2 2>&1; echo $? >%s.ccrc; [ -x %s ] && timeout -k 5 %d %s >%s.out 2>&1; echo $? >%s.rc" % (" ".join(map(shlex.quote, cc)), exe, salv, exe, exe, exe, self.tmo, " ".join(map(shlex.quote, run)), exe, exe)
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        self.procs[p] = (subprocess.Popen(["bash", "-c", script], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env), exe, shown)

    def _result(self, p, proc, exe, shown):
        proc.wait()
        read = lambda f: open(f, errors="replace").read() if os.path.exists(f) else ""
        if read(exe + ".ccrc").strip() != "0":
            return dict(note="does not compile: " + read(exe + ".cc")[-600:], n=0)
        o, rc = read(exe + ".out"), read(exe + ".rc").strip()
        if rc != "0" and BAD.search(o):
            return dict(fail=dict(program="replay/%s.cpp" % p, rerun=shown, output=pick(o)), n=0)
        cut = read(exe + ".cc2").strip()
        if cut:
            print("replay/%s.cpp: the current headers reject: %s" % (p, cut.replace("\n", "; ")))
        m = re.search(r"^OK (\d+) histories", o, re.M)
        return dict(n=int(m.group(1)) if m else 0, note=None if m else "exit %s without a verdict: %s" % (rc, o[-300:]))

    def finish(self):
        for p, (proc, exe, shown) in self.procs.items():
            self.out[p] = self._result(p, proc, exe, shown)
        fs = [o["fail"] for o in self.out.values() if o.get("fail")]
        progs = [dict(program="replay/%s.cpp" % p, histories=o["n"], note=o.get("note")) for p, o in sorted(self.out.items())]
        for p, o in sorted(self.out.items()):
            if o.get("note"):
                print("replay/%s.cpp: %s" % (p, o["note"][:300].replace("\n", " ")))
        return dict(failures=fs, evaluations=sum(o["n"] for o in self.out.values()), programs=progs)


def pick(o):
    """the verdict line first, then the head of the sanitizer's report"""
    lines = o.split("\n")
    first = [l for l in lines if l.startswith("FAIL ")]
    rest = [l for l in lines if l.strip() and not l.startswith("FAIL ")]
    return "\n".join(first[:1] + rest[:25])[:4000]


if __name__ == "__main__":
    # concrete.py EXE COMMAND...: compile a replay program without the parts the headers reject
    import salvage
    cc = sys.argv[2:]
    d = salvage.program(next(x for x in cc if x.endswith(".cpp")), sys.argv[1], cc)
    print("\n".join(d or []))
    sys.exit(0 if d is not None else 1)
