#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deductive verification: contracts on the functions, VCs generated from the LLVM IR of /repo's headers on every run, discharged by z3; failing obligations replayed on the real code"
NOTE = {
 "sig": "Proof for all inputs, list lengths and iterations of the named functions, per template instantiation in drv/. Trusted: clang's IR, the VC generator and z3; contracts of libstdc++ (vector, shared_ptr, mutex, exceptions) assumed in vc/env.py; user types under most general contracts. Other threads act at lock boundaries and atomics (monitor reasoning).",
 "opt": "Proof for all values and operand states per operation, with an exception at every operation of the value type; instantiations: class, int, short, references, void. Trusted: clang's IR, the VC generator, z3.",
 "cow": "Proof for all values and all numbers of sharers. Trusted: clang's IR, the VC generator, z3, the assumed contract of std::shared_ptr.",
 "conc": "Ownership proof: every access to list and bookkeeping is under the lock, atomic, or to unshared memory, per function, for all states. Atomics are read as sequentially consistent; weak-memory executions are not explored. libstdc++'s own thread safety is assumed.",
}
KIND = {"C15": "opt", "C16": "opt", "C21": "opt", "C17": "cow", "C09": "conc"}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd="./check.py %s quick" % p, thorough_cmd="./check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique=TECH, level="proof", level_note=NOTE[KIND.get(p, "sig")]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo are needed: the checks compile the unmodified headers. Genuine defects were repaired in fix: commits, listed in KNOWN_FINDINGS.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
