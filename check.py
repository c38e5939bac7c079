#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree:
 1. compiles the drivers in drv/ against /repo's headers to LLVM IR (the verified text *is* what the compiler
    generates from the headers; nothing is rewritten by hand),
 2. runs every verification unit that carries the property: the real functions are executed symbolically, function
    by function under contracts, and every obligation is given to the solver,
 3. replays concrete histories against the real code (compiled with sanitizers) to turn a failed obligation into a
    failing input, and as a bounded stand-in where a unit is outside the verifier's reach,
 4. writes evidence/<property>.json.
Exit 0: property held. Exit 1 with a VIOLATION line: it does not. Exit 2: the check itself could not run."""
import copy, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
DRIVERS = {"signals": "signals.cpp", "optional": "optional.cpp", "cow": "cow.cpp"}
EVID = os.path.join(HERE, "evidence")
EMPTY_L = {"slot_impl": -1, "slot_sig": -1, "idx": -1, "conn": -1, "blk": -1, "sig_list": -1, "slot_vt": {}, "sig_vt": {}, "impl_methods": {}, "impl_vt": {}}

MODS, LAY, UNITS = {}, {}, []
START = time.time()


def all_units():
    """(driver, unit) for every unit, heaviest first"""
    import units_signal, units_handles, units_life, units_slot, units_optional, units_cow
    out = []
    for d, m, w in (("signals", units_signal, 5), ("signals", units_life, 4), ("signals", units_handles, 3), ("signals", units_slot, 2), ("optional", units_optional, 1), ("cow", units_cow, 1)):
        for u in m.units():
            h = w + (20 if u.__class__.__name__ == "Erase" else 0)
            out.append((h, d, u))
            if u.__class__.__name__ in ("Connect", "Erase", "SlotMake", "SlotOp", "Cow", "CowPair", "CowList"):
                o = copy.copy(u)
                o.oom, o.name, o.props = True, u.name + ", memory running out", ("C17",) if d == "cow" else ("C20",)
                out.append((h - 0.5, d, o))
    out.sort(key=lambda x: -x[0])
    return [(d, u) for _, d, u in out]


def work(job):
    i, unroll, budget = job
    import harness
    d, u = UNITS[i]
    r = harness.run_unit(MODS[d], LAY[d], u, budget=budget, unroll=unroll)
    obls = []
    for o in r["obls"]:
        obls.append((o.name, sorted(o.labels), o.where, o.ok, o.solver, bool(o.taint), bool(o.loop), o.detail if isinstance(o.detail, str) else None,
                     (o.path[-25:] if o.path else None) if not o.ok else None, o.model if not o.ok else None))
    r["obls"] = obls
    r["i"] = i
    return r


def relevant(labels, prop):
    return prop in labels or "*" in labels


def run_units(idx, unroll=None, budget=240):
    """run units in parallel; a worker that dies or hangs yields an error result"""
    jobs = [(i, unroll, budget) for i in idx]
    res = {}
    if not jobs:
        return res
    with mp.get_context("fork").Pool(NPROC, maxtasksperchild=None) as pool:
        hs = [(i, pool.apply_async(work, ((i, unroll, budget),))) for i, _, _ in jobs]
        end = time.time() + 600 if unroll is None else min(time.time() + 200, START + 840)
        for i, h in hs:
            try:
                res[i] = h.get(timeout=max(1, end - time.time()))
            except mp.TimeoutError:
                res[i] = dict(i=i, unit=UNITS[i][1].name, obls=[], err="unsupported: time limit of the check", stats={}, secs=0, paths=0, statuses={}, inlined=[], trusted=[], contracts=[], notes=[])
            except Exception as ex:
                res[i] = dict(i=i, unit=UNITS[i][1].name, obls=[], err="verifier: %s" % ex, stats={}, secs=0, paths=0, statuses={}, inlined=[], trusted=[], contracts=[], notes=[])
        pool.terminate()
    return res


def fails(r, prop):
    return [o for o in r["obls"] if not o[3] and relevant(o[1], prop)]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    props = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        props[d["id"]] = d
    if prop not in props:
        print("unknown property", prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="sigverif.")
    try:
        return decide(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(drv, tmp):
    import harness
    out = os.path.join(tmp, drv + ".ll")
    harness.compile_ir(os.path.join(HERE, "drv", DRIVERS[drv]), out)
    return harness.load_module(out)


def decide(prop, tier, seed, t0, tmp):
    global UNITS
    import harness, z3, concrete
    UNITS[:] = all_units()
    idx = [i for i, (d, u) in enumerate(UNITS) if prop in u.props]
    drvs = sorted({UNITS[i][0] for i in idx})
    notes, unresolved = [], []       # unresolved: (unit name, reason)
    conc = concrete.start(prop, tier, seed, tmp)
    layout_err = None
    for d in drvs:
        try:
            MODS[d] = build(d, tmp)
            LAY[d] = harness.discover(MODS[d]) if d == "signals" else dict(EMPTY_L)
        except harness.BuildError as ex:
            # an interface the driver uses has another form: its units are outside the verifier's reach
            print("driver %s does not compile: %s" % (d, str(ex)[:600]))
            unresolved.append(("driver " + d, "does not compile against the current headers"))
            idx = [i for i in idx if UNITS[i][0] != d]
        except Exception as ex:
            layout_err = "%s: %s" % (type(ex).__name__, ex)
            if os.environ.get("VC_DEBUG"):
                traceback.print_exc()
            unresolved.append(("driver " + d, "layout discovery: " + layout_err))
            idx = [i for i in idx if UNITS[i][0] != d]
    res = run_units(idx)
    precise, loopy = [], []
    for i in idx:
        r = res[i]
        if r["err"]:
            unresolved.append((r["unit"], r["err"]))
        elif (not r["obls"] or not r["paths"]) and not UNITS[i][1].oom:
            unresolved.append((r["unit"], "no path reached the postcondition"))
        for o in fails(r, prop):
            if o[6]:
                loopy.append((i, o))
            elif o[5]:
                unresolved.append((r["unit"], "undecided: " + o[0]))
            else:
                precise.append((r["unit"], o, None))
    bounded, bnd = [], {}
    if loopy and not precise:
        # the inferred loop invariants may be too weak for the changed code: decide by exact unrolling
        units = sorted({i for i, _ in loopy})
        todo = units
        for k in (2, 3):
            if not todo or precise or k == 3 and tier == "quick" and time.time() - t0 > 300:
                break
            r2 = run_units(todo, unroll=k, budget=180)
            done, todo = todo, []
            for i in done:
                fs = [o for o in fails(r2[i], prop) if not o[5]]
                if fs:
                    precise.append((r2[i]["unit"], fs[0], "unrolled %d iterations" % k))
                elif r2[i]["err"]:
                    if k == 2:
                        unresolved.append((r2[i]["unit"], "loop: " + r2[i]["err"]))
                else:
                    todo.append(i)
                    bnd[i] = (r2[i]["unit"], "loops unrolled up to %d iterations: %d obligations hold" % (k, len(r2[i]["obls"])))
        bounded = [bnd[i] for i in sorted(bnd)]
    elif loopy:
        for i, o in loopy:
            precise.append((res[i]["unit"], o, "in or after a loop"))
    cr = conc.finish() if conc else None
    return report(prop, tier, seed, t0, res, idx, precise, bounded, unresolved, cr)


def report(prop, tier, seed, t0, res, idx, precise, bounded, unresolved, cr):
    import z3
    tot = dis = 0
    solver = {}
    trusted, contracts, inlined, notes = set(), set(), set(), set()
    ss = q = paths = 0
    per = []
    for i in idx:
        r = res.get(i)
        if not r:
            continue
        rel = [o for o in r["obls"] if relevant(o[1], prop)]
        ok = sum(1 for o in rel if o[3])
        tot += len(rel)
        dis += ok
        for o in rel:
            if o[3]:
                solver[o[4]] = solver.get(o[4], 0) + 1
        trusted |= set(r["trusted"])
        contracts |= set(r["contracts"])
        inlined |= set(r["inlined"])
        notes |= set(r["notes"])
        ss += r["stats"].get("solver_s", 0)
        q += r["stats"].get("queries", 0)
        paths += r["paths"]
        if rel or r["err"] or not UNITS[i][1].oom:
            per.append((r["unit"], len(rel), ok, round(r["secs"], 2)))
    repofn = sorted({f for f in inlined if re.match(r"(sig|opt)::", f)})
    viol = 0
    lines = []
    rdir = os.path.join(EVID, "replay")
    cfail = cr["failures"] if cr else []
    if cfail or precise:
        viol = 1
        path = os.path.join(rdir, "%s.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s, tier %s, seed %s\n" % (prop, tier, seed))
            for u, o, how in precise[:40]:
                f.write("\nFAILED OBLIGATION: %s\n  unit: %s%s\n  at: %s\n  labels: %s  solver: %s\n" % (o[0], u, " (%s)" % how if how else "", o[2], ",".join(o[1]), o[4]))
                if o[7]:
                    f.write("  detail: %s\n" % o[7])
                if o[8]:
                    f.write("  path: %s\n" % " ; ".join(map(str, o[8])))
                if o[9]:
                    f.write("  solver model: %s\n" % json.dumps(o[9])[:3000])
            if cfail:
                f.write("\nFAILING INPUT against the real code:\n")
                for c in cfail:
                    f.write("  program: %s\n  rerun: %s\n  %s\n" % (c["program"], c["rerun"], c["output"].replace("\n", "\n  ")))
            elif cr:
                f.write("\nconcrete replay: %d histories, none fails\n" % cr["evaluations"])
        for u, o, how in precise[:6]:
            print("failed obligation: %s | %s | %s" % (o[0], u, o[2]))
        for c in cfail[:3]:
            print("failing input: %s" % c["output"].strip().split("\n")[0][:300])
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if cfail else " no-failing-input-found"))
    for u, why in unresolved:
        print("not proved (bounded stand-in): %s: %s" % (u, why[:200]))
    for u, why in bounded:
        print("bounded: %s: %s" % (u, why))
    if not viol and not tot and not (cr and cr["evaluations"]):
        print("ERROR: nothing was checked for", prop)
        return 2
    n_un = len(unresolved)
    cov = dict(obligations=tot, discharged=dis, checker_cmd="/verif/check.py %s %s (z3 %s, deterministic resource limits)" % (prop, tier, z3.get_version_string()),
               trusted_base=sorted(trusted), functions_under_contract=repofn, contracts_used_at_calls=sorted(contracts), units=len(per), unit_results=[dict(unit=a, obligations=b, discharged=c, secs=s) for a, b, c, s in per],
               paths=paths, solver_seconds=round(ss, 1), solver_queries=q, backends=solver, loops=sorted(notes),
               bounded=[dict(unit=u, why=w) for u, w in bounded], not_proved=[dict(unit=u, why=w[:300]) for u, w in unresolved])
    if cr:
        cov["concrete_replay"] = dict(evaluations=cr["evaluations"], programs=cr["programs"], note="supplementary: small-scope histories on the real code under sanitizers; gives failing inputs, never counted as proof")
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=viol)
    tmpf = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(EVID, prop + ".json"))
    print("%s: %d units, %d/%d obligations discharged, %d paths, %.1f s solver, %d replayed histories, %.1f s" % (prop, len(per), dis, tot, paths, ss, cr["evaluations"] if cr else 0, time.time() - t0))
    for l in lines:
        print(l)
    for l in known(prop):
        print(l)
    sys.stdout.flush()
    return 1 if viol else 0


def known(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING:") and ("property=%s " % prop) in l:
                out.append(l.strip())
    return out


ASSUME = [
    "clang 18 at -O0 translates the headers faithfully to LLVM IR; the verifier's reading of that IR (vc/ir.py, vc/engine.py) and z3 are trusted",
    "contracts of libstdc++ (shared_ptr/weak_ptr counts, vector, mutex, unique_lock, std::lock, exceptions, operator new) are assumed as written in vc/env.py; code of the library proper is never assumed",
    "operator new fails only in the units named 'memory running out' (connecting, disconnecting callables, making, copying and assigning slots, copy-on-write pointers), else it succeeds; user destructors do not throw; user types' copies are equal to their originals; comparison operators used by optional are coherent (a total order)",
    "template instantiations checked: signals int(Val,int&), void(Val), Val(int), int(Val&&,const Val&), void(), int(Val,int,Val,const Val&) and two with custom combiners (Val(int), void(Val)); slots from function objects (copyable, with and without ==, move-only), function pointers, std::ref, member functions and data members with raw, weak and shared pointers; optionals of a class, int, short, long long, bool, Val&, const Val&, void; copy-on-write pointers to a class and to a list; other instantiations share the template text",
    "concurrency is checked by ownership/monitor reasoning (lock invariants, atomics, copy-on-write sharing) with the sequentially consistent reading of the atomics, not by exploring weak-memory executions",
]

if __name__ == "__main__":
    sys.exit(main())
