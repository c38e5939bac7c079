"""Compiles the driver translation units against /repo's headers, parses the IR, discovers the object layout
by *executing* the real constructors and accessors, and runs verification units."""
import os, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from ir import Module, Unsupported, PTR, ity
from engine import *
import env as envmod
from env import Env
import user
from user import Unit

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def compile_ir(src, out, extra=()):
    flags = ["-std=gnu++17", "-O0", "-w", "-g1", "-I" + REPO, "-I" + os.path.join(HERE, "drv")] + list(extra)
    p = subprocess.run(["clang++-18"] + flags + ["-S", "-emit-llvm", src, "-o", out], capture_output=True, text=True)
    if p.returncode != 0:
        import salvage
        d = salvage.driver(src, out, flags)
        if d is not None:
            for x in d:
                print("driver %s: the current headers reject: %s" % (os.path.basename(src), x))
            return out
        raise BuildError("driver %s does not compile against /repo:\n%s" % (os.path.basename(src), p.stderr[:4000]))
    return out


def load_module(path):
    m = Module(open(path).read())
    m.demangle_all()
    return m


class Quiet(Unit):
    oom = False
    throws = ()
    leaks = False

    def user(self, env, st, name, args, site):
        raise Unsupported(name)


def start(mod, layout, unit):
    env = Env(mod, layout)
    env.unit = unit
    eng = Engine(mod, env)
    eng.unit_obj = unit
    eng.unit = getattr(unit, "name", unit.__class__.__name__)
    eng.unit_leaks = unit.leaks
    eng.forget_leaks = not unit.leaks
    st = State()
    env.init(st)
    return eng, env, st


def run_fn(eng, st, name, args):
    """run a driver function to completion from a state without active frames; returns end states"""
    st.status = None
    st.ret = None
    saved = st.frames
    st.frames = []
    return eng.run(eng.call(st, name, args, None))


def discover(mod):
    """offsets of the fields the contracts speak about"""
    L = {"slot_impl": None, "slot_sig": None, "idx": None, "conn": None, "blk": None, "sig_list": None, "slot_vt": {}, "sig_vt": {}, "impl_methods": {}, "impl_vt": {}}
    dummy = dict(L, slot_impl=-1, slot_sig=-1, idx=-1, conn=-1, blk=-1, sig_list=-1)
    eng, env, st = start(mod, dummy, Quiet())
    eng.quiet = 1
    f = eng.new_obj(st, 8)
    st.g["val"][(f, 0)] = z3.IntVal(7)
    lo = eng.new_obj(st, 64)
    ends = run_fn(eng, st, "mk_slot_fn_A", [Ptr(lo), Ptr(f)])
    if len(ends) != 1 or ends[0].status != "ret":
        raise Unsupported("slot construction is not deterministic")
    st = ends[0]
    cells = st.mem[lo]
    ptrs = [(o, v[1]) for o, v in sorted(cells.items()) if isinstance(v[1], Ptr)]
    zeros = [o for o, v in ptrs if v.null]
    heap = [(o, v) for o, v in ptrs if isint(v.oid) and v.oid in st.mem and v.oid != lo]
    if len(heap) != 1 or len(zeros) != 1:
        raise Unsupported("slot layout: expected one implementation pointer and one owner pointer, found %d and %d" % (len(heap), len(zeros)))
    L["slot_impl"], L["slot_sig"] = heap[0][0], zeros[0]
    io = heap[0][1].oid
    ic = st.mem[io]
    s2 = st.fork()
    ends = run_fn(eng, s2, "slot_block_A", [Ptr(lo)])
    if len(ends) != 1:
        raise Unsupported("slot block")
    ch = [o for o in ends[0].mem[io] if not same(ends[0].mem[io][o], ic.get(o))]
    if len(ch) != 1:
        raise Unsupported("slot layout: blocked flag")
    L["blk"] = ch[0]
    flags = [o for o, (s, v) in ic.items() if s == 1 and isint(v) and v == 1 and o != L["blk"]]
    if len(flags) != 1:
        raise Unsupported("slot layout: connected flag")
    L["conn"] = flags[0]
    ints = [o for o, (s, v) in ic.items() if s == 8 and isint(v)]
    if len(ints) != 1:
        raise Unsupported("slot layout: index")
    L["idx"] = ints[0]
    # virtual functions of slot implementations
    vp = ic[0][1]
    vt = eng.idname[vp.oid]
    g = mod.globals[vt]
    tab = []
    def flat(v):
        if v[0] == "agg":
            for _, x in v[1]:
                flat(x)
        else:
            tab.append(v)
    flat(g[2])
    first = vp.off // 8
    for i, v in enumerate(tab[first:]):
        if v[0] != "glob":
            continue
        d = mod.dem[v[1]]
        n = short(d.replace("operator()", "CALLOP"))
        if v[1].endswith("D0Ev"):
            n = "~D0"
        elif v[1].endswith("D1Ev") or v[1].endswith("D2Ev"):
            n = "~D1"
        elif "CALLOP" in d.replace("operator()", "CALLOP") and "CALLOP" in n:
            n = "operator()"
        else:
            n = n.split("::")[-1]
        L["impl_methods"][i] = n
    if sorted(L["impl_methods"].values()) != sorted(["~D1", "~D0", "connected", "clone", "equals", "operator()"]):
        raise Unsupported("slot implementation interface: %s" % (sorted(L["impl_methods"].values()),))
    # signal
    for X in "ABCEFKGH":
        if X != "A" and L["sig_list"] is None:
            raise Unsupported("signal layout")
        eng, env, st = start(mod, L, Quiet())
        eng.quiet = 1
        so = eng.new_obj(st, 128)
        ends = run_fn(eng, st, "ctor_" + X, [Ptr(so)])
        if len(ends) != 1 or ends[0].status != "ret":
            raise Unsupported("signal construction")
        st = ends[0]
        lists = [o for o, (s, v) in sorted(st.mem[so].items()) if isinstance(v, Ptr) and isint(v.oid) and v.off == 0 and (v.oid, 0) in st.g["vec"]]
        if len(lists) != 1:
            raise Unsupported("signal layout: slot list")
        if L["sig_list"] not in (None, lists[0]):
            raise Unsupported("signal layout")
        L["sig_list"] = lists[0]
        L["sig_ptr"] = True
        c = st.mem[so].get(lists[0] + 8)
        if not c or not isinstance(c[1], Ptr) or c[1].off != CTRL:
            raise Unsupported("signal layout: slot list is not held by a shared pointer %r" % (st.mem[so],))
        q = st.mem[so][0][1]
        L["sig_vt"][X] = (eng.idname[q.oid], q.off)
        eng, env, st = start(mod, L, Quiet())
        eng.quiet = 1
        so = eng.new_obj(st, 64)
        ends = run_fn(eng, st, "mk_slot_empty_" + {"G": "A", "H": "B"}.get(X, X), [Ptr(so)])
        q = ends[0].mem[so][0][1]
        L["slot_vt"][X] = (eng.idname[q.oid], q.off)
    # connections and blockers: where they keep their weak pointer
    q = Quiet()
    q.X = "A"
    eng, env, st = start(mod, L, q)
    eng.quiet = 1
    so = eng.new_obj(st, 128)
    st = run_fn(eng, st, "ctor_A", [Ptr(so)])[0]
    st.g["sigs"][so] = {}
    f = eng.new_obj(st, 8)
    st.g["val"][(f, 0)] = z3.IntVal(7)
    c = eng.new_obj(st, 64)
    b = eng.new_obj(st, 64)
    sc = eng.new_obj(st, 64)
    st.g["excl"] = {so}
    ends = run_fn(eng, st, "conn_fn_A", [Ptr(so), Ptr(f), Ptr(c)])
    if len(ends) != 1:
        raise Unsupported("connect in discovery %r" % [(x.status, x.log[-6:]) for x in ends])
    st = ends[0]
    ends = [e for e in run_fn(eng, st, "c_blocker", [Ptr(c), Ptr(b)]) if not any(x[0] == "expired" for x in e.log)]
    if len(ends) != 1:
        raise Unsupported("blocker in discovery")
    st = ends[0]
    st = run_fn(eng, st, "s_from", [Ptr(sc), Ptr(c)])[0]
    for nm, o in (("c_ptr", c), ("b_ptr", b), ("s_ptr", sc)):
        w = [(k, v[1]) for k, v in sorted(st.mem[o].items()) if isinstance(v[1], Ptr) and isint(v[1].oid) and v[1].oid in st.g["pub"]]
        if len(w) != 2 or w[0][1].off != 0 or w[1][1].off != CTRL or w[1][0] != w[0][0] + 8:
            raise Unsupported("handle layout %s: %r" % (nm, st.mem[o]))
        L[nm] = w[0][0]
        vp = st.mem[o].get(0)
        L[nm + "_vt"] = (eng.idname[vp[1].oid], vp[1].off) if vp and isinstance(vp[1], Ptr) and isint(vp[1].oid) and vp[1].oid < 0 else None
    return L


def run_unit(mod, L, unit, budget=120, unroll=None):
    """-> dict(obligations, error, stats)"""
    t0 = time.time()
    eng, env, st = start(mod, L, unit)
    eng.deadline = t0 + budget
    eng.unroll = unroll
    L["slot_vt_cur"] = None
    err = None
    npaths = 0
    statuses = {}
    try:
        args = unit.setup(env, st)
        states = eng.call(st, unit.entry, args, None)
        ends = eng.run(states)
        for s in ends:
            npaths += 1
            statuses[s.status] = statuses.get(s.status, 0) + 1
            try:
                unit.post(env, s)
            except (PathEnd, Infeasible):
                pass
    except Unsupported as ex:
        err = "unsupported: %s" % ex
    except z3.Z3Exception as ex:
        err = "solver: %s" % ex
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as ex:
        err = "verifier: %s: %s" % (type(ex).__name__, ex)
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    if err and os.environ.get("VC_DEBUG"):
        traceback.print_exc()
    return dict(unit=eng.unit, obls=eng.obls, err=err, stats=dict(eng.stats), secs=time.time() - t0, paths=npaths, statuses=statuses,
                inlined=sorted({"%s:%s" % (qname(mod.dem.get(n, n)), mod.lines.get(mod.funcs[n].dbg)) for n in eng.inlined}), trusted=sorted(env.trusted), contracts=sorted(env.contracts_used), notes=sorted(eng.notes))
