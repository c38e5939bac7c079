"""Contracts of the signal operations, checked on the real code compiled from /repo."""
import z3
from ir import Unsupported, PTR, ity
from engine import *
from env import Env, Cand, forall, SLOT_LO, SLOT_HI, IMPL_LO, IMPL_HI, R
from user import Unit, own_exc, USEREXC, maythrow, vget, key as ukey
import harness


SIGN = {"A": "int(Val,int&)", "B": "void(Val)", "C": "Val(int)", "E": "int(Val&&,const Val&)", "F": "void()", "K": "int(Val,int,Val,const Val&)"}
OPTN = {"A": "A", "C": "C", "E": "A", "K": "A"}       # which observers of optionals apply to the result


class SigUnit(Unit):
    X = "A"

    def signal(self, env, st, excl=False):
        """an arbitrary signal satisfying its representation invariant"""
        e = env.eng
        o = e.new_obj(st, 128)
        st.g["sigs"][o] = {}
        n, off = env.L["sig_vt"][self.X]
        e.raw_store(st, Ptr(o), 8, Ptr(e.gid(n), off))
        if excl:
            st.g["excl"] = st.g["excl"] | {o}
            env.havoc_signal(st, o)
        return o

    def handle_root(self, env, st, s, name="h"):
        """a connection-like object holding a weak pointer to slot s (0: none)"""
        pass


class Emission(SigUnit):
    props = ("C01", "C02", "C03", "C07", "C08", "C09", "C20")

    def __init__(self, X):
        self.X = X
        self.name = "emission<%s>" % SIGN[X]
        self.entry = "emit_" + X

    def setup(self, env, st):
        e = env.eng
        s = self.signal(env, st)
        self.s = s
        self.vals = []
        args = [Ptr(s)]
        self.v0 = e.sym("arg")
        if self.X in "ABEK":
            self.vo = self.root(env, st, 8, self.v0)
            args.append(Ptr(self.vo))
        if self.X == "E":
            self.wo = self.root(env, st, 8, e.sym("arg2"))
            args.append(Ptr(self.wo))
        if self.X == "A":
            self.ro = self.root(env, st, 4)
            x = e.sym("r")
            st.pc.append(z3.And(x >= 0, x < 2 ** 32))
            e.raw_store(st, Ptr(self.ro), 4, x)
            args.append(Ptr(self.ro))
        if self.X in "CK":
            self.i0 = e.sym("i")
            st.pc.append(z3.And(self.i0 >= 0, self.i0 < 2 ** 32))
            args.append(self.i0)
        if self.X == "K":
            self.u0, self.w0 = e.sym("arg3"), e.sym("arg4")
            self.uo, self.wo = self.root(env, st, 8, self.u0), self.root(env, st, 8, self.w0)
            args += [Ptr(self.uo), Ptr(self.wo)]
        self.out = self.root(env, st, 32)
        args.append(Ptr(self.out))
        st.g["em"] = dict(g=0, lastEng=False, lastVal=0)
        if self.X == "E":
            st.g["em"].update(ev=self.v0, ew=st.g["val"][(self.wo, 0)])
        return args

    def after_acquire(self, env, st, s, key):
        if "V" not in st.g:
            v = st.g["vec"][key]
            st.g["V"] = (v.P, v.len, st.g["H"]["idx"], st.g["H"]["impl"])
            K = z3.K(z3.IntSort(), z3.BoolVal(False))
            em = st.g["em"]
            em.update(NR=K, RB=K, RC=K)

    def nr_range(self, st, a, b, nm="q"):
        P, ln, idx, impl = st.g["V"]
        q = z3.Int(nm)
        return forall(q, z3.And(q >= I(a), q < I(b)), z3.Select(st.g["em"]["NR"], z3.Select(impl, z3.Select(P, q))), [z3.Select(P, q)])

    def impl_call(self, env, st, obj, args, site):
        e = env.eng
        em = st.g["em"]
        e.oblige(st, "no slot is called while a lock is held", not st.g["held"], ("C07",))
        if "V" not in st.g:
            e.oblige(st, "only slots of the snapshot are called", False, ("C01", "C08"))
        P, ln, idx, impl = st.g["V"]
        i = I(obj.oid)
        p = e.sym("p")
        st.pc.append(p == z3.Select(idx, i))
        e.oblige(st, "every slot that is called is in the snapshot taken at the start", z3.And(p >= 0, p < I(ln), z3.Select(impl, z3.Select(P, p)) == i), ("C01", "C08"))
        e.oblige(st, "slots are called in list order, each at most once", p >= I(em["g"]), ("C01", "C08", "C03"))
        e.oblige(st, "a slot is only skipped if it was seen blocked or disconnected", self.nr_range(st, em["g"], p), ("C01",))
        e.oblige(st, "a slot is only called after it was seen unblocked", sel(em["RB"], i), ("C01", "C10"))
        e.oblige(st, "a slot is only called after it was seen connected", sel(em["RC"], i), ("C01", "C05"))
        # arguments (args[0] is the result slot)
        sret = site.a["args"][0][2].get("sret") is not None
        rest = args[2:] if sret else args[1:]
        for n, x0, o in ((0, "v0", "vo"), (2, "u0", "uo")) if self.X == "K" else ((0, "v0", "vo"),) if self.X in "AB" else ():
            k = ukey(env, st, rest[n])
            v = vget(env, st, k)
            e.oblige(st, "a by-value argument equals the emitted value for every slot", I(v) == getattr(self, x0), ("C02",))
            e.oblige(st, "a by-value argument is the slot's own copy", k not in ((self.vo, 0), (getattr(self, o), 0)), ("C02",))
            # the slot may do anything to its copy
            st.g["val"][k] = e.sym("clob")
        if self.X == "K":
            ok = isinstance(rest[3], Ptr) and rest[3].oid == self.wo and rest[3].off == 0
            e.oblige(st, "a reference argument refers to the emitter's object", ok, ("C02",))
            e.oblige(st, "an object passed by reference is not touched by the library", I(vget(env, st, (self.wo, 0))) == self.w0, ("C02",))
        if self.X == "E":
            for ap, o, t in ((rest[0], self.vo, "ev"), (rest[1], self.wo, "ew")):
                ok = isinstance(ap, Ptr) and ap.oid == o and ap.off == 0
                e.oblige(st, "a reference argument refers to the emitter's object", ok, ("C02",))
                e.oblige(st, "an object passed by reference is not touched by the library", I(vget(env, st, (o, 0))) == I(em[t]), ("C02",))
                # a slot may move from it
                st.g["val"][(o, 0)] = em[t] = e.sym("clob")
        if self.X == "A":
            e.oblige(st, "a reference argument refers to the emitter's object", isinstance(rest[1], Ptr) and rest[1].oid == self.ro and rest[1].off == 0, ("C02",))
            x = e.sym("r")
            st.pc.append(z3.And(x >= 0, x < 2 ** 32))
            e.raw_store(st, Ptr(self.ro), 4, x)
        if self.X in "CK":
            a = rest["CK".index(self.X)]
            v = e.load(st, a, ity(32))
            e.oblige(st, "a by-value argument equals the emitted value for every slot", ieq(v, self.i0), ("C02",))
            x = e.sym("clob")
            st.pc.append(z3.And(x >= 0, x < 2 ** 32))
            e.store(st, a, ity(32), x)
        em["g"] = norm(p + 1)
        K = z3.K(z3.IntSort(), z3.BoolVal(False))
        em["NR"], em["RB"], em["RC"] = K, K, K
        # the slot may do anything to the rest of the world: list, flags, positions
        self.world(env, st)
        outs = maythrow(env, st, "call")
        if self.X in "BF":
            return outs + R(env, st)
        # result: engaged with an arbitrary value, or disengaged (tracked object gone)
        s2 = st.fork()
        res = args[0]
        if self.X in "AEK":
            x = e.sym("res")
            st.pc.append(z3.And(x >= 0, x < 2 ** 32))
            em["lastEng"], em["lastVal"] = True, x
            outs += e.call(st, "mk_some_A", [res, x], site)
            outs += e.call(s2, "mk_none_A", [res], site)
        else:
            x = e.sym("res")
            tmp = e.new_obj(st, 8)
            st.g["val"][(tmp, 0)] = x
            em["lastEng"], em["lastVal"] = True, x
            # moving the result into the optional is covered by the slot-implementation units: no throw here
            self.nothrow = getattr(self, "nothrow", 0)

            def done(eng, s, v):
                s.g["val"].pop((tmp, 0), None)
                s.mem.pop(tmp, None)
                s.g["suppress"] = False
                return eng.ret_to(s, v)
            st.g["suppress"] = True
            outs += e.call(st, "mk_some_C", [res, Ptr(tmp)], site, ctx=done)
            outs += e.call(s2, "mk_none_C", [res], site)
        return outs

    def may_throw(self, what):
        return what in self.throws

    def world(self, env, st):
        H, e = st.g["H"], env.eng
        H["idx"] = e.sym("idx", "arr")
        H["conn"] = e.sym("conn", "barr")
        H["blk"] = e.sym("blk", "barr")
        H["sig"] = e.sym("sigof", "arr")

    def candidates(self, env, eng, entry, hst, mod, terms, ints, bools, T, guard, nm):
        out = []
        if "V" not in entry.g:
            return out
        ln = entry.g["V"][1]
        pts = [("0", lambda st, tm: 0), ("len", lambda st, tm: ln)]
        for k in ints:
            pts.append((nm(k), lambda st, tm, k=k: T(tm, k)))
        g = lambda st, tm: st.g["em"]["g"]
        for n, f in pts:
            out.append(Cand("skipped[g,%s)" % n, guard(lambda st, tm, f=f: self.nr_range(st, g(st, tm), f(st, tm)))))
            out.append(Cand("g<=%s" % n, guard(lambda st, tm, f=f: I(g(st, tm)) <= I(f(st, tm)))))
            out.append(Cand("%s<=len" % n, guard(lambda st, tm, f=f: I(f(st, tm)) <= I(ln))))
        if self.X == "E":
            for o, t in ((self.vo, "ev"), (self.wo, "ew")):
                def kept(st, tm, o=o, t=t):
                    _, al, x = env.valpair(st, (o, 0))
                    return z3.And(B(al), I(x) == I(st.g["em"][t]))
                out.append(Cand("%s is the emitter's" % t, guard(kept)))
        return out

    def post(self, env, st):
        e = env.eng
        self.common_post(env, st)
        if st.status == "exc":
            return
        em = st.g["em"]
        if "V" not in st.g:
            e.oblige(st, "an emission visits the slots of the signal", False, ("C01",))
        ln = st.g["V"][1]
        e.oblige(st, "every connected and unblocked slot has been called when the emission ends", self.nr_range(st, em["g"], ln), ("C01", "C08"))
        if self.X in "BF":
            return
        for s in harness.run_fn(e, st, "has_" + OPTN[self.X], [Ptr(self.out)]):
            h = s.ret
            h = B(h) if not isz(h) or z3.is_bool(h) else h != 0
            e.oblige(s, "the result is engaged exactly if some called slot returned a value", h == B(em["lastEng"]), ("C03",))
            if s.ret is False:
                continue
            s2 = s.fork()
            s2.assume(h)
            if not e.feasible(s2):
                continue
            for t in harness.run_fn(e, s2, "get_" + OPTN[self.X], [Ptr(self.out)]):
                r = t.ret
                if self.X == "C":
                    r = vget(env, t, ukey(env, t, r))
                e.oblige(t, "the result is the last value a called slot returned", I(r) == I(em["lastVal"]), ("C03",))


class Combine(Emission):
    """emission of a signal with the user's own combiner, which may use the iterators in any way"""
    props = ("C01", "C02", "C03", "C07", "C08", "C09", "C20")

    def __init__(self, Y):
        self.Y = Y
        self.X = {"G": "A", "H": "B"}[Y]
        self.name = "emission with a custom combiner, slot_iterator<%s>" % SIGN[self.X]
        self.entry = "emit_" + Y

    def setup(self, env, st):
        a = super().setup(env, st)
        n, off = env.L["sig_vt"][self.Y]
        env.eng.raw_store(st, Ptr(self.s), 8, Ptr(env.eng.gid(n), off))
        st.g["comb"] = None
        return a[:-1]

    def poscell(self, env, st, o):
        cs = [k for k, (s, v) in st.mem[o].items() if isinstance(v, Ptr) and v.idx is not None]
        if len(cs) != 1:
            raise Unsupported("slot_iterator layout")
        return cs[0]

    def pos(self, env, st, o):
        return st.mem[o][self.poscell(env, st, o)][1]

    def setpos(self, env, st, o, k):
        c = self.poscell(env, st, o)
        sz, v = st.mem[o][c]
        st.mem[o][c] = (sz, Ptr(v.oid, v.off, k, v.cls))

    def impl_call(self, env, st, obj, args, site):
        e = env.eng
        P, ln, idx, impl = st.g["V"]
        k = st.g.get("derefpos")
        if k is None:
            e.oblige(st, "only dereferencing a position calls a slot", False, ("C03", "C01"))
        e.oblige(st, "dereferencing a position calls the slot there", z3.Select(impl, z3.Select(P, k)) == I(obj.oid), ("C03", "C01"))
        e.oblige(st, "dereferencing a position calls at most one slot, once", st.g["derefcalls"] == 0, ("C03", "C01"))
        st.g["derefcalls"] = 1
        st.g["em"]["g"] = k
        return super().impl_call(env, st, obj, args, site)

    def deref(self, env, st, it, again):
        e = env.eng
        P, ln, idx, impl = st.g["V"]
        k = e.sym("k")
        s = st.fork()
        s.pc.append(z3.And(k >= 0, k < I(ln)))
        if not e.feasible(s):
            return
        self.setpos(env, s, it, k)
        before = self.pos(env, s, it)
        out = e.new_obj(s, 32)
        K = z3.K(z3.IntSort(), z3.BoolVal(False))
        s.g["em"].update(g=k, NR=K, RB=K, RC=K, lastEng=False, lastVal=0)
        s.g["derefpos"], s.g["derefcalls"] = k, 0
        for t in harness.run_fn(e, s, "it_deref_" + self.X, [Ptr(it), Ptr(out)]):
            e.oblige(t, "dereferencing holds no lock afterwards", not t.g["held"], ("C07",))
            if t.status == "exc":
                e.oblige(t, "only the user's own exception leaves, unchanged", own_exc(t), ("C20", "C03"))
                continue
            called = t.g["derefcalls"] == 1
            if not called:
                e.oblige(t, "a slot is only skipped if it was seen blocked or disconnected", z3.Select(t.g["em"]["NR"], z3.Select(impl, z3.Select(P, k))), ("C01", "C03"))
            e.oblige(t, "dereferencing does not move the iterator", ieq(self.pos(env, t, it).idx, k), ("C03",))
            em = t.g["em"]
            for u in harness.run_fn(e, t.fork(), "has_A", [Ptr(out)]) if self.X == "A" else ():
                h = B(u.ret) if not isz(u.ret) or z3.is_bool(u.ret) else u.ret != 0
                e.oblige(u, "dereferencing yields a value exactly if the slot was called and returned one", h == B(em["lastEng"]), ("C03",))
                if em["lastEng"] is True:
                    for v in harness.run_fn(e, u, "get_A", [Ptr(out)]):
                        e.oblige(v, "dereferencing yields exactly the slot's result", I(v.ret) == I(em["lastVal"]), ("C03",))
            if again:
                self.deref(env, t, it, False)

    def combiner(self, env, st, a, site):
        e = env.eng
        f, l = a[0].oid, a[1].oid
        e.oblige(st, "the combiner runs without locks", not st.g["held"], ("C07",))
        e.oblige(st, "the combiner runs once", st.g["comb"] is None, ("C03",))
        if "V" not in st.g:
            e.oblige(st, "the combiner gets the slots of the signal", False, ("C03", "C01"))
        P, ln, idx, impl = st.g["V"]
        p, q = self.pos(env, st, f), self.pos(env, st, l)
        e.oblige(st, "the combiner gets the range of all slots in the snapshot", z3.And(B(ieq(p.idx, 0)), B(ieq(q.idx, ln)), B(ieq(p.oid, q.oid))), ("C03", "C01"))
        # iterator operations at an arbitrary position
        k, j = e.sym("k"), e.sym("j")
        s = st.fork()
        s.pc.append(z3.And(k >= 0, k <= I(ln), j >= 0, j <= I(ln)))
        self.setpos(env, s, f, k)
        self.setpos(env, s, l, j)
        for op in ("eq", "ne"):
            for t in harness.run_fn(e, s.fork(), "it_" + op + "_" + self.X, [Ptr(f), Ptr(l)]):
                h = B(t.ret) if not isz(t.ret) or z3.is_bool(t.ret) else t.ret != 0
                e.oblige(t, "iterators are equal exactly if they are at the same position", h == ((k == j) if op == "eq" else (k != j)), ("C03",))
        s2 = s.fork()
        o = e.new_obj(s2, 64)
        for t in harness.run_fn(e, s2, "it_copy_" + self.X, [Ptr(f), Ptr(o)]):
            e.oblige(t, "a copied iterator is at the same position", z3.And(B(ieq(self.pos(env, t, o).idx, k)), B(ieq(self.pos(env, t, f).idx, k))), ("C03",))
        s2 = s.fork()
        o = e.new_obj(s2, 64)
        for t in harness.run_fn(e, s2, "it_move_" + self.X, [Ptr(f), Ptr(o)]):
            e.oblige(t, "a moved iterator is at the same position", ieq(self.pos(env, t, o).idx, k), ("C03",))
        s2 = s.fork()
        s2.pc.append(k < I(ln))
        for t in harness.run_fn(e, s2, "it_inc_" + self.X, [Ptr(f)]):
            e.oblige(t, "++ moves to the next position", z3.And(B(ieq(norm(I(self.pos(env, t, f).idx)), norm(k + 1))), B(isinstance(t.ret, Ptr) and t.ret.oid == f)), ("C03",))
        s2 = s.fork()
        s2.pc.append(k < I(ln))
        o = e.new_obj(s2, 64)
        for t in harness.run_fn(e, s2, "it_post_" + self.X, [Ptr(f), Ptr(o)]):
            e.oblige(t, "it++ moves to the next position and yields the old one", z3.And(I(self.pos(env, t, f).idx) == k + 1, I(self.pos(env, t, o).idx) == k), ("C03",))
        self.deref(env, st, f, True)
        x = e.sym("comb")
        st.pc.append(z3.And(x >= 0, x < 2 ** 32))
        self.world(env, st)
        outs = maythrow(env, st, "call")
        st.g["comb"] = x
        return outs + R(env, st, x)

    def post(self, env, st):
        e = env.eng
        self.common_post(env, st)
        if st.status == "exc":
            return
        e.oblige(st, "the combiner decides the result", st.g["comb"] is not None and I(st.ret) == I(st.g["comb"]), ("C03",))


def abs_impl(env, st):
    """an arbitrary slot implementation, reachable by this thread only"""
    e, L = env.eng, env.L
    n = e.new_obj(st, 64)
    st.g["absimpl"] = dict(st.g.get("absimpl", {}))
    st.g["absimpl"][n] = True
    st.mem[n][0] = (8, Ptr(SymVTof(n)))
    for f in ("conn", "blk"):
        st.mem[n][L[f]] = (1, z3.If(e.sym("a" + f, "bool"), z3.IntVal(1), z3.IntVal(0)))
    x = e.sym("ai")
    st.pc.append(z3.And(x >= 0, x < 2 ** 64))
    st.mem[n][L["idx"]] = (8, x)
    return n


def SymVTof(n):
    from env import SymVT
    return SymVT(Ptr(n, 0, None, "impl"))


def user_slot(env, st, X, impl):
    """a slot object owned by the caller"""
    e, L = env.eng, env.L
    o = e.new_obj(st, 64)
    n, off = L["slot_vt"][X]
    e.raw_store(st, Ptr(o), 8, Ptr(e.gid(n), off))
    e.raw_store(st, Ptr(o, L["slot_impl"]), 8, Ptr(impl) if impl else NULL)
    e.raw_store(st, Ptr(o, L["slot_sig"]), 8, NULL)
    return o


class Connect(SigUnit):
    """connect / connect_scoped of a callable, a member function, or a slot object"""

    def __init__(self, X, kind, scoped=False, empty=False):
        self.X, self.kind, self.scoped, self.empty = X, kind, scoped, empty
        self.entry = ("s" if scoped else "") + "conn_" + kind + "_" + X
        self.name = "%s%s<%s>%s" % ("connect_scoped" if scoped else "connect", {"slot": "(slot)", "fn": "(const callable&)", "fnr": "(callable&&)", "pmf": "(member function, object)", "trk": "(member function, shared_ptr)"}[kind],
                                    SIGN[X], " empty slot" if empty else "")
        self.props = ("C04", "C07", "C09", "C08", "C20", "C18") + (("C11",) if scoped else ()) + (("C12",) if kind == "trk" else ())

    def setup(self, env, st):
        e = env.eng
        s = self.s = self.signal(env, st)
        args = [Ptr(s)]
        if self.kind == "slot":
            self.impl = None if self.empty else abs_impl(env, st)
            self.arg = user_slot(env, st, self.X, self.impl)
        elif self.kind in ("fn", "fnr"):
            self.f0 = e.sym("f")
            self.arg = self.root(env, st, 8, self.f0)
        elif self.kind == "pmf":
            self.obj = self.root(env, st, 16)
            self.arg = self.obj
        elif self.kind == "trk":
            self.obj = self.root(env, st, 16)
            st.g["alive"].append(self.obj)
            self.arg = self.root(env, st, 16)
            e.raw_store(st, Ptr(self.arg), 8, Ptr(self.obj))
            e.raw_store(st, Ptr(self.arg, 8), 8, Ptr(self.obj, CTRL))
        args.append(Ptr(self.arg))
        self.c = self.root(env, st, 64)
        args.append(Ptr(self.c))
        self.roots0 = set(st.mem)
        self.val0 = dict(st.g["val"])
        return args

    def user(self, env, st, name, args, site):
        """the connected callable is called (only in the behaviour check of the postcondition)"""
        e = env.eng
        if not st.g.get("phase"):
            e.oblige(st, "connecting does not call the callable", False, ("C04",))
        st.g["calls"] = st.g.get("calls", ()) + ((name, tuple(args)),)
        b = 1 if self.X == "C" else 0          # sret
        if self.kind in ("fn", "fnr"):
            v = vget(env, st, ukey(env, st, args[b]))
            e.oblige(st, "the connected slot calls a copy of the given callable", I(v) == self.f0, ("C04",))
        else:
            e.oblige(st, "the connected slot calls the member function on the given object", isinstance(args[b], Ptr) and args[b].oid == self.obj, ("C04", "C12"))
        if self.X == "C":
            x = e.sym("res")
            from user import vnew
            vnew(env, st, ukey(env, st, args[0]), x)
            return R(env, st)
        if self.X in "AEK":
            x = e.sym("res")
            st.pc.append(z3.And(x >= 0, x < 2 ** 32))
            return R(env, st, x)
        return R(env, st)

    def changed(self, st):
        out = []
        for cs in st.g["cs"]:
            if cs["sig"] != self.s:
                continue
            a, b = cs["V0"], cs["V1"]
            if not (same((0, a.P), (0, b.P)) and same((0, a.len), (0, b.len))):
                out.append(cs)
        return out

    def post(self, env, st):
        e = env.eng
        self.common_post(env, st)
        ch = self.changed(st)
        cur = env.list_cell(st, self.s)
        lists = {cur.oid} if cur is not None else set()
        if st.status == "exc" or self.empty:
            e.oblige(st, "a failed connect, or connecting an empty slot, leaves the signal unchanged", not ch, ("C04", "C20"))
            self.heap(env, st, lists)
            if st.status == "ret":
                for t in harness.run_fn(e, st, "c_valid", [Ptr(self.c)]):
                    e.oblige(t, "connecting an empty slot returns an invalid connection", bnot(t.ret) if not isz(t.ret) else z3.Not(t.ret), ("C04",))
            return
        e.oblige(st, "connecting adds exactly one slot", len(ch) == 1, ("C04",))
        cs = ch[0]
        V0, V1, H0, H1 = cs["V0"], cs["V1"], cs["H0"], cs["H1"]
        k = z3.Int("k")
        e.oblige(st, "the new slot is appended (length)", I(V1.len) == I(V0.len) + 1, ("C04",))
        e.oblige(st, "existing slots keep their place", forall(k, z3.And(k >= 0, k < I(V0.len)), z3.Select(V1.P, k) == z3.Select(V0.P, k), [z3.Select(V1.P, k)]), ("C04",))
        for f in ("conn", "blk", "impl", "sig"):
            p = z3.Select(V0.P, k)
            x = z3.Select(H0["impl"], p) if f in ("conn", "blk") else p
            e.oblige(st, "existing slots are untouched (%s)" % f, forall(k, z3.And(k >= 0, k < I(V0.len)), z3.Select(H1[f], x) == z3.Select(H0[f], x), [z3.Select(V0.P, k)]), ("C04",))
        o = sel(V1.P, V0.len)
        if not isint(o):
            o = norm(z3.simplify(o))
        e.oblige(st, "the appended slot is a new one", isint(o) and st.g["pub"].get(o) == "slot", ("C04",))
        i = norm(sel(H1["impl"], o))
        if not isint(i):
            raise Unsupported("new slot implementation")
        if self.kind == "slot":
            for f in ("conn", "blk"):
                want = e.as01(st.mem[self.impl][env.L[f]][1])
                e.oblige(st, "the copy of a slot object is connected in the state of the original (%s)" % f, B(sel(H1[f], i)) == B(want), ("C04", "C13"))
            e.oblige(st, "the connected slot behaves like the given slot object", env.beh(i) == env.beh(self.impl), ("C04", "C13"))
        else:
            e.oblige(st, "a new slot is connected", sel(H1["conn"], i), ("C04",))
            e.oblige(st, "a new slot is not blocked", bnot(sel(H1["blk"], i)), ("C04",))
        self.heap(env, st, lists | {o, i})
        st.g["alive"].append(o)
        # the returned handle refers to the new slot
        n0 = len(st.log)
        s1 = st.fork()
        ok = False
        for t in harness.run_fn(e, s1, "c_block", [Ptr(self.c)]):
            fl = [x for x in t.log[n0:] if x[0] == "flagstore" and x[1] == "blk"]
            e.oblige(t, "the returned connection refers to the new slot", len(fl) == 1 and isint(fl[0][2]) and fl[0][2] == i, ("C04", "C18", "C11"))
            ok = True
        if not ok:
            raise Unsupported("handle probe did not run")
        # and the new slot calls the callable
        if self.kind != "slot":
            self.behaviour(env, st, o)

    def behaviour(self, env, st, o):
        e = env.eng
        st.g["phase"] = "call"
        st.g["calls"] = ()
        v = self.root(env, st, 8, e.sym("av"))
        r = self.root(env, st, 4)
        u = self.root(env, st, 8, e.sym("aw")) if self.X == "K" else None
        x = e.sym("ar")
        st.pc.append(z3.And(x >= 0, x < 2 ** 32))
        e.raw_store(st, Ptr(r), 4, x)
        out = self.root(env, st, 32)
        a = {"A": [Ptr(o), Ptr(v), Ptr(r), Ptr(out)], "B": [Ptr(o), Ptr(v), Ptr(out)], "C": [Ptr(o), x, Ptr(out)], "E": [Ptr(o), Ptr(v), Ptr(v), Ptr(out)], "F": [Ptr(o), Ptr(out)], "K": [Ptr(o), Ptr(v), x, Ptr(u), Ptr(u), Ptr(out)]}[self.X]
        called = 0
        for t in harness.run_fn(e, st, "slot_call_" + self.X, a):
            if t.status == "ret" and len(t.g["calls"]) == 1:
                called += 1
            e.oblige(t, "a slot calls its callable at most once", len(t.g["calls"]) <= 1, ("C04",))
        e.oblige(st, "the new slot calls the callable", called > 0, ("C04",))

    def heap(self, env, st, allowed):
        e = env.eng
        h = st.g.get("heap") or {}
        left = [o for o in h if o not in allowed and o not in self.roots0 and o not in env.released(st)]
        e.oblige(st, "nothing leaks", not left, ("C20", "C04"), detail=str(left))
        vl = [k for k in st.g["val"] if k not in self.val0 and k[0] not in allowed]
        e.oblige(st, "every temporary copy of the callable is destroyed", not vl, ("C20", "C04"), detail=str(vl))
        e.oblige(st, "no reference to the list or to slots is left behind", all(isint(d) and d == 0 for _, d in st.g["own"]) and not [o for o in st.g["rc"] if o not in allowed], ("C20", "C17"), detail=str((st.g["own"], st.g["rc"])))


TARGET = z3.Int("target")


def present(H, V, x):
    """slot x is in list V (positions are recorded in the slots)"""
    p = z3.Select(H["idx"], z3.Select(H["impl"], x))
    return z3.And(p >= 0, p < I(V.len), z3.Select(V.P, p) == x)


class Erase(SigUnit):
    """disconnect(callable) / disconnect(slot) / disconnect(member function, object)"""

    def __init__(self, X, kind, empty=False):
        self.X, self.kind, self.empty = X, kind, empty
        self.entry = "disc_%s_%s" % (kind, X)
        self.name = "disconnect(%s)<%s>%s" % ({"slot": "slot", "fn": "callable", "pmf": "member function, object"}[kind], SIGN[X], " empty slot" if empty else "")
        self.props = ("C06", "C07", "C08", "C09", "C20", "C05", "C14")

    def setup(self, env, st):
        e = env.eng
        s = self.s = self.signal(env, st)
        if self.kind == "slot":
            self.impl = None if self.empty else abs_impl(env, st)
            self.arg = user_slot(env, st, self.X, self.impl)
        elif self.kind == "fn":
            self.f0 = e.sym("f")
            self.arg = self.root(env, st, 8, self.f0)
        else:
            self.arg = self.obj = self.root(env, st, 16)
        self.roots0 = set(st.mem)
        self.val0 = dict(st.g["val"])
        return [Ptr(self.s), Ptr(self.arg)]

    def intercept(self, env, st, fname, args, site):
        d = env.m.dem.get(fname, "")
        if d.endswith(" const") and "::equals(" in d and "detail::slot_" in d and len(args) == 2:
            o = env.canon(st, args[1])
            if isinstance(o, Ptr) and isz(o.oid):
                return self.equal(env, st, o.oid, env.canon(st, args[0]).oid)
        return NotImplemented

    def equal(self, env, st, i, j):
        """slot implementation i (of the list) is compared with j: interface contract of equals"""
        e = env.eng
        if self.kind == "fn":
            vals = [v for k, v in st.g["val"].items() if k[0] == j]
            e.oblige(st, "the list is compared with the given callable", len(vals) == 1 and I(vals[0]) == self.f0, ("C06",))
        elif self.kind == "pmf":
            ptrs = [c[1] for c in st.mem[j].values() if isinstance(c[1], Ptr) and c[1].oid == self.obj]
            e.oblige(st, "the list is compared with the given object", len(ptrs) == 1, ("C06",))
        else:
            e.oblige(st, "the list is compared with the given slot", isint(j) and j == self.impl or env.beh(j) == env.beh(self.impl), ("C06",))
        outs = env.maythrow(st, "compare")
        return outs + e.ret_to(st, env.eqf(i, TARGET))

    def match(self, env, st, H, x):
        if self.kind == "slot" and self.empty:
            return z3.BoolVal(False)
        return env.eqf(z3.Select(H["impl"], x), TARGET)

    def spec(self, env, st, V0, H0, V1, H1, partial=False):
        """[(name, formula, labels)] of the relation between the list before and after"""
        k = z3.Int("k")
        x1, x0 = z3.Select(V1.P, k), z3.Select(V0.P, k)
        r1, r0 = z3.And(k >= 0, k < I(V1.len)), z3.And(k >= 0, k < I(V0.len))
        m = lambda x: self.match(env, st, H0, x)
        out = []
        out.append(("disconnect never adds slots: every remaining slot was in the list", forall(k, r1, present(H0, V0, x1), [x1])))
        out.append(("no slot that differs is removed", forall(k, r0, z3.Or(present(H1, V1, x0), m(x0)), [x0])))
        if not partial:
            out.append(("every equal slot is removed", forall(k, r1, z3.Not(m(x1)), [x1])))
        i0 = z3.Select(H0["impl"], x0)
        out.append(("removed slots are disconnected", forall(k, r0, z3.Or(present(H1, V1, x0), z3.Not(z3.Select(H1["conn"], i0))), [x0])))
        out.append(("remaining slots stay connected", forall(k, r0, z3.Or(m(x0), z3.Select(H1["conn"], i0) == z3.Select(H0["conn"], i0)), [x0])))
        return out

    def candidates(self, env, eng, entry, hst, mod, terms, ints, bools, T, guard, nm):
        out = []
        opens = [cs for cs in entry.g["cs"] if cs["open"]]
        if len(opens) != 1:
            return out
        cs = opens[0]
        V0, H0 = cs["V0"], cs["H0"]
        s = cs["sig"]

        def cur(st):
            c = env.list_cell(st, s)
            return st.g["vec"][(c.oid, 0)]
        n = len(self.spec(env, entry, V0, H0, V0, H0, True))
        for i in range(n):
            out.append(Cand("erase%d" % i, guard(lambda st, tm, i=i: self.spec(env, st, V0, H0, cur(st), st.g["H"], True)[i][1])))
        for k in ints:
            def pre(st, tm, k=k):
                q = z3.Int("q")
                x = z3.Select(cur(st).P, q)
                return forall(q, z3.And(q >= 0, q < I(T(tm, k))), z3.Not(self.match(env, st, H0, x)), [x])
            out.append(Cand("kept[0,%s)" % nm(k), guard(pre)))

            def suf(st, tm, k=k):
                q = z3.Int("q")
                x = z3.Select(cur(st).P, q)
                return forall(q, z3.And(q >= I(T(tm, k)), q < I(cur(st).len)), z3.Not(self.match(env, st, H0, x)), [x])
            out.append(Cand("kept[%s,len)" % nm(k), guard(suf)))
            out.append(Cand("%s<=len" % nm(k), guard(lambda st, tm, k=k: I(T(tm, k)) <= I(cur(st).len))))
            out.append(Cand("%s+len==len0" % nm(k), guard(lambda st, tm, k=k: I(T(tm, k)) + I(cur(st).len) == I(V0.len))))
        out.append(Cand("len<=len0", guard(lambda st, tm: I(cur(st).len) <= I(V0.len))))
        out.append(Cand("len>=0", guard(lambda st, tm: I(cur(st).len) >= 0)))
        return out

    def impl_call(self, env, st, obj, args, site):
        env.eng.oblige(st, "disconnecting never calls a slot", False, ("C06", "C14"))

    def user(self, env, st, name, args, site):
        env.eng.oblige(st, "disconnecting never calls a slot", False, ("C06", "C14"))

    def post(self, env, st):
        e = env.eng
        self.common_post(env, st)
        cs = [c for c in st.g["cs"] if c["sig"] == self.s]
        if len(cs) > 1:
            raise Unsupported("more than one critical section")
        if not cs:
            e.oblige(st, "disconnect looks at the signal's list", st.status == "exc", ("C06",))
            return
        c = cs[0]
        for n, f in self.spec(env, st, c["V0"], c["H0"], c["V1"], c["H1"], partial=st.status == "exc"):
            e.oblige(st, n, f, ("C06", "C20") if st.status == "exc" else ("C06",))
        if st.status == "ret":
            e.oblige(st, "disconnect returns the number of slots it removed", I(st.ret) == I(c["V0"].len) - I(c["V1"].len), ("C06",))
        cur = env.list_cell(st, self.s)
        h = [o for o in (st.g.get("heap") or {}) if o not in (cur.oid,) and o not in self.roots0 and o not in env.released(st)]
        e.oblige(st, "nothing leaks", not h, ("C20", "C06"), detail=str(h))
        vl = [k for k in st.g["val"] if k not in self.val0]
        e.oblige(st, "every temporary copy of the callable is destroyed", not vl, ("C20", "C06"), detail=str(vl))


def units():
    out = [Emission(X) for X in "ABCEFK"] + [Combine("G"), Combine("H")]
    for X in "ABCE":
        out += [Connect(X, "fn"), Connect(X, "fnr"), Connect(X, "slot"), Connect(X, "slot", empty=True), Connect(X, "fn", scoped=True), Connect(X, "slot", scoped=True)]
        out += [Erase(X, "slot"), Erase(X, "fn"), Erase(X, "slot", empty=True)]
    for X in "FK":
        out += [Connect(X, "fn"), Connect(X, "slot")]
    out += [Connect("A", "pmf"), Connect("A", "trk"), Connect("A", "pmf", scoped=True), Erase("A", "pmf")]
    return out
