"""Contracts of slots and of every slot implementation class (function objects, function pointers, member functions and
data through pointers, references and tracked shared/weak pointers), on the real classes."""
import z3
from ir import Unsupported, PTR, ity
from engine import *
from env import R
from user import Unit, own_exc, USEREXC, keeps, vget, vnew, key as ukey, CMP
import harness

SIGN = {"A": "int(Val,int&)", "B": "void(Val)", "C": "Val(int)", "D": "int()", "E": "int(Val&&,const Val&)", "F": "void()", "K": "int(Val,int,Val,const Val&)"}
OPTN = {"A": "A", "C": "C", "D": "A", "E": "A", "K": "A"}


class SlotUnit(Unit):
    X = "A"
    NOTCMP = "not_comparable_exception"

    def mk(self, env, st, kind, obj=None, flags=True):
        """build a slot of the given kind with the real constructor (no throws), then make its state arbitrary.
        returns (st, slot oid, info)"""
        e = env.eng
        l = e.new_obj(st, 64)
        info = {"kind": kind}
        (th, om), self.throws, self.oom = (self.throws, self.oom), (), False
        e.quiet += 1
        try:
            if kind == "empty":
                a = [Ptr(l)]
            elif kind in ("fn", "fnr", "nc"):
                f = e.new_obj(st, 8)
                info["val"] = e.sym("f")
                st.g["val"][(f, 0)] = info["val"]
                a = [Ptr(l), Ptr(f)]
            elif kind in ("fpa", "fpb"):
                a = [Ptr(l)]
            elif kind in ("pmf", "ref", "pmf2"):
                info["obj"] = obj = obj or e.new_obj(st, 16)
                a = [Ptr(l), Ptr(obj)]
            elif kind in ("trk", "trkw", "trk2"):
                info["obj"] = obj = obj or e.new_obj(st, 16)
                w = e.new_obj(st, 16)
                e.raw_store(st, Ptr(w), 8, Ptr(obj))
                e.raw_store(st, Ptr(w, 8), 8, Ptr(obj, CTRL))
                st.g["alive"].append(obj)
                a = [Ptr(l), Ptr(w)]
            elif kind in ("cw", "cw2", "pmv"):
                f = self.uptr(env, st, kind, info)
                a = [Ptr(l), Ptr(f)]
            ends = harness.run_fn(e, st, "mk_slot_%s_%s" % (kind, self.X), a)
            if len(ends) != 1 or ends[0].status != "ret":
                raise Unsupported("slot construction for %s: %r" % (kind, [x.status for x in ends]))
            st = ends[0]
        finally:
            self.throws, self.oom = th, om
            e.quiet -= 1
        if kind in ("fn", "fnr", "nc", "cw", "cw2", "pmv"):
            st.g["val"].pop((f, 0), None)
        if kind.startswith("cw"):
            info["gone"] = st.g["wgone"] = st.g.get("wgone") if st.g.get("wgone") is not None else e.sym("gone", "bool")
        if kind.startswith("trk"):
            st.g["alive"] = [x for x in st.g["alive"] if x != obj]
            info["gone"] = e.sym("gone", "bool")
            st.g["gone"].append((obj, info["gone"]))
            n = env.own_expr(st, obj)
            e.oblige(st, "a tracking slot does not keep the tracked object alive", ieq(n, 0), ("C12",))
        c = st.mem[l].get(env.L["slot_impl"])
        info["impl"] = None
        if kind != "empty":
            if not c or not isinstance(c[1], Ptr) or c[1].null:
                raise Unsupported("slot without implementation")
            i = info["impl"] = c[1].oid
            if flags:
                for f in ("conn", "blk"):
                    b = info[f] = e.sym(f, "bool")
                    st.mem[i][env.L[f]] = (1, z3.If(b, z3.IntVal(1), z3.IntVal(0)))
            info["cells"] = dict(st.mem[i])
            info["vals"] = {k: v for k, v in st.g["val"].items() if k[0] == i}
        return st, l, info

    def uptr(self, env, st, kind, info):
        """the object, or the user's own owning pointer, that a slot is made with"""
        e = env.eng
        f = e.new_obj(st, 8)
        info["val"] = e.sym("f")
        st.g["val"][(f, 0)] = info["val"]
        if kind != "pmv":
            st.g.setdefault("wobj", e.new_obj(st, 16))
            info["obj"] = st.g["wobj"]
            st.g["stp"] = st.g.get("stp", ()) + (((f, 0), info["val"]),)
            st.g["wdead"] = False
        return f

    def args(self, env, st):
        e = env.eng
        v = self.root(env, st, 8, e.sym("av"))
        self.v0, self.vo = st.g["val"][(v, 0)], v
        self.r = self.root(env, st, 4)
        self.x = e.sym("ar")
        st.pc.append(z3.And(self.x >= 0, self.x < 2 ** 32))
        e.raw_store(st, Ptr(self.r), 4, self.x)
        self.out = self.root(env, st, 32)
        if self.X == "E":
            self.w = self.root(env, st, 8, e.sym("aw"))
            self.w0 = st.g["val"][(self.w, 0)]
            return [Ptr(v), Ptr(self.w), Ptr(self.out)]
        if self.X == "K":
            self.u, self.w = self.root(env, st, 8, e.sym("au")), self.root(env, st, 8, e.sym("aw"))
            self.u0, self.w0 = st.g["val"][(self.u, 0)], st.g["val"][(self.w, 0)]
            return [Ptr(v), self.x, Ptr(self.u), Ptr(self.w), Ptr(self.out)]
        return {"A": [Ptr(v), Ptr(self.r), Ptr(self.out)], "B": [Ptr(v), Ptr(self.out)], "C": [self.x, Ptr(self.out)], "D": [Ptr(self.out)], "F": [Ptr(self.out)]}[self.X]

    def begin(self, env, st):
        """remember the state at the start of the verified operation"""
        st.g["heap0"] = dict(st.g.get("heap") or {})
        st.g["val0"] = dict(st.g["val"])
        st.g["calls"] = ()
        st.frames = []
        st.status = None

    def user(self, env, st, name, args, site):
        e = env.eng
        b = 1 if self.X == "C" else 0
        if name.startswith("free"):
            b -= 1
            tgt = name
        else:
            tgt = args[b]
        alive = None
        if isinstance(tgt, Ptr) and isint(tgt.oid):
            n = env.own_expr(st, tgt.oid)
            alive = n
            if tgt.oid == st.g.get("wobj"):
                alive = len(keeps(st))
        rec = dict(name=name, tgt=tgt, own=alive, fval=vget(env, st, ukey(env, st, tgt)) if name.startswith(("Fn", "Nc", "VObj")) else None)
        rest = args[b + 1:]
        if self.X in "ABK":
            k = ukey(env, st, rest[0])
            rec["val"] = vget(env, st, k)
            st.g["val"][k] = e.sym("clob")
        if self.X == "A":
            rec["ref"] = rest[1]
        if self.X == "K":
            k = ukey(env, st, rest[2])
            rec["val2"], rec["int"], rec["ref"], rec["refval"] = vget(env, st, k), rest[1], rest[3], vget(env, st, ukey(env, st, rest[3]))
            st.g["val"][k] = e.sym("clob")
        if self.X == "C":
            rec["val"] = rest[0]
        if self.X == "E":
            rec["ref"], rec["ref2"] = rest[0], rest[1]
            rec["val"], rec["val2"] = (vget(env, st, ukey(env, st, p)) for p in rest[:2])
        outs = env.maythrow(st, "call")
        for s in outs:
            pass
        if self.X == "C":
            x = e.sym("res")
            vnew(env, st, ukey(env, st, args[0]), x)
            rec["res"] = x
            st.g["calls"] = st.g["calls"] + (rec,)
            return outs + R(env, st)
        if self.X in "BF":
            st.g["calls"] = st.g["calls"] + (rec,)
            return outs + R(env, st)
        x = e.sym("res")
        st.pc.append(z3.And(x >= 0, x < 2 ** 32))
        rec["res"] = x
        st.g["calls"] = st.g["calls"] + (rec,)
        return outs + R(env, st, x)

    def unchanged(self, env, st, info, what, labels, ignore=()):
        """slot implementation is as it was"""
        e = env.eng
        i = info["impl"]
        if i is None:
            return
        c = st.mem.get(i)
        e.oblige(st, "%s still has its implementation" % what, c is not None, labels)
        for o, (sz, v) in info["cells"].items():
            if o in ignore:
                continue
            w = c.get(o)
            if w is None:
                e.oblige(st, "%s is unchanged" % what, False, labels)
            ok = same((sz, v), w)
            if not ok and isz(v) or isz(w[1]):
                ok = v == w[1] if not ok and isz(v) and isz(w[1]) else ok
            e.oblige(st, "%s is unchanged" % what, ok, labels)
        for k, v in info["vals"].items():
            w = st.g["val"].get(k)
            e.oblige(st, "%s keeps its callable" % what, w is not None and same((0, v), (0, w)), labels)

    def impl_of(self, env, st, l):
        c = st.mem[l].get(env.L["slot_impl"])
        if c is None:
            for a, b in st.zero.get(l, ()):
                if a <= env.L["slot_impl"] < b:
                    return None
            raise Unsupported("slot implementation pointer is not initialised")
        p = c[1]
        if not isinstance(p, Ptr) or not isint(p.oid):
            raise Unsupported("slot implementation pointer %r" % (p,))
        return None if p.null else p.oid

    def noleak(self, env, st, allowed, labels):
        e = env.eng
        h = [o for o in (st.g.get("heap") or {}) if o not in allowed]
        e.oblige(st, "nothing leaks", not h, labels + ("C20",), detail=str(h))
        ok = {k for k in st.g["val0"]}
        vl = [k for k in st.g["val"] if k not in ok and k[0] not in allowed and k[0] != getattr(self, "out", None)]
        e.oblige(st, "every temporary is destroyed", not vl, labels + ("C20",), detail=str(vl))
        own = [(o, d) for o, d in st.g["own"] if not (isint(d) and d == 0)]
        e.oblige(st, "no reference is left behind", not own, labels + ("C12",), detail=str(own))
        e.oblige(st, "every lock is released on return and on exception", not st.g["held"], ("C07", "C20"))

    def copies(self, env, st, new, info, labels):
        """implementation object `new` is an independent copy of info's"""
        e = env.eng
        e.oblige(st, "a copy has its own implementation", new is not None and new != info["impl"], labels)
        for o, (sz, v) in info["cells"].items():
            if o == env.L["idx"]:
                continue
            w = st.mem[new].get(o)
            if w is None:
                # covered by a user object or padding
                continue
            ok = same((sz, v), w)
            e.oblige(st, "a copy has the same callable, object and state", ok if ok or not (isz(v) and isz(w[1])) else v == w[1], labels)
        for f in ("conn", "blk"):
            w = st.mem[new].get(env.L[f])
            e.oblige(st, "a copy has the same state (%s)" % f, w is not None and B(e.as01(w[1])) == B(e.as01(info["cells"][env.L[f]][1])), labels)
        vt0, vt1 = info["cells"][0][1], st.mem[new][0][1]
        e.oblige(st, "a copy is of the same kind", same((8, vt0), (8, vt1)), labels)
        for k, v in info["vals"].items():
            w = st.g["val"].get((new, k[1]))
            e.oblige(st, "a copy calls an equal callable of its own", w is not None and same((0, v), (0, w)), labels)


KN = {"fn": "functor", "fnr": "moved functor", "nc": "non-comparable functor", "fpa": "function pointer", "fpb": "other function pointer", "pmf": "member pointer, object pointer", "ref": "member pointer, reference", "trk": "member pointer, shared_ptr", "trkw": "member pointer, weak_ptr", "cw": "member pointer, own tracking pointer", "cw2": "other member pointer, own tracking pointer", "pmv": "member pointer, object by value", "pmf2": "other member pointer, object pointer", "trk2": "other member pointer, shared_ptr", "empty": "empty"}


class SlotMake(SlotUnit):
    """construction of a slot from a callable"""

    def __init__(self, X, kind):
        self.X, self.kind = X, kind
        self.entry = "mk_slot_%s_%s" % (kind, X)
        self.name = "slot<%s>(%s)" % (SIGN[X], KN[kind])
        self.props = ("C13", "C04", "C20", "C12", "C07")

    def setup(self, env, st):
        e = env.eng
        self.l = e.new_obj(st, 64)
        a = [Ptr(self.l)]
        if self.kind in ("fn", "fnr", "nc"):
            self.v0 = e.sym("f")
            self.f = self.root(env, st, 8, self.v0)
            a.append(Ptr(self.f))
        elif self.kind in ("pmf", "ref", "pmf2"):
            self.obj = e.new_obj(st, 16)
            a.append(Ptr(self.obj))
        elif self.kind in ("trk", "trkw", "trk2"):
            self.obj = e.new_obj(st, 16)
            w = e.new_obj(st, 16)
            e.raw_store(st, Ptr(w), 8, Ptr(self.obj))
            e.raw_store(st, Ptr(w, 8), 8, Ptr(self.obj, CTRL))
            st.g["alive"].append(self.obj)
            a.append(Ptr(w))
        elif self.kind in ("cw", "cw2", "pmv"):
            i = {}
            self.f = self.uptr(env, st, self.kind, i)
            self.v0 = i["val"]
            a.append(Ptr(self.f))
        self.begin(env, st)
        return a

    def post(self, env, st):
        e = env.eng
        lab = ("C13", "C04")
        if st.status == "exc":
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), ("C20",))
            self.noleak(env, st, (), lab)
            return
        i = self.impl_of(env, st, self.l)
        self.noleak(env, st, (i,), lab)
        e.oblige(st, "nothing is called when a slot is made", not st.g["calls"], lab)
        if self.kind == "empty":
            e.oblige(st, "a default-constructed slot is empty", i is None, lab)
            return
        e.oblige(st, "a slot made from a callable is not empty", i is not None, lab)
        for f, want in (("conn", True), ("blk", False)):
            w = st.mem[i].get(env.L[f])
            e.oblige(st, "a new slot is connected and not blocked (%s)" % f, w is not None and B(e.as01(w[1])) == want, lab)
        if self.kind in ("fn", "fnr", "nc", "cw", "cw2", "pmv"):
            vs = [v for k, v in st.g["val"].items() if k[0] == i]
            e.oblige(st, "a slot holds one copy of the given callable", len(vs) == 1 and same((0, vs[0]), (0, self.v0)), lab)
            e.oblige(st, "the given callable is still alive", (self.f, 0) in st.g["val"], lab)
            if self.kind != "fnr":
                e.oblige(st, "the given callable is unchanged", same((0, st.g["val"].get((self.f, 0))), (0, self.v0)), lab)


class SlotCall(SlotUnit):
    """invoking a slot in an arbitrary state"""

    def __init__(self, X, kind):
        self.X, self.kind = X, kind
        self.entry = "slot_call_" + X
        self.name = "slot<%s>::operator() (%s)" % (SIGN[X], KN[kind])
        self.props = ("C13", "C01", "C10", "C02", "C03", "C20") + (("C12",) if kind.startswith(("trk", "cw")) else ())

    def setup(self, env, st0):
        # run in place: move the built state into st0
        st, self.l, self.info = self.mk(env, st0, self.kind)
        a = self.args(env, st)
        if self.X == "D" and self.info.get("obj"):
            self.d0 = env.eng.sym("data")
            st.pc.append(z3.And(self.d0 >= 0, self.d0 < 2 ** 32))
            env.eng.raw_store(st, Ptr(self.info["obj"], 8), 4, self.d0)
            if self.kind.startswith("trk"):
                st.g["watched"] = self.info["obj"]
        self.begin(env, st)
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return [Ptr(self.l)] + a

    def post(self, env, st):
        e = env.eng
        calls = st.g["calls"]
        thrown = st.status == "exc"
        info = self.info
        lab = ("C13", "C01", "C10")
        e.oblige(st, "a slot calls its callable at most once", len(calls) <= 1, lab)
        if thrown:
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), ("C20", "C13"))
        self.noleak(env, st, (info["impl"],), ("C13",))
        if self.kind == "empty":
            e.oblige(st, "an empty slot calls nothing", not calls and not thrown, lab)
            return self.none(env, st)
        exp = [x for x in st.log if x[0] == "expired"]
        ignore = (env.L["conn"],) if exp else ()
        self.unchanged(env, st, info, "the slot", ("C13", "C01", "C10"), ignore)
        dead = z3.Or(B(bool(exp) or bool(st.g["dead"])), info.get("gone", z3.BoolVal(False)))
        for o, n in st.g.get("ucs", ()):
            if isint(o) and o == info.get("obj"):
                dead = z3.Or(B(dead), I(n) == 0)
        pmd = self.X == "D"
        if not pmd:
            if not thrown:
                want = z3.And(z3.Not(info["blk"]), info["conn"], z3.Not(B(dead)))
                e.oblige(st, "a slot calls its callable exactly if it is connected, not blocked and its tracked object is alive", B(len(calls) == 1) == want, lab + (("C12",) if self.kind.startswith(("trk", "cw")) else ()))
            elif not calls:
                e.oblige(st, "a slot that is blocked, disconnected or whose object is gone does not touch its callable or arguments", z3.And(z3.Not(info["blk"]), info["conn"], z3.Not(B(dead))), lab)
        for c in calls:
            if self.kind.startswith("cw"):
                e.oblige(st, "the tracked object is kept alive during the call", c["own"] >= 1, ("C12",))
            if self.kind == "pmv":
                e.oblige(st, "a slot calls its member function on its object", c["name"] == {"A": "VObj::m", "B": "VObj::mb", "C": "VObj::mc"}[self.X], lab)
            if info.get("val") is not None and not self.kind.startswith("cw"):
                e.oblige(st, "a slot calls its own callable", I(c["fval"]) == info["val"] and c["tgt"].oid == info["impl"], lab)
            elif self.kind in ("fpa", "fpb"):
                e.oblige(st, "a slot calls its own function", c["name"] == {"fpa": "free_a", "fpb": "free_b"}[self.kind], lab)
            else:
                want = {"A": "Obj::m", "B": "Obj::mb", "C": "Obj::mc", "E": "Obj::me", "F": "Obj::mf", "K": "Obj::mk"}[self.X] + ("2" if self.kind.endswith("2") else "")
                e.oblige(st, "a slot calls its member function on its object", c["name"] == want and isinstance(c["tgt"], Ptr) and c["tgt"].oid == info["obj"] and c["tgt"].off == 0, lab + ("C12",))
                if self.kind.startswith("trk"):
                    e.oblige(st, "the tracked object is kept alive during the call", I(c["own"]) >= 1, ("C12",))
            if self.X in "ABK":
                e.oblige(st, "the callable receives the argument passed to the slot", I(c["val"]) == self.v0, ("C02", "C13"))
            if self.X == "A":
                e.oblige(st, "a reference argument refers to the caller's object", isinstance(c["ref"], Ptr) and c["ref"].oid == self.r, ("C02", "C13"))
            if self.X == "C":
                e.oblige(st, "the callable receives the argument passed to the slot", ieq(c["val"], self.x), ("C02", "C13"))
            if self.X == "K":
                e.oblige(st, "the callable receives the argument passed to the slot", z3.And(I(c["val2"]) == self.u0, B(ieq(c["int"], self.x)), I(c["refval"]) == self.w0), ("C02", "C13"))
                e.oblige(st, "a reference argument refers to the caller's object", isinstance(c["ref"], Ptr) and c["ref"].oid == self.w and c["ref"].off == 0, ("C02", "C13"))
            if self.X == "E":
                ok = all(isinstance(p, Ptr) and p.oid == o and p.off == 0 for p, o in ((c["ref"], self.vo), (c["ref2"], self.w)))
                e.oblige(st, "a reference argument refers to the caller's object", ok, ("C02", "C13"))
                e.oblige(st, "the callable receives the argument passed to the slot", z3.And(I(c["val"]) == self.v0, I(c["val2"]) == self.w0), ("C02", "C13"))
        if thrown or self.X in "BF":
            return
        if pmd:
            for s in harness.run_fn(e, st, "has_A", [Ptr(self.out)]):
                h = B(s.ret) if not isz(s.ret) or z3.is_bool(s.ret) else s.ret != 0
                e.oblige(s, "a member data slot yields a value exactly if it is connected and not blocked and its tracked object is alive", h == z3.And(z3.Not(info["blk"]), info["conn"], z3.Not(B(dead))), lab + (("C12",) if self.kind.startswith("trk") else ()))
                s.assume(h)
                if e.feasible(s):
                    for t in harness.run_fn(e, s, "get_A", [Ptr(self.out)]):
                        e.oblige(t, "a member data slot yields the value of the member of its object", ieq(t.ret, self.d0), lab)
            return
        if not calls:
            return self.none(env, st)
        self.some(env, st, calls[0]["res"])

    def none(self, env, st):
        if self.X in "BF":
            return
        e = env.eng
        n = OPTN[self.X]
        for s in harness.run_fn(e, st, "has_" + n, [Ptr(self.out)]):
            e.oblige(s, "a slot that calls nothing yields no value", s.ret is False or (isint(s.ret) and s.ret == 0) or (isz(s.ret) and z3.Not(B(s.ret) if z3.is_bool(s.ret) else s.ret != 0)), ("C13", "C03", "C12", "C10"))

    def some(self, env, st, res):
        e = env.eng
        for s in harness.run_fn(e, st, "has_" + OPTN[self.X], [Ptr(self.out)]):
            h = B(s.ret) if not isz(s.ret) or z3.is_bool(s.ret) else s.ret != 0
            e.oblige(s, "a slot that calls its callable yields a value", h, ("C13", "C03"))
            for t in harness.run_fn(e, s, "get_" + OPTN[self.X], [Ptr(self.out)]):
                r = t.ret
                if self.X == "C":
                    r = vget(env, t, ukey(env, t, r))
                e.oblige(t, "a slot yields exactly what its callable returned", I(r) == I(res), ("C13", "C03"))


class SlotOp(SlotUnit):
    """copy / move / assignment / destruction"""

    def __init__(self, op, X, k1, k2=None, alias=False):
        self.op, self.X, self.k1, self.k2, self.alias = op, X, k1, k2, alias
        self.entry = "slot_%s_%s" % (op, X)
        self.name = "slot<%s> %s (%s%s)" % (SIGN[X], {"copy": "copy constructor", "move": "move constructor", "asgn": "assignment", "masgn": "move assignment", "dtor": "destructor"}[op], KN[k1], " = " + KN[k2] if k2 else " = itself" if alias else "")
        self.props = ("C13", "C20", "C07")

    def setup(self, env, st0):
        st, e = st0, env.eng
        st, self.a, self.ia = self.mk(env, st, self.k1)
        args = []
        if self.op in ("copy", "move"):
            self.d = e.new_obj(st, 64)
            self.src, self.isrc = self.a, self.ia
            args = [Ptr(self.d), Ptr(self.a)]
        elif self.op in ("asgn", "masgn"):
            self.d = self.a
            if self.alias:
                self.src, self.isrc = self.a, self.ia
            else:
                st, self.src, self.isrc = self.mk(env, st, self.k2)
            args = [Ptr(self.d), Ptr(self.src)]
        else:
            args = [Ptr(self.a)]
        self.begin(env, st)
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return args

    def post(self, env, st):
        e = env.eng
        lab = ("C13",)
        e.oblige(st, "copying, moving and assigning slots calls nothing", not st.g["calls"], lab)
        if st.status == "exc":
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), ("C20",))
        if self.op == "dtor":
            e.oblige(st, "destroying a slot does not throw", st.status == "ret", lab)
            self.noleak(env, st, (), lab)
            return
        if st.status == "exc":
            self.noleak(env, st, tuple(x["impl"] for x in (self.ia, self.isrc) if x["impl"]), lab)
            self.unchanged(env, st, self.isrc, "the source", lab + ("C20",))
            e.oblige(st, "the source keeps its implementation", self.impl_of(env, st, self.src) == self.isrc["impl"], lab)
            if self.op in ("asgn", "masgn"):
                e.oblige(st, "a failed assignment leaves the target as it was", self.impl_of(env, st, self.d) == self.ia["impl"], lab + ("C20",))
                self.unchanged(env, st, self.ia, "the target", lab + ("C20",))
            e.oblige(st, "moving slots does not throw", self.op in ("copy", "asgn"), lab)
            return
        di, si = self.impl_of(env, st, self.d), self.impl_of(env, st, self.src)
        self.noleak(env, st, tuple(x for x in (di, si) if x), lab)
        if self.op in ("copy", "asgn"):
            e.oblige(st, "the source keeps its implementation", si == self.isrc["impl"] or self.alias, lab)
            if not self.alias:
                self.unchanged(env, st, self.isrc, "the source", lab)
            if self.isrc["impl"] is None:
                e.oblige(st, "a copy of an empty slot is empty", di is None, lab)
            elif self.alias:
                e.oblige(st, "self assignment keeps the callable", di is not None, lab)
                if di != self.ia["impl"]:
                    self.copies(env, st, di, self.ia, lab)
                else:
                    self.unchanged(env, st, self.ia, "the slot", lab)
            else:
                self.copies(env, st, di, self.isrc, lab)
        else:
            if not self.alias:
                e.oblige(st, "a moved-from slot is empty", si is None, lab)
                e.oblige(st, "a move transfers the callable", (di is None) == (self.isrc["impl"] is None), lab)
                if di is not None:
                    if di == self.isrc["impl"]:
                        self.unchanged(env, st, self.isrc, "the moved slot", lab)
                    else:
                        self.copies(env, st, di, self.isrc, lab)
        if self.op in ("asgn", "masgn") and not self.alias and self.ia["impl"] is not None:
            e.oblige(st, "the previous callable of the target is destroyed", self.ia["impl"] in st.freed or self.ia["impl"] not in st.mem, lab)


class SlotQuery(SlotUnit):
    def __init__(self, q, X, kind):
        self.q, self.X, self.kind = q, X, kind
        self.entry = "slot_%s_%s" % (q, X)
        self.name = "slot<%s>::%s (%s)" % (SIGN[X], {"bool": "operator bool", "connected": "connected", "blocked": "blocked", "disc": "disconnect", "block": "block", "unblock": "unblock"}[q], KN[kind])
        self.props = ("C13", "C10", "C01", "C05") + (("C12",) if kind.startswith(("trk", "cw")) else ())

    def setup(self, env, st0):
        st, self.l, self.info = self.mk(env, st0, self.kind)
        self.begin(env, st)
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return [Ptr(self.l)]

    def post(self, env, st):
        e = env.eng
        info = self.info
        lab = ("C13", "C10")
        e.oblige(st, "queries and state changes neither call nor throw", st.status == "ret" and not st.g["calls"], lab)
        self.noleak(env, st, tuple(x for x in (info["impl"],) if x), lab)
        r = st.ret
        if r is not None:
            r = B(r) if not isz(r) or z3.is_bool(r) else r != 0
        dead = z3.Or(B(bool(st.g["dead"])), info.get("gone", z3.BoolVal(False)))
        for o, n in st.g.get("ucs", ()):
            if isint(o) and o == info.get("obj"):
                dead = z3.Or(dead, I(n) == 0)
        ign = ()
        if self.q == "bool":
            e.oblige(st, "a slot converts to true exactly if it is not empty", r == B(self.kind != "empty"), lab)
        elif self.kind == "empty":
            if r is not None:
                e.oblige(st, "an empty slot is neither connected nor blocked", z3.Not(r), lab)
        elif self.q == "connected":
            e.oblige(st, "a slot reports whether it is connected (and its tracked object alive)", r == z3.And(info["conn"], z3.Not(dead)), lab + ("C12", "C05", "C01"))
        elif self.q == "blocked":
            e.oblige(st, "a slot reports whether it is blocked", r == info["blk"], lab)
        elif self.q in ("block", "unblock"):
            ign = (env.L["blk"],)
            w = st.mem[info["impl"]][env.L["blk"]][1]
            e.oblige(st, "a slot is %sed afterwards" % self.q, B(e.as01(w)) == (self.q == "block"), lab)
        elif self.q == "disc":
            ign = (env.L["conn"],)
        self.unchanged(env, st, info, "the slot", lab, ign)


class SlotEq(SlotUnit):
    def __init__(self, op, X, k1, k2, sameobj=True, alias=False):
        self.op, self.X, self.k1, self.k2, self.sameobj, self.alias = op, X, k1, k2, sameobj, alias
        self.entry = "slot_%s_%s" % (op, X)
        self.name = "slot<%s> %s (%s, %s%s)" % (SIGN[X], {"eq": "==", "ne": "!="}[op], KN[k1], "itself" if alias else KN[k2], "" if sameobj else " of another object")
        self.props = ("C14", "C06", "C20")

    def setup(self, env, st0):
        st, self.a, self.ia = self.mk(env, st0, self.k1)
        if self.alias:
            self.b, self.ib = self.a, self.ia
        else:
            st, self.b, self.ib = self.mk(env, st, self.k2, self.ia.get("obj") if self.sameobj else None)
        self.begin(env, st)
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return [Ptr(self.a), Ptr(self.b)]

    def post(self, env, st):
        e = env.eng
        lab = ("C14", "C06")
        e.oblige(st, "comparing slots never calls them", not st.g["calls"], lab)
        self.noleak(env, st, tuple(x["impl"] for x in (self.ia, self.ib) if x["impl"]), lab)
        self.unchanged(env, st, self.ia, "the slot", lab)
        self.unchanged(env, st, self.ib, "the slot", lab)
        incomparable = self.k1 == self.k2 and self.k1 in ("nc", "trk", "trkw", "ref")
        trkmix = {self.k1, self.k2} == {"trk", "trkw"}
        if st.status == "exc":
            if st.g.get("lastexc") == st.exc.oid:
                e.oblige(st, "comparison of slots only compares callables of the same type", (self.k1 == self.k2 or {self.k1, self.k2} == {"cw", "cw2"}) and self.k1 in ("fn", "cw", "pmv"), lab)
                return
            e.oblige(st, "an error is reported exactly for callables that cannot be compared", incomparable or trkmix, lab + ("C20",))
            e.oblige(st, "callables that cannot be compared are reported as such", self.NOTCMP in st.exc.tname, lab)
            return
        e.oblige(st, "comparing callables that cannot be compared reports an error", not (incomparable or trkmix), lab)
        r = B(st.ret) if not isz(st.ret) or z3.is_bool(st.ret) else st.ret != 0
        if self.k1 != self.k2:
            want = z3.BoolVal(False)
        elif self.k1 == "empty":
            want = z3.BoolVal(True)
        elif self.k1 in ("fn", "cw", "pmv"):
            a, b = self.ia["val"], self.ib["val"]
            if self.alias:
                st.pc.append(CMP["=="](a, a))  # an object is equal to itself
            e.oblige(st, "equality of slots is equality of their callables", z3.Or(r == (CMP["=="](a, b) if self.op == "eq" else z3.Not(CMP["=="](a, b))),
                                                                               r == (CMP["=="](b, a) if self.op == "eq" else z3.Not(CMP["=="](b, a)))), lab)
            return
        else:
            want = z3.BoolVal(self.sameobj)
        e.oblige(st, "two slots are equal exactly if they hold the same kind of callable with equal value", r == (want if self.op == "eq" else z3.Not(want)), lab)


def units():
    out = []
    for X in "ABC":
        for k in ("fn", "fnr", "pmf", "ref", "trk", "trkw", "pmf2", "trk2"):
            out.append(SlotMake(X, k))
            if k != "fnr":
                out.append(SlotCall(X, k))
        out.append(SlotMake(X, "empty"))
        out.append(SlotCall(X, "empty"))
        for k in ("fn", "pmf", "trk", "empty"):
            for op in ("copy", "move", "dtor"):
                out.append(SlotOp(op, X, k))
            for k2 in ("fn", "pmf", "empty"):
                out.append(SlotOp("asgn", X, k, k2))
                out.append(SlotOp("masgn", X, k, k2))
            out.append(SlotOp("asgn", X, k, alias=True))
            for q in ("bool", "connected", "blocked", "block", "unblock", "disc"):
                out.append(SlotQuery(q, X, k))
        for op in ("eq", "ne"):
            for k1 in ("empty", "fn", "pmf", "trk"):
                for k2 in ("empty", "fn", "pmf", "trk"):
                    out.append(SlotEq(op, X, k1, k2))
            out.append(SlotEq(op, X, "pmf", "pmf", sameobj=False))
            out.append(SlotEq(op, X, "pmf", "pmf2"))
            for k in ("fn", "pmf", "trk", "ref", "empty"):
                out.append(SlotEq(op, X, k, k, alias=True))
        for k in ("cw", "cw2", "pmv"):
            out += [SlotMake(X, k), SlotCall(X, k)]
        for k in ("cw", "pmv"):
            out += [SlotOp(op, X, k) for op in ("copy", "move", "dtor")] + [SlotOp(op, X, k, k) for op in ("asgn", "masgn")]
            out += [SlotEq(op, X, k, k2) for op in ("eq", "ne") for k2 in ("fn", "pmf", k)] + [SlotEq("eq", X, k, k, alias=True)]
            out += [SlotQuery(q, X, k) for q in ("connected", "blocked")]
        out += [SlotEq(op, X, "cw", "cw2") for op in ("eq", "ne")]
    for k in ("fpa", "fpb", "nc"):
        out.append(SlotMake("A", k))
        out.append(SlotCall("A", k))
    for k1, k2 in (("fpa", "fpa"), ("fpa", "fpb"), ("fpa", "fn"), ("nc", "nc"), ("nc", "fn"), ("trkw", "trkw"), ("trk", "trkw"), ("ref", "pmf"), ("ref", "ref")):
        out.append(SlotEq("eq", "A", k1, k2))
    for k in ("nc", "trkw"):
        out.append(SlotEq("eq", "A", k, k, alias=True))
    for k in ("fn", "fnr", "pmf", "ref", "trk", "trkw", "empty"):
        out.append(SlotMake("E", k))
        if k != "fnr":
            out.append(SlotCall("E", k))
        if k in ("fn", "pmf", "trk"):
            out += [SlotOp(op, "E", k) for op in ("copy", "move", "dtor")] + [SlotEq("eq", "E", k, "fn"), SlotEq("eq", "E", k, "pmf")]
    for X in "FK":
        for k in ("fn", "fnr", "pmf", "ref", "trk", "trkw", "empty"):
            out.append(SlotMake(X, k))
            if k != "fnr":
                out.append(SlotCall(X, k))
        out += [SlotOp(op, X, k) for k in ("fn", "trk") for op in ("copy", "move", "dtor")]
    for k in ("pmf", "ref", "trk", "trkw"):
        out += [SlotMake("D", k), SlotCall("D", k)] + [SlotOp(op, "D", k) for op in ("copy", "move", "dtor")]
    out += [SlotEq("eq", "D", k1, k2) for k1 in ("pmf", "trk") for k2 in ("pmf", "trk")]
    out.append(SlotCall("D", "empty"))
    return out
