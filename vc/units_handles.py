"""Contracts of connections, scoped connections and blockers: every operation on every combination of handles that
refer to an arbitrary (possibly expired, possibly already disconnected) slot, or to nothing."""
import itertools, z3
from ir import Unsupported, PTR, ity
from engine import *
from env import forall, SLOT_LO, SLOT_HI, IMPL_LO, IMPL_HI, R
from units_signal import SigUnit, present


def removal_spec(V0, H0, V1, H1, m):
    """exactly the slots with m(x) are gone from the list, and they are disconnected"""
    k = z3.Int("k")
    x1, x0 = z3.Select(V1.P, k), z3.Select(V0.P, k)
    r1, r0 = z3.And(k >= 0, k < I(V1.len)), z3.And(k >= 0, k < I(V0.len))
    i0 = z3.Select(H0["impl"], x0)
    return [
        ("no slot is added", forall(k, r1, present(H0, V0, x1), [x1])),
        ("no other slot is removed", forall(k, r0, z3.Or(m(x0), present(H1, V1, x0)), [x0])),
        ("the disconnected slot is removed", forall(k, r1, z3.Not(m(x1)), [x1])),
        ("other slots stay connected", forall(k, r0, z3.Or(m(x0), z3.Select(H1["conn"], i0) == z3.Select(H0["conn"], i0)), [x0])),
    ]


class HandleOp(SigUnit):
    """hs: per handle argument (kind, target): kind c/s/b, target 's1'/'s2'/None (refers to nothing)/'new' (raw storage)
    out: expected target of each handle afterwards ('any': not specified)
    disc / blk: slots disconnected / (slot, new blocked state) by the operation; ret: contract of the result"""

    def __init__(self, entry, hs, out, disc=(), blk=(), ret=None, X="A", props=(), same=False):
        self.entry, self.hs, self.out, self.disc, self.blk, self.ret, self.X, self.same = entry, hs, out, disc, blk, ret, X, same
        self.props = props
        self.name = "%s(%s)%s%s" % (entry, ",".join("%s:%s" % (k, t or "empty") for k, t in hs), "" if X == "A" else "<%s>" % X, " aliased" if same else "")

    def after_acquire(self, env, st, s, key):
        v = st.g["vec"][key]
        H = st.g["H"]
        k = z3.Int("k")
        for x in self.slots.values():
            # a slot implementation belongs to exactly one slot
            st.pc.append(forall(k, z3.And(k >= 0, k < I(v.len)), z3.Or(z3.Select(v.P, k) == x, z3.Select(H["impl"], z3.Select(v.P, k)) != z3.Select(H["impl"], x)), [z3.Select(v.P, k)]))

    def setup(self, env, st):
        e = env.eng
        self.s = self.signal(env, st)
        H = st.g["H"]
        self.slots = {}
        for n in sorted({t for _, t in self.hs if t in ("s1", "s2")}):
            s = env.slot_root(st, n)
            self.slots[n] = s
            i = z3.Select(H["impl"], s)
            # established by every operation: a connected slot is owned by a live signal
            st.pc.append(z3.Implies(z3.Select(H["conn"], i), z3.Select(H["sig"], s) == self.s))
            st.pc.append(z3.Select(H["sig"], s) != 0)
            st.g["gone"].append((s, e.sym("gone", "bool")))     # the slot may already have been destroyed
        if len(self.slots) == 2:
            a, b = self.slots["s1"], self.slots["s2"]
            st.pc.append(z3.Or(a == b, z3.Select(H["impl"], a) != z3.Select(H["impl"], b)))
        self.h = []
        for n, (k, t) in enumerate(self.hs):
            if self.same and n == 1:
                self.h.append(self.h[0])
                continue
            o = self.root(env, st, 64)
            self.h.append(o)
            if t == "new":
                continue
            vt = env.L[k + "_ptr_vt"]
            if vt:
                e.raw_store(st, Ptr(o), 8, Ptr(e.gid(vt[0]), vt[1]))
            p = env.L[k + "_ptr"]
            if t is None:
                e.raw_store(st, Ptr(o, p), 8, NULL)
                e.raw_store(st, Ptr(o, p + 8), 8, NULL)
            else:
                e.raw_store(st, Ptr(o, p), 8, Ptr(self.slots[t], 0, None, "slot"))
                e.raw_store(st, Ptr(o, p + 8), 8, Ptr(self.slots[t], CTRL, None, "slot"))
        st.g["H0"] = dict(H)
        return [Ptr(o) for o in self.h]

    def dead(self, st, s):
        f = [ieq(x, s) for x in st.g["dead"]]
        f += [z3.And(B(ieq(o, s)), b) for o, b in st.g["gone"]]
        for o, n in st.g.get("ucs", ()):
            f.append(z3.And(B(ieq(o, s)), I(n) == 0))
        return bor(*f) if f else False

    def impl_call(self, env, st, obj, args, site):
        env.eng.oblige(st, "operations on handles never call a slot", False, ("*",))

    def post(self, env, st):
        e = env.eng
        self.common_post(env, st)
        e.oblige(st, "operations on handles do not throw", st.status == "ret", ("*",))
        H0, H1 = st.g["H0"], st.g["H"]
        x = z3.Int("x")
        al = ("*",)
        imp = {n: z3.Select(H0["impl"], s) for n, s in self.slots.items()}
        dead = {n: B(self.dead(st, s)) for n, s in self.slots.items()}
        # frame: nobody else's state changes
        for f, touched in (("conn", self.disc), ("blk", [n for n, _ in self.blk])):
            but = [x != imp[n] for n in touched]
            # observing an asynchronous disconnect by another thread is not a change made here
            if f == "conn":
                mine = [b for k, b in [(o, b) for (w, o, b) in st.g["obs"] if w == "conn"]]
                but = but + [x != I(o) for (w, o, b) in st.g["obs"] if w == "conn" and not any(t[0] is o or ieq(t[0], o) is True for t in st.g["trans"])]
                if any(y[0] == "flagstore" and y[1] == "conn" and not [n for n in self.disc] for y in st.log):
                    but = [x != imp[n] for n in touched]
            e.oblige(st, "no other slot's %s state changes" % {"conn": "connected", "blk": "blocked"}[f],
                     z3.ForAll([x], z3.Implies(z3.And(*but) if but else z3.BoolVal(True), z3.Select(H1[f], x) == z3.Select(H0[f], x))), al)
        for n, val in self.blk:
            b = z3.Select(H1["blk"], imp[n])
            e.oblige(st, "the slot is %s afterwards" % ("blocked" if val else "unblocked"), z3.Or(dead[n], b if val else z3.Not(b)), ("C10", "C18"))
        trans = st.g["trans"]
        cs = [c for c in st.g["cs"] if c["sig"] == self.s]
        for c in cs:
            if c["open"]:
                return
        tr = [(o, b) for o, b in trans]
        for o, b in tr:
            e.oblige(st, "only the handle's own slot is disconnected", z3.Or(z3.Not(B(b)), *[I(o) == imp[n] for n in self.disc]), al)
        for n in self.disc:
            e.oblige(st, "the slot is not connected afterwards", z3.Or(dead[n], z3.Not(z3.Select(H1["conn"], imp[n]))), ("C05", "C11", "C18", "C01"))
        m = lambda y: z3.Or(*[y == self.slots[n] for n in self.disc]) if self.disc else z3.BoolVal(False)
        did = bor(*[B(b) for _, b in tr]) if tr else False
        if len(cs) > 1:
            raise Unsupported("more than one critical section")
        if not cs:
            e.oblige(st, "a slot that is disconnected is also removed from its signal", bnot(did), ("C05", "C11", "C17"))
        else:
            c = cs[0]
            for nm, f in removal_spec(c["V0"], c["H0"], c["V1"], c["H1"], m):
                e.oblige(st, nm, f, ("C05", "C11", "C06", "C18", "C01"))
        if self.ret == "disc":
            r = self.b(st.ret)
            e.oblige(st, "disconnect reports true exactly if this call disconnected the slot", r == B(did), ("C05", "C11", "C18"))
        elif self.ret == "valid":
            n = self.hs[0][1]
            if n is None:
                e.oblige(st, "a handle that refers to nothing reports false", z3.Not(self.b(st.ret)), ("C18",))
            else:
                e.oblige(st, "a connection is valid exactly while its slot exists", self.b(st.ret) == z3.Not(dead[n]), ("C18",))
        elif self.ret in ("connected", "blocked"):
            n = self.hs[0][1]
            if n is None:
                e.oblige(st, "a handle that refers to nothing reports false", z3.Not(self.b(st.ret)), ("C18", "C10"))
            else:
                f = "conn" if self.ret == "connected" else "blk"
                ob = [B(b) for w, o, b in st.g["obs"] if w == f and e.prove(st, I(o) == imp[n])[0] is True]
                r = self.b(st.ret)
                e.oblige(st, "a handle whose slot is gone reports false", z3.Implies(dead[n], z3.Not(r)), ("C18",))
                e.oblige(st, "a handle reports the state of its slot", z3.Or(dead[n], r == (ob[-1] if ob else z3.BoolVal(False))) if ob else dead[n], ("C18", "C10", "C05"))
        for o, (k, t), want in zip(self.h, self.hs, self.out):
            if want in ("any", "gone"):
                continue
            p = env.L[k + "_ptr"]
            for off, c in ((p, 0), (p + 8, CTRL)):
                q = e.load(st, Ptr(o, off), PTR)
                if want is None:
                    e.oblige(st, "a default-constructed or moved-from handle refers to nothing", isinstance(q, Ptr) and (ieq(q.oid, 0) if off == p + 8 else True), ("C18", "C11", "C10"))
                else:
                    e.oblige(st, "the handle refers to the slot it should", isinstance(q, Ptr) and q.off == c and ieq(q.oid, self.slots[want]), ("C18", "C11", "C10", "C04"))
        e.oblige(st, "no reference to a slot is left behind", all(isint(d) and d == 0 for _, d in st.g["own"]), ("C18", "C05", "C12"), detail=str(st.g["own"]))

    def b(self, r):
        return B(r) if not isz(r) or z3.is_bool(r) else r != 0


def units():
    out = []
    T = ("s1", None)
    C18 = ("C18",)
    for t in T:
        d = (t,) if t else ()
        for X in "ABC":
            out.append(HandleOp("c_disconnect", [("c", t)], [t], disc=d, ret="disc", X=X, props=("C05", "C18", "C19", "C07", "C09", "C08", "C01")))
        out.append(HandleOp("s_disconnect", [("s", t)], [t], disc=d, ret="disc", props=("C05", "C11", "C07")))
        out.append(HandleOp("s_dtor", [("s", t)], ["gone"], disc=d, props=("C11", "C07", "C19")))
        for q in ("valid", "connected", "blocked"):
            out.append(HandleOp("c_" + q, [("c", t)], [t], ret=q, props=("C18", "C09") + (("C10",) if q == "blocked" else ())))
        out.append(HandleOp("c_block", [("c", t)], [t], blk=[(t, True)] if t else [], props=("C10", "C18", "C09")))
        out.append(HandleOp("c_unblock", [("c", t)], [t], blk=[(t, False)] if t else [], props=("C10", "C18", "C09")))
        out.append(HandleOp("c_blocker", [("c", t), ("b", "new")], [t, t], blk=[(t, True)] if t else [], props=("C10",)))
        out.append(HandleOp("c_copy", [("c", "new"), ("c", t)], [t, t], props=C18))
        out.append(HandleOp("c_move", [("c", "new"), ("c", t)], [t, None], props=C18))
        out.append(HandleOp("c_dtor", [("c", t)], ["gone"], props=C18 + ("C11",)))
        out.append(HandleOp("c_asgn", [("c", t), ("c", t)], [t, t], same=True, props=C18))
        out.append(HandleOp("s_from", [("s", "new"), ("c", t)], [t, t], props=("C11",)))
        out.append(HandleOp("s_fromr", [("s", "new"), ("c", t)], [t, None], props=("C11",)))
        out.append(HandleOp("s_move", [("s", "new"), ("s", t)], [t, None], props=("C11",)))
        out.append(HandleOp("s_release", [("s", t), ("c", "new")], [None, t], props=("C11", "C18")))
        out.append(HandleOp("b_dtor", [("b", t)], ["gone"], blk=[(t, False)] if t else [], props=("C10",)))
        out.append(HandleOp("b_move", [("b", "new"), ("b", t)], [t, None], props=("C10",)))
        for u in ("s2", None):
            out.append(HandleOp("c_asgn", [("c", t), ("c", u)], [u, u], props=C18))
            out.append(HandleOp("c_masgn", [("c", t), ("c", u)], [u, None], props=C18))
            out.append(HandleOp("c_swap", [("c", t), ("c", u)], [u, t], props=C18))
            out.append(HandleOp("c_fswap", [("c", t), ("c", u)], [u, t], props=C18))
            out.append(HandleOp("s_swap", [("s", t), ("s", u)], [u, t], props=("C11",)))
            out.append(HandleOp("s_fswap", [("s", t), ("s", u)], [u, t], props=("C11",)))
            out.append(HandleOp("s_masgn", [("s", t), ("s", u)], [u, None], disc=d, props=("C11",)))
            out.append(HandleOp("b_swap", [("b", t), ("b", u)], [u, t], props=("C10",)))
            out.append(HandleOp("b_fswap", [("b", t), ("b", u)], [u, t], props=("C10",)))
            out.append(HandleOp("b_masgn", [("b", t), ("b", u)], [u, None], blk=[(t, False)] if t else [], props=("C10",)))
    out.append(HandleOp("c_default", [("c", "new")], [None], props=C18))
    out.append(HandleOp("s_default", [("s", "new")], [None], props=("C11",)))
    out.append(HandleOp("b_default", [("b", "new")], [None], props=("C10",)))
    return out
