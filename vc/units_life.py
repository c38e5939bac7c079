"""Contracts of construction, destruction and moves of signals."""
import z3
from ir import Unsupported, PTR, ity
from engine import *
from env import quant, Cand, forall, R
from units_signal import SigUnit


SIGN = {"A": "int(Val,int&)", "B": "void(Val)", "C": "Val(int)"}


class Life(SigUnit):
    """kind: ctor | dtor | movector | moveasgn | selfasgn; the signals are not used by other threads meanwhile"""

    def __init__(self, kind, X="A"):
        self.kind, self.X = kind, X
        self.entry = {"selfasgn": "moveasgn"}.get(kind, kind) + "_" + X
        self.name = "signal<%s> %s" % (SIGN[X], {"ctor": "constructor", "dtor": "destructor", "movector": "move constructor", "moveasgn": "move assignment", "selfasgn": "self move assignment"}[kind])
        self.props = ("C19", "C18", "C07", "C09", "C20")

    def setup(self, env, st):
        e = env.eng
        self.old = self.src = None
        if self.kind in ("ctor", "movector"):
            self.t = e.new_obj(st, 128)
        else:
            self.t = self.signal(env, st, excl=True)
            self.old = env.list_cell(st, self.t).oid
        args = [Ptr(self.t)]
        if self.kind in ("movector", "moveasgn"):
            self.src = self.signal(env, st, excl=True)
            args.append(Ptr(self.src))
        elif self.kind == "selfasgn":
            args.append(Ptr(self.t))
        H = st.g["H"]
        if self.src is not None and self.old is not None:
            env.assume_inv(st, self.t)
        self.V = {}
        for n, o in (("t", self.t if self.old is not None else None), ("src", self.src)):
            if o is not None:
                self.V[n] = st.g["vec"][(env.list_cell(st, o).oid, 0)]
        if len(self.V) == 2:
            # two signals never share slots or slot implementations
            a, b = self.V["t"], self.V["src"]
            k, j = z3.Int("k"), z3.Int("j")
            x, y = z3.Select(a.P, k), z3.Select(b.P, j)
            own = z3.Function("ownersig", z3.IntSort(), z3.IntSort())
            for v, o in ((a, self.t), (b, self.src)):
                q = z3.Select(v.P, k)
                st.pc.append(forall(k, z3.And(k >= 0, k < I(v.len)), own(z3.Select(H["impl"], q)) == o, [q]))
            self.own = own
        st.g["H0"] = dict(H)
        self.roots0 = set(st.mem)
        return args

    def candidates(self, env, eng, entry, hst, mod, terms, ints, bools, T, guard, nm):
        out = []
        for n, v in self.V.items():
            q = z3.Int("q")
            p = z3.Select(v.P, q)
            for k in ints:
                def dis(st, tm, k=k, v=v, p=p):
                    return forall(q, z3.And(q >= 0, q < I(T(tm, k))), z3.Not(z3.Select(st.g["H"]["conn"], z3.Select(st.g["H"]["impl"], p))), [p])

                def keep(st, tm, k=k, v=v, p=p):
                    i = z3.Select(st.g["H"]["impl"], p)
                    return forall(q, z3.And(q >= I(T(tm, k)), q < I(v.len)), z3.Select(st.g["H"]["conn"], i) == z3.Select(st.g["H0"]["conn"], i), [p])

                def adopt(st, tm, k=k, v=v, p=p):
                    return forall(q, z3.And(q >= 0, q < I(T(tm, k))), z3.Select(st.g["H"]["sig"], p) == self.t, [p])
                out.append(Cand("disc%s[0,%s)" % (n, nm(k)), guard(dis)))
                out.append(Cand("adopt%s[0,%s)" % (n, nm(k)), guard(adopt)))
                out.append(Cand("%s<=len%s" % (nm(k), n), guard(lambda st, tm, k=k, v=v: I(T(tm, k)) <= I(v.len))))
            for f in ("conn", "blk"):
                def same_(st, tm, f=f, p=p, v=v):
                    i = z3.Select(st.g["H"]["impl"], p)
                    return forall(q, z3.And(q >= 0, q < I(v.len)), z3.Select(st.g["H"][f], i) == z3.Select(st.g["H0"][f], i), [p])
                out.append(Cand("%s%s unchanged" % (n, f), guard(same_)))

            def alld(st, tm, p=p, v=v):
                return forall(q, z3.And(q >= 0, q < I(v.len)), z3.Not(z3.Select(st.g["H"]["conn"], z3.Select(st.g["H"]["impl"], p))), [p])
            out.append(Cand("%s all disconnected" % n, guard(alld)))
            x = z3.Int("x")
        if len(self.V) == 1 or True:
            # frame: only flags of slots of the old target list change
            for f in ("conn", "blk"):
                def fr(st, tm, f=f):
                    x = z3.Int("x")
                    own = getattr(self, "own", None)
                    if own is None:
                        return False
                    return quant([x], z3.Implies(own(x) != self.t, z3.Select(st.g["H"][f], x) == z3.Select(st.g["H0"][f], x)), [z3.Select(st.g["H"][f], x)])
                out.append(Cand("frame %s" % f, guard(fr)))
        return out

    def impl_call(self, env, st, obj, args, site):
        env.eng.oblige(st, "constructing, moving or destroying a signal never calls a slot", False, ("C19",))

    def keeps(self, env, st, v, o):
        """signal o now has exactly the slots of v, in order, in their state"""
        e, H0, H = env.eng, st.g["H0"], st.g["H"]
        c = env.list_cell(st, o)
        e.oblige(st, "a signal always has a list", isinstance(c, Ptr) and not c.null and (c.oid, 0) in st.g["vec"], ("C19",))
        w = st.g["vec"][(c.oid, 0)]
        k = z3.Int("k")
        e.oblige(st, "the target has as many slots as the source had", I(w.len) == I(v.len), ("C19",))
        p = z3.Select(v.P, k)
        rng = z3.And(k >= 0, k < I(v.len))
        e.oblige(st, "the target has the slots of the source in order", forall(k, rng, z3.Select(w.P, k) == p, [p]), ("C19",))
        for f in ("conn", "blk"):
            i = z3.Select(H0["impl"], p)
            e.oblige(st, "transferred slots keep their state (%s)" % f, forall(k, rng, z3.Select(H[f], i) == z3.Select(H0[f], i), [p]), ("C19", "C18"))
        for nm, f in env.inv_parts(st, o, (c.oid, 0)):
            e.oblige(st, "target: " + nm, f, ("C19",))

    def empty(self, env, st, o, what):
        e = env.eng
        c = env.list_cell(st, o)
        e.oblige(st, "%s always has a list" % what, isinstance(c, Ptr) and not c.null and (c.oid, 0) in st.g["vec"], ("C19",))
        e.oblige(st, "%s has no slots" % what, ieq(st.g["vec"][(c.oid, 0)].len, 0), ("C19", "C04"))

    def post(self, env, st):
        e = env.eng
        self.common_post(env, st)
        e.oblige(st, "does not throw", st.status == "ret", ("C19", "C20"))
        k = z3.Int("k")
        H = st.g["H"]
        if self.kind == "ctor":
            self.empty(env, st, self.t, "a new signal")
        if self.kind == "selfasgn":
            self.keeps(env, st, self.V["t"], self.t)
        if self.kind in ("movector", "moveasgn"):
            self.keeps(env, st, self.V["src"], self.t)
            self.empty(env, st, self.src, "the source of a move")
            ct, cs = env.list_cell(st, self.t), env.list_cell(st, self.src)
            e.oblige(st, "source and target do not share a list", ct.oid != cs.oid, ("C19", "C17"))
        if self.kind in ("dtor", "moveasgn"):
            v = self.V["t"]
            p = z3.Select(v.P, k)
            e.oblige(st, "every previous slot is disconnected", forall(k, z3.And(k >= 0, k < I(v.len)), z3.Not(z3.Select(H["conn"], z3.Select(H["impl"], p))), [p]), ("C19", "C18"))
        lists = set()
        for o in (self.t, self.src):
            if o is not None and self.kind != "dtor":
                c = env.list_cell(st, o)
                if c is not None:
                    lists.add(c.oid)
        h = [o for o in (st.g.get("heap") or {}) if o not in self.roots0 and o not in lists and o not in env.released(st)]
        e.oblige(st, "nothing leaks", not h, ("C19", "C20"), detail=str(h))
        d = [o for o in st.g["destroyed"] if isint(o[0]) and o[0] in lists]
        e.oblige(st, "no list in use is released", not d, ("C19", "C20"))


def units():
    out = []
    for X in "ABC":
        for k in ("ctor", "dtor", "movector", "moveasgn", "selfasgn"):
            out.append(Life(k, X))
    return out
