"""Contracts of opt::optional for class types, scalars, references and void, on the real templates.
Oracle for class types is the ghost ledger of live user objects: an optional is engaged exactly if one live value
lies inside it; the real has_value()/get_ptr() must agree with the ledger after every operation."""
import itertools, z3
from ir import Unsupported, ity
from engine import *
from user import Unit, own_exc, USEREXC, vget, CONV, LCONV
import harness

ITY = {1: ity(8), 2: ity(16), 4: ity(32), 8: ity(64)}
SZ = {"I": 4, "S": 2, "Q": 8, "Z": 1}
SC = "ISQZ"                     # scalars
NAMES = {"V": "optional<Val>", "I": "optional<int>", "R": "optional<Val&>", "K": "optional<const Val&>", "D": "optional<void>", "S": "optional<short>", "Q": "optional<long long>", "Z": "optional<bool>", "L": "optional<list-constructible>"}
SN = {"s": "engaged", "n": "default", "r": "reset"}


def truth(v):
    if isz(v):
        return v if z3.is_bool(v) else v != 0
    return z3.BoolVal(bool(v))


def s32(v):
    """signed reading of a 32-bit pattern"""
    v = I(v)
    return z3.If(v >= 2 ** 31, v - 2 ** 32, v)


def s64(v):
    v = I(v)
    return z3.If(v >= 2 ** 63, v - 2 ** 64, v)


def s16(v):
    v = I(v)
    return z3.If(v >= 2 ** 15, v - 2 ** 16, v)


class OptUnit(Unit):
    total = True      # user comparisons are coherent (a total order)
    throws = ("copy", "move", "assign", "compare", "convert")

    # ---- building and observing
    def quietrun(self, env, st, fn, args):
        e = env.eng
        (th, om), self.throws, self.oom = (self.throws, self.oom), (), False
        e.quiet += 1
        try:
            ends = [x for x in harness.run_fn(e, st, fn, args)]
        finally:
            self.throws, self.oom = th, om
            e.quiet -= 1
        if len(ends) != 1 or ends[0].status != "ret":
            raise Unsupported("%s: %r" % (fn, [x.status for x in ends]))
        return ends[0]

    def int_(self, env, st, bits=32):
        x = env.eng.sym("i")
        st.pc.append(z3.And(x >= 0, x < 2 ** bits))
        return x

    def source(self, env, st, X):
        """a value of X's element type -> (oid, abstract value)"""
        e = env.eng
        if X in "VRKL":
            v = e.sym("v")
            return self.root(env, st, 8, v), v
        n = SZ[X]
        o = self.root(env, st, n)
        x = self.int_(env, st, 1 if X == "Z" else 8 * n)
        e.raw_store(st, Ptr(o), n, x)
        return o, x

    def make(self, env, st, X, state):
        """an optional in the given state, built by the real constructors -> st, info"""
        e = env.eng
        o = e.new_obj(st, 16)
        info = dict(X=X, o=o, state=state, val=None)
        if X == "D":
            return self.quietrun(env, st, "D_default", [Ptr(o)]), info
        if state == "n":
            return self.quietrun(env, st, X + "_default", [Ptr(o)]), info
        s, v = self.source(env, st, X)
        st = self.quietrun(env, st, X + "_val", [Ptr(o), Ptr(s)])
        if state == "r":
            return self.quietrun(env, st, X + "_reset", [Ptr(o)]), info
        if X in "RK":
            info["ref"] = s
        elif X in "VL":
            st.g["val"].pop((s, 0))
            st.freed = st.freed | {s} if isinstance(st.freed, (set, frozenset)) else st.freed
        info["val"] = v
        if X in "VL":
            ks = [k for k in st.g["val"] if k[0] == o]
            if len(ks) != 1:
                raise Unsupported("construction of an engaged optional")
            info["key"] = ks[0]
        return st, info

    def live(self, st, o):
        return [k for k in st.g["val"] if k[0] == o]

    def check(self, env, st, info, want, labels, what):
        """want: None = disengaged, ('val', v), ('ref', oid), 'any' = consistent in either state, 'some' = engaged, any value"""
        e, X, o = env.eng, info["X"], info["o"]
        for s in harness.run_fn(e, st, X + "_has", [Ptr(o)]):
            h = truth(s.ret)
            if X in "VL":
                n = len(self.live(s, o))
                e.oblige(s, "%s is engaged exactly if it holds one live value" % what, B(n <= 1) if n > 1 else h == B(n == 1), labels)
            if want is None:
                e.oblige(s, "%s is disengaged" % what, z3.Not(h), labels)
                if X in "VL":
                    e.oblige(s, "%s holds no value" % what, not self.live(s, o), labels)
                continue
            if isinstance(want, str) and want == "any":
                continue
            e.oblige(s, "%s is engaged" % what, h, labels)
            if want == "some":
                continue
            if X in "VL" + SC:
                for t in harness.run_fn(e, s, X + "_ptrc", [Ptr(o)]):
                    p = env.canon(t, t.ret)
                    if X in "VL":
                        ks = self.live(t, o)
                        e.oblige(t, "%s refers to the live value" % what, isinstance(p, Ptr) and (p.oid, p.off) in ks, labels)
                        v = vget(env, t, ks[0])
                    else:
                        v = e.raw_load(t, p, ITY[SZ[X]], SZ[X])
                    e.oblige(t, "%s holds the value it was given" % what, I(v) == I(want[1]), labels)
            else:
                for t in harness.run_fn(e, s, X + "_starc", [Ptr(o)]):
                    p = env.canon(t, t.ret)
                    e.oblige(t, "%s refers to the object it was given" % what, isinstance(p, Ptr) and not p.null and p.oid == want[1] and p.off == 0, labels)

    def finish(self, env, st, optionals, labels):
        """destroy everything with the real destructors: the ledger must come out even"""
        e = env.eng
        for info in optionals:
            if info["X"] not in "VL":
                continue
            ends = harness.run_fn(e, st, info["X"] + "_dtor", [Ptr(info["o"])])
            if len(ends) != 1 or ends[0].status != "ret":
                e.oblige(st, "destroying an optional does not throw", False, labels)
                return
            st = ends[0]
            e.oblige(st, "destroying an optional destroys its value", not self.live(st, info["o"]), labels)
        left = [k for k in st.g["val"] if k not in self.roots]
        e.oblige(st, "every value is destroyed exactly once", not left, labels, detail=str(left))
        h = [o for o in (st.g.get("heap") or {})]
        e.oblige(st, "nothing leaks", not h, labels, detail=str(h))


class OptOp(OptUnit):
    """a constructor, assignment, emplace, reset or swap. args: list of 'raw', 'self', 'val', 'int', 'cond', 'opt', 'opt:X', 'same'.
    want(u, st) -> list of (info, want) for the normal return"""

    def __init__(self, X, op, args, states, want, src=None, alias=False, moved=False):
        self.X, self.op, self.argspec, self.states, self.want, self.alias, self.moved = X, op, args, states, want, alias, moved
        self.entry = "%s_%s" % (X, op)
        self.name = "%s %s (%s)" % (NAMES[X], op, ", ".join(SN[s] for s in states) + (", itself" if alias else ""))
        self.props = ("C15", "C21") if X in "RKD" else ("C15",)

    def setup(self, env, st0):
        st, e = st0, env.eng
        out = []
        self.opts = []
        self.ctor = None
        self.v = self.src = self.i = self.cond = None
        states = list(self.states)
        for a in self.argspec:
            if a == "raw":
                o = e.new_obj(st, 16)
                self.ctor = dict(X=self.X, o=o, state=None, val=None)
                out.append(Ptr(o))
            elif a == "same":
                out.append(Ptr(self.opts[0]["o"]))
            elif a.startswith("opt"):
                X = a[4:] or self.X
                st, info = self.make(env, st, X, states.pop(0))
                self.opts.append(info)
                out.append(Ptr(info["o"]))
            elif a == "val":
                self.src, self.v = self.source(env, st, self.X if self.X not in "DL" else "V")
                out.append(Ptr(self.src))
            elif a == "int":
                self.i = self.int_(env, st)
                out.append(self.i)
            elif a == "int2":
                self.i2 = self.int_(env, st)
                out.append(self.i2)
            elif a == "cond":
                c = e.sym("cond", "bool")
                self.cond = c
                out.append(c)
        inside = {i["o"] for i in self.opts}
        self.roots = {k for k in st.g["val"] if k[0] not in inside}
        st.frames = []
        st.status = None
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return out

    def post(self, env, st):
        e = env.eng
        lab = self.props
        thrown = st.status == "exc"
        if thrown:
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), lab)
            if self.cond is not None:
                e.oblige(st, "nothing is done to a value that is not wanted", self.cond, lab)
            if self.ctor:
                e.oblige(st, "a constructor that throws leaves no value behind", not self.live(st, self.ctor["o"]), lab)
            for i in self.opts:
                self.check(env, st, i, "any", lab, "after an exception the optional")
            self.finish(env, st, self.opts, lab)
            return
        if not self.moved and self.src is not None and self.X in "VRKDL":
            e.oblige(st, "the given value is unchanged", I(st.g["val"].get((self.src, 0), -1)) == self.v, lab)
        if not self.moved and self.src is not None and self.X in SC:
            e.oblige(st, "the given value is unchanged", I(e.raw_load(st, Ptr(self.src), ITY[SZ[self.X]], SZ[self.X])) == self.v, lab)
        if self.moved and self.cond is not None and self.src is not None:
            now = st.g["val"].get((self.src, 0), -1) if self.X in "VRKDL" else e.raw_load(st, Ptr(self.src), ITY[SZ[self.X]], SZ[self.X])
            e.oblige(st, "a value that is not wanted is left alone", z3.Or(self.cond, I(now) == I(self.v)), lab)
        wants = self.want(self)
        for cond, lst in (wants if isinstance(wants, dict) else {None: wants}).items():
            s = st
            if cond is not None:
                s = st.fork()
                s.pc.append(self.cond if cond else z3.Not(self.cond))
                if not e.feasible(s):
                    continue
            for info, w, what in lst:
                self.check(env, s, info, w, lab, what)
            self.finish(env, s, self.opts + ([self.ctor] if self.ctor else []), lab)


def st_want(info):
    if info["state"] != "s":
        return None
    return ("ref", info["ref"]) if info["X"] in "RK" else ("val", info["val"])


CV = {"V": lambda i: CONV(I(i)), "I": lambda i: i,          # the value an int converts to
      "Q": lambda i: z3.If(I(i) >= 2 ** 31, I(i) + (2 ** 64 - 2 ** 32), I(i)),
      "Z": lambda i: z3.If(I(i) != 0, z3.IntVal(1), z3.IntVal(0))}


def op_units():
    T, S = "the target", "the source"
    out = []
    N3 = "snr"
    for X in "VIQZ":
        cv = CV[X]
        A = lambda *a, **k: out.append(OptOp(X, *a, **k))
        for op in ("default", "null"):
            A(op, ["raw"], "", lambda u: [(u.ctor, None, T)])
        for op, mv in (("val", 0), ("rval", 1), ("inpl", 0), ("inplr", 1), ("mko", 0), ("mkor", 1)):
            A(op, ["raw", "val"], "", lambda u: [(u.ctor, ("val", u.v), T)], moved=bool(mv))
        for op, mv in (("cond", 1), ("inif", 0), ("mkoc", 0), ("mkocr", 1)):
            A(op, ["raw", "cond", "val"], "", lambda u: {True: [(u.ctor, ("val", u.v), T)], False: [(u.ctor, None, T)]}, moved=bool(mv))
        A("inpli", ["raw", "int"], "", lambda u, cv=cv: [(u.ctor, ("val", cv(u.i)), T)])
        A("inifi", ["raw", "cond", "int"], "", lambda u, cv=cv: {True: [(u.ctor, ("val", cv(u.i)), T)], False: [(u.ctor, None, T)]})
        if X == "V":
            A("mkoi", ["raw", "int"], "", lambda u: [(u.ctor, ("val", CONV(I(u.i))), T)])
            A("mkoca", ["raw", "cond", "int"], "", lambda u: {True: [(u.ctor, ("val", CONV(I(u.i))), T)], False: [(u.ctor, None, T)]})
        for s in N3:
            A("copy", ["raw", "opt"], s, lambda u: [(u.ctor, st_want(u.opts[0]), T), (u.opts[0], st_want(u.opts[0]), S)])
            A("move", ["raw", "opt"], s, lambda u: [(u.ctor, st_want(u.opts[0]), T), (u.opts[0], "any", S)])
            A("asgn", ["opt", "same"], s, lambda u: [(u.opts[0], st_want(u.opts[0]), T)], alias=True)
            A("masgn", ["opt", "same"], s, lambda u: [(u.opts[0], "some" if u.opts[0]["state"] == "s" else None, T)], alias=True)
            A("swap", ["opt", "same"], s, lambda u: [(u.opts[0], st_want(u.opts[0]), T)], alias=True)
            A("asgnv", ["opt", "val"], s, lambda u: [(u.opts[0], ("val", u.v), T)])
            A("masgnv", ["opt", "val"], s, lambda u: [(u.opts[0], ("val", u.v), T)], moved=True)
            A("asgnn", ["opt"], s, lambda u: [(u.opts[0], None, T)])
            A("asgnb", ["opt"], s, lambda u: [(u.opts[0], None, T)])
            A("empl", ["opt", "val"], s, lambda u: [(u.opts[0], ("val", u.v), T)])
            A("emplr", ["opt", "val"], s, lambda u: [(u.opts[0], ("val", u.v), T)], moved=True)
            A("empli", ["opt", "int"], s, lambda u, cv=cv: [(u.opts[0], ("val", cv(u.i)), T)])
            A("reset", ["opt"], s, lambda u: [(u.opts[0], None, T)])
            for t in N3:
                A("asgn", ["opt", "opt"], s + t, lambda u: [(u.opts[0], st_want(u.opts[1]), T), (u.opts[1], st_want(u.opts[1]), S)])
                A("masgn", ["opt", "opt"], s + t, lambda u: [(u.opts[0], st_want(u.opts[1]), T), (u.opts[1], "any", S)])
                for op in ("swap", "sswap"):
                    A(op, ["opt", "opt"], s + t, lambda u: [(u.opts[0], st_want(u.opts[1]), T), (u.opts[1], st_want(u.opts[0]), S)])
        A("asgnown", ["opt"], "s", lambda u: [(u.opts[0], st_want(u.opts[0]), T)])
        # conversions from another optional
        if X == "Z":
            continue
        Y = "S" if X == "I" else "I"
        conv = cv if X != "I" else (lambda v: z3.If(I(v) >= 2 ** 15, I(v) + (2 ** 32 - 2 ** 16), I(v)))
        wc = lambda i, conv=conv: None if i["state"] != "s" else ("val", conv(i["val"]))
        for t in N3:
            for op in ("cvt", "cvtm"):
                A(op, ["raw", "opt:" + Y], t, lambda u, wc=wc, op=op: [(u.ctor, wc(u.opts[0]), T), (u.opts[0], "any" if op == "cvtm" else st_want(u.opts[0]), S)])
            for s in N3:
                for op in ("asgncv", "masgncv"):
                    A(op, ["opt", "opt:" + Y], s + t, lambda u, wc=wc, op=op: [(u.opts[0], wc(u.opts[1]), T), (u.opts[1], "any" if op == "masgncv" else st_want(u.opts[1]), S)])
    for X in "RK":
        A = lambda *a, **k: out.append(OptOp(X, *a, **k))
        for op in ("default", "null"):
            A(op, ["raw"], "", lambda u: [(u.ctor, None, T)])
        for op in ("val", "inpl") + (("mko",) if X == "R" else ()):
            A(op, ["raw", "val"], "", lambda u: [(u.ctor, ("ref", u.src), T)])
        for s in N3:
            for op in ("copy", "move"):
                A(op, ["raw", "opt"], s, lambda u: [(u.ctor, st_want(u.opts[0]), T), (u.opts[0], st_want(u.opts[0]), S)])
            for op in ("asgn", "asgnl", "masgn", "swap"):
                A(op, ["opt", "same"], s, lambda u: [(u.opts[0], st_want(u.opts[0]), T)], alias=True)
            A("asgnn", ["opt"], s, lambda u: [(u.opts[0], None, T)])
            A("empl", ["opt", "val"], s, lambda u: [(u.opts[0], ("ref", u.src), T)])
            A("reset", ["opt"], s, lambda u: [(u.opts[0], None, T)])
            for t in N3:
                for op in ("asgn", "asgnl", "masgn"):
                    A(op, ["opt", "opt"], s + t, lambda u: [(u.opts[0], st_want(u.opts[1]), T), (u.opts[1], st_want(u.opts[1]), S)])
                for op in ("swap", "sswap"):
                    A(op, ["opt", "opt"], s + t, lambda u: [(u.opts[0], st_want(u.opts[1]), T), (u.opts[1], st_want(u.opts[0]), S)])
    A = lambda *a, **k: out.append(OptOp("L", *a, **k))
    lv = lambda u: ("val", LCONV(I(u.i), I(u.i2), I(u.v) if u.v is not None else z3.IntVal(-1)))
    for sfx, ex in (("", []), ("v", ["val"])):
        A("inpl" + sfx, ["raw", "int", "int2"] + ex, "", lambda u: [(u.ctor, lv(u), T)])
        A("inif" + sfx, ["raw", "cond", "int", "int2"] + ex, "", lambda u: {True: [(u.ctor, lv(u), T)], False: [(u.ctor, None, T)]})
        for s in N3:
            A("empl" + sfx, ["opt", "int", "int2"] + ex, s, lambda u: [(u.opts[0], lv(u), T)])
    A = lambda *a, **k: out.append(OptOp("D", *a, **k))
    for op in ("default", "null"):
        A(op, ["raw"], "", lambda u: [(u.ctor, None, T)])
    for op in ("copy", "move"):
        A(op, ["raw", "opt"], "n", lambda u: [(u.ctor, None, T)])
    for op in ("asgn", "masgn"):
        A(op, ["opt", "opt"], "nn", lambda u: [(u.opts[0], None, T)])
    A("swap", ["opt", "opt"], "nn", lambda u: [(u.opts[0], None, T)])
    for op in ("asgnn", "reset"):
        A(op, ["opt"], "n", lambda u: [(u.opts[0], None, T)])
    for op in ("asgnv", "empl", "emplr"):
        A(op, ["opt", "val"], "n", lambda u: [(u.opts[0], None, T)])
    return out


ACC = {  # accessor -> (kind, applies to disengaged)
    "get": "ref", "getc": "ref", "star": "ref", "starc": "ref", "starr": "ref", "arrow": "ref", "arrowc": "ref",
    "fget": "ref", "fgetc": "ref", "value": "chk", "valuec": "chk", "valuer": "chk", "ptr": "ptr", "ptrc": "ptr",
    "fgetp": "ptr", "fgetpc": "ptr", "fptr": "ptr", "fptrc": "ptr", "gvo": "or", "gvoc": "or", "fgvo": "or", "fgvoc": "or",
    "vo": "vo", "vor": "vom", "vorr": "vo", "voi": "voi", "has": "bool", "bool": "bool", "init": "bool"}


class OptAcc(OptUnit):
    def __init__(self, X, op, state):
        self.X, self.op, self.state, self.kind = X, op, state, ACC[op]
        self.entry = "%s_%s" % (X, op)
        self.name = "%s accessor %s (%s)" % (NAMES[X], op, SN[state])
        self.props = ("C21",)

    def setup(self, env, st0):
        e = env.eng
        st, self.o = self.make(env, st0, self.X, self.state)
        a = [Ptr(self.o["o"])]
        self.src = self.out = None
        if self.kind in ("or", "vo", "vom"):
            self.src, self.v = self.source(env, st, self.X)
            a.append(Ptr(self.src))
        if self.kind == "voi":
            self.v = self.int_(env, st)
            a.append(self.v)
        if self.kind in ("vo", "vom", "voi"):
            self.out = e.new_obj(st, 8)
            a.append(Ptr(self.out))
        self.roots = {k for k in st.g["val"] if k[0] != self.o["o"]}
        st.frames, st.status = [], None
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return a

    def target(self, env, st, p):
        """p refers to the contained value"""
        p = env.canon(st, p)
        i = self.o
        if not isinstance(p, Ptr) or p.null or not isint(p.oid):
            return False
        if self.X == "V":
            return (p.oid, p.off) == i["key"]
        if self.X in "RK":
            return p.oid == i["ref"] and p.off == 0
        if p.oid != i["o"]:
            return False
        return I(env.eng.raw_load(st, p, ITY[SZ[self.X]], SZ[self.X])) == i["val"]

    def post(self, env, st):
        e, k, i = env.eng, self.kind, self.o
        lab = self.props
        on = self.state == "s"
        if st.status == "exc":
            if k == "chk" and not on:
                e.oblige(st, "the checked accessor of a disengaged optional throws bad_optional_access", "bad_optional_access" in str(st.exc.tname), lab)
            else:
                e.oblige(st, "only the user's own exception leaves, unchanged", k in ("vo", "vom", "voi") and own_exc(st), lab)
            self.check(env, st, i, "any", lab, "after an exception the optional")
            self.finish(env, st, [i], lab)
            return
        if k == "chk" and not on:
            e.oblige(st, "the checked accessor of a disengaged optional throws", False, lab)
        if k == "bool":
            e.oblige(st, "an optional reports whether it is engaged", truth(st.ret) == B(on), lab)
        elif k in ("ref", "chk"):
            e.oblige(st, "an accessor refers to the contained value", self.target(env, st, st.ret), lab)
        elif k == "ptr":
            p = env.canon(st, st.ret)
            e.oblige(st, "a pointer accessor refers to the contained value or is null", self.target(env, st, p) if on else isinstance(p, Ptr) and bool(p.null), lab)
        elif k == "or":
            p = env.canon(st, st.ret)
            e.oblige(st, "a fallback accessor refers to the contained value, or to the fallback", self.target(env, st, p) if on else isinstance(p, Ptr) and p.oid == self.src, lab)
        else:
            want = i["val"] if on else (CV["V" if self.X in "RK" else self.X](self.v) if k == "voi" else self.v)
            got = vget(env, st, (self.out, 0)) if self.X in "VRK" else e.raw_load(st, Ptr(self.out), ITY[SZ[self.X]], SZ[self.X])
            e.oblige(st, "value_or returns the contained value, or the fallback", I(got) == I(want), lab)
            if self.src is not None and self.op != "vorr":
                e.oblige(st, "the fallback is unchanged", I(st.g["val"].get((self.src, 0), -1)) == self.v if self.X in "VRK" else I(e.raw_load(st, Ptr(self.src), ITY[SZ[self.X]], SZ[self.X])) == self.v, lab)
            if self.X in "VRK":
                st.g["val"].pop((self.out, 0))
        if self.X in "RK":
            if on:
                e.oblige(st, "reading through an optional reference leaves the object alone", I(st.g["val"].get((i["ref"], 0), -1)) == i["val"], lab)
        if not (k == "vom" and on):
            self.check(env, st, i, st_want(i), lab, "after an access the optional")
        else:
            self.check(env, st, i, "some", lab, "after an access the optional")
        self.finish(env, st, [i], lab)


class VoidAcc(OptUnit):
    def __init__(self, op):
        self.op = op
        self.entry = "D_" + op
        self.name = "optional<void> accessor " + op
        self.props = ("C21",)

    def setup(self, env, st0):
        st, self.o = self.make(env, st0, "D", "n")
        a = [Ptr(self.o["o"])]
        if self.op == "vo":
            self.i = self.int_(env, st)
            a.append(self.i)
        elif self.op == "vov":
            self.src, self.v = self.source(env, st, "V")
            a.append(Ptr(self.src))
        self.roots = set()
        st.frames, st.status = [], None
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return a

    def post(self, env, st):
        e = env.eng
        if self.op == "value":
            e.oblige(st, "the checked accessor of an optional<void> throws bad_optional_access", st.status == "exc" and "bad_optional_access" in str(st.exc.tname), self.props)
            return
        e.oblige(st, "no exception", st.status == "ret", self.props)
        if self.op == "vo":
            e.oblige(st, "value_or of an optional<void> is the fallback", I(st.ret) == self.i, self.props)
        elif self.op == "vov":
            p = env.canon(st, st.ret)
            e.oblige(st, "value_or of an optional<void> is the fallback", isinstance(p, Ptr) and p.oid == self.src and p.off == 0, self.props)
        else:
            e.oblige(st, "an optional<void> never holds a value", z3.Not(truth(st.ret)), self.props)


OPS = ("eq", "ne", "lt", "gt", "le", "ge")


class OptCmp(OptUnit):
    """x OP y; disengaged is the least element"""

    def __init__(self, X, form, op, states, alias=False):
        self.X, self.form, self.op, self.states, self.alias = X, form, op, states, alias
        self.entry = "%s_%s_%s" % (X, form, op)
        self.name = "%s comparison %s %s (%s%s)" % (NAMES[X], {"oo": "optional OP optional", "on": "optional OP nullopt", "no": "nullopt OP optional", "ov": "optional OP value", "vo": "value OP optional"}[form], op, ", ".join(SN[s] for s in states), ", itself" if alias else "")
        self.props = ("C16",)

    def setup(self, env, st0):
        st, a, self.o = st0, [], []
        for s in self.states:
            st, i = self.make(env, st, self.X, s)
            self.o.append(i)
            a.append(Ptr(i["o"]))
        if self.alias:
            self.o.append(self.o[0])
            a.append(a[0])
        if self.form in ("ov", "vo"):
            self.src, self.v = self.source(env, st, self.X)
            a.append(Ptr(self.src))
        ins = {i["o"] for i in self.o}
        self.roots = {k for k in st.g["val"] if k[0] not in ins}
        st.frames, st.status = [], None
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return a

    def num(self, v):
        return s32(v) if self.X == "I" else s64(v) if self.X == "Q" else I(v)

    def post(self, env, st):
        e = env.eng
        lab = self.props
        if st.status == "exc":
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), lab)
            e.oblige(st, "values are only compared when both sides have one", all(i["state"] == "s" for i in self.o) and self.form not in ("on", "no"), lab)
        else:
            def side(i):
                return (1, self.num(i["val"])) if i["state"] == "s" else (0, z3.IntVal(0))
            l = {"oo": lambda: (side(self.o[0]), side(self.o[1])), "on": lambda: (side(self.o[0]), (0, 0)), "no": lambda: ((0, 0), side(self.o[0])),
                 "ov": lambda: (side(self.o[0]), (1, self.num(self.v))), "vo": lambda: ((1, self.num(self.v)), side(self.o[0]))}[self.form]()
            (a, x), (b, y) = l
            f = {"eq": lambda p, q: p == q, "ne": lambda p, q: p != q, "lt": lambda p, q: p < q, "gt": lambda p, q: p > q, "le": lambda p, q: p <= q, "ge": lambda p, q: p >= q}[self.op]
            want = f(I(x), I(y)) if a and b else z3.BoolVal(f(a, b))
            e.oblige(st, "a comparison agrees with comparing the values, disengaged being the least", truth(st.ret) == want, lab)
        for i in self.o:
            self.check(env, st, i, st_want(i), lab, "after a comparison the optional")
        self.finish(env, st, self.o[:1] if self.alias else self.o, lab)


def units():
    out = op_units()
    for X in "VIQZ":
        for op, k in ACC.items():
            for s in "snr":
                if s == "s" or k != "ref":
                    out.append(OptAcc(X, op, s))
    for X in "RK":
        for op in ("starc", "arrowc", "valuec", "vo", "voi", "has", "bool"):
            for s in "snr":
                if s == "s" or ACC[op] != "ref":
                    out.append(OptAcc(X, op, s))
    for op in ("has", "bool", "value", "vo", "vov"):
        out.append(VoidAcc(op))
    for op in OPS:
        for f in ("on", "no"):
            out.append(OptCmp("D", f, op, "n"))
    for X in "VIQRK":
        for op in OPS:
            for s in "snr":
                for f in ("on", "no", "ov", "vo"):
                    out.append(OptCmp(X, f, op, s))
                out.append(OptCmp(X, "oo", op, s, alias=True))
                for t in "snr":
                    out.append(OptCmp(X, "oo", op, s + t))
    return out
