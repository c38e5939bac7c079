"""Contracts of the copy-on-write pointer on the real template: pointers are null, unshared, or shared with an arbitrary
number of others; reading and copying never copies the value, writing detaches exactly when shared."""
import z3
from ir import Unsupported
from engine import *
from user import Unit, own_exc, USEREXC, vget, CONV, LCONV
import harness
from units_optional import truth

SN = {"n": "null", "u": "unshared", "s": "shared"}
RD = ("rstar", "rarrow", "rconv", "rdata", "read", "readm")
WR = ("wstar", "warrow", "wconv", "wdata", "write")


class Cow(Unit):
    throws = ("copy", "move", "convert", "assign")
    props = ("C17", "C09")
    total = True

    def __init__(self, op, states, alias=False, pair=False, props=None):
        self.op, self.states, self.alias, self.pair = op, states, alias, pair
        self.entry = "w_" + op
        self.name = "cow_ptr %s (%s%s)" % (op, ", ".join(SN[s] for s in states), ", itself" if alias else ", sharing with each other" if pair else "")
        self.props = ("C17",)

    def quietrun(self, env, st, fn, args):
        e = env.eng
        (th, om), self.throws, self.oom = (self.throws, self.oom), (), False
        e.quiet += 1
        try:
            ends = harness.run_fn(e, st, fn, args)
        finally:
            self.throws, self.oom = th, om
            e.quiet -= 1
        if len(ends) != 1 or ends[0].status != "ret":
            raise Unsupported("%s: %r" % (fn, [x.status for x in ends]))
        return ends[0]

    def make(self, env, st, state):
        e = env.eng
        p = e.new_obj(st, 32)
        info = dict(p=p, state=state, obj=None, val=None, others=0)
        if state == "n":
            return self.quietrun(env, st, "w_default", [Ptr(p)]), info
        v = e.sym("v")
        src = self.root(env, st, 8, v)
        st = self.quietrun(env, st, "w_ptr", [Ptr(p), Ptr(src)])
        st.g["val"].pop((src, 0))
        rc = [o for o in st.g["rc"] if o not in self.known]
        if len(rc) != 1:
            raise Unsupported("cow_ptr does not hold its value in one shared object")
        o = rc[0]
        self.known.add(o)
        info.update(obj=o, val=v)
        if state == "s":
            n = e.sym("others")
            st.pc.append(z3.And(n >= 1, n < 2 ** 20))
            info["others"] = n
            st.g["rc"][o] = n + 1
        return st, info

    def setup(self, env, st0):
        st, e = st0, env.eng
        self.known = set()
        self.infos = []
        a = []
        if self.op in ("default", "ptr", "make", "makei", "copy", "move"):
            self.new = e.new_obj(st, 32)
            a.append(Ptr(self.new))
        else:
            self.new = None
        for s in self.states:
            st, i = self.make(env, st, s)
            self.infos.append(i)
            a.append(Ptr(i["p"]))
        if self.pair:
            # a second pointer to the same value
            i = self.infos[0]
            q = e.new_obj(st, 32)
            st = self.quietrun(env, st, "w_copy", [Ptr(q), Ptr(i["p"])])
            self.infos.append(dict(i, p=q))
            a.append(Ptr(q))
        if self.alias:
            a.append(a[0])
        self.src = self.i = None
        if self.op in ("ptr", "make", "asgnp"):
            self.v = e.sym("v")
            self.src = self.root(env, st, 8, self.v)
            a.append(Ptr(self.src))
        if self.op == "makei":
            self.i = e.sym("i")
            a.append(self.i)
        st.g["ncopy"] = 0
        self.heap0 = set(st.g.get("heap") or {})
        self.rc0 = dict(st.g["rc"])
        st.frames, st.status = [], None
        if st is not st0:
            st0.__dict__.update(st.__dict__)
        return a

    def at(self, env, st, p):
        """the object a cow pointer refers to (its real, read-only data() accessor)"""
        ends = harness.run_fn(env.eng, st, "w_rdata", [Ptr(p)])
        if len(ends) != 1 or ends[0].status != "ret":
            env.eng.oblige(st, "reading does not fail", False, self.props)
            raise PathEnd("read")
        q = env.canon(ends[0], ends[0].ret)
        if not isinstance(q, Ptr) or not isint(q.oid):
            raise Unsupported("cow data %r" % (q,))
        return None if q.null else q.oid

    def moved(self, env, st, i):
        """a moved-from pointer is null or still shares the value"""
        o = self.at(env, st, i["p"])
        env.eng.oblige(st, "a moved-from pointer is null or still refers to its value", o is None or o == i["obj"], self.props)
        return o

    def post(self, env, st):
        e, op, lab = env.eng, self.op, self.props
        I0 = self.infos
        thrown = st.status == "exc"
        exp = {}                      # pointer -> object expected (None = null)
        for i in I0:
            exp[i["p"]] = i["obj"]
        ncopy = 0
        fresh = None
        if thrown:
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), lab)
            e.oblige(st, "only copying a value can fail", op in WR + ("ptr", "make", "makei", "asgnp"), lab)
            ncopy = None
        elif op == "default":
            exp[self.new] = None
        elif op in ("ptr", "make", "makei", "asgnp"):
            tgt = self.new if op != "asgnp" else I0[0]["p"]
            fresh = self.at(env, st, tgt)
            e.oblige(st, "the pointer holds the given value", fresh is not None and fresh not in self.known and I(vget(env, st, (fresh, 0))) == (CONV(self.i) if op == "makei" else self.v), lab)
            exp[tgt] = fresh
            ncopy = None
        elif op == "copy":
            exp[self.new] = I0[0]["obj"]
        elif op == "move":
            exp[self.new] = I0[0]["obj"]
            exp[I0[0]["p"]] = self.moved(env, st, I0[0])
        elif op == "asgn" and not self.alias:
            exp[I0[0]["p"]] = I0[1]["obj"]
        elif op == "masgn" and not self.alias:
            exp[I0[0]["p"]] = I0[1]["obj"]
            exp[I0[1]["p"]] = self.moved(env, st, I0[1])
        elif op == "masgn":
            # assigned from itself by a move: it is null or still refers to its value
            exp[I0[0]["p"]] = self.moved(env, st, I0[0])
        elif op == "dtor":
            del exp[I0[0]["p"]]
        elif op in RD + WR:
            i = I0[0]
            q = env.canon(st, st.ret)
            if i["state"] == "n":
                e.oblige(st, "a null pointer stays null", isinstance(q, Ptr) and bool(q.null), lab)
            elif op in RD or i["state"] == "u" and not self.pair:
                e.oblige(st, "reading, and writing an unshared value, refers to the value itself", isinstance(q, Ptr) and q.oid == i["obj"] and q.off == 0, lab)
            else:
                fresh = q.oid if isinstance(q, Ptr) and isint(q.oid) else None
                e.oblige(st, "writing a shared value refers to a private copy", fresh not in (None, 0) and fresh not in self.known, lab)
                e.oblige(st, "the private copy equals the shared value", I(vget(env, st, (fresh, 0))) == i["val"], lab)
                exp[i["p"]] = fresh
                ncopy = 1
        elif op in ("eq", "ne"):
            w = self.alias or I0[0]["obj"] == I0[1]["obj"]
            e.oblige(st, "two pointers are equal exactly if they share the value", truth(st.ret) == B(w if op == "eq" else not w), lab)
        elif op == "bool":
            e.oblige(st, "a pointer tells whether it holds a value", truth(st.ret) == B(I0[0]["obj"] is not None), lab)
        if ncopy is not None:
            e.oblige(st, "values are copied exactly when a shared one is written", st.g.get("ncopy", 0) == ncopy, lab)
        # counts and values
        want = {}
        for i in I0:
            if i["obj"] is not None:
                want[i["obj"]] = i["others"]
        for p, o in exp.items():
            if o is not None and not (self.alias and p == self.new):
                want[o] = want.get(o, 0) + 1
        for p, o in exp.items():
            e.oblige(st, "every pointer refers to the value it should", self.at(env, st, p) == o, lab)
        for o, n in want.items():
            if isint(n) and n == 0:
                e.oblige(st, "a value is destroyed with its last pointer", o not in st.g["rc"] and (o, 0) not in st.g["val"], lab)
                continue
            r = st.g["rc"].get(o)
            e.oblige(st, "a value lives as long as a pointer refers to it", r is not None and (o, 0) in st.g["val"], lab)
            e.oblige(st, "every pointer counts once", I(r) == I(n), lab)
        for i in I0:
            if i["obj"] is not None and (i["obj"], 0) in st.g["val"]:
                e.oblige(st, "values seen by other pointers are unchanged", I(st.g["val"][(i["obj"], 0)]) == i["val"], lab)
        allowed = {o for o, n in want.items() if not (isint(n) and n == 0)}
        left = [o for o in (st.g.get("heap") or {}) if o not in allowed]
        e.oblige(st, "nothing leaks", not left, lab, detail=str(left))
        vl = [k for k in st.g["val"] if k[0] not in allowed and k[0] != self.src]
        e.oblige(st, "no value is left behind", not vl, lab, detail=str(vl))
        e.oblige(st, "no private copy is lost", all(o in want for o in st.g["rc"]), lab)


def units():
    out = [CowList("makel"), CowList("makelv"), Cow("default", ""), Cow("ptr", ""), Cow("make", ""), Cow("makei", "")]
    for s in "nus":
        for op in ("copy", "move", "dtor", "bool", "asgnp", "rarrow", "rconv", "rdata", "warrow", "wconv", "wdata"):
            out.append(Cow(op, s))
        if s != "n":
            for op in ("rstar", "read", "readm", "wstar", "write"):
                out.append(Cow(op, s))
        out.append(Cow("asgn", s, alias=True))
        out.append(Cow("masgn", s, alias=True))
        out.append(Cow("eq", s, alias=True))
        out.append(Cow("ne", s, alias=True))
        for t in "nus":
            for op in ("asgn", "masgn", "eq", "ne"):
                out.append(Cow(op, s + t))
        for op in ("asgn", "masgn", "eq", "ne"):
            out.append(Cow(op, s, pair=True))
    for op in WR + RD:
        for s in "us":
            out.append(CowPair(op, s))
    return out


class CowPair(Cow):
    """access through one of two pointers that share a value"""

    def __init__(self, op, s):
        super().__init__(op, s, pair=True)

    def setup(self, env, st0):
        return super().setup(env, st0)[:1]


class CowList(Cow):
    """make_cow from a list of values, with or without a further argument"""

    def __init__(self, op):
        super().__init__(op, "")

    def setup(self, env, st):
        e = env.eng
        self.known, self.infos = set(), []
        self.new = e.new_obj(st, 32)
        self.xs = [e.sym("i"), e.sym("i")]
        for x in self.xs:
            st.pc.append(z3.And(x >= 0, x < 2 ** 32))
        a = [Ptr(self.new)] + self.xs
        self.v, self.src = z3.IntVal(-1), None
        if self.op == "makelv":
            self.v = e.sym("v")
            self.src = self.root(env, st, 8, self.v)
            a.append(Ptr(self.src))
        st.g["ncopy"] = 0
        return a

    def post(self, env, st):
        e, lab = env.eng, self.props
        allowed = set()
        if st.status == "exc":
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), lab)
        else:
            ends = harness.run_fn(e, st, "wl_rdata", [Ptr(self.new)])
            q = env.canon(ends[0], ends[0].ret)
            o = q.oid if len(ends) == 1 and isinstance(q, Ptr) and not q.null and isint(q.oid) else None
            e.oblige(st, "the pointer holds the given value", o is not None and (o, 0) in st.g["val"], lab)
            e.oblige(st, "the pointer holds the given value", I(vget(env, st, (o, 0))) == LCONV(I(self.xs[0]), I(self.xs[1]), I(self.v)), lab)
            e.oblige(st, "the value is not shared", I(st.g["rc"].get(o, 0)) == 1, lab)
            allowed = {o}
        left = [o for o in (st.g.get("heap") or {}) if o not in allowed]
        e.oblige(st, "nothing leaks", not left, lab, detail=str(left))
        vl = [k for k in st.g["val"] if k[0] not in allowed and k[0] != self.src]
        e.oblige(st, "no value is left behind", not vl, lab, detail=str(vl))
        if self.src is not None:
            e.oblige(st, "the given value is unchanged", I(st.g["val"].get((self.src, 0), -1)) == self.v, lab)
