"""Most general contracts of user types and callables (drv/user.hpp declares them, nothing defines them):
values are opaque, every operation may throw, and operations on objects outside their lifetime are violations.
`st.g["val"]` maps (object, offset) of every live user object to its abstract value."""
import re, z3
from ir import Unsupported, ity
from engine import *
from env import model, R

TYPES = r"(Val|Lst|FnA|FnB|FnC|FnE|FnF|FnK|NcA|Obj|VObj|WkP|StP|CombA|Small)"
USEREXC = "UserExc"

CMP = {op: z3.Function("cmp_" + n, z3.IntSort(), z3.IntSort(), z3.BoolSort()) for op, n in
       (("==", "eq"), ("!=", "ne"), ("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge"))}
CONV = z3.Function("conv", z3.IntSort(), z3.IntSort())


def key(env, st, p):
    p = env.canon(st, p)
    if isinstance(p, Ptr) and p.null:
        env.eng.oblige(st, "no null dereference", False, ("*",))
    if not isinstance(p, Ptr) or not isint(p.oid) or p.idx is not None:
        raise Unsupported("user object at %r" % (p,))
    return (p.oid, p.off)


def vget(env, st, k, what="an object is only used during its lifetime"):
    """value of the live object at k"""
    e = env.eng
    if k[0] in st.freed:
        e.oblige(st, "no use after free", False, ("*",))
    v = st.g["val"].get(k)
    if v is None:
        r = st.g["roots"].get(k[0])
        if r is not None:
            nv = r(env, st, Ptr(k[0], k[1]), None, "user")
            if nv is not None:
                st.g["val"][k] = nv
                return nv
        e.oblige(st, what, False, ("*",))
    if isinstance(v, tuple):
        e.oblige(st, what, v[1], ("*",))
        st.g["val"][k] = v[2]
        return v[2]
    return v


def vnew(env, st, k, v):
    e = env.eng
    if k[0] in st.freed or k[0] not in st.mem:
        e.oblige(st, "objects are only constructed in live storage", False, ("*",))
    old = st.g["val"].get(k)
    if old is not None:
        e.oblige(st, "no object is constructed over a live one", bnot(old[1]) if isinstance(old, tuple) else False, ("*",))
    st.g["val"][k] = v


def vdel(env, st, k, t):
    e = env.eng
    vget(env, st, k, "an object is destroyed exactly once, and only if it was constructed")
    if t.startswith(("Fn", "Nc", "VObj", "WkP", "StP")) and env.any_held(st):
        e.oblige(st, "no callable is destroyed while the lock is held", False, ("C07",))
    v = st.g["val"].pop(k)
    st.log.append(("dtor", t, k))
    c = st.g.get("born")
    return v


def maythrow(env, st, what, pre=None):
    return env.maythrow(st, what, pre)


@model(r"^%s::(\1)\(int\)$" % TYPES)
def _(env, st, a, site, m, d):
    k = key(env, st, a[0])
    outs = maythrow(env, st, "convert")
    vnew(env, st, k, CONV(I(a[1])))
    st.log.append(("ctor", m.group(1), k))
    return outs + R(env, st)


LCONV = z3.Function("lconv", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


@model(r"^Lst::Lst\(std::initializer_list<int>(, Val const&)?\)$")
def _(env, st, a, site, m, d):
    """a value built from a list (of two ints, as the entry points give it) and possibly a further argument"""
    e = env.eng
    k = key(env, st, a[0])
    p = env.canon(st, a[1])
    n = a[2]
    e.oblige(st, "the list reaches the constructor whole", I(n) == 2 if not isint(n) else n == 2, ("*",))
    xs = [e.raw_load(st, Ptr(p.oid, p.off + 4 * i), ity(32), 4) for i in (0, 1)]
    x = vget(env, st, key(env, st, a[3])) if m.group(1) else -1
    outs = maythrow(env, st, "convert")
    vnew(env, st, k, LCONV(I(xs[0]), I(xs[1]), I(x)))
    st.log.append(("ctor", "Lst", k))
    return outs + R(env, st)


@model(r"^%s::(\1)\(\1 const&\)$" % TYPES)
def _(env, st, a, site, m, d):
    k, q = key(env, st, a[0]), key(env, st, a[1])
    v = vget(env, st, q)
    outs = [] if m.group(1) == "StP" else maythrow(env, st, "copy")
    vnew(env, st, k, v)
    if m.group(1) == "StP":
        st.g["stp"] = st.g.get("stp", ()) + ((k, v),)
    st.log.append(("copy", m.group(1), k, q))
    st.g["ncopy"] = st.g.get("ncopy", 0) + 1
    return outs + R(env, st)


@model(r"^%s::(\1)\(\1&&\)$" % TYPES)
def _(env, st, a, site, m, d):
    k, q = key(env, st, a[0]), key(env, st, a[1])
    v = vget(env, st, q)

    def pre(s):
        s.g["val"][q] = env.eng.sym("mv")
    outs = [] if m.group(1) == "StP" else maythrow(env, st, "move", pre)
    vnew(env, st, k, v)
    st.g["val"][q] = env.eng.sym("mv")
    if m.group(1) == "StP":
        st.g["stp"] = st.g.get("stp", ()) + ((k, v),)
        st.g["val"][q] = 0
    st.log.append(("move", m.group(1), k, q))
    return outs + R(env, st)


@model(r"^%s::operator=\(\1( const&|&&)\)$" % TYPES)
def _(env, st, a, site, m, d):
    k, q = key(env, st, a[0]), key(env, st, a[1])
    v = vget(env, st, q)
    vget(env, st, k)
    mv = m.group(2) == "&&"

    def pre(s):
        s.g["val"][k] = env.eng.sym("as")
        if mv:
            s.g["val"][q] = env.eng.sym("mv")
    outs = [] if m.group(1) == "StP" else maythrow(env, st, "assign", pre)
    st.g["val"][k] = v
    if mv:
        st.g["val"][q] = env.eng.sym("mv")
        if m.group(1) == "StP":
            st.g["val"][q] = 0
        elif k == q:
            st.g["val"][k] = env.eng.sym("selfmove")
    st.log.append(("assign", m.group(1), k, q))
    return outs + R(env, st, a[0])


@model(r"^%s::operator=\(int\)$" % TYPES)
def _(env, st, a, site, m, d):
    k = key(env, st, a[0])
    vget(env, st, k)

    def pre(s):
        s.g["val"][k] = env.eng.sym("as")
    outs = [] if m.group(1) == "StP" else maythrow(env, st, "assign", pre)
    st.g["val"][k] = CONV(I(a[1]))
    st.log.append(("assign", m.group(1), k, None))
    return outs + R(env, st, a[0])


@model(r"^%s::~(\1)\(\)$" % TYPES)
def _(env, st, a, site, m, d):
    k = key(env, st, a[0])
    vdel(env, st, k, m.group(1))
    r = env.eng.unit_obj.on_dtor(env, st, m.group(1), k)
    return R(env, st)


@model(r"^%s::operator(==|!=|<|>|<=|>=)\(\1 const&\) const$" % TYPES)
def _(env, st, a, site, m, d):
    k, q = key(env, st, a[0]), key(env, st, a[1])
    x, y = vget(env, st, k), vget(env, st, q)
    outs = maythrow(env, st, "compare")
    op = m.group(2)
    if getattr(env.eng.unit_obj, "total", False):
        # coherent comparisons: a total order (so that x != y may be computed as !(x == y), x > y as y < x, ...)
        x, y = I(x), I(y)
        return outs + R(env, st, {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
    return outs + R(env, st, CMP[op](I(x), I(y)))


@model(r"^%s::(operator\(\)|m|mb|mc|me|mf|mk|m2|mb2|mc2)\((.*)\)$" % TYPES)
def _(env, st, a, site, m, d):
    if env.any_held(st):
        env.eng.oblige(st, "no slot is called while a lock is held", False, ("C07",))
    return env.eng.unit_obj.user(env, st, m.group(1) + "::" + m.group(2), a, site)


@model(r"^(free_[ab])\(Val, int&\)$")
def _(env, st, a, site, m, d):
    if env.any_held(st):
        env.eng.oblige(st, "no slot is called while a lock is held", False, ("C07",))
    return env.eng.unit_obj.user(env, st, m.group(1), a, site)


# the user's own tracking pointer: the object may go at any time nothing keeps it
def keeps(st):
    """owning pointers that are alive"""
    return [k for k, t in st.g["stp"] if k in st.g["val"] and not (isint(st.g["val"][k]) and st.g["val"][k] == 0)]


def track(env, st):
    """-> [(state, alive)]"""
    if st.g["wdead"]:
        return [(st, False)]
    if keeps(st):
        return [(st, True)]
    g = st.g.get("wgone")
    out = []
    s2 = st.fork()                      # it goes now
    s2.g["wdead"] = True
    s2.g["dead"] = list(s2.g["dead"]) + [st.g["wobj"]]
    s2.log.append(("expired", st.g["wobj"]))
    if g is not None:
        s3 = st.fork()                  # it had gone before
        s3.pc.append(g)
        if env.eng.feasible(s3):
            s3.g["wdead"] = True
            s3.log.append(("expired", st.g["wobj"]))
            out.append((s3, False))
        for s in (st, s2):
            s.pc.append(z3.Not(g))
        if not env.eng.feasible(st):
            return out
    return out + [(st, True), (s2, False)]


@model(r"^to_weak\(StP const&\)$")
def _(env, st, a, site, m, d):
    v = vget(env, st, key(env, st, a[1]))
    outs = maythrow(env, st, "convert")
    vnew(env, st, key(env, st, a[0]), v)
    return outs + R(env, st)


@model(r"^WkP::expired\(\) const$")
def _(env, st, a, site, m, d):
    vget(env, st, key(env, st, a[0]))
    return [x for s, al in track(env, st) for x in R(env, s, not al)]


@model(r"^WkP::lock\(\) const$")
def _(env, st, a, site, m, d):
    k, q = key(env, st, a[0]), key(env, st, a[1])
    v = vget(env, st, q)
    outs = []
    for s, al in track(env, st):
        vnew(env, s, k, v if al else 0)
        s.g["stp"] = s.g["stp"] + ((k, v),)
        outs += R(env, s)
    return outs


@model(r"^StP::StP\(\)$")
def _(env, st, a, site, m, d):
    k = key(env, st, a[0])
    vnew(env, st, k, 0)
    st.g["stp"] = st.g.get("stp", ()) + ((k, 0),)
    return R(env, st)


@model(r"^StP::operator bool\(\) const$")
def _(env, st, a, site, m, d):
    v = vget(env, st, key(env, st, a[0]))
    return R(env, st, not (isint(v) and v == 0))


@model(r"^StP::operator\*\(\) const$")
def _(env, st, a, site, m, d):
    v = vget(env, st, key(env, st, a[0]))
    env.eng.oblige(st, "only an owning pointer to a live object is dereferenced", not (isint(v) and v == 0), ("*",))
    return R(env, st, Ptr(st.g["wobj"]))


@model(r"^comb_run\(")
def _(env, st, a, site, m, d):
    return env.eng.unit_obj.combiner(env, st, a, site)


def own_exc(st):
    """the exception that leaves is the one user code (or the memory allocator) threw last, itself"""
    return st.exc.oid == st.g.get("lastexc") and (st.exc.tname == USEREXC or st.exc.tname == "_ZTISt9bad_alloc" and ("oom",) in list(st.log))


class Unit:
    """one verification unit: an entry point of the real code under a contract (setup = precondition,
    post = postcondition), executed for all paths"""
    entry = None
    props = ()
    throws = ("copy", "move", "assign", "compare", "convert", "call")
    oom = False           # every allocation may fail; only paths on which one did are judged
    leaks = True
    excl = False

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    def may_throw(self, what):
        return what in self.throws

    @property
    def may_throw_eq(self):
        return self.may_throw("compare")

    @property
    def may_throw_copy(self):
        return self.may_throw("copy")

    def intercept(self, env, st, fname, args, site):
        return NotImplemented

    def setup(self, env, st):
        raise NotImplementedError

    def post(self, env, st):
        raise NotImplementedError

    def user(self, env, st, name, args, site):
        raise Unsupported("call of user function " + name)

    def impl_call(self, env, st, obj, args, site):
        raise Unsupported("call through slot implementation")

    def on_dtor(self, env, st, t, k):
        pass

    def terminate(self, env, st, d):
        env.eng.oblige(st, "no operation terminates the program", False, ("*",))
        raise PathEnd("terminate")

    def assert_fail(self, env, st):
        env.eng.oblige(st, "no assertion fails", False, ("*",))
        raise PathEnd("assert")

    def diff(self, env, a, b):
        return []

    def havoc(self, env, st, k, info, terms):
        raise Unsupported("havoc %r" % (k,))

    def term_of(self, env, st, k):
        return None

    def candidates(self, env, eng, entry, hst, mod, terms, ints, bools, T, guard, nm):
        return []

    # -------- helpers
    def root(self, env, st, size=64, val=None):
        """a live object passed in by the caller (opaque user object if val is given)"""
        o = env.eng.new_obj(st, size)
        if val is not None:
            st.g["val"][(o, 0)] = val
        return o

    def common_post(self, env, st, roots=()):
        e = env.eng
        e.oblige(st, "every lock is released on return and on exception", not st.g["held"], ("C07", "C20"))
        if st.status == "exc":
            e.oblige(st, "only the user's own exception leaves, unchanged", own_exc(st), ("C20",))
        h = st.g.get("heap") or {}
        return True
