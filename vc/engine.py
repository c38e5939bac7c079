"""Path-wise verification-condition generator over LLVM IR with function contracts, loop invariants
(inferred Houdini-style from templates and then *checked*), exceptions, and a thread-modular heap.
All obligations are discharged by SMT (z3; cvc5 as a second opinion), with no bound on list lengths,
histories or values."""
import z3, time, re, itertools
from ir import Unsupported, Ty, PTR, VOID

W = {n: 1 << n for n in (1, 8, 16, 32, 64, 128)}
import os
DEBUG_END = os.environ.get("VC_DEBUG") == "2"
ADDR = z3.Function("addr", z3.IntSort(), z3.IntSort())
CAND_MS = 300           # per candidate invariant conjunct
CTRL = 1 << 20          # pseudo offset: control block of a shared object
FRESH0 = 10 ** 6        # concrete objects get numerals from here on


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Infeasible(Exception):
    pass


class Ptr:
    __slots__ = ("oid", "off", "idx", "cls")

    def __init__(self, oid, off=0, idx=None, cls=None):
        self.oid, self.off, self.idx, self.cls = oid, off, idx, cls

    def __repr__(self):
        return "P(%s%s%s%s)" % (self.oid, "+%s" % self.off if self.off else "", "[%s]" % self.idx if self.idx is not None else "", ":" + self.cls if self.cls else "")

    def at(self, d):
        return Ptr(self.oid, self.off + d, self.idx, self.cls)

    @property
    def null(self):
        return isinstance(self.oid, int) and self.oid == 0 and self.off == 0


NULL = Ptr(0)


class PInt:
    """an integer obtained from a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Lin:
    """the integer k*e, kept symbolic (pointer differences)"""
    __slots__ = ("k", "e")

    def __init__(self, k, e):
        self.k, self.e = k, e


class Opaque:
    """a value the verifier knows nothing about"""
    __slots__ = ("n",)
    cnt = itertools.count()

    def __init__(self, n="u"):
        self.n = "%s%d" % (n, next(Opaque.cnt))

    def __repr__(self):
        return "?" + self.n


def isz(x):
    return isinstance(x, z3.ExprRef)


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def B(x):
    """to z3 Bool"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def bnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def band(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def bor(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and not x)]
    if any(isinstance(x, bool) for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def ieq(a, b):
    if isint(a) and isint(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return I(a) == I(b)


def norm(x):
    """z3 numerals back to python"""
    if isz(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def sel(a, i):
    """Select with folding over Store chains on syntactically decidable indices"""
    i = I(i)
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return norm(a.arg(2))
        if z3.is_int_value(j) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return norm(a.arg(0))
    return z3.Select(a, i)


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e):
        return cache[k][1]
    r = False
    st, seen = [e], set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    cache[k] = (e, r)
    return r


class Frame:
    __slots__ = ("f", "regs", "blk", "prev", "pc", "allocs", "site", "loops", "ctx")

    def __init__(self, f):
        self.f = f
        self.regs = {}
        self.blk = f.entry
        self.prev = None
        self.pc = 0
        self.allocs = []
        self.site = None      # Instr in the caller that called us
        self.loops = {}       # header -> loop record (active)
        self.ctx = None       # callback run when the frame returns: f(eng, st, val)

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.blk, g.prev, g.pc, g.site, g.ctx = self.f, self.blk, self.prev, self.pc, self.site, self.ctx
        g.regs = dict(self.regs)
        g.allocs = list(self.allocs)
        g.loops = dict(self.loops)
        return g


class Exc:
    __slots__ = ("oid", "tname")

    def __init__(self, oid, tname):
        self.oid, self.tname = oid, tname


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}        # oid -> {off: (size, val)}
        self.zero = {}       # oid -> [(lo,hi)] zero-filled
        self.osize = {}
        self.freed = set()
        self.pc = []
        self.g = {}          # environment state; values must be immutable or have .copy()
        self.exc = None
        self.caught = []
        self.log = []
        self.ret = None
        self.status = None   # 'ret' | 'exc' | 'terminate'
        self.trace = []
        self.taint = False
        self.reg_alloc = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.zero = {k: list(v) for k, v in self.zero.items()}
        s.osize = dict(self.osize)
        s.freed = set(self.freed)
        s.pc = list(self.pc)
        s.g = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in self.g.items()}
        s.exc, s.caught, s.ret, s.status = self.exc, list(self.caught), self.ret, self.status
        s.log = list(self.log)
        s.trace = list(self.trace)
        s.taint = self.taint
        s.reg_alloc = dict(self.reg_alloc)
        return s

    def assume(self, c):
        c = norm(c)
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)


class Obligation:
    __slots__ = ("unit", "name", "labels", "where", "ok", "solver", "secs", "detail", "taint", "path", "model", "loop")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Engine:
    def __init__(self, mod, env):
        self.m = mod
        self.env = env
        env.eng = self
        self.dem = mod.dem
        self.ids = {}
        self.idname = {}
        self.nfresh = itertools.count(FRESH0)
        self.nsym = itertools.count()
        self.obls = []
        self.unit = None
        self.quiet = 0            # >0: obligations are not recorded (loop analysis passes)
        self.stats = {"solver_s": 0.0, "queries": 0, "instrs": 0, "paths": 0}
        self.notes = set()
        self.inlined = set()
        self.used_models = set()
        self.max_steps = 400000
        self.steps = 0
        self.deadline = None
        self.timeout_ms = 8000
        self.gmem = {}
        self.unroll = None        # bounded mode: max loop iterations
        self.vcache = {}
        self.refutes = 8          # attempts to find a counterexample of an undecided obligation

    # ------------------------------------------------------------ ids
    def gid(self, name):
        if name not in self.ids:
            self.ids[name] = -(len(self.ids) + 1)
            self.idname[self.ids[name]] = name
        return self.ids[name]

    def fresh_oid(self):
        return next(self.nfresh)

    def sym(self, n, sort="int"):
        nm = "%s!%d" % (n, next(self.nsym))
        if sort == "int":
            return z3.Int(nm)
        if sort == "bool":
            return z3.Bool(nm)
        if sort == "arr":
            return z3.Array(nm, z3.IntSort(), z3.IntSort())
        if sort == "barr":
            return z3.Array(nm, z3.IntSort(), z3.BoolSort())
        raise ValueError(sort)

    def new_obj(self, st, size=None, oid=None):
        oid = self.fresh_oid() if oid is None else oid
        st.mem[oid] = {}
        st.osize[oid] = size
        return oid

    # ------------------------------------------------------------ solving
    def _check(self, fs, timeout):
        if any(has_quant(x) for x in fs):
            # plain E-matching core first; z3's combined solver preprocesses some quantifiers into harder ones
            r, s = self._check1(z3.SimpleSolver(), fs, min(timeout, 600))
            if r != z3.unknown:
                return r, s
        return self._check1(z3.Solver(), fs, timeout)

    def _check1(self, s, fs, timeout):
        # deterministic resource limit (about 3000 units per ms); the wall-clock limit is only a safety net
        s.set("rlimit", timeout * 3000)
        s.set("timeout", timeout * 6)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        return r, s

    def feasible(self, st, c=None):
        fs = [x for x in st.pc if not has_quant(x)]
        if c is not None:
            c = norm(c)
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                fs.append(c)
        r, _ = self._check(fs, 2000)
        return r != z3.unsat

    def prove(self, st, goal, timeout=None):
        """does st.pc entail goal?  returns (True/False/None, solver)"""
        goal = norm(goal)
        if isinstance(goal, bool):
            if goal:
                return True, "simplifier"
            # goal false: proved only if the path is infeasible
            r, _ = self._check(st.pc, timeout or self.timeout_ms)
            return (r == z3.unsat), "z3"
        for x in st.pc:
            if x.eq(goal):
                return True, "literal hypothesis"
        qf = [x for x in st.pc if not has_quant(x)]
        ng = z3.Not(goal)
        if len(qf) != len(st.pc):
            r, _ = self._check(qf + [ng], min(1500, timeout or self.timeout_ms))
            if r == z3.unsat:
                return True, "z3"
        r, s = self._check(st.pc + [ng], timeout or self.timeout_ms)
        if r == z3.unsat:
            return True, "z3"
        if r == z3.unknown and (timeout is None or timeout >= self.timeout_ms):
            rr = self._cvc5(st.pc + [ng])
            if rr == "unsat":
                return True, "cvc5"
            if self.refute(st, ng):
                return False, "z3"
            return None, "z3+cvc5:unknown"
        return (False if r == z3.sat else None), "z3"

    def refute(self, st, ng):
        """look for a counterexample with short lists (z3 checks it against the quantified formulas)"""
        lens = [I(v.len) for v in (st.g.get("vec") or {}).values() if not isint(v.len)]
        if not lens or self.refutes <= 0:
            return False
        self.refutes -= 1
        for b in (1, 2):
            r, _ = self._check1(z3.Solver(), [*st.pc, ng] + [x <= b for x in lens], 3000)
            if r == z3.sat:
                return True
        return False

    def _cvc5(self, fs):
        import subprocess, tempfile, os
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t = time.time()
        try:
            p = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=8000", "--enum-inst", "-"], input=txt, capture_output=True, text=True, timeout=20)
            r = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        except Exception:
            r = "unknown"
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        return r

    def where(self, st):
        out = []
        for fr in st.frames[-4:]:
            ins = fr.f.blocks[fr.blk][min(fr.pc, len(fr.f.blocks[fr.blk]) - 1)]
            ln = self.m.lines.get(ins.line or "", None)
            out.append("%s%s" % (short(self.dem.get(fr.f.name, fr.f.name)), ":%d" % ln if ln else ""))
        return " > ".join(out)

    def oblige(self, st, name, goal, labels, detail=None, assume=True):
        """prove obligation; afterwards assume it"""
        goal = norm(goal)
        if self.unit_obj.oom:
            labels = self.unit_obj.props
        if self.quiet or self.unit_obj.oom and ("oom",) not in st.log:
            # (a memory exhaustion unit repeats another one; only its own paths count)
            if assume:
                if isinstance(goal, bool):
                    if not goal:
                        raise PathEnd("obl " + name)
                else:
                    st.pc.append(goal)
            return True
        t0 = self.stats["solver_s"]
        ok, solver = self.prove(st, goal)
        if ok is None and isinstance(goal, bool) is False and z3.is_and(goal):
            res = [self.prove(st, c)[0] for c in goal.children()]
            if all(r is True for r in res):
                ok = True
        model = None
        if ok is not True:
            # an infeasible path proves anything
            model = self.witness(st, goal)
        self.obls.append(Obligation(unit=self.unit, name=name, labels=frozenset(labels), where=self.where(st), ok=ok is True, solver=solver,
                                    secs=self.stats["solver_s"] - t0, detail=detail, taint=st.taint or ok is None, loop=bool(st.g.get("in_loops")) or name.startswith("loop invariant"), path=list(st.trace[-40:]) if ok is not True else None, model=model))
        if ok is not True:
            if isinstance(goal, bool):
                raise PathEnd("obl")
        if not isinstance(goal, bool) and assume and ok is True:
            st.pc.append(goal)
        return ok is True

    def witness(self, st, goal):
        try:
            qf = [x for x in st.pc if not has_quant(x)]
            r, s = self._check(qf + ([] if isinstance(goal, bool) else [z3.Not(goal)]), 1500)
            if r == z3.sat:
                md = s.model()
                return {str(d): str(md[d])[:120] for d in md.decls()[:40]}
        except Exception:
            pass
        return None

    # ------------------------------------------------------------ memory
    def kill(self, st, oid, lo, hi):
        c = st.mem[oid]
        for o in [o for o, (s, _) in c.items() if o < hi and o + s > lo]:
            del c[o]
        z = st.zero.get(oid)
        if z:
            nz = []
            for a, b in z:
                if b <= lo or a >= hi:
                    nz.append((a, b))
                else:
                    if a < lo:
                        nz.append((a, lo))
                    if b > hi:
                        nz.append((hi, b))
            st.zero[oid] = nz

    def load(self, st, p, ty, order=None):
        ty = self.m.resolve(ty)
        if ty.k in ("st", "arr"):
            return [self.load(st, p.at(o), t, order) for o, t in self.m.fields(ty)]
        size = self.m.size(ty)
        p = self.env.canon(st, p)
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.null:
            self.oblige(st, "no null dereference", False, self.env.SAFE)
        if isinstance(p.oid, int) and p.oid < 0 and p.idx is None:
            return self.gload(st, p, ty, order)
        r = self.env.mem_load(st, p, ty, size, order)
        if r is not NotImplemented:
            return r
        return self.raw_load(st, p, ty, size)

    def raw_load(self, st, p, ty, size):
        c = st.mem.get(p.oid)
        if c is None:
            if p.oid in st.freed:
                self.oblige(st, "no use after free", False, self.env.SAFE)
            raise Unsupported("load from unknown object %r" % (p,))
        if p.idx is not None:
            raise Unsupported("indexed load %r" % (p,))
        hit = c.get(p.off)
        if hit and hit[0] == size:
            return self.coerce(hit[1], ty)
        if hit is None:
            for a, b in st.zero.get(p.oid, ()):
                if a <= p.off and p.off + size <= b:
                    return self.zero_of(ty)
            if not any(o < p.off + size and o + s > p.off for o, (s, _) in c.items()):
                v = self.env.undef_load(st, p, ty, size)
                c[p.off] = (size, v)
                return v
        # load of part of a wider constant / assembling parts
        for o, (s, v) in c.items():
            if o <= p.off and p.off + size <= o + s and isint(v):
                return (v >> (8 * (p.off - o))) & ((1 << (8 * size)) - 1)
        if ty.k == "i" and size in (2, 4, 8, 16):
            # assemble from bytes (constants only)
            acc, ok = 0, True
            for b in range(size):
                bv = None
                for o, (s, v) in c.items():
                    if o <= p.off + b < o + s and isint(v):
                        bv = (v >> (8 * (p.off + b - o))) & 255
                        break
                else:
                    for a, e in st.zero.get(p.oid, ()):
                        if a <= p.off + b < e:
                            bv = 0
                            break
                if bv is None:
                    ok = False
                    break
                acc |= bv << (8 * b)
            if ok:
                return acc
            parts = [v for o, (s, v) in c.items() if p.off <= o < p.off + size and not isinstance(v, Opaque)]
            return Opaque("mix")
        raise Unsupported("mixed-size load %r size %d cells %r" % (p, size, {o: x for o, x in c.items()}))

    def coerce(self, v, ty):
        if ty.k == "ptr":
            if isint(v) and v == 0:
                return NULL
            if isinstance(v, PInt):
                return v.p
        if ty.k == "i" and isinstance(v, Ptr):
            return 0 if v.null else PInt(v)
        return v

    def zero_of(self, ty):
        ty = self.m.resolve(ty)
        if ty.k == "ptr":
            return NULL
        if ty.k == "i":
            return False if ty.a == 1 else 0
        if ty.k in ("st", "arr"):
            return [self.zero_of(t) for _, t in self.m.fields(ty)]
        return ("fp", "0.0")

    def store(self, st, p, ty, v, order=None):
        ty = self.m.resolve(ty)
        if ty.k in ("st", "arr"):
            if isinstance(v, Opaque):
                v = [Opaque() for _ in self.m.fields(ty)]
            for (o, t), x in zip(self.m.fields(ty), v):
                self.store(st, p.at(o), t, x, order)
            return
        size = self.m.size(ty)
        p = self.env.canon(st, p)
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.null:
            self.oblige(st, "no null dereference", False, self.env.SAFE)
        if isinstance(p.oid, int) and p.oid < 0 and p.idx is None:
            name = self.idname[p.oid]
            g = self.m.globals.get(name)
            if g is not None and g[0] is False and g[2] is not None and ty.k == "i":
                if order is None and name not in self.m.tls:
                    self.oblige(st, "a static variable shared by all threads is only changed atomically", False, ("C09",))
                gv = st.g.setdefault("gv", {})
                for k in [k for k in gv if k[0] == name and k != (name, p.off, size)]:
                    if k[1] < p.off + size and p.off < k[1] + k[2]:
                        raise Unsupported("static variable " + name)
                gv[(name, p.off, size)] = v
                return
        r = self.env.mem_store(st, p, ty, size, v, order)
        if r is not NotImplemented:
            return
        self.raw_store(st, p, size, v)

    def raw_store(self, st, p, size, v):
        if p.oid not in st.mem:
            if p.oid in st.freed:
                self.oblige(st, "no use after free", False, self.env.SAFE)
            raise Unsupported("store to unknown object %r" % (p,))
        if p.idx is not None:
            raise Unsupported("indexed store %r" % (p,))
        self.kill(st, p.oid, p.off, p.off + size)
        st.mem[p.oid][p.off] = (size, v)

    def gload(self, st, p, ty, order=None):
        name = self.idname[p.oid]
        if name in self.m.funcs:
            raise Unsupported("load from function")
        g = self.m.globals.get(name)
        if g is None or g[2] is None or not g[0]:
            v = self.env.global_load(st, name, p.off, ty)
            if v is not NotImplemented:
                return v
            if g is not None and g[0] is False and g[2] is not None and ty.k == "i":
                # a mutable static variable: whatever earlier operations (of any signal, any thread) left there
                k = (name, p.off, self.m.size(ty))
                gv = st.g.setdefault("gv", {})
                if k not in gv or (order is not None and name not in self.m.tls):
                    if ty.a == 1:
                        gv[k] = self.sym("static", "bool")
                    else:
                        gv[k] = x = self.sym("static")
                        st.pc.append(z3.And(x >= 0, x < W[ty.a]))
                    self.notes.add("static variable " + name)
                return gv[k]
            raise Unsupported("load from global " + name)
        if name not in self.gmem:
            cells = {}
            self._flat(g[1], g[2], 0, cells)
            self.gmem[name] = cells
        c = self.gmem[name].get(p.off)
        if c is None or c[0] != self.m.size(ty):
            raise Unsupported("global load %s+%d" % (name, p.off))
        return c[1]

    def _flat(self, ty, v, off, cells):
        r = self.m.resolve(ty)
        if v[0] == "agg":
            for i, (t, x) in enumerate(v[1]):
                o, _ = self.m.field(r, i)
                self._flat(t, x, off + o, cells)
        elif v[0] == "zero":
            if r.k in ("st", "arr"):
                for o, t in self.m.fields(r):
                    self._flat(t, ("zero", t), off + o, cells)
            else:
                cells[off] = (self.m.size(r), self.zero_of(r))
        elif v[0] == "cstr":
            pass
        else:
            cells[off] = (self.m.size(r), self.val(None, r, v))

    # ------------------------------------------------------------ values
    def val(self, fr, ty, v):
        k = v[0]
        if k == "loc":
            return fr.regs[v[1]]
        if k == "int":
            return v[1]
        if k == "bool":
            return v[1]
        if k == "null":
            return NULL
        if k == "glob":
            n = v[1]
            g = self.m.globals.get(n)
            if g and g[0] == "alias":
                return self.val(fr, PTR, g[2])
            return Ptr(self.gid(n))
        if k == "undef":
            t = self.m.resolve(v[1])
            if t.k in ("st", "arr"):
                return [self.val(fr, x, ("undef", x)) for _, x in self.m.fields(t)]
            return Opaque("undef")
        if k == "zero":
            return self.zero_of(ty)
        if k == "gep":
            return self.gep(None, v[1], self.val(fr, PTR, v[2]), [(t, self.val(fr, t, x)) for t, x in v[3]])
        if k == "cast":
            x = self.val(fr, v[2], v[3])
            if v[1] == "ptrtoint":
                return PInt(x)
            if v[1] == "inttoptr" and isinstance(x, PInt):
                return x.p
            if v[1] == "bitcast":
                return x
            if v[1] == "inttoptr":
                return NULL if x == 0 else Opaque()
            return x
        if k == "agg":
            return [self.val(fr, t, x) for t, x in v[1]]
        if k == "fp":
            return v
        raise Unsupported("value kind %s" % k)

    def gep(self, st, bt, p, idx):
        if isinstance(p, Opaque):
            return p
        first = idx[0][1]
        es = self.m.size(bt)
        p = self.ptradd(st, p, first, es)
        t = bt
        for _, i in idx[1:]:
            r = self.m.resolve(t)
            if isz(i):
                if r.k == "arr":
                    p = self.ptradd(st, p, i, self.m.size(r.b))
                    t = r.b
                    continue
                raise Unsupported("symbolic struct index")
            if isint(i) and i >= (1 << 31):
                i -= (1 << 32)
            o, t = self.m.field(r, i)
            p = p.at(o)
        return p

    def signed(self, x, w):
        if isint(x):
            return x - W[w] if x >= W[w] // 2 else x
        if isinstance(x, bool):
            return -int(x)
        if isinstance(x, Lin) or isinstance(x, PInt):
            return x
        if self.env.known_small(x):
            return x
        return z3.If(x >= W[w] // 2, x - W[w], x)

    def ptradd(self, st, p, n, es):
        if isint(n):
            n = n - W[64] if n >= W[64] // 2 else n
            if n == 0:
                return p
        if isinstance(n, (Opaque, PInt)):
            raise Unsupported("pointer + %r" % (n,))
        if p.idx is not None:
            stride = self.env.stride(p)
            if es == stride:
                return Ptr(p.oid, p.off, norm(z3.simplify(I(p.idx) + I(self._sidx(n)))), p.cls)
            if isint(n) and (n * es) % stride == 0 and n * es:
                return Ptr(p.oid, p.off, norm(z3.simplify(I(p.idx) + (n * es) // stride)), p.cls)
            if isinstance(n, Lin) and es * n.k == stride:
                return Ptr(p.oid, p.off, norm(z3.simplify(I(p.idx) + n.e)), p.cls)
            if isint(n):
                return p.at(n * es)
            raise Unsupported("gep stride")
        if isint(n):
            return p.at(n * es)
        raise Unsupported("symbolic offset into %r" % (p,))

    def _sidx(self, n):
        return n if isint(n) else self.env.sidx(n)

    def range_ok(self, st, r, w):
        r = norm(r)
        if isint(r):
            return 0 <= r < W[w]
        ok, _ = self.prove(st, z3.And(r >= 0, r < W[w]), timeout=1500)
        return ok is True

    def wrap(self, st, r, w):
        if isint(r):
            return r % W[w]
        r = z3.simplify(r)
        r = norm(r)
        if isint(r):
            return r % W[w]
        if self.range_ok(st, r, w):
            return r
        return z3.If(r < 0, r + W[w], z3.If(r >= W[w], r - W[w], r))

    def binop(self, st, op, w, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("bin")
        if w == 1:
            if op == "xor":
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return z3.Xor(a, b)
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, PInt) and isinstance(b, PInt) and op == "sub":
            p, q = a.p, b.p
            if p.oid is q.oid or p.oid == q.oid or (isz(p.oid) and isz(q.oid) and p.oid.eq(q.oid)):
                if p.idx is None and q.idx is None:
                    return (p.off - q.off) % W[w]
                d = norm(z3.simplify(I(0 if p.idx is None else p.idx) - I(0 if q.idx is None else q.idx)))
                s = self.env.stride(p if p.idx is not None else q)
                if isint(d):
                    return (d * s + p.off - q.off) % W[w]
                if p.off == q.off:
                    return Lin(s, d)
            raise Unsupported("pointer difference %r %r" % (p, q))
        if isinstance(a, Lin):
            if op in ("sdiv", "udiv", "ashr", "lshr") and isint(b):
                d = b if op in ("sdiv", "udiv") else 1 << b
                if a.k % d == 0:
                    return a.e if a.k == d else Lin(a.k // d, a.e)
            if op in ("mul", "shl") and isint(b):
                return Lin(a.k * (b if op == "mul" else 1 << b), a.e)
            if op == "sub" and isint(b) and b == 0:
                return a
            a = a.k * a.e
        if isinstance(b, Lin):
            if op == "sub" and isint(a) and a == 0:
                return Lin(-b.k, b.e)
            b = b.k * b.e
        if isinstance(a, PInt) or isinstance(b, PInt):
            # (member function pointer arithmetic etc.)
            if op == "and" and isint(b) and b == 1:
                return 0
            if op == "sub" and isint(b) and b == 0 or op == "add" and isint(b) and b == 0:
                return a
            raise Unsupported("pointer arithmetic %s %r %r" % (op, a, b))
        if isint(a) and isint(b):
            sa, sb = self.signed(a, w), self.signed(b, w)
            if op == "add": r = a + b
            elif op == "sub": r = a - b
            elif op == "mul": r = a * b
            elif op == "and": r = a & b
            elif op == "or": r = a | b
            elif op == "xor": r = a ^ b
            elif op == "shl": r = a << b
            elif op == "lshr": r = a >> b
            elif op == "ashr": r = sa >> b
            elif op == "udiv": r = a // b
            elif op == "urem": r = a % b
            elif op == "sdiv": r = int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1)
            elif op == "srem": r = abs(sa) % abs(sb) * (1 if sa >= 0 else -1)
            else: raise Unsupported(op)
            return r % W[w]
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or isinstance(a, bool) or isinstance(b, bool):
            raise Unsupported("bool arithmetic")
        if op == "add":
            if isint(b) and b >= W[w] // 2:
                return self.wrap(st, I(a) - (W[w] - b), w)
            if isint(a) and a >= W[w] // 2:
                return self.wrap(st, I(b) - (W[w] - a), w)
            return self.wrap(st, I(a) + I(b), w)
        if op == "sub":
            return self.wrap(st, I(a) - I(b), w)
        if op == "mul" and (isint(a) or isint(b)):
            k, e = (a, b) if isint(a) else (b, a)
            return self.wrap(st, k * e, w) if self.range_ok(st, k * e, w) else (k * e) % W[w]
        if op == "and" and isint(b):
            if b == 1:
                x = self.as01(a)
                if x is not None:
                    return z3.If(x, z3.IntVal(1), z3.IntVal(0))
                return a % 2
            if b == 0:
                return 0
            if b == 255:
                return a % 256
        if op == "and" and isint(a):
            return self.binop(st, op, w, b, a)
        if op in ("or", "and", "xor"):
            x, y = self.as01(a), self.as01(b)
            if x is not None and y is not None:
                e = {"or": z3.Or, "and": z3.And, "xor": z3.Xor}[op](B(x), B(y))
                return z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if op == "udiv" and isint(b) and b:
            return a / b
        if op == "lshr" and isint(b):
            return a / (1 << b)
        if op == "urem" and isint(b) and b:
            return a % b
        if op == "shl" and isint(b):
            return self.binop(st, "mul", w, a, 1 << b)
        if op in ("sdiv", "srem", "ashr") and self.range_ok(st, I(a), w - 1):
            if isint(b) and b > 0:
                return {"sdiv": lambda: I(a) / b, "srem": lambda: I(a) % b, "ashr": lambda: I(a) / (1 << b)}[op]()
        st.taint = True
        r = self.sym("op", "int")
        st.assume(z3.And(r >= 0, r < W[w]))
        return r

    def as01(self, a):
        """x such that a == (x?1:0), or None"""
        if isint(a):
            return {0: False, 1: True}.get(a)
        if isz(a) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            x, y = norm(a.arg(1)), norm(a.arg(2))
            if x == 1 and y == 0:
                return a.arg(0)
            if x == 0 and y == 1:
                return z3.Not(a.arg(0))
        return None

    def ptr_eq(self, st, a, b):
        a, b = self.env.canon(st, a), self.env.canon(st, b)
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported("pointer comparison %r %r" % (a, b))
        if not (isint(a.oid) or isz(a.oid)) or not (isint(b.oid) or isz(b.oid)):
            raise Unsupported("pointer comparison of vtables")
        o = ieq(a.oid, b.oid)
        if a.null or b.null:
            q = b if a.null else a
            if q.off != 0 or q.idx is not None:
                if q.off == CTRL:
                    return ieq(q.oid, 0)
                return False
            return o
        if isinstance(o, bool) and not o:
            return False
        if a.idx is None and b.idx is None:
            return band(o, a.off == b.off)
        if a.idx is None or b.idx is None:
            return band(o, a.off == b.off, ieq(0 if a.idx is None else a.idx, 0 if b.idx is None else b.idx))
        return band(o, a.off == b.off, ieq(a.idx, b.idx))

    def icmp(self, st, pred, ty, a, b):
        if ty.k == "ptr":
            if pred == "eq":
                return self.ptr_eq(st, a, b)
            if pred == "ne":
                return bnot(self.ptr_eq(st, a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                o = ieq(a.oid, b.oid)
                if o is True and (a.idx is not None or b.idx is not None) and a.off == b.off:
                    return self._cmp(pred, I(0 if a.idx is None else a.idx), I(0 if b.idx is None else b.idx))
                if o is True and a.idx is None and b.idx is None:
                    return self._cmp(pred, a.off, b.off)
                if o is False:
                    return self.addr_order(st, pred, a, b)
            raise Unsupported("pointer order %r %r" % (a, b))
        w = ty.a
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.env.opaque_cmp(st, a, b)
        if w == 1:
            e = B(a) == B(b) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
            return e if pred == "eq" else bnot(e)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if pred in ("eq", "ne"):
                def toP(x):
                    return x.p if isinstance(x, PInt) else NULL if x == 0 else None
                p, q = toP(a), toP(b)
                if p is None or q is None:
                    raise Unsupported("pointer/int comparison")
                e = self.ptr_eq(st, p, q)
                return e if pred == "eq" else bnot(e)
            if isinstance(a, PInt) and isinstance(b, PInt):
                return self.icmp(st, pred, PTR, a.p, b.p)
            raise Unsupported("ptrint order")
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Lin) and isinstance(b, Lin) and a.k == b.k and a.k > 0:
                return self._cmp(pred, a.e, b.e)
            a = a.k * a.e if isinstance(a, Lin) else a
            b = b.k * b.e if isinstance(b, Lin) else b
            return self._cmp(pred, a if isz(a) else self.signed(a, w), b if isz(b) else self.signed(b, w))
        if pred in ("eq", "ne"):
            x, y = self.as01(a), self.as01(b)
            if x is not None and y is not None and not (isint(a) and isint(b)):
                if isinstance(y, bool):
                    e = x if y else bnot(x)
                elif isinstance(x, bool):
                    e = y if x else bnot(y)
                else:
                    e = x == y
            else:
                e = ieq(a, b)
            return e if pred == "eq" else bnot(e)
        if pred[0] == "s":
            a, b = self.signed(a, w), self.signed(b, w)
        return self._cmp(pred, a, b)

    def addr_order(self, st, pred, a, b):
        """order of the addresses of two different objects: arbitrary, but one and the same everywhere"""
        x, y = ADDR(I(a.oid)), ADDR(I(b.oid))
        st.pc.append(x != y)
        return self._cmp("u" + pred[1:], x, y)

    def _cmp(self, pred, a, b):
        if isz(a) and isz(b) and a.eq(b):
            return pred in ("eq", "sge", "sle", "uge", "ule")
        if not isint(a) or not isint(b):
            a, b = I(a), I(b)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "t": None}.get(pred, lambda: {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:]])()

    def cast(self, st, op, t1, v, t2):
        if isinstance(v, Opaque):
            return v
        if op in ("zext", "sext"):
            if t1.a == 1:
                one = 1 if op == "zext" else W[t2.a] - 1
                if isinstance(v, bool):
                    return one if v else 0
                return z3.If(v, z3.IntVal(one), z3.IntVal(0))
            if op == "sext" and not isinstance(v, (PInt, Lin)):
                s = self.signed(v, t1.a)
                if isint(s):
                    return s % W[t2.a]
                if s is v or (isz(s) and isz(v) and s.eq(v)):
                    return v
                return z3.If(v >= W[t1.a] // 2, v + (W[t2.a] - W[t1.a]), v)
            return v
        if op == "trunc":
            if t2.a == 1:
                if isint(v):
                    return bool(v & 1)
                x = self.as01(v)
                if x is not None:
                    return x
                if isinstance(v, z3.BoolRef):
                    return v
                return v % 2 == 1
            if isint(v):
                return v % W[t2.a]
            if isinstance(v, PInt):
                return Opaque("truncp")
            if isinstance(v, Lin):
                v = v.k * v.e
            if self.as01(v) is not None or self.range_ok(st, v, t2.a):
                return v
            return v % W[t2.a]
        if op == "ptrtoint":
            return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            if isint(v) and v == 0:
                return NULL
            return Opaque("i2p")
        if op in ("bitcast", "addrspacecast"):
            return v
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            st.taint = True
            return Opaque("fp")
        raise Unsupported(op)

    # ------------------------------------------------------------ running
    def call(self, st, fname, args, site, ctx=None):
        """start executing fname in st (pushes a frame) or apply its contract.  Returns list of states."""
        f = self.m.funcs.get(fname)
        r = self.env.call_model(st, fname, args, site)
        if r is not NotImplemented:
            return r
        if f is None:
            raise Unsupported("call of unknown " + fname)
        if f.declared:
            raise Unsupported("no contract for external " + self.dem.get(fname, fname))
        if len(st.frames) > 200:
            self.oblige(st, "terminates (call depth)", False, self.env.TERM)
        self.inlined.add(fname)
        fr = Frame(f)
        fr.site = site
        fr.ctx = ctx
        for (pn, pt, at), a in zip(f.params, args):
            if "byval" in at:
                raise Unsupported("byval")
            fr.regs[pn] = a
        st.frames.append(fr)
        return self.enter_block(st)

    def ret_to(self, st, val):
        """deliver a return value to the top frame's current call instruction"""
        if not st.frames:
            st.ret = val
            st.status = "ret"
            return [st]
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.blk][fr.pc]
        if ins.res is not None:
            fr.regs[ins.res] = val
        if ins.op == "invoke":
            return self.jump(st, ins.a["to"])
        fr.pc += 1
        return [st]

    def jump(self, st, lab):
        fr = st.frames[-1]
        fr.prev, fr.blk, fr.pc = fr.blk, lab, 0
        # phis
        ph = []
        for ins in fr.f.blocks[lab]:
            if ins.op != "phi":
                break
            for v, l in ins.a:
                if l == fr.prev:
                    ph.append((ins.res, self.val(fr, ins.ty, v)))
                    break
            fr.pc += 1
        for r, v in ph:
            fr.regs[r] = v
        return self.enter_block(st)

    def enter_block(self, st):
        fr = st.frames[-1]
        loops = fr.f.loops()
        # leaving loops: forget records of loops we are no longer in
        for h in list(fr.loops):
            if fr.blk not in loops[h]:
                del fr.loops[h]
        if fr.blk in loops:
            return self.at_header(st)
        return [st]

    def throw(self, st, exc):
        """propagate exception exc from the top frame's current instruction"""
        st.exc = exc
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.pc]
            if ins.op == "invoke":
                return self.jump(st, ins.a["unwind"])
            self.leave_frame(st)
        st.status = "exc"
        return [st]

    def leave_frame(self, st):
        fr = st.frames.pop()
        for o in fr.allocs:
            self.env.dead_alloca(st, o)
            st.mem.pop(o, None)
            st.zero.pop(o, None)
            st.freed.add(o)
        return fr

    def branch(self, st, c, a, b):
        """fork on condition c; a,b: functions state -> list of states"""
        c = norm(c)
        if isz(c):
            c = norm(z3.simplify(c))
        if isinstance(c, bool):
            return a(st) if c else b(st)
        if isinstance(c, Opaque):
            st.taint = True
            c = self.sym("ob", "bool")
        if isinstance(c, z3.ArithRef):
            c = c != 0
        t, f = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if t and not f:
            return a(st)
        if f and not t:
            return b(st)
        if not t and not f:
            return []
        s2 = st.fork()
        st.pc.append(c)
        s2.pc.append(z3.Not(c))
        out = []
        for s, fn in ((st, a), (s2, b)):
            out.extend(fn(s))
        return out

    def run(self, st0, stop=None):
        """explore all paths from the states in st0; stop(st) may claim a state (returns True)"""
        work = list(st0)
        done = []
        while work:
            st = work.pop()
            try:
                if st.status is not None or not st.frames:
                    if st.status is None:
                        st.status = "ret"
                    done.append(st)
                    self.stats["paths"] += 1
                    continue
                if stop is not None and stop(st):
                    done.append(st)
                    continue
                work.extend(self.step(st))
            except PathEnd as e:
                if DEBUG_END:
                    print("PathEnd", e.why, self.where(st), st.log[-3:])
                continue
            except Infeasible:
                continue
        return done

    def step(self, st):
        """run st until it forks or ends"""
        while True:
            self.steps += 1
            self.stats["instrs"] += 1
            if self.steps > self.max_steps or (self.deadline and time.time() > self.deadline):
                raise Unsupported("verification budget exceeded")
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.pc]
            op = ins.op
            V = lambda t, v: self.val(fr, t, v)
            if op == "alloca":
                n = 1
                oid = self.new_obj(st, self.m.size(ins.ty))
                fr.allocs.append(oid)
                fr.regs[ins.res] = Ptr(oid)
            elif op == "load":
                r = self.env.load_fork(self, st, V(PTR, ins.a[0]), ins.ty, ins.a[1])
                if r is not None:
                    fr.regs[ins.res] = r
                else:
                    fr.regs[ins.res] = self.load(st, V(PTR, ins.a[0]), ins.ty, ins.a[1])
            elif op == "store":
                self.store(st, V(PTR, ins.a[1]), ins.ty, V(ins.ty, ins.a[0]), ins.a[2])
            elif op == "getelementptr":
                fr.regs[ins.res] = self.gep(st, ins.ty, V(PTR, ins.a[0]), [(t, V(t, v)) for t, v in ins.a[1]])
            elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
                fr.regs[ins.res] = self.binop(st, op, ins.ty.a, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]))
            elif op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp"):
                st.taint = True
                fr.regs[ins.res] = self.sym("fc", "bool") if op == "fcmp" else Opaque("fp")
            elif op == "icmp":
                ty = ins.ty
                fr.regs[ins.res] = self.icmp(st, ins.a[0], ty, V(ty, ins.a[1]), V(ty, ins.a[2]))
            elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
                fr.regs[ins.res] = self.cast(st, op, ins.a[0], V(ins.a[0], ins.a[1]), ins.ty)
            elif op == "extractvalue":
                v = V(ins.ty, ins.a[0])
                for i in ins.a[1]:
                    v = v[i] if isinstance(v, list) else Opaque()
                fr.regs[ins.res] = v
            elif op == "insertvalue":
                v, t2, w, idx = ins.a
                agg = V(ins.ty, v)
                if isinstance(agg, Opaque):
                    agg = [Opaque() for _ in self.m.fields(ins.ty)]

                def put(a, ix):
                    a = list(a)
                    a[ix[0]] = V(t2, w) if len(ix) == 1 else put(a[ix[0]], ix[1:])
                    return a
                fr.regs[ins.res] = put(agg, idx)
            elif op == "select":
                c = V(None, ins.a[0])
                x, y = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
                c = norm(c)
                if isinstance(c, bool):
                    fr.regs[ins.res] = x if c else y
                else:
                    def setv(v):
                        def f(s):
                            s.frames[-1].regs[ins.res] = v
                            s.frames[-1].pc += 1
                            return [s]
                        return f
                    return self.branch(st, c, setv(x), setv(y))
            elif op == "br":
                if ins.a[0] is None:
                    r = self.jump(st, ins.a[1])
                    if len(r) == 1 and r[0] is st:
                        if st.frames[-1].blk in st.frames[-1].f.loops():
                            return r
                        continue
                    return r
                c = V(None, ins.a[0])
                ln = self.m.lines.get(ins.line or "", 0)
                def to(l, tag):
                    def f(s):
                        s.trace.append("%s:%s:%s" % (short(self.dem.get(fr.f.name, fr.f.name)), ln, tag))
                        return self.jump(s, l)
                    return f
                r = self.branch(st, c, to(ins.a[1], "T"), to(ins.a[2], "F"))
                if len(r) == 1 and r[0] is st and st.frames[-1].blk not in st.frames[-1].f.loops():
                    continue
                return r
            elif op == "switch":
                v = V(ins.ty, ins.a[0])
                out = []
                rest = st
                if isint(v):
                    for cv, l in ins.a[2]:
                        if cv[1] == v:
                            return self.jump(st, l)
                    return self.jump(st, ins.a[1])
                cur = st
                neg = []
                for cv, l in ins.a[2]:
                    c = v == cv[1]
                    if self.feasible(cur, c):
                        s2 = cur.fork()
                        s2.pc.append(c)
                        out.extend(self.jump(s2, l))
                    cur.pc.append(z3.Not(c))
                if self.feasible(cur):
                    out.extend(self.jump(cur, ins.a[1]))
                return out
            elif op == "ret":
                v = None if ins.a is None else V(ins.ty, ins.a)
                fr = self.leave_frame(st)
                if fr.ctx:
                    return fr.ctx(self, st, v)
                return self.ret_to(st, v)
            elif op in ("call", "invoke"):
                return self.do_call(st, fr, ins)
            elif op == "landingpad":
                fr.regs[ins.res] = self.landing(st, ins)
            elif op == "resume":
                self.leave_frame(st)
                return self.throw(st, st.exc)
            elif op == "unreachable":
                raise PathEnd("unreachable")
            elif op == "fence":
                self.env.fence(st, ins.a)
            elif op == "atomicrmw":
                o, p, v, order = ins.a
                r = self.env.rmw(st, o, V(PTR, p), ins.ty, V(ins.ty, v), order)
                fr.regs[ins.res] = r
            elif op == "cmpxchg":
                p, c, n = ins.a
                r = self.env.cas(st, V(PTR, p), ins.ty, V(ins.ty, c), V(ins.ty, n))
                fr.regs[ins.res] = r
            elif op == "phi":
                raise Unsupported("phi")
            else:
                raise Unsupported(op)
            fr.pc += 1

    def landing(self, st, ins):
        cleanup, clauses = ins.a
        selv, alts = 0, []
        for k, v in clauses:
            if k == "catch":
                if v[0] == "null":
                    selv = 10 ** 6
                    break
                nm = v[1] if v[0] == "glob" else None
                if nm is None:
                    raise Unsupported("catch clause")
                c = self.env.exc_matches(st, st.exc, nm)
                if c is True:
                    selv = -self.gid(nm) + 10 ** 6
                    break
                if c is not False:
                    alts.append((c, -self.gid(nm) + 10 ** 6))
            else:
                raise Unsupported("filter clause")
        for c, v in reversed(alts):
            selv = z3.If(c, I(v), I(selv))
        return [Ptr(st.exc.oid), selv]

    def do_call(self, st, fr, ins):
        a = ins.a
        cal = a["callee"]
        args = [self.val(fr, t, v) for t, v, _ in a["args"]]
        if cal[0] == "glob":
            nm = cal[1]
            g = self.m.globals.get(nm)
            if g and g[0] == "alias":
                nm = g[2][1]
            return self.call(st, nm, args, ins)
        fp = self.val(fr, PTR, cal)
        return self.call_ptr(st, fp, args, ins)

    def call_ptr(self, st, fp, args, ins):
        if isinstance(fp, PInt):
            fp = fp.p
        fp = self.env.canon(st, fp)
        if isinstance(fp, Ptr) and isint(fp.oid) and fp.oid < 0 and fp.off == 0:
            nm = self.idname[fp.oid]
            g = self.m.globals.get(nm)
            if g and g[0] == "alias":
                nm = g[2][1]
            return self.call(st, nm, args, ins)
        r = self.env.call_indirect(st, fp, args, ins)
        if r is NotImplemented:
            raise Unsupported("indirect call through %r" % (fp,))
        return r

    # ------------------------------------------------------------ loops
    def at_header(self, st):
        fr = st.frames[-1]
        h = fr.blk
        rec = fr.loops.get(h)
        depth = len(st.frames)
        if self.unroll is not None:
            n = (rec or 0) + 1
            fr.loops[h] = n
            if n > self.unroll + 1:
                raise PathEnd("unroll")
            return [st]
        if rec is not None:
            rec.back(self, st)
            raise PathEnd("backedge")
        rec = LoopRec(self, st, h, depth)
        s2 = rec.summarize()
        if s2 is None:
            return []
        return [s2]


def short(n):
    n = re.sub(r"<[^<>]*>", "", n)
    for _ in range(8):
        n2 = re.sub(r"<[^<>]*>", "", n)
        if n2 == n:
            break
        n = n2
    n = re.sub(r"\(.*", "", n)
    return n.split(" ")[-1]


OPS = ["()", "<=>", "<<=", ">>=", "<<", ">>", "<=", ">=", "->*", "->", "<", ">"]


def qname(n):
    """the qualified name of a demangled function, without template arguments, parameters and return type"""
    for k, o in enumerate(OPS):
        n = re.sub(r"\boperator" + re.escape(o), "operator" + chr(0xE000 + k), n)
    n = n.replace("(anonymous namespace)::", "")
    while True:
        n2 = re.sub(r"<[^<>]*>", "", n)
        if n2 == n:
            break
        n = n2
    while n.startswith("decltype"):
        d = 0
        for i, c in enumerate(n):
            d += (c == "(") - (c == ")")
            if c == ")" and d == 0:
                break
        n = n[i + 1:].strip()
    cut = len(n)
    for i, c in enumerate(n):
        if c == "(" and n[:i].strip():
            cut = i
            break
    n = n[:cut]
    m = re.search(r"(?:\S*::)?operator (?:const )?\S.*$", n)
    n = m.group(0).replace("operator ", "operator\x02").replace(" ", "\x02") if m else n
    n = n.split(" ")[-1].replace("\x02", " ")
    for k, o in enumerate(OPS):
        n = n.replace(chr(0xE000 + k), o)
    return n


class LoopRec:
    """One loop entered in one frame: discovers what the loop modifies, infers an inductive invariant from
    the environment's candidate templates, and hands back the arbitrary-iteration state."""

    def __init__(self, eng, st, h, depth):
        self.eng, self.h, self.depth = eng, h, depth
        self.entry = st
        self.body = st.frames[-1].f.loops()[h]
        self.invs = []
        self.final = False

    def _iterate(self, st):
        """execute one arbitrary iteration from header state st, returns states at the back edge"""
        eng = self.eng
        depth, h, body = self.depth, self.h, self.body
        backs = []
        class Stop(Exception):
            pass
        rec = self

        class Tmp:
            def back(self2, e, s):
                backs.append(s)
        st.frames[-1].loops[h] = Tmp()
        def stop(s):
            if len(s.frames) < depth:
                return True
            if len(s.frames) == depth and s.frames[-1].blk not in body:
                return True
            return False
        eng.quiet += 1
        try:
            eng.run([st], stop)
        finally:
            eng.quiet -= 1
        return backs

    def summarize(self):
        eng, env = self.eng, self.eng.env
        entry = self.entry
        mod = {}
        for rnd in range(12):
            hst = entry.fork()
            self.havoc(hst, mod)
            env.assume_loop_base(hst)
            backs = self._iterate(hst.fork())
            new = self.diff(hst, backs, mod)
            if not new:
                break
            mod.update(new)
        else:
            raise Unsupported("loop modification set does not stabilise")
        # arbitrary header state
        hst = entry.fork()
        terms = self.havoc(hst, mod)
        env.assume_loop_base(hst)
        cands = env.candidates(eng, entry, hst, mod, terms)
        # filter at entry
        sub = terms["sub"]
        live = []
        for c in cands:
            g = env.inst(entry, c, terms["entry"])
            ok, _ = eng.prove(entry, g, timeout=CAND_MS)
            if ok is True:
                live.append(c)
        rounds = 0
        while True:
            rounds += 1
            s = hst.fork()
            for c in live:
                s.assume(env.inst(s, c, terms["head"]))
            if not eng.feasible(s):
                break
            backs = self._iterate(s.fork())
            drop = set()
            for b in backs:
                tm = self.terms_of(b, mod, terms)
                for i, c in enumerate(live):
                    if i in drop:
                        continue
                    ok, _ = eng.prove(b, env.inst(b, c, tm), timeout=CAND_MS)
                    if ok is not True:
                        drop.add(i)
            if not drop:
                break
            live = [c for i, c in enumerate(live) if i not in drop]
            if rounds > 25:
                raise Unsupported("loop invariant inference")
        self.invs = live
        self.terms = terms
        self.mod = mod
        for c in live:
            hst.assume(env.inst(hst, c, terms["head"]))
        hst.frames[-1].loops[self.h] = self
        hst.trace.append("loop@%s" % self.h)
        hst.log.append(("loop", [str(c) for c in live]))
        hst.taint = hst.taint  # obligations after a loop are flagged through loop_tainted
        hst.g["in_loops"] = hst.g.get("in_loops", 0) + 1
        eng.notes.add("loop in %s: %d invariant conjuncts inferred and proved inductive" % (short(eng.dem.get(entry.frames[-1].f.name, "?")), len(live)))
        return hst

    def back(self, eng, st):
        """main exploration reached the back edge again: re-check that the invariant is preserved"""
        tm = self.terms_of(st, self.mod, self.terms)
        for c in self.invs:
            eng.oblige(st, "loop invariant preserved: " + c.name, eng.env.inst(st, c, tm), eng.env.LOOP)
        eng.env.loop_back(st, self)

    # what changed between header state and back-edge states?
    def diff(self, hst, backs, mod):
        eng, env = self.eng, self.eng.env
        new = {}
        base = hst
        live_oids = set(hst.mem)
        for b in backs:
            for o in live_oids:
                if o not in b.mem:
                    new[("gone", o)] = True
                    continue
                if b.mem[o] != hst.mem[o] or b.zero.get(o) != hst.zero.get(o):
                    keys = set(b.mem[o]) | set(hst.mem[o])
                    for k in keys:
                        x, y = b.mem[o].get(k), hst.mem[o].get(k)
                        if not same(x, y):
                            # temporaries: dead at the header if never read before written; havoc is always sound
                            if ("cell", o, k) not in mod:
                                sz = (x or y)[0]
                                new[("cell", o, k)] = (sz, kindof(x, y))
            fr, fb = hst.frames[self.depth - 1], b.frames[self.depth - 1]
            for r, v in fb.regs.items():
                if r in fr.regs and not same((0, v), (0, fr.regs[r])):
                    if ("reg", r) not in mod:
                        new[("reg", r)] = (0, kindof((0, v), (0, fr.regs[r])))
            for k in env.diff(hst, b, mod):
                if k not in mod:
                    new[k] = env.modkind(k)
        if any(k[0] == "gone" for k in new):
            raise Unsupported("loop frees outer object")
        return new

    def havoc(self, st, mod):
        eng, env = self.eng, self.eng.env
        terms = {"head": {}, "entry": {}, "sub": {}}
        for k, info in mod.items():
            if k[0] == "cell":
                _, o, off = k
                size, kind = info
                old = st.mem[o].get(off)
                v, t = self.fresh_like(st, old, size, kind, k)
                eng.kill(st, o, off, off + size)
                st.mem[o][off] = (size, v)
                if t is not None:
                    terms["head"][k] = t
                    terms["entry"][k] = self.term_of(old[1] if old else None, kind)
            elif k[0] == "reg":
                old = st.frames[-1].regs.get(k[1])
                v, t = self.fresh_like(st, (0, old), 8, info[1], k)
                st.frames[-1].regs[k[1]] = v
                if t is not None:
                    terms["head"][k] = t
                    terms["entry"][k] = self.term_of(old, info[1])
            else:
                env.havoc(st, k, info, terms)
        terms["mod"] = mod
        return terms

    def fresh_like(self, st, old, size, kind, k):
        eng = self.eng
        ov = old[1] if old else None
        if kind == "int":
            x = eng.sym("c%s" % (k[-1],), "int")
            st.pc.append(z3.And(x >= 0, x < W.get(size * 8, W[64])))
            return x, ("int", x)
        if kind == "bool":
            x = eng.sym("b%s" % (k[-1],), "bool")
            return (x if k[0] == "reg" else z3.If(x, z3.IntVal(1), z3.IntVal(0))), ("bool", x)
        if isinstance(kind, tuple) and kind[0] == "ptr":
            x = eng.sym("i%s" % (k[-1],), "int")
            return Ptr(kind[1], kind[2], x, kind[3]), ("int", x)
        return Opaque("h"), None

    def term_of(self, v, kind):
        if v is None or isinstance(v, Opaque):
            # indeterminate: any value
            if kind in ("int", "bool"):
                return (kind, self.eng.sym("undef", kind))
            return None
        if isinstance(v, Ptr):
            return ("int", v.idx if v.idx is not None else 0)
        if kind == "bool":
            x = self.eng.as01(v) if not isinstance(v, (bool, z3.BoolRef)) else v
            return ("bool", x)
        if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
            return ("int", v)
        return None

    def terms_of(self, st, mod, terms):
        out = {}
        for k, t in terms["head"].items():
            if k[0] == "cell":
                c = st.mem[k[1]].get(k[2])
                out[k] = self.term_of(c[1] if c else None, mod[k][1])
            elif k[0] == "reg":
                out[k] = self.term_of(st.frames[self.depth - 1].regs.get(k[1]), mod[k][1])
            else:
                out[k] = self.eng.env.term_of(st, k)
        return out


def same(x, y):
    if x is None or y is None:
        return x is y
    a, b = x[1], y[1]
    if x[0] != y[0]:
        return False
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same((0, a.oid), (0, b.oid)) and a.off == b.off and same((0, a.idx), (0, b.idx))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return False
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same((0, a.p), (0, b.p))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same((0, p), (0, q)) for p, q in zip(a, b))
    return type(a) == type(b) and a == b


def kindof(x, y):
    """how a loop-modified cell is havocked"""
    vs = [v[1] for v in (x, y) if v is not None]
    vs = [v for v in vs if not isinstance(v, Opaque)] or vs
    if any(isinstance(v, list) for v in vs):
        return "opaque"
    if len(vs) == 2 or len(vs) == 1:
        if all(isinstance(v, Ptr) for v in vs):
            p = vs[0]
            if all(isint(q.oid) and q.oid == p.oid and q.off == p.off and q.idx is not None for q in vs):
                return ("ptr", p.oid, p.off, p.cls)
            return "opaque"
        if all(isinstance(v, (bool, z3.BoolRef)) for v in vs):
            return "bool"

        def is01(v):
            return (isint(v) and v in (0, 1)) or (isz(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and norm(v.arg(1)) in (0, 1) and norm(v.arg(2)) in (0, 1))
        sz = (x or y)[0]
        if sz == 1 and all(is01(v) for v in vs):
            return "bool"
        if all(isint(v) or isinstance(v, z3.ArithRef) for v in vs):
            return "int"
    return "opaque"
