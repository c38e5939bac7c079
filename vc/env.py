"""Environment of the verification: the assumed contracts of the C++ standard library and of user code,
the thread-modular (monitor) model of a signal's shared state, ownership ledger and ghost state.

Every function in MODELS is an *assumed* contract (listed in the evidence as trusted); everything else
that is reachable from a verified function is interpreted from /repo's own code (inlined) or replaced by a
contract that is itself verified in another unit."""
import re, z3, itertools
from ir import Unsupported, PTR, VOID, Ty, ity
from engine import *

SLOT_LO, SLOT_HI = 1000, 100000
IMPL_LO, IMPL_HI = 100000, 1000000 - 1


class Vec:
    """a std::vector<std::shared_ptr<slot>>: contents P/C (object / control block ids), length, ghost positions"""
    __slots__ = ("P", "C", "len", "buf", "fresh", "pos", "uc", "fence", "home", "epoch")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def but(self, **k):
        v = Vec(**{a: getattr(self, a) for a in self.__slots__})
        for a, x in k.items():
            setattr(v, a, x)
        return v


class SymVT:
    def __init__(self, obj):
        self.obj = obj


class Cand:
    """candidate loop-invariant conjunct: f(st, terms) -> formula"""
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __str__(self):
        return self.name


MODELS = []


def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return d


def forall(k, rng, body, pats=None):
    b = z3.Implies(rng, body) if rng is not None else body
    b = norm(b)
    if isinstance(b, bool):
        return b
    return quant([k], b, pats)


def patok(t):
    """may t be used as an instantiation pattern? (no if-then-else or connective inside)"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
                return False
            todo.extend(x.children())
    return True


def quant(vs, b, pats=None):
    if pats and all(patok(t) for t in pats):
        return z3.ForAll(vs, b, patterns=pats)
    return z3.ForAll(vs, b)


class Env:
    SAFE = ("*",)
    TERM = ("*",)
    LOOP = ("*",)

    def __init__(self, mod, layout):
        self.m = mod
        self.L = layout            # offsets: slot_impl, slot_sig, idx, conn, blk, sig_list
        self.eng = None
        self.unit = None
        self.cache = {}
        self.trusted = set()
        self.user_seen = set()
        self.vt_methods = {}
        self.contracts_used = set()
        self.oom = False

    # ------------------------------------------------------------ state set-up
    def init(self, st):
        e = self.eng
        st.g.update(H={}, vec={}, own=[], held=[], val={}, rc={}, pub={}, cs=[], sigs={}, excl=set(), roots={}, em={}, disp={}, dead=[], alive=[], obs=[], trans=[], destroyed=[], nops=[], gone=[])
        H = st.g["H"]
        H["impl"] = e.sym("impl", "arr")
        H["sig"] = e.sym("sigof", "arr")
        H["idx"] = e.sym("idx", "arr")
        H["conn"] = e.sym("conn", "barr")
        H["blk"] = e.sym("blk", "barr")

    def slot_root(self, st, name):
        """an arbitrary existing slot (object id), owned by a control block"""
        s = self.eng.sym(name)
        st.pc.append(z3.And(s > SLOT_LO, s < SLOT_HI))
        i = z3.Select(st.g["H"]["impl"], s)
        st.pc.append(z3.And(i > IMPL_LO, i < IMPL_HI))
        return s

    def new_signal(self, st, size, vptr=None):
        e = self.eng
        oid = e.new_obj(st, size)
        st.g["sigs"][oid] = {"list": None}
        if vptr:
            e.raw_store(st, Ptr(oid), 8, vptr)
        return oid

    # ------------------------------------------------------------ canonical pointers
    def canon(self, st, p):
        if isinstance(p, PInt):
            p = p.p
        if isinstance(p, Ptr) and isz(p.oid):
            o = norm(z3.simplify(p.oid)) if not z3.is_const(p.oid) else p.oid
            if isint(o):
                return Ptr(o, p.off, p.idx, p.cls)
            if p.cls == "sigb":
                for s in st.g["sigs"]:
                    if st.g.get("sigknown", {}).get((p.oid.get_id(), s)) or self.eng.prove(st, p.oid == s, timeout=3000)[0] is True:
                        return Ptr(s, p.off, p.idx, "sigb")
        return p

    def known_small(self, x):
        return False

    def stride(self, p):
        return 16

    def sidx(self, n):
        if isz(n):
            return n
        raise Unsupported("index %r" % (n,))

    # ------------------------------------------------------------ ownership ledger
    def own_expr(self, st, oid):
        n = 0
        terms = []
        for o, d in st.g["own"]:
            c = ieq(o, oid)
            if c is True:
                n += d
            elif c is not False:
                terms.append(z3.If(c, z3.IntVal(d), z3.IntVal(0)))
        if not terms:
            return n
        return z3.simplify(z3.Sum(terms) + n)

    def own_add(self, st, oid, d):
        own = st.g["own"]
        for i, (o, n) in enumerate(own):
            if ieq(o, oid) is True:
                own[i] = (o, n + d)
                if n + d == 0:
                    del own[i]
                return
        own.append((oid, d))

    def released(self, st):
        """objects created here, then shared, whose reference this thread gave up: others may keep them alive"""
        return {d[0] for d in st.g["destroyed"] if isint(d[0]) and d[0] not in st.g["rc"]}

    def local_loc(self, st, p):
        """is the memory location private to this thread?"""
        if p.idx is not None:
            return False
        if isz(p.oid):
            return False
        if p.oid in st.g["sigs"]:
            return False
        if p.oid in st.g["pub"]:
            return False
        return True

    def vec_by_buf(self, st, buf):
        for k, v in st.g["vec"].items():
            if v.buf == buf:
                return k, v
        return None, None

    def vec_accessible(self, st, key):
        v = st.g["vec"][key]
        if v.fresh:
            return True
        if self.is_list_of(st, key) and self.lock_or_excl(st, self.is_list_of(st, key)):
            return True
        o = self.own_expr(st, key[0])
        if isint(o):
            return o >= 1
        return o >= 1

    def is_list_of(self, st, key):
        for s, info in st.g["sigs"].items():
            c = self.list_cell(st, s)
            if c is not None and isinstance(c, Ptr) and ieq(c.oid, key[0]) is True and key[1] == 0:
                return s
        return None

    def list_cell(self, st, s):
        c = st.mem.get(s, {}).get(self.L["sig_list"])
        return c[1] if c else None

    def lock_or_excl(self, st, s):
        return s in st.g["excl"] or any(h[0] == s for h in st.g["held"])

    def any_held(self, st):
        return bool(st.g["held"])

    def member(self, st, key, s):
        v = st.g["vec"][key]
        # syntactic: s == P[k]
        p = sel(v.pos, s)
        return band(I(p) >= 0, I(p) < I(v.len), ieq(sel(v.P, p), s))

    def evidence(self, st, s, exclude=None):
        """formula: some reference we know of keeps slot s alive"""
        ev = []
        o = self.own_expr(st, s)
        ev.append(o >= 1 if isint(o) else o >= 1)
        for a in st.g["alive"]:
            ev.append(ieq(a, s))
        for key, v in st.g["vec"].items():
            if key == exclude:
                continue
            acc = self.vec_accessible(st, key)
            if acc is False:
                continue
            ev.append(band(acc, self.member(st, key, s)))
        return bor(*ev)

    def check_alive(self, st, p):
        """object access obligations for slots / slot implementations reached through shared pointers"""
        oid = p.oid
        if p.cls == "impl" and isz(oid) and z3.is_app(oid) and oid.decl().kind() == z3.Z3_OP_SELECT:
            oid = oid.arg(1)
        elif p.cls == "impl":
            return
        if isint(oid) and oid in st.g["rc"]:
            return
        if isz(oid) and z3.is_app(oid) and oid.decl().kind() == z3.Z3_OP_SELECT:
            ok = []
            k = oid.arg(1)
            for key, v in st.g["vec"].items():
                if oid.arg(0).eq(v.P):
                    acc = self.vec_accessible(st, key)
                    ok.append(band(acc, k >= 0, k < I(v.len)))
            if ok:
                if self.eng.prove(st, bor(*ok))[0] is not True:
                    ok.append(self.evidence(st, oid))
                self.eng.oblige(st, "slot accessed through a live element of a list this thread may read", bor(*ok), ("*",))
                return
        self.eng.oblige(st, "slot is kept alive while it is accessed", self.evidence(st, oid), ("*",))

    # ------------------------------------------------------------ memory hooks
    def mem_load(self, st, p, ty, size, order):
        e = self.eng
        if isinstance(p.oid, SymVT):
            return Ptr(("virt", p.oid, p.off // 8))
        if isint(p.oid) and p.oid == st.g.get("watched"):
            e.oblige(st, "the tracked object is kept alive during the call", I(self.own_expr(st, p.oid)) >= 1, ("C12",))
        if p.idx is not None:
            key, v = self.vec_by_buf(st, p.oid)
            if v is None:
                e.oblige(st, "no access through an invalidated iterator or reference", False, ("*",))
            self.vec_read_ok(st, key)
            e.oblige(st, "list index within bounds", band(I(p.idx) >= 0, I(p.idx) < I(v.len)), ("*",))
            if p.off == 0:
                return Ptr(sel(v.P, p.idx), 0, None, "slot")
            if p.off == 8:
                return Ptr(sel(v.C, p.idx), CTRL, None, "slot")
            raise Unsupported("element offset")
        cls = p.cls if isz(p.oid) else st.g["pub"].get(p.oid)
        if cls and p.off != CTRL:
            r = self.obj_load(st, Ptr(p.oid, p.off, None, cls), ty, size, order)
            if r is not NotImplemented:
                return r
        if isz(p.oid):
            if p.cls == "sigb":
                if not e.oblige(st, "a signal is only accessed through a slot while it exists (the slot is still connected)", bor(*[ieq(p.oid, s) for s in st.g["sigs"]]), ("C19", "C18", "C05")):
                    raise PathEnd("obl")
            raise Unsupported("load from symbolic %r" % (p,))
        if p.oid in st.g["sigs"]:
            self.sig_access(st, p, order, False)
            if order is not None:
                c = st.mem[p.oid].get(p.off)
                if c is None:
                    # class invariant: a signal's own flags are false (established by the constructors)
                    st.mem[p.oid][p.off] = (size, 0)
                return st.mem[p.oid][p.off][1]
        if p.oid in st.g["roots"]:
            c = st.mem[p.oid].get(p.off)
            if c is None:
                v = st.g["roots"][p.oid](self, st, p, ty, size)
                st.mem[p.oid][p.off] = (size, v)
                return v
        return NotImplemented

    def sig_access(self, st, p, order, write):
        e = self.eng
        if p.off < 8 or order is not None:
            return
        if not self.lock_or_excl(st, p.oid):
            e.oblige(st, "signal state is only accessed under its lock", False, ("C09", "C08"))

    def obj_load(self, st, p, ty, size, order):
        L, H = self.L, st.g["H"]
        e = self.eng
        if p.cls == "slot":
            self.check_alive(st, p)
            if p.off == 0:
                n, o = L["slot_vt"][e.unit_obj.X]
                return Ptr(e.gid(n), o)
            if p.off == L["slot_impl"]:
                r = sel(H["impl"], p.oid)
                return Ptr(r, 0, None, "impl")
            if p.off == L["slot_sig"]:
                return Ptr(sel(H["sig"], p.oid), 0, None, "sigb")
            raise Unsupported("slot field at offset %d" % p.off)
        if p.cls == "impl":
            self.check_alive(st, p)
            if p.off == 0:
                if isint(p.oid) and p.oid in st.mem and 0 in st.mem[p.oid] and not st.g.get("absimpl", {}).get(p.oid):
                    return NotImplemented
                return Ptr(SymVT(p))
            if p.off == L["idx"]:
                self.idx_access(st, p)
                r = sel(H["idx"], p.oid)
                if isz(r):
                    st.pc.append(z3.And(r >= 0, r < W[64]))
                return r
            if p.off in (L["conn"], L["blk"]):
                if order is None and not e.quiet:
                    e.oblige(st, "slot flags are accessed atomically", False, ("C09",))
                return self.flag_load(st, p, "conn" if p.off == L["conn"] else "blk")
            if isint(p.oid):
                return NotImplemented
            raise Unsupported("slot implementation field at offset %d" % p.off)
        return NotImplemented

    def idx_access(self, st, p):
        # a slot's index is protected by the lock of the signal that owns it
        ok = self.any_held(st) or bool(st.g["excl"])
        if not ok:
            self.eng.oblige(st, "slot index is only accessed under the signal's lock", False, ("C09", "C05"))

    def flag_load(self, st, p, f):
        """atomic load of a flag that other threads may change: connected only ever goes from true to false"""
        e, H = self.eng, st.g["H"]
        b = e.sym("o" + f, "bool")
        if f == "conn":
            ub = sel(H["conn"], p.oid)
            st.assume(z3.Implies(b, B(ub)))
            H["conn"] = z3.Store(H["conn"], I(p.oid), b)
        self.observe(st, f, p.oid, b)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def observe(self, st, what, i, b):
        st.g["obs"].append((what, i, b))
        em = st.g["em"]
        if em:
            i = I(i)
            bad = b if what == "blk" else z3.Not(b)
            em["NR"] = z3.Store(em["NR"], i, z3.Or(z3.Select(em["NR"], i), bad))
            k = "RB" if what == "blk" else "RC"
            em[k] = z3.Store(em[k], i, z3.Not(b) if what == "blk" else b)

    def mem_store(self, st, p, ty, size, v, order):
        e = self.eng
        if p.idx is not None:
            key, vec = self.vec_by_buf(st, p.oid)
            if vec is None:
                e.oblige(st, "no access through an invalidated iterator or reference", False, ("*",))
            self.vec_write_ok(st, key)
            vec = st.g["vec"][key]
            e.oblige(st, "list index within bounds", band(I(p.idx) >= 0, I(p.idx) < I(vec.len)), ("*",))
            if not isinstance(v, Ptr):
                raise Unsupported("element store %r" % (v,))
            if p.off == 0:
                self.publish_ptr(st, v)
                pos = vec.pos if v.null else z3.Store(vec.pos, I(v.oid), I(p.idx))
                st.g["vec"][key] = vec.but(P=z3.Store(vec.P, I(p.idx), I(v.oid)), pos=pos)
            elif p.off == 8:
                st.g["vec"][key] = vec.but(C=z3.Store(vec.C, I(p.idx), I(v.oid)))
            else:
                raise Unsupported("element offset")
            return True
        cls = p.cls if isz(p.oid) else st.g["pub"].get(p.oid)
        if cls and p.off != CTRL:
            return self.obj_store(st, Ptr(p.oid, p.off, None, cls), ty, size, v, order)
        if isz(p.oid):
            raise Unsupported("store to symbolic %r" % (p,))
        if p.oid in st.g["sigs"]:
            self.sig_access(st, p, order, True)
        return NotImplemented

    def obj_store(self, st, p, ty, size, v, order):
        e, L, H = self.eng, self.L, st.g["H"]
        if p.cls == "slot":
            self.check_alive(st, p)
            if p.off == L["slot_sig"]:
                if not (self.any_held(st) or st.g["excl"]):
                    e.oblige(st, "a connected slot's owner is only changed under the lock", False, ("C09", "C19"))
                H["sig"] = z3.Store(H["sig"], I(p.oid), I(v.oid))
                return True
            if p.off == L["slot_impl"]:
                e.oblige(st, "the implementation of a connected slot is never replaced", False, ("*",))
            raise Unsupported("store to slot field %d" % p.off)
        if p.cls == "impl":
            self.check_alive(st, p)
            if p.off == L["idx"]:
                self.idx_access(st, p)
                H["idx"] = z3.Store(H["idx"], I(p.oid), I(v))
                return True
            if p.off in (L["conn"], L["blk"]):
                if order is None and not e.quiet:
                    e.oblige(st, "slot flags are accessed atomically", False, ("C09",))
                f = "conn" if p.off == L["conn"] else "blk"
                b = e.as01(v)
                if b is None:
                    raise Unsupported("flag store %r" % (v,))
                self.flag_store(st, p.oid, f, b)
                return True
            if isint(p.oid):
                return NotImplemented
            raise Unsupported("store to slot implementation field %d" % p.off)
        return NotImplemented

    def flag_store(self, st, oid, f, b):
        H = st.g["H"]
        if f == "conn" and b is not False:
            self.eng.oblige(st, "a disconnected slot is never connected again", bnot(b) if b is not True else False, ("C05", "C18", "C01", "C06", "C19"))
        H[f] = z3.Store(H[f], I(oid), B(b))
        st.log.append(("flagstore", f, oid, b))

    def load_fork(self, eng, st, p, ty, order):
        return None

    def global_load(self, st, name, off, ty):
        if name == "__libc_single_threaded":
            return 0
        return NotImplemented

    def undef_load(self, st, p, ty, size):
        t = self.m.resolve(ty)
        if p.oid in st.g["sigs"]:
            raise Unsupported("signal field at offset %d" % p.off)
        self.eng.notes.add("undef")
        return Opaque("uninit")

    def opaque_cmp(self, st, a, b):
        st.taint = True
        return self.eng.sym("ocmp", "bool")

    def dead_alloca(self, st, o):
        for k in [k for k in st.g["val"] if k[0] == o]:
            if self.eng.unit_leaks:
                self.eng.oblige(st, "no object leaks: every constructed object is destroyed", False, ("*",))
            del st.g["val"][k]
        for k in [k for k in st.g["vec"] if k[0] == o]:
            del st.g["vec"][k]

    def fence(self, st, order):
        if order in ("acquire", "acq_rel", "seq_cst"):
            for k, v in list(st.g["vec"].items()):
                if v.uc is not None:
                    st.g["vec"][k] = v.but(fence=True)

    # ------------------------------------------------------------ atomics
    def rmw(self, st, op, p, ty, v, order):
        p = self.canon(st, p)
        cls = p.cls if isz(p.oid) else st.g["pub"].get(p.oid)
        L, H, e = self.L, st.g["H"], self.eng
        if cls == "impl" and p.off in (L["conn"], L["blk"]):
            self.check_alive(st, Ptr(p.oid, p.off, None, "impl"))
            f = "conn" if p.off == L["conn"] else "blk"
            if op != "xchg":
                raise Unsupported("atomicrmw %s on flag" % op)
            old = e.sym("x" + f, "bool")
            if f == "conn":
                st.assume(z3.Implies(old, B(sel(H["conn"], p.oid))))
            nb = e.as01(v)
            if nb is None:
                raise Unsupported("xchg value")
            self.observe(st, f, p.oid, old)
            H[f] = z3.Store(H[f], I(p.oid), B(nb))
            st.log.append(("xchg", f, p.oid, old, nb))
            if f == "conn" and nb is False:
                st.g["trans"].append((p.oid, old))
            return z3.If(old, z3.IntVal(1), z3.IntVal(0))
        old = e.load(st, p, ty, order)
        if op == "xchg":
            n = v
        elif op in ("add", "sub", "and", "or", "xor"):
            n = e.binop(st, op, ty.a, old, v)
        else:
            raise Unsupported("atomicrmw " + op)
        e.store(st, p, ty, n, order)
        if isint(p.oid) and (p.oid, p.off) in st.g.get("plainconn", {}):
            pass
        st.log.append(("rmw", p.oid, p.off, old, n))
        return old

    def cas(self, st, p, ty, c, n):
        p = self.canon(st, p)
        cls = p.cls if isz(p.oid) else st.g["pub"].get(p.oid)
        L, H, e = self.L, st.g["H"], self.eng
        if cls == "impl" and p.off in (L["conn"], L["blk"]):
            self.check_alive(st, Ptr(p.oid, p.off, None, "impl"))
            f = "conn" if p.off == L["conn"] else "blk"
            cb, nb = e.as01(c), e.as01(n)
            if not isinstance(cb, bool) or not isinstance(nb, bool):
                raise Unsupported("cas on flag")
            old = e.sym("k" + f, "bool")
            if f == "conn":
                st.assume(z3.Implies(old, B(sel(H["conn"], p.oid))))
            succ = old if cb else z3.Not(old)
            self.observe(st, f, p.oid, old)
            H[f] = z3.Store(H[f], I(p.oid), z3.If(succ, z3.BoolVal(nb), old))
            if f == "conn" and cb and not nb:
                st.g["trans"].append((p.oid, old))
            return [z3.If(old, z3.IntVal(1), z3.IntVal(0)), succ]
        old = e.load(st, p, ty, "seq_cst")
        eq = e.icmp(st, "eq", ty, old, c)
        if isinstance(norm(eq), bool):
            if norm(eq):
                e.store(st, p, ty, n, "seq_cst")
            return [old, norm(eq)]
        if not (isz(old) or isint(old)) or not (isz(n) or isint(n)) or isz(old) and z3.is_bool(old):
            raise Unsupported("symbolic cas")
        e.store(st, p, ty, z3.If(B(eq), I(n), I(old)), "seq_cst")
        return [old, eq]

    # ------------------------------------------------------------ vectors
    def vec_read_ok(self, st, key):
        v = st.g["vec"][key]
        acc = self.vec_accessible(st, key)
        if acc is not True:
            self.eng.oblige(st, "slot list is only read under the lock, or through a snapshot this thread owns", acc, ("C09", "C08", "C01", "C07"))

    def vec_write_ok(self, st, key):
        e = self.eng
        v = st.g["vec"][key]
        if v.fresh:
            return
        s = self.is_list_of(st, key)
        if s is None:
            e.oblige(st, "only the signal's current list is modified", False, ("C08", "C09"))
        if not self.lock_or_excl(st, s):
            e.oblige(st, "slot list is only modified under the lock", False, ("C09", "C08"))
        n = v.uc
        e.oblige(st, "a list that a running emission may be reading is never modified (copy on write)",
                 False if n is None else ieq(n, 1), ("C08", "C09"))
        e.oblige(st, "modification of an unshared list is ordered after the last read of it (acquire)",
                 bool(v.fence), ("C09",))

    def new_vec(self, st, key, **k):
        e = self.eng
        d = dict(P=z3.K(z3.IntSort(), z3.IntVal(0)), C=z3.K(z3.IntSort(), z3.IntVal(0)), len=0, buf=e.fresh_oid(), fresh=True,
                 pos=e.sym("pos", "arr"), uc=None, fence=False)
        d.update(k)
        st.g["vec"][key] = Vec(**d)

    def inv_parts(self, st, s, key=None, nm="k"):
        """representation invariant of signal s over its current list"""
        H = st.g["H"]
        if key is None:
            c = self.list_cell(st, s)
            key = (c.oid, 0)
        v = st.g["vec"][key]
        k = z3.Int(nm)
        rng = z3.And(k >= 0, k < I(v.len))
        p = z3.Select(v.P, k)
        i = z3.Select(H["impl"], p)
        return [
            ("every list entry is a live slot with an implementation", forall(k, rng, z3.And(p != 0, z3.Select(v.C, k) == p, i != 0), [z3.Select(v.P, k)])),
            ("list entries are distinct", forall(k, rng, z3.Select(v.pos, p) == k, [z3.Select(v.P, k)])),
            ("every slot knows its own position", forall(k, rng, z3.Select(H["idx"], i) == k, [z3.Select(v.P, k)])),
            ("every slot belongs to this signal", forall(k, rng, z3.Select(H["sig"], p) == s, [z3.Select(v.P, k)])),
        ]

    def assume_inv(self, st, s):
        H = st.g["H"]
        c = self.list_cell(st, s)
        v = st.g["vec"][(c.oid, 0)]
        k = z3.Int("k")
        rng = z3.And(k >= 0, k < I(v.len))
        p = z3.Select(v.P, k)
        i = z3.Select(H["impl"], p)
        st.pc.append(z3.And(v.len >= 0, v.len < 2 ** 56))
        body = [z3.Select(v.C, k) == p, z3.Select(v.pos, p) == k, z3.Select(H["idx"], i) == k, z3.Select(H["sig"], p) == s,
                z3.Or(z3.And(p > SLOT_LO, p < SLOT_HI), *[p == o for o, c in st.g["pub"].items() if c == "slot" and (st.g.get("mayjoin") or ())]),
                z3.Or(z3.And(i > IMPL_LO, i < IMPL_HI))]
        # the slot an implementation belongs to: own[x] = P[idx[x]] (a definition; distinct slots have distinct implementations)
        own = self.eng.sym("own", "arr")
        st.g["implown"] = dict(st.g.get("implown") or {})
        st.g["implown"][s] = own
        body.append(z3.Select(own, i) == p)
        st.pc.append(forall(k, rng, z3.And(*body), [z3.Select(v.P, k)]))

    # ------------------------------------------------------------ locks
    def acquire(self, st, p, multi=False):
        e = self.eng
        key = (p.oid, p.off)
        if any(h == key for h in st.g["held"]):
            e.oblige(st, "a lock is never acquired while this thread holds it (self-deadlock)", False, ("*",))
            raise PathEnd("deadlock")
        if st.g["held"] and not multi:
            # two locks at a time: all at once (std::lock) or in the order of their addresses
            x, y = ADDR(I(st.g["held"][-1][0])), ADDR(I(p.oid))
            up = e.__dict__.setdefault("lockdir", {})
            if "dir" not in up:
                up["dir"] = e.prove(st, x < y)[0] is True
            e.oblige(st, "no lock is acquired while another is held, but in one fixed order (lock-order deadlock)", (x < y) if up["dir"] else (x > y), ("C07",))
        st.g["held"].append(key)
        st.log.append(("lock", key))
        if p.oid in st.g["sigs"] and p.oid not in st.g["excl"]:
            self.havoc_signal(st, p.oid)
        s = p.oid
        if s in st.g["sigs"]:
            c = self.list_cell(st, s)
            st.g["cs"].append({"sig": s, "key": (c.oid, 0) if c is not None else None, "V0": st.g["vec"].get((c.oid, 0)) if c is not None else None,
                               "idx0": st.g["H"]["idx"], "conn0": st.g["H"]["conn"], "nuser": st.g.get("nuser", 0), "H0": dict(st.g["H"]), "open": True})

    def havoc_signal(self, st, s, fresh_list=True):
        """another thread may have run any number of operations: arbitrary list satisfying the invariant"""
        e = self.eng
        vo = e.fresh_oid()
        key = (vo, 0)
        st.mem[vo] = {}
        P, C = e.sym("L", "arr"), e.sym("LC", "arr")
        ln = e.sym("len")
        st.g["vec"][key] = Vec(P=P, C=C, len=ln, buf=e.fresh_oid(), fresh=False, pos=e.sym("pos", "arr"), uc=None, fence=False)
        st.g["H"]["idx"] = e.sym("idx", "arr")
        for o, cls in st.g["pub"].items():
            pass
        # unpublished concrete implementations keep their index in their own memory
        L = self.L
        e.kill(st, s, L["sig_list"], L["sig_list"] + 16)
        st.mem[s][L["sig_list"]] = (8, Ptr(vo))
        st.mem[s][L["sig_list"] + 8] = (8, Ptr(vo, CTRL))
        self.assume_inv(st, s)
        if self.unit and hasattr(self.unit, "after_acquire"):
            self.unit.after_acquire(self, st, s, key)

    def release(self, st, p):
        e = self.eng
        key = (p.oid, p.off)
        if key not in st.g["held"]:
            e.oblige(st, "only a held lock is released", False, ("C07",))
        s = p.oid
        if s in st.g["sigs"]:
            self.check_inv(st, s, "at unlock")
            for n in reversed(range(len(st.g["cs"]))):
                if st.g["cs"][n]["sig"] == s and st.g["cs"][n]["open"]:
                    c = self.list_cell(st, s)
                    cs = st.g["cs"][n] = dict(st.g["cs"][n])
                    cs["open"] = False
                    cs["key1"] = (c.oid, 0)
                    cs["V1"] = st.g["vec"][(c.oid, 0)]
                    cs["H1"] = dict(st.g["H"])
                    cs["val1"] = dict(st.g["val"])
                    cs["trans"] = list(st.g["trans"])
                    break
        st.g["held"].remove(key)
        st.log.append(("unlock", key))
        # contents are shared again: a fresh list that was installed becomes visible to others
        if s in st.g["sigs"]:
            c = self.list_cell(st, s)
            k = (c.oid, 0)
            v = st.g["vec"][k]
            n = st.g["rc"].pop(c.oid, None)
            if v.fresh:
                st.g["vec"][k] = v.but(fresh=False, uc=None, fence=False)
                if n is not None and n > 1:
                    self.own_add(st, c.oid, n - 1)
            else:
                st.g["vec"][k] = v.but(uc=None, fence=False)

    def check_inv(self, st, s, when):
        e = self.eng
        c = self.list_cell(st, s)
        if c is None or c.null:
            e.oblige(st, "signal always has a list " + when, False, ("*",))
        key = (c.oid, 0)
        if key not in st.g["vec"]:
            raise Unsupported("signal list is not a vector")
        for nm, f in self.inv_parts(st, s, key):
            e.oblige(st, nm + " " + when, f, ("*",))

    # ------------------------------------------------------------ shared pointers
    def publish_ptr(self, st, p):
        """pointer p becomes reachable by other threads through the slot list"""
        if not isint(p.oid) or p.oid in st.g["pub"] or p.null or p.oid < FRESH0:
            return
        o = p.oid
        if o not in st.mem:
            return
        L, H, e = self.L, st.g["H"], self.eng
        st.g["pub"][o] = "slot"
        c = st.mem[o]
        im = c.get(L["slot_impl"])
        im = im[1] if im else None
        if not isinstance(im, Ptr):
            raise Unsupported("published slot without implementation")
        sg = c.get(L["slot_sig"])
        H["impl"] = z3.Store(H["impl"], o, I(im.oid))
        if sg and isinstance(sg[1], Ptr):
            H["sig"] = z3.Store(H["sig"], o, I(sg[1].oid))
        io = im.oid
        if isint(io) and io in st.mem:
            st.g["pub"][io] = "impl"
            ic = st.mem[io]
            ix, cn, bl = ic.get(L["idx"]), ic.get(L["conn"]), ic.get(L["blk"])
            H["idx"] = z3.Store(H["idx"], io, I(ix[1]) if ix and not isinstance(ix[1], Opaque) else e.sym("ix"))
            for f, x in (("conn", cn), ("blk", bl)):
                b = e.as01(x[1]) if x else None
                H[f] = z3.Store(H[f], io, B(b) if b is not None else e.sym("fl", "bool"))
        n = st.g["rc"].get(o)
        if n is not None:
            pass

    def incref(self, st, oid, loc=None):
        if isint(oid) and oid in st.g["rc"]:
            st.g["rc"][oid] += 1
        else:
            self.own_add(st, oid, 1)

    def decref(self, st, oid, cls, site, after):
        """drop one reference held by this thread; `after(st)` continues. returns states"""
        e = self.eng
        if isint(oid) and oid in st.g["rc"]:
            if isz(st.g["rc"][oid]):
                n = st.g["rc"][oid] - 1

                def last(s):
                    del s.g["rc"][oid]
                    return self.dispose(s, oid, cls, site, after)

                def more(s):
                    s.g["rc"][oid] = n
                    return after(s)
                return e.branch(st, n == 0, last, more)
            st.g["rc"][oid] -= 1
            if st.g["rc"][oid] == 0:
                del st.g["rc"][oid]
                return self.dispose(st, oid, cls, site, after)
            return after(st)
        self.own_add(st, oid, -1)
        self.maybe_last(st, oid, cls)
        return after(st)

    def maybe_last(self, st, oid, cls, exclude=None):
        """a reference to a shared object was dropped; it may have been the last one"""
        e = self.eng
        o = self.own_expr(st, oid)
        if isint(o) and o >= 1:
            return
        key = (oid, 0) if isint(oid) else None
        if self.any_held(st):
            if key in st.g["vec"]:
                # a slot list may die here: its slots must survive in another list
                v = st.g["vec"][key]
                k = z3.Int("k")
                s = z3.Select(v.P, k)
                e.oblige(st, "no slot is destroyed while the lock is held (dropping a list)",
                         forall(k, z3.And(k >= 0, k < I(v.len)), B(self.evidence(st, s, exclude=key))), ("C07",))
            else:
                e.oblige(st, "no callable is destroyed while the lock is held", self.evidence(st, oid), ("C07",))
        st.g["destroyed"].append((oid, cls, self.any_held(st)))

    def dispose(self, st, oid, cls, site, after):
        """last reference to an object created here: run its real deleter"""
        e = self.eng
        d = st.g["disp"].get(oid)
        if d is None:
            raise Unsupported("no deleter known for object %s" % oid)
        fn, ptr = d
        if fn is None:
            return after(st)
        if isinstance(fn, tuple):
            # object made by std::make_shared: destroy in place, then the storage goes
            t = fn[1]

            def freed(eng, s, v):
                s.mem.pop(oid, None)
                s.freed.add(oid)
                h = s.g.get("heap")
                if h and oid in h:
                    s.g["heap"] = {k: x for k, x in h.items() if k != oid}
                for k in [k for k in s.g["vec"] if k[0] == oid]:
                    del s.g["vec"][k]
                return after(s)
            base = t.split("<")[0].split("::")[-1]
            want = "%s::~%s()" % (t, base)
            ds = [n for n, dd in self.m.dem.items() if dd == want and "D0" not in n[-5:]]
            if not ds:
                return freed(e, st, None)
            return e.call(st, sorted(ds)[0], [ptr], site, ctx=freed)
        fake = e.new_obj(st, 64)
        e.raw_store(st, Ptr(fake, 16), 8, ptr)

        def done(eng, s, v):
            s.mem.pop(fake, None)
            return after(s)
        return e.call(st, fn, [Ptr(fake)], site, ctx=done)

    # ------------------------------------------------------------ calls
    def call_model(self, st, fname, args, site):
        key = fname
        h = self.cache.get(key, 0)
        if h == 0:
            d = self.m.dem.get(fname, fname)
            h = None
            for rx, fn in MODELS:
                mm = rx.search(d)
                if mm:
                    h = (fn, mm, d)
                    break
            self.cache[key] = h
        if self.unit is not None:
            r = self.unit.intercept(self, st, fname, args, site)
            if r is not NotImplemented:
                return r
        if h is None:
            return NotImplemented
        fn, mm, d = h
        r = fn(self, st, args, site, mm, d)
        if r is NotImplemented:
            return r
        self.trusted.add(re.sub(r"^(\S+ )?(std::\w+|__\w+|operator \w+|llvm\.\w+).*", r"\2", d)[:60] if not d.startswith("std::vector") else "std::vector members")
        return r

    def call_indirect(self, st, fp, args, site):
        if isinstance(fp, Ptr) and isinstance(fp.oid, tuple) and fp.oid[0] == "virt":
            _, vt, n = fp.oid
            name = self.vt_name(n)
            return self.unit_env_virtual(st, name, vt.obj, args, site)
        if isinstance(fp, Ptr) and isinstance(fp.oid, tuple) and fp.oid[0] == "userfn":
            return self.user_call(st, fp.oid[1], args, site)
        return NotImplemented

    def vt_name(self, n):
        return self.L["impl_methods"].get(n, "?%d" % n)

    def unit_env_virtual(self, st, name, obj, args, site):
        """interface contracts of slot implementations (verified for every implementation class)"""
        e = self.eng
        self.contracts_used.add("slot_impl::" + name)
        self.check_alive(st, obj)
        if name == "connected":
            b = e.sym("oc", "bool")
            H = st.g["H"]
            # tracked slots may also report an expired object; connectedness only ever goes from true to false
            st.assume(z3.Implies(b, B(sel(H["conn"], obj.oid))))
            self.observe(st, "conn", obj.oid, b)
            return e.ret_to(st, b)
        if name == "equals":
            other = self.canon(st, args[1])
            if hasattr(self.eng.unit_obj, "equal"):
                return self.eng.unit_obj.equal(self, st, obj.oid, other.oid)
            outs = self.maythrow(st, "compare")
            r = self.eqf(obj.oid, other.oid)
            return outs + e.ret_to(st, r)
        if name == "clone":
            n = e.new_obj(st, 64)
            H = st.g["H"]
            st.g.setdefault("absimpl", {})
            st.g["absimpl"] = dict(st.g["absimpl"])
            st.g["absimpl"][n] = True
            L = self.L
            if isint(obj.oid) and obj.oid not in st.g["pub"]:
                c, b = st.mem[obj.oid][L["conn"]][1], st.mem[obj.oid][L["blk"]][1]
            else:
                c = self.flag_load(st, obj, "conn")
                b = self.flag_load(st, obj, "blk")
            st.mem[n][L["conn"]] = (1, c)
            st.mem[n][L["blk"]] = (1, b)
            st.mem[n][L["idx"]] = (8, e.sym("ci"))
            st.mem[n][0] = (8, Ptr(SymVT(Ptr(n, 0, None, "impl"))))
            st.pc.append(self.beh(n) == self.beh(obj.oid))
            st.g["cloned"] = (n, obj.oid)
            st.g["heap"] = dict(st.g.get("heap") or {})
            st.g["heap"][n] = 64

            def undo(s):
                s.mem.pop(n, None)
                s.g["heap"].pop(n, None)
            outs = self.maythrow(st, "copy", undo)
            return outs + e.ret_to(st, Ptr(n))
        if name.startswith("~"):
            if self.any_held(st):
                e.oblige(st, "no callable is destroyed while the lock is held", False, ("C07",))
            st.g["destroyed"].append((obj.oid, "impl", self.any_held(st)))
            if isint(obj.oid) and obj.oid in st.freed:
                e.oblige(st, "no callable is destroyed twice", False, ("*",))
            if name == "~D0" and isint(obj.oid):
                st.mem.pop(obj.oid, None)
                st.freed.add(obj.oid)
                st.g["heap"] = dict(st.g.get("heap") or {})
                st.g["heap"].pop(obj.oid, None)
            return e.ret_to(st, None)
        if name == "operator()":
            return self.eng.unit_obj.impl_call(self, st, obj, args, site)
        raise Unsupported("virtual %s" % name)

    EQ = z3.Function("equalfn", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    BEH = z3.Function("behaviour", z3.IntSort(), z3.IntSort())

    def eqf(self, a, b):
        return Env.EQ(I(a), I(b))

    def beh(self, a):
        return Env.BEH(I(a))

    def user_call(self, st, name, args, site):
        return self.eng.unit_obj.user(self, st, name, args, site)

    def maythrow(self, st, what, pre=None):
        """fork a path on which user code throws"""
        u = self.eng.unit_obj
        if not u.may_throw(what):
            return []
        s2 = st.fork()
        if pre:
            pre(s2)
        s2.log.append(("userthrow", what))
        s2.g["nthrow"] = s2.g.get("nthrow", 0) + 1
        x = Exc(self.eng.fresh_oid(), "UserExc")
        s2.g["lastexc"] = x.oid
        return self.eng.throw(s2, x)

    def oomthrow(self, st, pre=None):
        """fork a path on which memory is exhausted"""
        u = self.eng.unit_obj
        if not u.oom or st.g.get("nooom"):
            return []
        s2 = st.fork()
        s2.log.append(("oom",))
        x = Exc(self.eng.fresh_oid(), "_ZTISt9bad_alloc")
        s2.g["lastexc"] = x.oid
        if pre:
            return pre(s2, x)
        return self.eng.throw(s2, x)

    # exceptions
    def exc_matches(self, st, exc, ti):
        """does a handler for type ti take the exception? The user's exceptions may be of any type"""
        if exc.tname == ti:
            return True
        if exc.tname == "_ZTISt9bad_alloc":
            return ti == "_ZTISt9exception"
        k = (exc.oid, ti)
        d = st.g.get("excis") or {}
        if k not in d:
            st.g["excis"] = d = dict(d)
            d[k] = self.eng.sym("isa", "bool")
        return d[k]

    # ------------------------------------------------------------ loops: environment part of the state
    def assume_loop_base(self, st):
        for s in st.g["sigs"]:
            pass

    def diff(self, a, b, mod):
        out = []
        ga, gb = a.g, b.g
        for f in ga["H"]:
            if not ga["H"][f].eq(gb["H"][f]):
                out.append(("H", f))
        for k, v in ga["vec"].items():
            w = gb["vec"].get(k)
            if w is None:
                raise Unsupported("loop destroys a vector")
            for fld in ("P", "C", "pos", "len"):
                x, y = getattr(v, fld), getattr(w, fld)
                if not (x is y or same((0, x), (0, y))):
                    out.append(("V", k, fld))
            if v.buf != w.buf:
                out.append(("V", k, "buf"))
            if not same((0, v.uc), (0, w.uc)) or v.fence != w.fence:
                out.append(("V", k, "uc"))
        for k in gb["vec"]:
            if k not in ga["vec"]:
                raise Unsupported("loop creates a vector")
        for k in set(ga["val"]) | set(gb["val"]):
            x, y = ga["val"].get(k), gb["val"].get(k)
            if (x is None) != (y is None) or (x is not None and not same((0, x), (0, y))):
                out.append(("val",) + k)
        for k in set(ga["em"]) | set(gb["em"]):
            x, y = ga["em"].get(k), gb["em"].get(k)
            if x is None or y is None or not same((0, x), (0, y)):
                out.append(("em", k))
        if self.eng.unit_obj:
            out += self.eng.unit_obj.diff(self, a, b)
        def ownn(st):
            return sorted((str(o), d) for o, d in st.g["own"])
        if ownn(a) != ownn(b):
            raise Unsupported("loop changes the references held by this thread")
        if a.g["held"] != b.g["held"]:
            raise Unsupported("loop changes the lock state")
        gv = (a.g.get("gv") or {}, b.g.get("gv") or {})
        for k in set(gv[0]) | set(gv[1]):
            if k not in gv[0] or k not in gv[1] or not same((0, gv[0][k]), (0, gv[1][k])):
                out.append(("gv", k))
        if a.g["rc"] != b.g["rc"]:
            raise Unsupported("loop changes reference counts of fresh objects")
        return out

    def modkind(self, k):
        return True

    def havoc(self, st, k, info, terms):
        e = self.eng
        if k[0] == "H":
            old = st.g["H"][k[1]]
            n = e.sym("h" + k[1], "barr" if k[1] in ("conn", "blk") else "arr")
            st.g["H"][k[1]] = n
        elif k[0] == "gv":
            st.g.setdefault("gv", {}).pop(k[1], None)
        elif k[0] == "V":
            v = st.g["vec"][k[1]]
            if k[2] == "len":
                x = e.sym("vlen")
                st.pc.append(z3.And(x >= 0, x < 2 ** 56))
                terms["head"][k] = ("int", x)
                terms["entry"][k] = ("int", v.len)
                st.g["vec"][k[1]] = v.but(len=x)
            elif k[2] == "buf":
                st.g["vec"][k[1]] = v.but(buf=e.fresh_oid())
            elif k[2] == "uc":
                st.g["vec"][k[1]] = v.but(uc=None, fence=False)
            else:
                st.g["vec"][k[1]] = v.but(**{k[2]: e.sym("v" + k[2], "arr")})
        elif k[0] == "val":
            st.g["val"][k[1:]] = None   # liveness unknown: handled as a symbolic pair below
            al, x = e.sym("alive", "bool"), e.sym("val")
            st.g["val"][k[1:]] = ("sym", al, x)
            terms["head"][k] = ("valpair", al, x)
            old = terms.get("_oldval", {}).get(k)
        elif k[0] == "em":
            old = st.g["em"].get(k[1])
            if isinstance(old, z3.ArrayRef) :
                n = e.sym("em" + k[1], "barr" if old.range() == z3.BoolSort() else "arr")
            elif isinstance(old, (bool, z3.BoolRef)):
                n = e.sym("em" + k[1], "bool")
                terms["head"][k] = ("bool", n)
                terms["entry"][k] = ("bool", old)
            else:
                n = e.sym("em" + k[1])
                terms["head"][k] = ("int", n)
                terms["entry"][k] = ("int", old)
            st.g["em"][k[1]] = n
        else:
            self.eng.unit_obj.havoc(self, st, k, info, terms)

    def term_of(self, st, k):
        if k[0] == "V":
            return ("int", st.g["vec"][k[1]].len)
        if k[0] == "em":
            x = st.g["em"][k[1]]
            return ("bool", x) if isinstance(x, (bool, z3.BoolRef)) else ("int", x)
        if k[0] == "val":
            return self.valpair(st, k[1:])
        return self.eng.unit_obj.term_of(self, st, k)

    def valpair(self, st, key):
        v = st.g["val"].get(key)
        if v is None:
            return ("valpair", False, 0)
        if isinstance(v, tuple):
            return ("valpair", v[1], v[2])
        return ("valpair", True, v)

    def inst(self, st, c, terms):
        return c.f(st, terms)

    def loop_back(self, st, rec):
        pass

    def candidates(self, eng, entry, hst, mod, terms):
        """invariant templates over the modified state"""
        out = []
        ints = [k for k, t in terms["head"].items() if t and t[0] == "int"]
        bools = [k for k, t in terms["head"].items() if t and t[0] == "bool"]
        vals = [k for k, t in terms["head"].items() if t and t[0] == "valpair"]
        for k in vals:
            terms["entry"][k] = self.valpair(entry, k[1:])
        def T(tm, k):
            t = tm.get(k)
            if t is None or t[1] is None:
                raise TypeError
            return t[1]
        vecs = list(hst.g["vec"])
        # integer-valued terms: modified integers, constants 0, lengths of vectors (now and at entry)
        consts = [("0", lambda st: 0)]
        for vk in vecs:
            v0 = entry.g["vec"].get(vk)
            if v0 is not None:
                consts.append(("len0%s" % (vk,), lambda st, v0=v0: v0.len))
            if ("V", vk, "len") not in mod:
                continue
        def nm(k):
            return ".".join(str(x) for x in k[1:]) if not isinstance(k, str) else k
        def guard(f):
            def g(st, tm):
                try:
                    r = f(st, tm)
                except TypeError:
                    return False
                return r
            return g
        for a in ints:
            for cn, cf in consts:
                out.append(Cand("%s<=%s" % (nm(a), cn), guard(lambda st, tm, a=a, cf=cf: I(T(tm, a)) <= I(cf(st)))))
                out.append(Cand("%s==%s" % (nm(a), cn), guard(lambda st, tm, a=a, cf=cf: I(T(tm, a)) == I(cf(st)))))
            out.append(Cand("%s>=0" % nm(a), guard(lambda st, tm, a=a: I(T(tm, a)) >= 0)))
            en = terms["entry"].get(a)
            if en is not None and en[1] is not None:
                out.append(Cand("%s>=entry" % nm(a), guard(lambda st, tm, a=a, x=en[1]: I(T(tm, a)) >= I(x))))
                out.append(Cand("%s<=entry" % nm(a), guard(lambda st, tm, a=a, x=en[1]: I(T(tm, a)) <= I(x))))
        for a, b in itertools.permutations(ints, 2):
            out.append(Cand("%s<=%s" % (nm(a), nm(b)), guard(lambda st, tm, a=a, b=b: I(T(tm, a)) <= I(T(tm, b)))))
        for a, b in itertools.combinations(ints, 2):
            out.append(Cand("%s==%s" % (nm(a), nm(b)), guard(lambda st, tm, a=a, b=b: I(T(tm, a)) == I(T(tm, b)))))
            for cn, cf in consts[1:]:
                out.append(Cand("%s+%s==%s" % (nm(a), nm(b), cn), guard(lambda st, tm, a=a, b=b, cf=cf: I(T(tm, a)) + I(T(tm, b)) == I(cf(st)))))
        for a, b in itertools.combinations(bools, 2):
            out.append(Cand("%s<->%s" % (nm(a), nm(b)), guard(lambda st, tm, a=a, b=b: B(T(tm, a)) == B(T(tm, b)))))
        for a in bools:
            for b in ints:
                for c in ints:
                    if b < c if str(b) < str(c) else False:
                        pass
                for c in ints:
                    if str(b) < str(c):
                        out.append(Cand("%s->%s==%s" % (nm(a), nm(b), nm(c)), guard(lambda st, tm, a=a, b=b, c=c: z3.Implies(B(T(tm, a)), I(T(tm, b)) == I(T(tm, c))))))
        for v in vals:
            for a in bools:
                out.append(Cand("alive%s<->%s" % (nm(v), nm(a)), guard(lambda st, tm, a=a, v=v: B(tm[v][1]) == B(T(tm, a)))))
                for c in ints:
                    out.append(Cand("%s->val%s==%s" % (nm(a), nm(v), nm(c)), guard(lambda st, tm, a=a, v=v, c=c: z3.Implies(B(T(tm, a)), I(tm[v][2]) == I(T(tm, c))))))
        # list invariants
        H0 = dict(entry.g["H"])
        for s in hst.g["sigs"]:
            c = self.list_cell(hst, s)
            if c is None or not isinstance(c, Ptr) or (c.oid, 0) not in hst.g["vec"]:
                continue
            key = (c.oid, 0)
            for i in range(4):
                out.append(Cand("inv%d" % i, guard(lambda st, tm, s=s, key=key, i=i: self.inv_parts(st, s, key)[i][1])))
            if ("H", "idx") in mod:
                own = (hst.g.get("implown") or {}).get(s)
                if own is not None:
                    def owned(st, tm, own=own, key=key):
                        v, H = st.g["vec"][key], st.g["H"]
                        k = z3.Int("k")
                        p = z3.Select(v.P, k)
                        return forall(k, z3.And(k >= 0, k < I(v.len)), z3.Select(own, z3.Select(H["impl"], p)) == p, [p])
                    out.append(Cand("implementations are distinct", guard(owned)))
                # positions renumbered one after the other: [start, i) are right, the others as they were
                def renum(st, tm, a, lo, hi, s=s, key=key):
                    v, H = st.g["vec"][key], st.g["H"]
                    k = z3.Int("k")
                    x = z3.Select(H["impl"], z3.Select(v.P, k))
                    rng = z3.And(k >= 0, k < I(v.len))
                    ins = z3.And(k >= I(lo(st, tm)), k < I(hi(st, tm)))
                    return forall(k, rng, z3.If(ins, z3.Select(H["idx"], x) == k, z3.Select(H["idx"], x) == z3.Select(H0["idx"], x)), [z3.Select(v.P, k)])
                for a in ints:
                    en = terms["entry"].get(a)
                    if en is None or en[1] is None:
                        continue
                    out.append(Cand("renumbered up to %s" % nm(a), guard(lambda st, tm, a=a, x=en[1], f=renum: f(st, tm, a, lambda *_: x, lambda st, tm: T(tm, a)))))
                    out.append(Cand("renumbered down to %s" % nm(a), guard(lambda st, tm, a=a, x=en[1], f=renum: f(st, tm, a, lambda st, tm: T(tm, a), lambda *_: x))))
        # vectors keep: contents of unmodified prefixes
        out += self.eng.unit_obj.candidates(self, eng, entry, hst, mod, terms, ints, bools, T, guard, nm)
        return out


# ================================================================= assumed contracts: runtime and library
def R(env, st, v=None):
    return env.eng.ret_to(st, v)


@model(r"^llvm\.(dbg|lifetime|experimental\.noalias|assume|invariant|donothing|stackrestore)")
def _(env, st, a, site, m, d):
    return R(env, st)


@model(r"^llvm\.threadlocal\.address")
def _(env, st, a, site, m, d):
    return R(env, st, a[0])


@model(r"^llvm\.(memcpy|memmove)\.")
def _(env, st, a, site, m, d):
    e = env.eng
    dst, src, n = env.canon(st, a[0]), env.canon(st, a[1]), a[2]
    if not isint(n):
        raise Unsupported("memcpy of symbolic size")
    if n == 0:
        return R(env, st)
    cells = st.mem.get(src.oid)
    if cells is None or not isint(dst.oid) or dst.idx is not None or src.idx is not None:
        if isint(src.oid) and src.oid < 0:
            return R(env, st)
        if src.oid in st.freed:
            e.oblige(st, "no use after free", False, ("*",))
        raise Unsupported("memcpy %r <- %r" % (dst, src))
    items = [(o, s, v) for o, (s, v) in cells.items() if src.off <= o and o + s <= src.off + n]
    zs = [(max(x, src.off), min(y, src.off + n)) for x, y in st.zero.get(src.oid, ()) if x < src.off + n and y > src.off]
    if any(k[0] == src.oid and src.off <= k[1] < src.off + n for k in st.g["val"]):
        st.taint = True
    for o, s, v in items:
        env.mem_load(st, src.at(o - src.off), {1: ity(8), 2: ity(16), 4: ity(32), 8: ity(64)}.get(s, ity(8)), s, None)
    e.kill(st, dst.oid, dst.off, dst.off + n)
    for x, y in zs:
        if y > x:
            st.zero.setdefault(dst.oid, []).append((x - src.off + dst.off, y - src.off + dst.off))
    for o, s, v in items:
        e.raw_store(st, dst.at(o - src.off), s, v)
    return R(env, st)


@model(r"^llvm\.memset\.")
def _(env, st, a, site, m, d):
    e = env.eng
    dst, v, n = env.canon(st, a[0]), a[1], a[2]
    if not isint(n) or not isint(dst.oid) or dst.oid not in st.mem:
        raise Unsupported("memset")
    e.kill(st, dst.oid, dst.off, dst.off + n)
    if v == 0:
        st.zero.setdefault(dst.oid, []).append((dst.off, dst.off + n))
    return R(env, st)


@model(r"^llvm\.(trap|ubsantrap)")
def _(env, st, a, site, m, d):
    raise PathEnd("trap")


@model(r"^llvm\.eh\.typeid\.for")
def _(env, st, a, site, m, d):
    return R(env, st, -a[0].oid + 10 ** 6 if not a[0].null else 10 ** 6)


@model(r"^llvm\.(expect|is\.constant)")
def _(env, st, a, site, m, d):
    return R(env, st, a[0] if "expect" in d else False)


@model(r"^llvm\.u?s?(add|sub|mul)\.with\.overflow|^llvm\.[us]mul\.with|^llvm\.umul")
def _(env, st, a, site, m, d):
    if all(isint(x) for x in a[:2]):
        r = a[0] * a[1] if "mul" in d else a[0] + a[1]
        return R(env, st, [r % W[64], r >= W[64]])
    raise Unsupported(d)


@model(r"^operator new(\[\])?\(unsigned long(, std::align_val_t)?\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    sz = a[0] if isint(a[0]) else None
    outs = env.oomthrow(st)
    o = e.new_obj(st, sz)
    st.g.setdefault("heap", {})
    st.g["heap"] = dict(st.g["heap"])
    st.g["heap"][o] = sz
    return outs + R(env, st, Ptr(o))


@model(r"^operator new(\[\])?\(unsigned long, std::nothrow_t const&\)$")
def _(env, st, a, site, m, d):
    o = env.eng.new_obj(st, a[0] if isint(a[0]) else None)
    return R(env, st, Ptr(o))


@model(r"^operator delete(\[\])?\(")
def _(env, st, a, site, m, d):
    e = env.eng
    p = env.canon(st, a[0])
    if p.null:
        return R(env, st)
    if isinstance(p, Ptr) and isint(p.oid):
        if p.oid in st.freed:
            e.oblige(st, "no double free", False, ("*",))
        for k in [k for k in st.g["val"] if k[0] == p.oid]:
            if not getattr(e, "forget_leaks", False):
                e.oblige(st, "storage is not freed while an object in it is still alive", False, ("*",))
        st.mem.pop(p.oid, None)
        st.zero.pop(p.oid, None)
        st.freed.add(p.oid)
        h = st.g.get("heap")
        if h and p.oid in h:
            h = dict(h)
            del h[p.oid]
            st.g["heap"] = h
        for k in [k for k in st.g["vec"] if k[0] == p.oid]:
            del st.g["vec"][k]
    return R(env, st)


@model(r"^operator new\(unsigned long, void\*\)$")
def _(env, st, a, site, m, d):
    return R(env, st, a[1])


@model(r"^__cxa_allocate_exception")
def _(env, st, a, site, m, d):
    return R(env, st, Ptr(env.eng.new_obj(st, a[0])))


@model(r"^__cxa_throw$")
def _(env, st, a, site, m, d):
    e = env.eng
    t = e.idname.get(a[1].oid, "?")
    st.log.append(("throw", t))
    return e.throw(st, Exc(a[0].oid, t))


@model(r"^__cxa_begin_catch")
def _(env, st, a, site, m, d):
    st.caught.append(st.exc)
    if st.exc is not None and st.exc.oid in (st.g.get("reth") or ()):
        st.g["reth"] = tuple(x for x in st.g["reth"] if x != st.exc.oid)
    return R(env, st, a[0])


@model(r"^__cxa_end_catch")
def _(env, st, a, site, m, d):
    if st.caught:
        x = st.caught.pop()
        # leaving a handler by its end (not by an exception): the user's exception is gone
        if x is not None and x.tname == "UserExc" and x.oid not in (st.g.get("reth") or ()):
            env.eng.oblige(st, "an exception thrown by user code is not swallowed", False, ("C20",))
    st.log.append(("endcatch",))
    return R(env, st)


@model(r"^__cxa_rethrow")
def _(env, st, a, site, m, d):
    x = st.caught[-1] if st.caught else st.exc
    st.g["reth"] = (st.g.get("reth") or ()) + (x.oid,)
    return env.eng.throw(st, x)


@model(r"^__cxa_free_exception")
def _(env, st, a, site, m, d):
    return R(env, st)


@model(r"^(__clang_call_terminate|std::terminate\(\)|abort|__cxa_pure_virtual|exit)$")
def _(env, st, a, site, m, d):
    e = env.eng
    st.log.append(("terminate", d))
    return e.unit_obj.terminate(env, st, d)


@model(r"^__assert_fail")
def _(env, st, a, site, m, d):
    return env.eng.unit_obj.assert_fail(env, st)


@model(r"^std::__throw_(\w+)\(")
def _(env, st, a, site, m, d):
    e = env.eng
    st.log.append(("throw", "std::" + m.group(1)))
    return e.throw(st, Exc(e.fresh_oid(), "std::" + m.group(1)))


@model(r"^std::(logic_error|runtime_error)::(logic_error|runtime_error)\(|^std::exception::|^std::(logic_error|runtime_error)::~")
def _(env, st, a, site, m, d):
    return R(env, st)


@model(r"^__dynamic_cast$")
def _(env, st, a, site, m, d):
    """exact-type dynamic_cast between the slot implementation classes (no class derives from them)"""
    e = env.eng
    p = env.canon(st, a[0])
    dst = e.idname[a[2].oid]
    if p.null:
        return R(env, st, NULL)
    vt = None
    if isint(p.oid):
        c = st.mem.get(p.oid, {}).get(0)
        if c and isinstance(c[1], Ptr) and isint(c[1].oid):
            vt = e.idname[c[1].oid]
    if vt is not None:
        ok = vt.replace("_ZTV", "_ZTI", 1) == dst
        return R(env, st, Ptr(p.oid, 0, None, p.cls) if ok else NULL)
    r = st.g["roots"].get(p.oid) if isint(p.oid) else None
    # unknown dynamic type: both outcomes
    s2 = st.fork()
    s2.log.append(("dyncast", False, p.oid))
    st.log.append(("dyncast", True, p.oid))
    st.g["casted"] = dst
    return R(env, s2, NULL) + R(env, st, p)


# ---- mutex
@model(r"^std::mutex::lock\(\)$|^std::(recursive_)?mutex::lock\(\)$")
def _(env, st, a, site, m, d):
    env.acquire(st, env.canon(st, a[0]))
    return R(env, st)


@model(r"^std::mutex::unlock\(\)$")
def _(env, st, a, site, m, d):
    env.release(st, env.canon(st, a[0]))
    return R(env, st)


@model(r"^pthread_mutex_lock$")
def _(env, st, a, site, m, d):
    env.acquire(st, env.canon(st, a[0]))
    return R(env, st, 0)


@model(r"^pthread_mutex_unlock$")
def _(env, st, a, site, m, d):
    env.release(st, env.canon(st, a[0]))
    return R(env, st, 0)


@model(r"^std::mutex::try_lock\(\)$")
def _(env, st, a, site, m, d):
    s2 = st.fork()
    env.acquire(st, env.canon(st, a[0]))
    return R(env, st, True) + R(env, s2, False)


@model(r"^void std::lock<std::(unique_lock<std::mutex>|mutex), std::(unique_lock<std::mutex>|mutex)>\(")
def _(env, st, a, site, m, d):
    e = env.eng
    for p in a[:2]:
        mp = p
        if "unique_lock" in m.group(1):
            mp = e.load(st, p, PTR)
        env.acquire(st, env.canon(st, mp), multi=True)
        if "unique_lock" in m.group(1):
            e.store(st, p.at(8), ity(8), 1)
    return R(env, st)


@model(r"^std::(mutex|__mutex_base)::~?(mutex|__mutex_base)\(")
def _(env, st, a, site, m, d):
    return R(env, st)


@model(r"^__gthread_active_p\(\)$|^__gthread_active_p$")
def _(env, st, a, site, m, d):
    return R(env, st, 1)


# ---- shared_ptr reference counts
SC = r"^std::__shared_count<\(__gnu_cxx::_Lock_policy\)2>::"
WC = r"^std::__weak_count<\(__gnu_cxx::_Lock_policy\)2>::"


def ctrl_of(env, st, p):
    v = env.eng.load(st, p, PTR)
    if isinstance(v, Opaque):
        raise Unsupported("uninitialised control block")
    return v


@model(SC + r"__shared_count<(.*)\*>\(\1\*(?:, std::integral_constant<bool, false>)?\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    p = env.canon(st, a[1])
    t = m.group(1)
    if p.null:
        e.store(st, a[0], PTR, NULL)
        return R(env, st)
    if not isint(p.oid) or p.off != 0:
        raise Unsupported("shared_ptr of non-fresh object")
    fn = None
    want = "std::_Sp_counted_ptr<%s*, (__gnu_cxx::_Lock_policy)2>::_M_dispose()" % t
    for n, dd in env.m.dem.items():
        if dd == want:
            fn = n
    if p.oid in st.g["rc"] or p.oid in st.g["disp"]:
        e.oblige(st, "an object is managed by one control block only", False, ("*",))

    def own(s):
        s.g["rc"][p.oid] = 1
        s.g["disp"][p.oid] = (fn, p)

    def fail(s, x):
        # the control block cannot be allocated: the object is deleted, then the exception leaves
        own(s)
        return env.decref(s, p.oid, None, site, lambda s2: e.throw(s2, x))
    outs = env.oomthrow(st, fail)
    own(st)
    e.store(st, a[0], PTR, Ptr(p.oid, CTRL, None, None))
    return outs + R(env, st)


@model(SC + r"__shared_count<.*>\(.*std::_Sp_alloc_shared_tag<.*")
def _(env, st, a, site, m, d):
    """std::make_shared / allocate_shared: allocate and construct in place"""
    e = env.eng
    mm = re.search(r"__shared_count<(.*)>\((.*)\*&, std::_Sp_alloc_shared_tag<", d)
    if not mm:
        raise Unsupported("make_shared form")
    t = mm.group(2)
    tail = d[d.index("std::_Sp_alloc_shared_tag<"):].split(">", 1)[1].lstrip("> ")     # ", Args...)"
    cand = None
    for n, dd in env.m.dem.items():
        f = env.m.funcs.get(n)
        if f is not None and not f.declared and dd.startswith("void std::_Construct<" + t) and dd.endswith("(" + t + "*" + tail):
            cand = n
    if cand is None:
        raise Unsupported("make_shared construct")
    outs = env.oomthrow(st)
    o = e.new_obj(st, None)
    nargs = len(env.m.funcs[cand].params) - 1
    args = list(a[len(a) - nargs:]) if nargs else []

    def done(eng, s, v):
        s.g["rc"][o] = 1
        dt = None
        for n, dd in env.m.dem.items():
            if dd.startswith("std::_Sp_counted_ptr_inplace<" + t + ",") and dd.endswith("::_M_dispose()"):
                dt = n
        s.g["disp"][o] = (("dtor", t), Ptr(o))
        s.g["heap"] = dict(s.g.get("heap") or {})
        s.g["heap"][o] = None
        eng.store(s, a[1], PTR, Ptr(o))
        eng.store(s, a[0], PTR, Ptr(o, CTRL))
        return eng.ret_to(s, None)
    return outs + e.call(st, cand, [Ptr(o)] + args, site, ctx=done)


@model(SC + r"__shared_count\(std::__shared_count<.*> const&\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    c = ctrl_of(env, st, a[1])
    e.store(st, a[0], PTR, c)

    def live(s):
        env.incref(s, c.oid)
        return R(env, s)
    if c.null:
        return R(env, st)
    return e.branch(st, ieq(c.oid, 0), lambda s: R(env, s), live)


@model(SC + r"~__shared_count\(\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    c = ctrl_of(env, st, a[0])
    if c.null:
        return R(env, st)
    return e.branch(st, ieq(c.oid, 0), lambda s: R(env, s), lambda s: env.decref(s, c.oid, c.cls, site, lambda s2: R(env, s2)))


@model(SC + r"operator=\(std::__shared_count<.*> const&\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    c, old = ctrl_of(env, st, a[1]), ctrl_of(env, st, a[0])

    def step2(s):
        e.store(s, a[0], PTR, c)
        if old.null:
            return R(env, s, a[0])
        return e.branch(s, ieq(old.oid, 0), lambda x: R(env, x, a[0]), lambda x: env.decref(x, old.oid, old.cls, site, lambda y: R(env, y, a[0])))

    def inc(s):
        env.incref(s, c.oid)
        return step2(s)
    if c.null:
        return step2(st)
    return e.branch(st, ieq(c.oid, 0), step2, inc)


@model(SC + r"_M_swap\(")
def _(env, st, a, site, m, d):
    e = env.eng
    p, q = env.canon(st, a[0]), env.canon(st, a[1])
    x, y = ctrl_of(env, st, p), ctrl_of(env, st, q)
    lp, lq = env.local_loc(st, p), env.local_loc(st, q)
    e.store(st, p, PTR, y)
    e.store(st, q, PTR, x)
    todo = []
    if lp != lq:
        loc_gets, loc_loses = (y, x) if lp else (x, y)
        todo = [(c, dl) for c, dl in ((loc_gets, 1), (loc_loses, -1)) if not c.null and not (isint(c.oid) and c.oid in st.g["rc"])]

    def count(s, n):
        if n == len(todo):
            return R(env, s)
        c, dl = todo[n]

        def some(t):
            env.own_add(t, c.oid, dl)
            return count(t, n + 1)
        if isint(c.oid):
            return some(s)
        if e.prove(s, I(c.oid) != 0, timeout=2000)[0] is True:
            s.assume(I(c.oid) != 0)
            return some(s)
        return e.branch(s, I(c.oid) == 0, lambda t: count(t, n + 1), some)
    return count(st, 0)


def use_count(env, st, c):
    e = env.eng
    if c.null:
        return 0
    if isint(c.oid) and c.oid in st.g["rc"]:
        return st.g["rc"][c.oid]
    n = e.sym("uc")
    key = (c.oid, 0) if isint(c.oid) else None
    own = env.own_expr(st, c.oid)
    base = I(own)
    if key in st.g["vec"]:
        s = env.is_list_of(st, key)
        if s is not None and env.lock_or_excl(st, s):
            base = base + 1
            st.g["vec"][key] = st.g["vec"][key].but(uc=n, fence=False)
    dead = bor(*[ieq(x, c.oid) for x in st.g["dead"]]) if st.g["dead"] else False
    st.pc.append(z3.And(n >= base, n < 2 ** 31))
    if dead is not False:
        st.pc.append(z3.Implies(B(dead), n == 0))
    alive = [ieq(x, c.oid) for x in st.g["alive"]]
    if alive:
        st.pc.append(z3.Implies(B(bor(*alive)), n >= 1))
    st.pc.append(z3.Implies(I(c.oid) == 0, n == 0))
    for o, b in st.g["gone"]:
        q = ieq(o, c.oid)
        if q is not False:
            st.pc.append(z3.Implies(z3.And(B(q), b), n == 0))
    st.g["ucs"] = st.g.get("ucs", ()) + ((c.oid, n),)
    return n


@model(SC + r"_M_get_use_count\(\) const$")
def _(env, st, a, site, m, d):
    return R(env, st, use_count(env, st, ctrl_of(env, st, a[0])))


@model(WC + r"_M_get_use_count\(\) const$")
def _(env, st, a, site, m, d):
    n = use_count(env, st, ctrl_of(env, st, a[0]))
    return R(env, st, n)


@model(SC + r"_M_unique\(\) const$")
def _(env, st, a, site, m, d):
    n = use_count(env, st, ctrl_of(env, st, a[0]))
    return R(env, st, n == 1 if isz(n) else n == 1)


@model(SC + r"__shared_count\(std::__weak_count<.*> const&, std::nothrow_t( const&)?\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    c = ctrl_of(env, st, a[1])
    if c.null:
        e.store(st, a[0], PTR, NULL)
        return R(env, st)

    def attempt(s):
        if isint(c.oid) and c.oid in s.g["rc"]:
            e.store(s, a[0], PTR, c)
            env.incref(s, c.oid)
            return R(env, s)
        outs = []
        own = env.own_expr(s, c.oid)
        alive = band(True, *[]) if (isint(own) and own >= 1) else bor(*([I(own) >= 1] + [ieq(x, c.oid) for x in s.g["alive"]]))
        # expired
        if alive is not True and e.feasible(s, z3.Not(B(alive))):
            s2 = s.fork()
            s2.assume(bnot(alive))
            s2.g["dead"].append(c.oid)
            s2.log.append(("expired", c.oid))
            e.store(s2, a[0], PTR, NULL)
            outs += R(env, s2)
        dead = bor(*[ieq(x, c.oid) for x in s.g["dead"]]) if s.g["dead"] else False
        for o, b in s.g["gone"]:
            s.assume(bnot(band(ieq(o, c.oid), b)))
        if dead is not True:
            s.assume(bnot(dead))
            e.store(s, a[0], PTR, c)
            env.own_add(s, c.oid, 1)
            s.log.append(("locked", c.oid))
            outs += R(env, s)
        return outs

    def empty(s):
        e.store(s, a[0], PTR, NULL)
        return R(env, s)
    return e.branch(st, ieq(c.oid, 0), empty, attempt)


@model(WC + r"__weak_count\(std::__(weak|shared)_count<.*>( const)?&\)$")
def _(env, st, a, site, m, d):
    env.eng.store(st, a[0], PTR, ctrl_of(env, st, a[1]))
    return R(env, st)


@model(WC + r"__weak_count\(std::__weak_count<.*>&&\)$")
def _(env, st, a, site, m, d):
    env.eng.store(st, a[0], PTR, ctrl_of(env, st, a[1]))
    env.eng.store(st, a[1], PTR, NULL)
    return R(env, st)


@model(WC + r"~__weak_count\(\)$")
def _(env, st, a, site, m, d):
    return R(env, st)


@model(WC + r"operator=\(std::__(weak|shared)_count<.*> const&\)$")
def _(env, st, a, site, m, d):
    env.eng.store(st, a[0], PTR, ctrl_of(env, st, a[1]))
    return R(env, st, a[0])


@model(WC + r"operator=\(std::__weak_count<.*>&&\)$")
def _(env, st, a, site, m, d):
    v = ctrl_of(env, st, a[1])
    env.eng.store(st, a[1], PTR, NULL)
    env.eng.store(st, a[0], PTR, v)
    return R(env, st, a[0])


@model(WC + r"_M_swap\(")
def _(env, st, a, site, m, d):
    x, y = ctrl_of(env, st, a[0]), ctrl_of(env, st, a[1])
    env.eng.store(st, a[0], PTR, y)
    env.eng.store(st, a[1], PTR, x)
    return R(env, st)


# ---- std::vector<std::shared_ptr<slot>>
VT = r"std::vector<std::shared_ptr<sig::slot<.*?>>, std::allocator<std::shared_ptr<sig::slot<.*?>>>>::"


def vkey(env, st, p):
    p = env.canon(st, p)
    if not isint(p.oid) or p.idx is not None:
        raise Unsupported("vector at symbolic address")
    k = (p.oid, p.off)
    if k not in st.g["vec"]:
        if p.oid in st.freed:
            env.eng.oblige(st, "no use after free", False, ("*",))
        raise Unsupported("unknown vector %r" % (p,))
    return k


@model("^" + VT + r"vector\(\)$")
def _(env, st, a, site, m, d):
    p = env.canon(st, a[0])
    env.new_vec(st, (p.oid, p.off))
    return R(env, st)


@model("^" + VT + r"vector\(std::vector<.*> const&\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    p = env.canon(st, a[0])
    k = vkey(env, st, a[1])
    env.vec_read_ok(st, k)
    v = st.g["vec"][k]
    outs = [] if isint(v.len) and v.len == 0 else env.oomthrow(st)
    st.g["vec"][(p.oid, p.off)] = v.but(buf=e.fresh_oid(), fresh=True, uc=None, fence=False)
    return outs + R(env, st)


@model("^" + VT + r"vector\(std::vector<.*>&&\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    p = env.canon(st, a[0])
    k = vkey(env, st, a[1])
    env.vec_write_ok(st, k)
    v = st.g["vec"][k]
    env.new_vec(st, k, fresh=v.fresh, uc=v.uc, fence=v.fence)
    st.g["vec"][(p.oid, p.off)] = v.but(fresh=True)
    return R(env, st)


def release_all(env, st, key):
    """all elements of vector key are released"""
    e = env.eng
    v = st.g["vec"][key]
    if isint(v.len) and v.len == 0:
        return
    if env.any_held(st):
        k = z3.Int("k")
        s = z3.Select(v.P, k)
        e.oblige(st, "no callable is destroyed while the lock is held (releasing a list)",
                 forall(k, z3.And(k >= 0, k < I(v.len)), B(env.evidence(st, s, exclude=key))), ("C07",))
    st.g["destroyed"].append(("all", key, v, env.any_held(st)))


@model("^" + VT + r"~vector\(\)$")
def _(env, st, a, site, m, d):
    k = vkey(env, st, a[0])
    release_all(env, st, k)
    del st.g["vec"][k]
    return R(env, st)


@model("^" + VT + r"(begin|cbegin|end|cend|size|empty|capacity|data|front|back|operator\[\]|at)\((.*)\)( const)?$")
def _(env, st, a, site, m, d):
    e = env.eng
    k = vkey(env, st, a[0])
    env.vec_read_ok(st, k)
    v = st.g["vec"][k]
    n = m.group(1)
    if n in ("begin", "cbegin", "data"):
        return R(env, st, Ptr(v.buf, 0, 0))
    if n in ("end", "cend"):
        return R(env, st, Ptr(v.buf, 0, v.len))
    if n == "size":
        return R(env, st, v.len)
    if n == "capacity":
        d = st.g.get("cap") or {}
        q = (v.buf, v.len) if isint(v.len) else (v.buf, v.len.get_id())
        if q not in d:
            d = dict(d)
            d[q] = e.sym("cap")
            st.pc.append(z3.And(d[q] >= I(v.len), d[q] < 2 ** 40))
            st.g["cap"] = d
        return R(env, st, d[q])
    if n == "empty":
        return R(env, st, ieq(v.len, 0))
    if n == "front":
        return R(env, st, Ptr(v.buf, 0, 0))
    if n == "back":
        return R(env, st, Ptr(v.buf, 0, norm(z3.simplify(I(v.len) - 1))))
    if n == "at":
        i = a[1]
        st2 = st.fork()
        outs = []
        if e.feasible(st2, I(i) >= I(v.len)):
            st2.assume(I(i) >= I(v.len))
            outs = e.throw(st2, Exc(e.fresh_oid(), "std::out_of_range"))
        st.assume(z3.And(I(i) < I(v.len)))
        return outs + R(env, st, Ptr(v.buf, 0, i))
    i = a[1]
    if isint(i) and i >= W[63 + 1] // 2:
        i -= W[64]
    return R(env, st, Ptr(v.buf, 0, i))


@model("^" + VT + r"(reserve|shrink_to_fit)\(")
def _(env, st, a, site, m, d):
    k = vkey(env, st, a[0])
    env.vec_write_ok(st, k)
    outs = env.oomthrow(st) if m.group(1) == "reserve" else []
    st.g["vec"][k] = st.g["vec"][k].but(buf=env.eng.fresh_oid())
    return outs + R(env, st)


@model("^(void |.*& )?" + VT + r"(push_back|emplace_back)(<(.*)>)?\((.*)\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    k = vkey(env, st, a[0])
    env.vec_write_ok(st, k)
    src = env.canon(st, a[1])
    outs = env.oomthrow(st)
    # the source may be an element of the same vector
    pv = e.load(st, src, PTR)
    cv = e.load(st, src.at(8), PTR)
    par = d[d.rindex("("):] if not m.group(2) == "emplace_back" else (m.group(4) or "")
    arg = d[d.rfind("(", 0, len(d)) + 1:-1]
    move = arg.rstrip().endswith("&&") if m.group(2) == "push_back" else not arg.rstrip().endswith("const&") and not (arg.rstrip().endswith("&") and not arg.rstrip().endswith("&&"))
    env.publish_ptr(st, pv)
    v = st.g["vec"][k]
    o, c = pv.oid, cv.oid
    nl = norm(z3.simplify(I(v.len) + 1))
    st.g["vec"][k] = v.but(P=z3.Store(v.P, I(v.len), I(o)), C=z3.Store(v.C, I(v.len), I(c)), pos=z3.Store(v.pos, I(o), I(v.len)), len=nl, buf=e.fresh_oid())
    if isint(c) and c in st.g["rc"]:
        n = st.g["rc"].pop(c)
        left = n - 1 if move else n
        if left:
            env.own_add(st, c, left)
    elif move:
        if env.local_loc(st, src):
            env.own_add(st, c, -1)
    if move:
        e.store(st, src, PTR, NULL)
        e.store(st, src.at(8), PTR, NULL)
    if m.group(2) == "emplace_back":
        return outs + R(env, st, Ptr(st.g["vec"][k].buf, 0, v.len))
    return outs + R(env, st)


@model("^" + VT + r"insert\((__gnu_cxx::__normal_iterator<.*>), std::shared_ptr<sig::slot<.*>>( const&|&&)\)$")
def _(env, st, a, site, m, d):
    """insert(position, element)"""
    e = env.eng
    k = vkey(env, st, a[0])
    env.vec_write_ok(st, k)
    outs = env.oomthrow(st)
    v = st.g["vec"][k]
    it, src = a[1], env.canon(st, a[2])
    if not isinstance(it, Ptr) or it.oid != v.buf:
        raise Unsupported("vector::insert form")
    i = I(0 if it.idx is None else it.idx)
    e.oblige(st, "list position within bounds", band(i >= 0, i <= I(v.len)), ("*",))
    pv, cv = e.load(st, src, PTR), e.load(st, src.at(8), PTR)
    env.publish_ptr(st, pv)
    v = st.g["vec"][k]
    move = m.group(2) == "&&"
    o, c = pv.oid, cv.oid
    q = z3.Int("q")
    P, C, pos = e.sym("iP", "arr"), e.sym("iC", "arr"), e.sym("ip", "arr")
    for N, O, x in ((P, v.P, o), (C, v.C, c)):
        st.pc.append(quant([q], z3.Select(N, q) == z3.If(q < i, z3.Select(O, q), z3.If(q == i, I(x), z3.Select(O, q - 1))), [z3.Select(N, q)]))
    st.pc.append(quant([q], z3.Implies(z3.And(q >= 0, q < I(v.len), z3.Select(v.pos, z3.Select(v.P, q)) == q), z3.Select(pos, z3.Select(v.P, q)) == z3.If(q < i, q, q + 1)), [z3.Select(v.P, q)]))
    st.pc.append(z3.Select(pos, I(o)) == i)
    nb = e.fresh_oid()
    st.g["vec"][k] = v.but(P=P, C=C, pos=pos, len=norm(z3.simplify(I(v.len) + 1)), buf=nb)
    if isint(c) and c in st.g["rc"]:
        n = st.g["rc"].pop(c)
        left = n - 1 if move else n
        if left:
            env.own_add(st, c, left)
    elif move and env.local_loc(st, src):
        env.own_add(st, c, -1)
    if move:
        e.store(st, src, PTR, NULL)
        e.store(st, src.at(8), PTR, NULL)
    return outs + R(env, st, Ptr(nb, 0, norm(z3.simplify(i))))


@model("^" + VT + r"pop_back\(\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    k = vkey(env, st, a[0])
    env.vec_write_ok(st, k)
    v = st.g["vec"][k]
    e.oblige(st, "pop_back on a non-empty list", I(v.len) >= 1, ("*",))
    nl = norm(z3.simplify(I(v.len) - 1))
    x = sel(v.C, nl)
    st.g["vec"][k] = v.but(len=nl)

    def rel(s):
        env.maybe_last(s, x, "slot")
        return R(env, s)
    if isint(x) and x == 0:
        return R(env, st)
    return e.branch(st, ieq(x, 0), lambda s: R(env, s), rel)


@model("^" + VT + r"clear\(\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    k = vkey(env, st, a[0])
    env.vec_write_ok(st, k)
    release_all(env, st, k)
    st.g["vec"][k] = st.g["vec"][k].but(len=0, buf=e.fresh_oid())
    return R(env, st)


@model("^" + VT + r"swap\(")
def _(env, st, a, site, m, d):
    k, q = vkey(env, st, a[0]), vkey(env, st, a[1])
    env.vec_write_ok(st, k)
    env.vec_write_ok(st, q)
    v, w = st.g["vec"][k], st.g["vec"][q]
    f = ("P", "C", "pos", "len", "buf")
    st.g["vec"][k] = v.but(**{x: getattr(w, x) for x in f})
    st.g["vec"][q] = w.but(**{x: getattr(v, x) for x in f})
    return R(env, st)


@model("^" + VT + r"operator=\(std::vector<.*>( const&|&&)\)$")
def _(env, st, a, site, m, d):
    e = env.eng
    k, q = vkey(env, st, a[0]), vkey(env, st, a[1])
    env.vec_write_ok(st, k)
    env.vec_read_ok(st, q)
    release_all(env, st, k)
    w = st.g["vec"][q]
    st.g["vec"][k] = st.g["vec"][k].but(P=w.P, C=w.C, pos=w.pos, len=w.len, buf=e.fresh_oid())
    if m.group(1) == "&&":
        env.vec_write_ok(st, q)
        env.new_vec(st, q, fresh=w.fresh, uc=w.uc, fence=w.fence)
    return R(env, st, a[0])


@model("^" + VT + r"erase\((__gnu_cxx::__normal_iterator<.*>)\)$")
def _(env, st, a, site, m, d):
    """erase(position) and erase(first, last)"""
    e = env.eng
    k = vkey(env, st, a[0])
    env.vec_write_ok(st, k)
    v = st.g["vec"][k]
    its = a[1:]
    if any(not isinstance(x, Ptr) or x.idx is None or x.oid != v.buf for x in its):
        raise Unsupported("vector::erase form")
    i = I(its[0].idx)
    q = z3.Int("q")
    P, C, pos = e.sym("eP", "arr"), e.sym("eC", "arr"), e.sym("ep", "arr")
    if len(its) == 1:
        e.oblige(st, "list index within bounds", band(i >= 0, i < I(v.len)), ("*",))
        n = z3.IntVal(1)
        gone = [sel(v.C, its[0].idx)]
    else:
        j = I(its[1].idx)
        e.oblige(st, "list range within bounds", band(i >= 0, i <= j, j <= I(v.len)), ("*",))
        n = j - i
        if env.any_held(st):
            c = z3.Select(v.C, q)
            e.oblige(st, "no callable is destroyed while the lock is held (erasing a range)",
                     forall(q, z3.And(q >= i, q < j), z3.Or(c == 0, B(env.evidence(st, c, exclude=k)))), ("C07",))
        gone = []
    nl = norm(z3.simplify(I(v.len) - n))
    for N, O in ((P, v.P), (C, v.C)):
        st.pc.append(quant([q], z3.Select(N, q) == z3.If(q < i, z3.Select(O, q), z3.Select(O, q + n)), [z3.Select(N, q)]))
    st.pc.append(quant([q], z3.Implies(z3.And(q >= 0, q < I(v.len), z3.Or(q < i, q >= i + n), z3.Select(v.pos, z3.Select(v.P, q)) == q), z3.Select(pos, z3.Select(v.P, q)) == z3.If(q < i, q, q - n)), [z3.Select(v.P, q)]))
    st.g["vec"][k] = v.but(P=P, C=C, pos=pos, len=nl)
    for x in gone:
        env.maybe_last(st, x, "slot")
    return R(env, st, Ptr(v.buf, 0, its[0].idx))


# ---- member pointers / misc
@model(r"^std::type_info::")
def _(env, st, a, site, m, d):
    raise Unsupported(d)
