"""Parser for the textual LLVM IR (clang 18, opaque pointers) that clang++ -O0 emits
for the driver translation units.  It parses every construct the -O0 pipeline produces for
this code base; anything else raises Unsupported, which the checks report (never ignore)."""
import re, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "packed")

    def __init__(self, k, a=None, b=None, packed=False):
        self.k, self.a, self.b, self.packed = k, a, b, packed

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.a
        if self.k == "named":
            return "%" + self.a
        if self.k == "arr":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "st":
            return "{%s}" % ", ".join(map(repr, self.a))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
ITY = {}


def ity(n):
    if n not in ITY:
        ITY[n] = Ty("i", n)
    return ITY[n]


TOK = re.compile(r'''
  \s+ | (?P<comment>;.*$)
 |(?P<str>c?"(?:[^"])*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<md>![-\w.]*(?:"[^"]*")?)
 |(?P<attr>\#\d+)
 |(?P<comdat>\$(?:"[^"]*"|[-\w.$]+))
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("IR token at: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k and k != "comment":
            out.append((k, m.group(k)))
    return out


def unq(name):
    n = name[1:]
    return n[1:-1] if n.startswith('"') else n


class Instr:
    __slots__ = ("op", "res", "ty", "a", "line", "text")

    def __init__(self, op, res, ty, a, line, text):
        self.op, self.res, self.ty, self.a, self.line, self.text = op, res, ty, a, line, text


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []          # (name, type, attrs-set, byval/sret type)
        self.ret = VOID
        self.blocks = {}          # label -> [Instr]
        self.order = []
        self.entry = None
        self.nounwind = False
        self.attrs = None
        self.declared = True
        self.line = None
        self._loops = None

    def succs(self, lab):
        t = self.blocks[lab][-1]
        if t.op == "br":
            return [x for x in t.a[1:]]
        if t.op == "switch":
            return [t.a[1]] + [l for _, l in t.a[2]]
        if t.op == "invoke":
            return [t.a["to"], t.a["unwind"]]
        return []

    def loops(self):
        """header label -> set of labels in the natural loop(s) with this header"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        preds = {n: [] for n in order}
        for n in order:
            for s in self.succs(n):
                preds[s].append(n)
        dom = {n: set(order) for n in order}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                nd = None
                for p in preds[n]:
                    nd = set(dom[p]) if nd is None else nd & dom[p]
                nd = (nd or set()) | {n}
                if nd != dom[n]:
                    dom[n] = nd
                    ch = True
        loops = {}
        for n in order:
            for s in self.succs(n):
                if s in dom[n]:
                    body = loops.setdefault(s, {s})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self._loops = loops
        return loops


ATTRW = set("""noundef nonnull signext zeroext inreg returned nocapture readonly readnone writeonly noalias
 nofree immarg dead_on_unwind writable noreturn nounwind dso_local unnamed_addr local_unnamed_addr tail musttail notail fastcc
 ccc coldcc nsw nuw exact inbounds volatile nneg disjoint""".split())
LINKW = set("""private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
 external dso_local dso_preemptable hidden protected default""".split())


class Module:
    def __init__(self, text):
        self.types = {}
        self.tls = set()      # names of thread-local variables
        self.globals = {}     # name -> (is_const, type, initializer or None)
        self.funcs = {}
        self.attrgroups = {}
        self.lines = {}       # metadata id -> line
        self._parse(text)

    # ---- token cursor
    def _start(self, s):
        self.t = tokenize(s)
        self.i = 0
        self.src = s

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else ("eof", "")

    def nxt(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "word", "dots"):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("expected %r at %r in: %s" % (v, self.peek(), self.src[:200]))

    def type(self):
        k, v = self.nxt()
        if k == "word":
            if v == "ptr":
                t = PTR
            elif v == "void":
                t = VOID
            elif re.fullmatch(r"i\d+", v):
                t = ity(int(v[1:]))
            elif v in ("float", "double", "x86_fp80", "half", "metadata", "label", "token", "opaque", "fp128"):
                t = Ty(v)
            else:
                raise Unsupported("type %s in %s" % (v, self.src[:200]))
        elif k == "loc":
            t = Ty("named", unq(v))
        elif (k, v) == ("p", "["):
            n = int(self.nxt()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        elif (k, v) == ("p", "{"):
            t = self._struct("}")
        elif (k, v) == ("p", "<"):
            if self.acc("{"):
                t = self._struct("}")
                t.packed = True
                self.exp(">")
            else:
                n = int(self.nxt()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vec", n, e)
        else:
            raise Unsupported("type at %r in %s" % ((k, v), self.src[:200]))
        while True:
            if self.peek() == ("p", "("):      # function type
                d = 0
                args = []
                self.nxt()
                while not self.acc(")"):
                    if self.acc("..."):
                        pass
                    else:
                        args.append(self.type())
                    self.acc(",")
                t = Ty("fn", t, args)
            elif self.acc("*"):
                t = PTR
            else:
                return t

    def _struct(self, close):
        f = []
        while not self.acc(close):
            f.append(self.type())
            self.acc(",")
        return Ty("st", f)

    def attrs(self):
        """parameter / return attributes"""
        out = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTRW:
                self.nxt()
                out[v] = True
            elif k == "word" and v == "align":
                self.nxt()
                self.nxt()
            elif k == "word" and v in ("dereferenceable", "dereferenceable_or_null", "range", "nofpclass", "allocsize", "memory", "initializes", "captures", "allockind"):
                self.nxt()
                self._parens()
            elif k == "word" and v in ("sret", "byval", "elementtype", "byref", "inalloca", "preallocated"):
                self.nxt()
                self.exp("(")
                out[v] = self.type()
                self.exp(")")
            elif k == "str":
                self.nxt()
                if self.acc("="):
                    self.nxt()
            else:
                return out

    def _parens(self):
        self.exp("(")
        d = 1
        while d:
            k, v = self.nxt()
            if (k, v) == ("p", "("):
                d += 1
            elif (k, v) == ("p", ")"):
                d -= 1

    # ---- values: ('loc',n) ('glob',n) ('int',n) ('null',) ('undef',) ('agg',[..]) ('ce',op,..) ('zero',)
    def value(self, ty):
        k, v = self.nxt()
        if k == "loc":
            return ("loc", unq(v))
        if k == "glob":
            return ("glob", unq(v))
        if k == "num":
            if ty.k == "i":
                return ("int", int(v) % (1 << ty.a), ty.a)
            return ("fp", v)
        if k == "word":
            if v == "true":
                return ("bool", True)
            if v == "false":
                return ("bool", False)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef", ty)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "none":
                return ("null",)
            if v == "getelementptr":
                while self.peek()[1] in ("inbounds", "nuw", "nusw", "inrange"):
                    w = self.nxt()[1]
                    if w == "inrange" and self.peek() == ("p", "("):
                        self._parens()
                self.exp("(")
                bt = self.type()
                self.exp(",")
                pt = self.type()
                p = self.value(pt)
                idx = []
                while self.acc(","):
                    self.acc("inrange")
                    if self.peek() == ("p", "("):
                        self._parens()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.exp(")")
                return ("gep", bt, p, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
                self.exp("(")
                t1 = self.type()
                a = self.value(t1)
                self.exp("to")
                t2 = self.type()
                self.exp(")")
                return ("cast", v, t1, a, t2)
            if v in ("add", "sub"):
                while self.peek()[1] in ("nuw", "nsw"):
                    self.nxt()
                self.exp("(")
                t1 = self.type()
                a = self.value(t1)
                self.exp(",")
                t2 = self.type()
                b = self.value(t2)
                self.exp(")")
                return ("bin", v, t1, a, b)
            if v in ("dso_local_equivalent", "no_cfi"):
                return self.value(ty)
        if k == "str":
            return ("cstr", v)
        if k == "p" and v in "{[<":
            close = {"{": "}", "[": "]", "<": ">"}[v]
            if v == "<" and self.acc("{"):
                f = []
                while not self.acc("}"):
                    t = self.type()
                    f.append((t, self.value(t)))
                    self.acc(",")
                self.exp(">")
                return ("agg", f)
            f = []
            while not self.acc(close):
                t = self.type()
                f.append((t, self.value(t)))
                self.acc(",")
            return ("agg", f)
        raise Unsupported("value %r in %s" % ((k, v), self.src[:300]))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    # ---- module level
    def _parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            s = lines[i]
            if s.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._define(s, lines[i + 1:j])
                i = j + 1
                continue
            if s.startswith("declare"):
                self._header(s)
            elif s.startswith("%"):
                self._start(s)
                nm = unq(self.nxt()[1])
                self.exp("=")
                self.exp("type")
                if self.peek()[1] == "opaque":
                    self.types[nm] = None
                else:
                    self.types[nm] = self.type()
            elif s.startswith("@"):
                self._global(s)
            elif s.startswith("attributes"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", s)
                self.attrgroups[m.group(1)] = m.group(2)
            elif s.startswith("!") and "!DILocation(" in s:
                m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", s)
                if m:
                    self.lines[m.group(1)] = int(m.group(2))
            elif s.startswith("!") and "!DISubprogram(" in s:
                m = re.match(r"!(\d+) = (?:distinct )?!DISubprogram\(.*?line: (\d+)", s)
                if m:
                    self.lines[m.group(1)] = int(m.group(2))
            i += 1
        for f in self.funcs.values():
            a = self.attrgroups.get(f.attrs or "", "")
            if re.search(r"\bnounwind\b", a):
                f.nounwind = True

    def _global(self, s):
        self._start(s)
        nm = unq(self.nxt()[1])
        self.exp("=")
        while self.peek()[0] == "word" and self.peek()[1] not in ("global", "constant", "alias", "ifunc"):
            w = self.nxt()[1]
            if w == "thread_local":
                self.tls.add(nm)
            if self.peek() == ("p", "("):
                self._parens()
        w = self.nxt()[1]
        if w in ("alias", "ifunc"):
            self.globals[nm] = ("alias", s, None)
            t = self.type()
            self.exp(",")
            t2 = self.type()
            v = self.value(t2)
            self.globals[nm] = ("alias", t, v)
            return
        t = self.type()
        init = None
        k, v = self.peek()
        if k not in ("eof",) and (k, v) != ("p", ","):
            init = self.value(t)
        self.globals[nm] = (w == "constant", t, init)

    def _header(self, s):
        self._start(s)
        self.nxt()
        while True:
            k, v = self.peek()
            if k == "word" and (v in LINKW or v in ATTRW or v == "align" or v.startswith("dereferenceable") or v in ("sret", "range")):
                if v in LINKW:
                    self.nxt()
                else:
                    self.attrs()
            elif k == "str":
                self.nxt()
            else:
                break
        ret = self.type()
        name = unq(self.nxt()[1])
        f = self.funcs.get(name) or Func(name)
        f.ret = ret
        f.params = []
        self.exp("(")
        n = 0
        while not self.acc(")"):
            if self.acc("..."):
                continue
            t = self.type()
            at = self.attrs()
            pn = None
            if self.peek()[0] == "loc":
                pn = unq(self.nxt()[1])
            else:
                pn = str(n)
            n += 1
            f.params.append((pn, t, at))
            self.acc(",")
        m = re.search(r"!dbg !(\d+)", s)
        f.dbg = m.group(1) if m else None
        rest = s[s.rfind(")"):]
        for k, v in self.t[self.i:]:
            if k == "attr":
                f.attrs = v
            if k == "word" and v == "nounwind":
                f.nounwind = True
        self.funcs[name] = f
        return f

    def _define(self, head, body):
        f = self._header(head)
        f.declared = False
        cur = None
        # implicit entry label: number of unnamed params
        nun = sum(1 for p in f.params if p[0].isdigit())
        cur = str(nun)
        if body and re.match(r'^("[^"]*"|[-\w.$]+):', body[0]):
            cur = None
        else:
            f.blocks[cur] = []
            f.order.append(cur)
            f.entry = cur
        i = 0
        while i < len(body):
            s = body[i]
            i += 1
            if not s.strip() or s.lstrip().startswith(";") or s.lstrip().startswith("#dbg"):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                if f.entry is None:
                    f.entry = cur
                continue
            # continuation lines
            st = s.lstrip()
            if re.match(r"(%\S+ = )?invoke ", st) or re.match(r'(%"[^"]*" = )?invoke ', st):
                s = s + " " + body[i].strip()
                i += 1
            elif " landingpad " in s or st.startswith("landingpad "):
                while i < len(body) and re.match(r"\s+(cleanup|catch|filter)\b", body[i]):
                    s += " " + body[i].strip()
                    i += 1
            elif st.startswith("switch "):
                while not s.rstrip().rstrip().endswith("]") and "]" not in s.split("[", 1)[-1]:
                    s += " " + body[i].strip()
                    i += 1
            ins = self._instr(s, f)
            if ins:
                f.blocks[cur].append(ins)

    def _instr(self, s, f):
        line = None
        m = re.search(r"!dbg !(\d+)", s)
        if m:
            line = m.group(1)
        s = re.sub(r"(, ![\w.]+ !\d+)+", "", s)
        self._start(s)
        res = None
        if self.peek()[0] == "loc" and self.peek(1) == ("p", "="):
            res = unq(self.nxt()[1])
            self.nxt()
        k, op = self.nxt()
        while op in ("tail", "musttail", "notail"):
            k, op = self.nxt()
        mk = lambda ty, a: Instr(op, res, ty, a, line, s.strip())
        if op == "alloca":
            t = self.type()
            cnt = None
            if self.acc(","):
                if self.peek()[1] != "align":
                    cnt = self.tv()
            return mk(t, cnt)
        if op == "load":
            at = False
            if self.acc("atomic"):
                at = True
            self.acc("volatile")
            t = self.type()
            self.exp(",")
            _, p = self.tv()
            ordr = None
            if at:
                if self.peek()[1] == "syncscope":
                    self.nxt(); self._parens()
                ordr = self.nxt()[1]
            return mk(t, (p, ordr))
        if op == "store":
            at = False
            if self.acc("atomic"):
                at = True
            self.acc("volatile")
            t, v = self.tv()
            self.exp(",")
            _, p = self.tv()
            ordr = self.nxt()[1] if at else None
            return mk(t, (v, p, ordr))
        if op == "getelementptr":
            while self.peek()[1] in ("inbounds", "nuw", "nusw"):
                self.nxt()
            bt = self.type()
            self.exp(",")
            _, p = self.tv()
            idx = []
            while self.acc(","):
                idx.append(self.tv())
            return mk(bt, (p, idx))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            while self.peek()[1] in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf"):
                self.nxt()
            t = self.type()
            a = self.value(t)
            self.exp(",")
            b = self.value(t)
            return mk(t, (a, b))
        if op == "fneg":
            t, v = self.tv()
            return mk(t, v)
        if op in ("icmp", "fcmp"):
            pred = self.nxt()[1]
            while pred in ("samesign", "fast", "nnan"):
                pred = self.nxt()[1]
            t = self.type()
            a = self.value(t)
            self.exp(",")
            b = self.value(t)
            return mk(t, (pred, a, b))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            while self.peek()[1] in ("nneg", "nuw", "nsw"):
                self.nxt()
            t, v = self.tv()
            self.exp("to")
            return mk(self.type(), (t, v))
        if op == "br":
            if self.acc("label"):
                return mk(None, (None, unq(self.nxt()[1])))
            t, c = self.tv()
            self.exp(",")
            self.exp("label")
            a = unq(self.nxt()[1])
            self.exp(",")
            self.exp("label")
            b = unq(self.nxt()[1])
            return mk(None, (c, a, b))
        if op == "switch":
            t, v = self.tv()
            self.exp(",")
            self.exp("label")
            d = unq(self.nxt()[1])
            self.exp("[")
            cs = []
            while not self.acc("]"):
                ct, cv = self.tv()
                self.exp(",")
                self.exp("label")
                cs.append((cv, unq(self.nxt()[1])))
            return mk(t, (v, d, cs))
        if op == "ret":
            if self.acc("void"):
                return mk(VOID, None)
            t, v = self.tv()
            return mk(t, v)
        if op in ("unreachable",):
            return mk(None, None)
        if op == "resume":
            t, v = self.tv()
            return mk(t, v)
        if op == "phi":
            t = self.type()
            inc = []
            while True:
                self.exp("[")
                v = self.value(t)
                self.exp(",")
                inc.append((v, unq(self.nxt()[1])))
                self.exp("]")
                if not (self.peek() == ("p", ",") and self.peek(1) == ("p", "[")):
                    break
                self.nxt()
            return mk(t, inc)
        if op == "select":
            t0, c = self.tv()
            self.exp(",")
            t, a = self.tv()
            self.exp(",")
            _, b = self.tv()
            return mk(t, (c, a, b))
        if op == "extractvalue":
            t, v = self.tv()
            idx = []
            while self.acc(","):
                if self.peek()[0] != "num":
                    break
                idx.append(int(self.nxt()[1]))
            return mk(t, (v, idx))
        if op == "insertvalue":
            t, v = self.tv()
            self.exp(",")
            t2, w = self.tv()
            idx = []
            while self.acc(","):
                if self.peek()[0] != "num":
                    break
                idx.append(int(self.nxt()[1]))
            return mk(t, (v, t2, w, idx))
        if op == "landingpad":
            t = self.type()
            cl = []
            cleanup = False
            while True:
                if self.acc("cleanup"):
                    cleanup = True
                elif self.acc("catch"):
                    cl.append(("catch", self.tv()[1]))
                elif self.acc("filter"):
                    cl.append(("filter", self.tv()[1]))
                else:
                    break
            return mk(t, (cleanup, cl))
        if op == "fence":
            return mk(None, self.nxt()[1])
        if op == "atomicrmw":
            self.acc("volatile")
            o = self.nxt()[1]
            _, p = self.tv()
            self.exp(",")
            t, v = self.tv()
            return mk(t, (o, p, v, self.nxt()[1]))
        if op == "cmpxchg":
            self.acc("weak")
            self.acc("volatile")
            _, p = self.tv()
            self.exp(",")
            t, c = self.tv()
            self.exp(",")
            _, nw = self.tv()
            return mk(t, (p, c, nw))
        if op in ("call", "invoke"):
            self.attrs()
            rt = self.type() if not (self.peek()[0] in ("glob",)) else VOID
            if rt.k == "fn":
                rt = rt.a
            if self.peek()[1] == "asm":
                raise Unsupported("inline asm")
            k, v = self.peek()
            callee = self.value(PTR)
            self.exp("(")
            args = []
            while not self.acc(")"):
                t = self.type()
                if t.k == "metadata":
                    d = 0
                    while True:
                        k, v = self.peek()
                        if d == 0 and (k, v) in (("p", ","), ("p", ")")):
                            break
                        if v in ("(", "{"):
                            d += 1
                        if v in (")", "}"):
                            d -= 1
                        self.nxt()
                    args.append((t, ("null",), {}))
                else:
                    at = self.attrs()
                    args.append((t, self.value(t), at))
                self.acc(",")
            a = {"callee": callee, "args": args, "nounwind": False}
            while True:
                k, v = self.peek()
                if k == "attr":
                    self.nxt()
                    a["attr"] = v
                elif k == "word" and v in ATTRW:
                    self.nxt()
                    if v == "nounwind":
                        a["nounwind"] = True
                elif k == "str":
                    self.attrs()
                else:
                    break
            if op == "invoke":
                self.exp("to")
                self.exp("label")
                a["to"] = unq(self.nxt()[1])
                self.exp("unwind")
                self.exp("label")
                a["unwind"] = unq(self.nxt()[1])
            return mk(rt, a)
        if op == "va_arg":
            raise Unsupported("va_arg")
        raise Unsupported("instruction %s: %s" % (op, s.strip()[:200]))

    # ---- layout
    def resolve(self, t):
        while t.k == "named":
            r = self.types.get(t.a)
            if r is None:
                raise Unsupported("opaque type " + t.a)
            t = r
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "i":
            return max(1, min(8, (t.a + 7) // 8)) if t.a <= 64 else 16
        if t.k == "ptr":
            return 8
        if t.k == "st":
            if t.packed or not t.a:
                return 1
            return max(self.align(x) for x in t.a)
        if t.k == "arr":
            return self.align(t.b)
        return {"float": 4, "double": 8, "x86_fp80": 16}.get(t.k, 8)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "i":
            n = (t.a + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if t.k == "ptr":
            return 8
        if t.k == "st":
            o = 0
            for x in t.a:
                if not t.packed:
                    al = self.align(x)
                    o = (o + al - 1) // al * al
                o += self.size(x)
            if not t.packed and t.a:
                al = self.align(t)
                o = (o + al - 1) // al * al
            return o
        if t.k == "arr":
            return t.a * self.size(t.b)
        if t.k in ("float",):
            return 4
        if t.k == "double":
            return 8
        if t.k == "x86_fp80":
            return 16
        raise Unsupported("sizeof %r" % t)

    def field(self, t, i):
        """(offset, type) of field i of struct/array type t"""
        t = self.resolve(t)
        if t.k == "arr":
            return i * self.size(t.b), t.b
        o = 0
        for j, x in enumerate(t.a):
            if not t.packed:
                al = self.align(x)
                o = (o + al - 1) // al * al
            if j == i:
                return o, x
            o += self.size(x)
        raise Unsupported("field index")

    def fields(self, t):
        t = self.resolve(t)
        if t.k == "arr":
            return [(i * self.size(t.b), t.b) for i in range(t.a)]
        return [self.field(t, i) for i in range(len(t.a))]

    def demangle_all(self):
        names = list(self.funcs) + list(self.globals)
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True)
        if out.returncode != 0:
            out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        self.dem = dict(zip(names, out.stdout.split("\n")))
        return self.dem
