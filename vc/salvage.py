"""Keeps a driver or replay program usable when the current headers reject a part of it.

A change may make one instantiation ill-formed (say, of optional<const T&>) while everything the repository builds
still compiles. The compiler's diagnostics say which entry point (drivers) or which family (replay programs) asked
for it; that part is left out, reported, and the rest is compiled. Nothing is rewritten."""
import os, re, subprocess


def _run(cmd, inp=None):
    return subprocess.run(cmd, capture_output=True, text=True, input=inp, timeout=300)


def split_driver(text, name):
    """preprocessed driver -> (head, [top-level items of the driver itself])"""
    lines = text.split("\n")
    last = max(i for i, l in enumerate(lines) if re.match(r'# \d+ "[^"]*%s" 2' % re.escape(name), l))
    head, tail = "\n".join(lines[:last]), "\n".join(l for l in lines[last:] if not l.startswith("#"))
    items, cur, depth, i = [], "", 0, 0
    tail = re.sub(r'extern\s+"C"\s*\{', "\x01", tail)        # opening of a linkage block
    stack = []
    for ch in tail:
        if ch == "\x01":
            stack.append("C")
            continue
        if ch == "{":
            stack.append("{")
        if ch == "}":
            k = stack.pop() if stack else "{"
            if k == "C":
                continue
        cur += ch
        if "{" not in stack and ch in ";}":
            if "C" in stack and cur.strip():
                cur = 'extern "C" ' + cur.strip() if not cur.strip().startswith(("struct", "using", "template", "class", "static", "extern")) else cur
            if cur.strip(" \n\t;"):
                items.append(cur.strip())
            cur = ""
    return head, items


def driver(src, out, flags):
    """compile a driver to IR without the entry points the headers reject -> list of what was dropped, or None"""
    p = _run(["clang++-18"] + flags + ["-E", src])
    if p.returncode != 0:
        return None
    try:
        head, items = split_driver(p.stdout, os.path.basename(src))
    except ValueError:
        return None
    dropped = set()
    for _ in range(8):
        txt = head + "\n" + "\n".join('# %d "drvfn"\n%s' % (k + 1, " ".join(it.split("\n"))) for k, it in enumerate(items) if k not in dropped) + "\n"
        pp = out + ".ii"
        open(pp, "w").write(txt)
        q = _run(["clang++-18"] + flags + ["-x", "c++-cpp-output", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-S", "-emit-llvm", pp, "-o", out])
        os.remove(pp)
        if q.returncode == 0:
            return [re.sub(r"\s+", " ", items[k])[:100] for k in sorted(dropped)]
        bad = blame(q.stderr, "drvfn") - {k + 1 for k in dropped}
        if not bad:
            return None
        dropped |= {k - 1 for k in bad}
    return None


def blame(err, name):
    """lines of `name` that some error leads back to"""
    out, group, is_err = set(), set(), False
    for l in err.split("\n"):
        if re.search(r": (fatal )?error: ", l):
            if is_err:
                out |= group
            group, is_err = set(), True
        elif re.search(r": warning: ", l):
            if is_err:
                out |= group
            group, is_err = set(), False
        m = re.match(r"(?:In file included from )?(\S*?):(\d+)", l)
        if m and os.path.basename(m.group(1)) == name:
            group.add(int(m.group(2)))
    if is_err:
        out |= group
    return out


def program(src, exe, cc):
    """compile a replay program without the families the headers reject. cc: command, containing src -> dropped or None"""
    lines = open(src).read().split("\n")
    base = os.path.basename(src)
    heads = [i for i, l in enumerate(lines) if l.startswith("// ------")]
    m0 = max(i for i, l in enumerate(lines) if re.match(r"int main\(", l))
    reg = []
    for k, i in enumerate(heads):
        reg.append((i, min(heads[k + 1] if k + 1 < len(heads) else m0, m0)))
    gone, dropped = set(), []
    tmp = exe + ".cut.cpp"
    for _ in range(8):
        open(tmp, "w").write("\n".join("" if i in gone else l for i, l in enumerate(lines)))
        q = _run([tmp if x == src else x for x in cc] + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"])
        if q.returncode == 0:
            return dropped
        bad = {k - 1 for k in blame(q.stderr, os.path.basename(tmp))} - gone
        if not bad:
            return None
        inmain = {i for i in bad if i > m0 and lines[i].strip().endswith(";")}
        if inmain:
            for i in inmain:
                gone.add(i)
                dropped.append(lines[i].strip())
            continue
        cut = [(a, b) for a, b in reg if any(a <= i < b for i in bad)]
        if not cut:
            return None
        for a, b in cut:
            names = set()
            for i in range(a, b):
                m = re.match(r"(?:template<.*?> )?(?:static )?(?:void|struct) (\w+)", lines[i])
                if m:
                    names.add(m.group(1))
                gone.add(i)
            dropped.append(lines[a].strip("/- "))
            for i in range(m0, len(lines)):
                if any(re.search(r"\b%s\b" % n, lines[i]) for n in names) and lines[i].strip().endswith(";"):
                    gone.add(i)
    return None
