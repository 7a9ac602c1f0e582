"""Sequentialise concurrent threads: LLVM IR of the real code -> C for CBMC.

Every thread runs operations of one function. Each load, store, copy and lock
operation of the compiled code becomes one step; the harness chooses, with
symbolic values, which thread takes the next step. The copies of a thread's
functions keep their local state in static variables and their position in a
program counter, so that CBMC decides over all interleavings of the steps.

The same IR, with a call to vp_yield() in front of each such access, is
compiled natively for the replay of a counterexample's schedule.
"""
import re
import subprocess

ID = r'(?:%[-\w.$]+|%"[^"]+")'


class Unsupported(Exception):
    pass


def build_ir(src, cflags, out):
    cmd = ["clang", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-strict-aliasing", "-fno-builtin", "-U_FORTIFY_SOURCE", "-g0", "-w", "-S", "-emit-llvm",
           "-fno-discard-value-names", "-o", out] + cflags + [src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise Unsupported("clang: " + p.stderr[-2000:])
    p = subprocess.run(["opt", "-passes=inline,function(simplifycfg,instsimplify,early-cse)", "-inline-threshold=100000", "-S", "-o", out + ".inl", out],
                       capture_output=True, text=True)
    if p.returncode == 0:
        out += ".inl"
    return open(out).read()


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            elif c == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.types, self.funcs = {}, {}
        for m in re.finditer(r"^(%[\w.$\"]+) = type (.*)$", text, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r"^define [^@]*@([\w.$]+)\((.*?)\)[^\n]*\{\n(.*?)^\}", text, re.M | re.S):
            head = text[m.start():m.start() + text[m.start():].index("\n")]
            self.funcs[m.group(1)] = Func(m.group(1), head, m.group(2), m.group(3))

    def resolve(self, t):
        while t in self.types:
            t = self.types[t]
        return t

    def layout(self, t):
        """(size, align)"""
        t = self.resolve(t.strip())
        m = re.fullmatch(r"i(\d+)", t)
        if m:
            n = int(m.group(1))
            b = 1
            while b * 8 < n:
                b *= 2
            return b, b
        if t == "ptr":
            return 8, 8
        m = re.fullmatch(r"\[(\d+) x (.*)\]", t)
        if m:
            s, a = self.layout(m.group(2))
            return s * int(m.group(1)), a
        if t.startswith("<{") or t.startswith("{"):
            packed = t.startswith("<{")
            off, al = 0, 1
            for f in self.fields(t):
                s, a = self.layout(f)
                a = 1 if packed else a
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("type " + t)

    def fields(self, t):
        t = self.resolve(t)
        if t.startswith("<{"):
            return split_top(t[2:-2])
        return split_top(t[1:-1])

    def field_offset(self, t, i):
        t = self.resolve(t)
        packed = t.startswith("<{")
        off = 0
        for j, f in enumerate(self.fields(t)):
            s, a = self.layout(f)
            a = 1 if packed else a
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise Unsupported("field")


class Func:
    def __init__(self, name, head, params, body):
        self.name = name
        m = re.match(r"define (.*?)@", head)
        toks = m.group(1).split()
        self.ret = toks[-1]
        self.params = []
        n = 0
        for p in split_top(params):
            t = p.split()[0]
            v = re.search(ID + r"$", p)
            self.params.append((t, v.group(0) if v else "%%%d" % n))
            n += 1
        self.blocks, cur = [], None
        first = True
        lines = [l.split(" ; ")[0].rstrip() if not l.strip().startswith(";") else "" for l in body.splitlines()]
        merged, acc = [], None
        for l in lines:
            if acc is not None:
                acc += " " + l.strip()
                if l.strip() == "]":
                    merged.append(acc)
                    acc = None
                continue
            if re.match(r"\s+switch .*\[$", l):
                acc = l
                continue
            merged.append(l)
        for l in merged:
            if not l.strip():
                continue
            m = re.match(r"^([-\w.$]+|\"[^\"]+\"):", l)
            if m:
                cur = ("%" + m.group(1), [])
                self.blocks.append(cur)
                first = False
                continue
            if first:
                cur = ("%entry-block", [])
                self.blocks.append(cur)
                first = False
            l = re.sub(r", !\w[\w.]* ![\w.]+|, !\w+ !\d+", "", l.strip())
            cur[1].append(l)


def ctype(t):
    if t == "ptr":
        return "uint8_t *"
    m = re.fullmatch(r"i(\d+)", t)
    if m:
        n = int(m.group(1))
        if n == 1:
            return "_Bool "
        for b in (8, 16, 32, 64):
            if n <= b:
                return "uint%d_t " % b
    raise Unsupported("value type " + t)


def stype(t):
    return "int%s_t" % t[1:] if t != "i1" else "int8_t"


ATTRS = re.compile(r"\b(noundef|nonnull|nocapture|readonly|writeonly|readnone|noalias|zeroext|signext|returned|immarg|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|allocalign|noreturn|inreg|captures\([^)]*\))\s*")


class Analysis:
    """Which accesses of the entry functions are visible to other threads.

    A location "parameter 0 plus a constant" (a field of the shared object) is
    private to a thread's step if no other thread writes it (loads) or touches
    it (stores). Parameters in `private` point to memory of the thread itself.
    Stores through other pointers are asserted not to hit the shared object.
    """

    def __init__(self, mod, entries, private):
        self.mod, self.entries, self.private = mod, entries, private
        self.prov, self.acc, self.simple = {}, {}, True
        for e in set(entries):
            f = mod.funcs[e]
            pv = {p: (k, 0) for k, (t, p) in enumerate(f.params) if t == "ptr"}
            lst = []
            for b, ins in f.blocks:
                for i in ins:
                    m = re.match(r"(%s) = getelementptr (.*)$" % ID, i)
                    if m:
                        r = self.gep(m.group(2), pv)
                        if r:
                            pv[m.group(1)] = r
                        continue
                    op = re.sub(r"^(%s = )?((tail|musttail|notail) )?" % ID, "", i)
                    op = re.sub(r"\b(volatile|atomic) ", "", op)
                    m = re.match(r"load (\S+), ptr ([^, ]+)", op)
                    if m:
                        lst.append(("L", pv.get(m.group(2)), mod.layout(m.group(1))[0]))
                    m = re.match(r"store (\S+) .*?, ptr ([^, ]+)", op)
                    if m:
                        lst.append(("S", pv.get(m.group(2)), mod.layout(m.group(1))[0]))
                    m = re.match(r"(atomicrmw|cmpxchg) .*?ptr ([^, ]+)", op)
                    if m:
                        lst.append(("S", pv.get(m.group(2)), 8))
                    m = re.match(r"call .*?@([\w.$]+)\(", op)
                    if m and m.group(1) in mod.funcs:
                        self.simple = False
            self.prov[e], self.acc[e] = pv, lst

    def gep(self, op, pv):
        op = re.sub(r"\b(inbounds|nuw|nusw|inrange\([^)]*\)) ", "", op)
        parts = split_top(op)
        ty, base = parts[0], parts[1][4:]
        if base not in pv:
            return None
        k, off = pv[base]
        for n, ix in enumerate(parts[2:]):
            it, iv = ix.split(None, 1)
            if not re.fullmatch(r"-?\d+", iv):
                return (k, None)
            if n == 0:
                off = None if off is None else off + int(iv) * self.mod.layout(ty)[0]
            else:
                r = self.mod.resolve(ty)
                if r.startswith("["):
                    ty = re.fullmatch(r"\[(\d+) x (.*)\]", r).group(2)
                    off = None if off is None else off + int(iv) * self.mod.layout(ty)[0]
                else:
                    o, ty = self.mod.field_offset(r, int(iv))
                    off = None if off is None else off + o
        return (k, off)

    def is_private(self, fn, ptr):
        p = self.prov[fn].get(ptr.strip())
        return bool(p) and p[0] in self.private

    def visible(self, t, fn, kind, ptr, size):
        p = self.prov[fn].get(ptr.strip())
        if not self.simple or p is None:
            return True
        if p[0] in self.private:
            return False
        if p[0] != 0 or p[1] is None:
            return True
        for u, e in enumerate(self.entries):
            if u == t:
                continue
            for k, q, sz in self.acc[e]:
                if q is None or q[0] != 0:
                    continue
                if kind == "L" and k != "S":
                    continue
                if q[1] is None or (q[1] < p[1] + size and p[1] < q[1] + sz):
                    return True
        return False

    def constant(self, fn, ptr, size):
        """A field no thread ever stores to."""
        p = self.prov[fn].get(ptr.strip())
        if not self.simple or p is None or p[0] != 0 or p[1] is None:
            return False
        for e in set(self.entries):
            for k, q, sz in self.acc[e]:
                if k == "S" and q is not None and q[0] == 0 and (q[1] is None or (q[1] < p[1] + size and p[1] < q[1] + sz)):
                    return False
        return True


class Emit:
    """C code of one thread."""

    def __init__(self, mod, t, entry, ana):
        self.mod, self.t, self.entry, self.ana = mod, t, entry, ana
        self.decl, self.code = [], []
        self.npc = 1
        self.todo, self.done = [entry], set()
        self.names = {}
        self.accesses = 0
        while self.todo:
            f = self.todo.pop()
            if f in self.done:
                continue
            self.done.add(f)
            self.func(self.mod.funcs[f])

    def v(self, f, name):
        k = (f, name)
        if k not in self.names:
            self.names[k] = "t%d_%d" % (self.t, len(self.names))
        return self.names[k]

    def declare(self, f, name, t):
        n = self.v(f, name)
        self.decl.append("static %s%s;" % (ctype(t), n))
        return n

    def lbl(self, f, b):
        return "B%d_%s_%s" % (self.t, re.sub(r"\W", "_", f), re.sub(r"\W", "_", b))

    def val(self, f, t, x):
        x = x.strip()
        if x.startswith("%"):
            return self.v(f, x)
        if t == "ptr":
            if x == "null":
                return "((uint8_t *) 0)"
            if x in ("undef", "poison"):
                return "((uint8_t *) 0)"
            m = re.fullmatch(r"@([\w.$]+)", x)
            if m:
                return "((uint8_t *) &%s)" % m.group(1)
            raise Unsupported("pointer constant " + x)
        if x == "true":
            return "1"
        if x in ("false", "undef", "poison", "zeroinitializer"):
            return "0"
        if re.fullmatch(r"-?\d+", x):
            return "((%s) %sll)" % (ctype(t), x) if int(x) >= -2**63 and int(x) < 2**63 else "((%s) %sull)" % (ctype(t), x)
        raise Unsupported("constant " + x)

    def out(self, s):
        self.code.append("\t" + s)

    def yield_(self):
        n = self.npc
        self.npc += 1
        self.accesses += 1
        # the first access of an operation happens in the step that begins it
        self.out("if (first) first = 0; else { pc%d = %d; return; }" % (self.t, n))
        self.code.append("P%d_%d: ;" % (self.t, n))
        self.out("first = 0;")

    def guard(self, fn, ptr):
        """The reduction relies on other stores missing the shared object."""
        if fn == self.entry and self.ana.simple and ptr.strip() not in self.ana.prov[fn]:
            self.out("VP_NOT_SHARED(%s);" % self.val(fn, "ptr", ptr))

    def func(self, f):
        self.f = f
        fn = f.name
        for k, (t, p) in enumerate(f.params):
            if fn == self.entry and t == "ptr":
                self.decl.append("#define %s (VP_PTR_%d_%d)" % (self.v(fn, p), self.t, k))
            else:
                self.declare(fn, p, t)
        if f.ret != "void":
            self.declare(fn, "ret", f.ret)
        self.decl.append("static unsigned %s;" % self.v(fn, "retpc"))
        # phis
        self.phis = {}
        for b, ins in f.blocks:
            for i in ins:
                m = re.match(r"(%s) = phi (\S+) (.*)$" % ID, i)
                if m:
                    self.declare(fn, m.group(1), m.group(2))
                    for pr in split_top(m.group(3)):
                        val, frm = split_top(pr.strip("[] "))
                        self.phis.setdefault((frm, b), []).append((m.group(1), m.group(2), val))
        first_name = f.blocks[0][0]
        for bi, (b, ins) in enumerate(f.blocks):
            self.code.append("%s: ;" % self.lbl(fn, b))
            for i in ins:
                self.ins(fn, b, i)

    def goto(self, fn, b, to):
        # an unnamed entry block is referred to by its number in phis
        ph = self.phis.get((b, to), [])
        if not ph and b == "%entry-block":
            labels = {x for x, _ in self.f.blocks}
            for (frm, tt), lst in self.phis.items():
                if tt == to and frm not in labels:
                    ph = lst
        s = []
        if len(ph) > 1:
            for k, (n, t, val) in enumerate(ph):
                s.append("%stmp%d = %s;" % (ctype(t), k, self.val(fn, t, val)))
            for k, (n, t, val) in enumerate(ph):
                s.append("%s = tmp%d;" % (self.v(fn, n), k))
        else:
            for n, t, val in ph:
                s.append("%s = %s;" % (self.v(fn, n), self.val(fn, t, val)))
        return "{ %s goto %s; }" % (" ".join(s), self.lbl(fn, to))

    def ins(self, fn, b, i):
        m = re.match(r"(%s) = (.*)$" % ID, i)
        dst, op = (m.group(1), m.group(2)) if m else (None, i)
        op = re.sub(r"^(tail|musttail|notail) call", "call", op)
        if op.startswith("phi "):
            return
        w = op.split()[0]
        if w == "br":
            m = re.fullmatch(r"br label (%s)" % ID, op)
            if m:
                return self.out(self.goto(fn, b, m.group(1)))
            m = re.fullmatch(r"br i1 (.*?), label (%s), label (%s)" % (ID, ID), op)
            self.out("if (%s) %s else %s" % (self.val(fn, "i1", m.group(1)), self.goto(fn, b, m.group(2)), self.goto(fn, b, m.group(3))))
            return
        if w == "switch":
            m = re.match(r"switch (\S+) (.*?), label (%s) \[(.*)\]" % ID, op)
            t, x = m.group(1), self.val(fn, m.group(1), m.group(2))
            for c in re.finditer(r"\S+ (-?\d+), label (%s)" % ID, m.group(4)):
                self.out("if (%s == %s) %s" % (x, self.val(fn, t, c.group(1)), self.goto(fn, b, c.group(2))))
            self.out(self.goto(fn, b, m.group(3)))
            return
        if w == "ret":
            if op != "ret void":
                m = re.match(r"ret (\S+) (.*)$", op)
                self.out("%s = %s;" % (self.v(fn, "ret"), self.val(fn, m.group(1), m.group(2))))
            if fn == self.entry:
                self.out("goto R%d;" % self.t)
            else:
                self.out("retpc = %s; goto D%d;" % (self.v(fn, "retpc"), self.t))
            return
        if w == "unreachable":
            self.out("VP_UNREACHABLE(); return;")
            return
        if w == "load":
            op = re.sub(r"\b(volatile|atomic) ", "", op)
            m = re.match(r"load (\S+), ptr (.*?)( (?:seq_cst|acquire|monotonic|unordered))?(, align \d+)?$", op)
            size = self.mod.layout(m.group(1))[0]
            if fn == self.entry and self.ana.constant(fn, m.group(2), size):
                n = self.v(fn, dst)
                self.decl.append("#define %s (*(%s*) (VP_PTR_%d_0 + %d))" % (n, ctype(m.group(1)), self.t, self.ana.prov[fn][m.group(2).strip()][1]))
                return
            n = self.declare(fn, dst, m.group(1))
            if fn != self.entry or self.ana.visible(self.t, fn, "L", m.group(2), size):
                self.yield_()
            self.out("%s = *(%s*) %s;" % (n, ctype(m.group(1)), self.val(fn, "ptr", m.group(2))))
            return
        if w == "store":
            op = re.sub(r"\b(volatile|atomic) ", "", op)
            m = re.match(r"store (\S+) (.*?), ptr (.*?)( (?:seq_cst|release|monotonic|unordered))?(, align \d+)?$", op)
            if fn != self.entry or self.ana.visible(self.t, fn, "S", m.group(3), self.mod.layout(m.group(1))[0]):
                self.yield_()
            self.guard(fn, m.group(3))
            self.out("*(%s*) %s = %s;" % (ctype(m.group(1)), self.val(fn, "ptr", m.group(3)), self.val(fn, m.group(1), m.group(2))))
            return
        if w == "getelementptr":
            op = re.sub(r"\b(inbounds|nuw|nusw|inrange\([^)]*\)) ", "", op)
            parts = split_top(op[len("getelementptr "):])
            ty = parts[0]
            base = self.val(fn, "ptr", parts[1][4:])
            pv = self.ana.prov[fn].get(dst) if fn == self.entry else None
            if pv and pv[1] is not None:
                self.decl.append("#define %s (VP_PTR_%d_%d + %d)" % (self.v(fn, dst), self.t, pv[0], pv[1]))
                return
            n = self.declare(fn, dst, "ptr")
            off, expr = 0, []
            for k, ix in enumerate(parts[2:]):
                it, iv = ix.split(None, 1)
                if k == 0:
                    sz = self.mod.layout(ty)[0]
                else:
                    r = self.mod.resolve(ty)
                    if r.startswith("[") :
                        mm = re.fullmatch(r"\[(\d+) x (.*)\]", r)
                        ty = mm.group(2)
                        sz = self.mod.layout(ty)[0]
                    else:
                        o, ty = self.mod.field_offset(r, int(iv))
                        off += o
                        continue
                if re.fullmatch(r"-?\d+", iv):
                    off += int(iv) * sz
                else:
                    expr.append("(int64_t) (%s) %s * %d" % (stype(it), self.val(fn, it, iv), sz))
            if off or not expr:
                expr.append("%dll" % off)
            self.out("%s = %s + (%s);" % (n, base, " + ".join(expr)))
            return
        m = re.match(r"(add|sub|mul|udiv|urem|sdiv|srem|and|or|xor|shl|lshr|ashr) ((?:nuw |nsw |exact |disjoint )*)(\S+) (.*)$", op)
        if m:
            t = m.group(3)
            x, y = [self.val(fn, t, z) for z in split_top(m.group(4))]
            n = self.declare(fn, dst, t)
            o = {"add": "+", "sub": "-", "mul": "*", "udiv": "/", "urem": "%", "and": "&", "or": "|", "xor": "^",
                 "shl": "<<", "lshr": ">>"}.get(m.group(1))
            if o:
                e = "(%s) (%s %s %s)" % (ctype(t), x, o, y)
                if t == "i1":
                    e = "(%s) ((%s %s %s) & 1)" % (ctype(t), x, o, y)
            else:
                o = {"sdiv": "/", "srem": "%", "ashr": ">>"}[m.group(1)]
                e = "(%s) ((%s) %s %s (%s) %s)" % (ctype(t), stype(t), x, o, stype(t), y)
            self.out("%s = %s;" % (n, e))
            return
        if w == "icmp":
            m = re.match(r"icmp (?:samesign )?(\w+) (\S+) (.*)$", op)
            t = m.group(2)
            x, y = [self.val(fn, t, z) for z in split_top(m.group(3))]
            n = self.declare(fn, dst, "i1")
            p = m.group(1)
            o = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[p if p in ("eq", "ne") else p[1:]]
            if p[0] == "s":
                x, y = "(%s) %s" % (stype(t), x), "(%s) %s" % (stype(t), y)
            self.out("%s = %s %s %s;" % (n, x, o, y))
            return
        if w == "select":
            m = re.match(r"select i1 (.*?), (\S+) (.*?), (\S+) (.*)$", op)
            n = self.declare(fn, dst, m.group(2))
            self.out("%s = %s ? %s : %s;" % (n, self.val(fn, "i1", m.group(1)), self.val(fn, m.group(2), m.group(3)), self.val(fn, m.group(2), m.group(5))))
            return
        m = re.match(r"(zext|sext|trunc|ptrtoint|inttoptr|bitcast|freeze)(?: nneg| nuw| nsw)* (\S+) (.*?)(?: to (\S+))?$", op)
        if m:
            t, to = m.group(2), m.group(4) or m.group(2)
            x = self.val(fn, t, m.group(3))
            n = self.declare(fn, dst, to)
            if m.group(1) == "sext":
                x = "(%s) %s%s" % (stype(t), "-" if t == "i1" else "", x)
            if m.group(1) == "trunc" and to == "i1":
                x = "(%s & 1)" % x
            self.out("%s = (%s) %s;" % (n, ctype(to), x))
            return
        if w == "alloca":
            m = re.match(r"alloca (.*?)(?:, (i\d+) (\d+))?(?:, align (\d+))?$", op)
            size = self.mod.layout(m.group(1))[0] * int(m.group(3) or 1)
            n = self.declare(fn, dst, "ptr")
            self.decl.append("static uint8_t %s_mem[%d] __attribute__((aligned(16)));" % (n, size))
            self.out("%s = %s_mem;" % (n, n))
            return
        if w == "fence":
            return
        if w == "atomicrmw":
            m = re.match(r"atomicrmw (?:volatile )?(\w+) ptr (.*?), (\S+) (.*?) (?:seq_cst|acquire|release|acq_rel|monotonic)", op)
            n = self.declare(fn, dst, m.group(3))
            self.yield_()
            p = "*(%s*) %s" % (ctype(m.group(3)), self.val(fn, "ptr", m.group(2)))
            x = self.val(fn, m.group(3), m.group(4))
            self.out("%s = %s;" % (n, p))
            o = {"add": "+", "sub": "-", "and": "&", "or": "|", "xor": "^"}
            self.out("%s = %s;" % (p, x if m.group(1) == "xchg" else "%s %s %s" % (n, o[m.group(1)], x)))
            return
        if w == "cmpxchg":
            m = re.match(r"cmpxchg (?:weak )?(?:volatile )?ptr (.*?), (\S+) (.*?), (\S+) (.*?) (?:seq_cst|acquire|release|acq_rel|monotonic)", op)
            t = m.group(2)
            a = self.declare(fn, dst + ".0", t)
            c = self.declare(fn, dst + ".1", "i1")
            self.yield_()
            p = "*(%s*) %s" % (ctype(t), self.val(fn, "ptr", m.group(1)))
            self.out("%s = %s; %s = %s == %s; if (%s) %s = %s;" % (a, p, c, a, self.val(fn, t, m.group(3)), c, p, self.val(fn, t, m.group(5))))
            return
        if w == "extractvalue":
            m = re.match(r"extractvalue \{ (\S+), (\S+) \} (%s), (\d)" % ID, op)
            n = self.declare(fn, dst, m.group(1 + int(m.group(4))))
            self.out("%s = %s;" % (n, self.v(fn, m.group(3) + "." + m.group(4))))
            return
        if w == "call":
            return self.call(fn, dst, op)
        raise Unsupported(op)

    def call(self, fn, dst, op):
        if " asm " in op:
            if re.search(r'asm (sideeffect )?"(mfence|lfence|sfence|pause|lock; addl \$\$0,0\(%[er]sp\)|)"', op):
                return          # every step is sequentially consistent
            raise Unsupported(op)
        m = re.match(r"call (.*?)@([\w.$]+)\((.*)\)( #\d+)?$", op)
        if not m:
            raise Unsupported(op)
        name = m.group(2)
        args = []
        for a in split_top(m.group(3)):
            a = ATTRS.sub("", a)
            t, x = a.split(None, 1)
            args.append((t, x))
        if re.match(r"llvm\.(lifetime|assume|dbg|experimental\.noalias|donothing|invariant)", name):
            return
        val = lambda k: self.val(fn, args[k][0], args[k][1])
        if re.match(r"(llvm\.)?(memcpy|memmove)", name):
            self.yield_()
            self.guard(fn, args[0][1])
            self.out("{ uint64_t n = %s; vp_cpy(%s, %s, n / 2); }" % (val(2), val(0), val(1)))
            self.yield_()
            self.out("{ uint64_t n = %s; vp_cpy(%s + n / 2, %s + n / 2, n - n / 2); }" % (val(2), val(0), val(1)))
            if dst:
                self.out("%s = %s;" % (self.declare(fn, dst, "ptr"), val(0)))
            return
        if re.match(r"(llvm\.)?memset", name):
            self.yield_()
            self.guard(fn, args[0][1])
            self.out("vp_set(%s, (uint8_t) %s, %s);" % (val(0), val(1), val(2)))
            return
        if name in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"):
            self.yield_()
            n = self.declare(fn, dst, "i32") if dst else None
            r = "%s = " % n if n else "(void) "
            if name.endswith("_lock"):
                self.out("VP_ENABLED(!*(int *) %s);" % val(0))
            self.out("%svp_%s((void *) %s);" % (r, name, val(0)))
            return
        m2 = re.match(r"llvm\.(umin|umax|smin|smax)\.", name)
        if m2:
            t = args[0][0]
            c = ("(%s) " % stype(t)) if m2.group(1)[0] == "s" else ""
            o = "<" if m2.group(1).endswith("min") else ">"
            n = self.declare(fn, dst, t)
            self.out("%s = %s%s %s %s%s ? %s : %s;" % (n, c, val(0), o, c, val(1), val(0), val(1)))
            return
        if name == "__assert_fail":
            self.out("VP_UNREACHABLE(); return;")
            return
        if name in self.mod.funcs:
            if name == self.entry:
                raise Unsupported("recursion")
            g = self.mod.funcs[name]
            self.todo.append(name)
            for k, (t, p) in enumerate(g.params):
                self.out("%s = %s;" % (self.v(name, p), val(k)))
            n = self.npc
            self.npc += 1
            self.out("%s = %d; goto %s;" % (self.v(name, "retpc"), n, self.lbl(name, g.blocks[0][0])))
            self.code.append("P%d_%d: ;" % (self.t, n))
            if dst:
                self.out("%s = %s;" % (self.declare(fn, dst, g.ret), self.v(name, "ret")))
            return
        raise Unsupported("call of " + name)

    def text(self):
        t = self.t
        f = self.mod.funcs[self.entry]
        o = list(dict.fromkeys(self.decl))
        o.append("static unsigned pc%d;" % t)
        o.append("void vp_step%d(void)\n{\n\tunsigned retpc = pc%d;\n\t_Bool first = 0;" % (t, t))
        o.append("\tif (pc%d == 0) {\n\t\tuint64_t a[%d];\n\t\tvp_op_begin(%d, a);" % (t, max(1, len(f.params)), t))
        for k, (ty, p) in enumerate(f.params):
            if ty != "ptr":
                o.append("\t\t%s = (%s) a[%d];" % (self.v(self.entry, p), ctype(ty), k))
        o.append("\t\tfirst = 1;\n\t\tgoto %s;\n\t}" % self.lbl(self.entry, f.blocks[0][0]))
        o.append("D%d:\n\tswitch (retpc) {" % t)
        for n in range(1, self.npc):
            o.append("\tcase %d: goto P%d_%d;" % (n, t, n))
        o.append("\tdefault: VP_UNREACHABLE(); return;\n\t}")
        o += self.code
        o.append("R%d:\n\tpc%d = 0;\n\tvp_op_end(%d, %s);\n}" % (t, t, t, "(uint64_t) " + self.v(self.entry, "ret") if f.ret != "void" else "0"))
        o.append("_Bool vp_idle%d(void) { return pc%d == 0; }" % (t, t))
        return "\n".join(o)


HEAD = """/* generated by tools/seq.py from the LLVM IR of the code under test */
#include <stdint.h>
#include <stddef.h>
#include "vp.h"
void vp_op_begin(int t, uint64_t *args);
#include VP_SHARED
#define VP_NOT_SHARED(p) __CPROVER_assert(!__CPROVER_same_object((p), VP_PTR_0_0), "vp: no stray write to the shared object")
void vp_op_end(int t, uint64_t ret);
int vp_pthread_mutex_lock(void *m);
int vp_pthread_mutex_unlock(void *m);
int vp_pthread_mutex_trylock(void *m);
#define VP_ENABLED(c) __CPROVER_assume(c)
#define VP_UNREACHABLE() __CPROVER_assert(0, "vp: an assertion in the code fails")
static inline void vp_cpy(uint8_t *d, const uint8_t *s, uint64_t n)
{
	/* constant bound: element sizes are small */
	__CPROVER_assert(n <= VP_CPYMAX, "vp: harness: copy bound");
	for (unsigned i = 0; i < VP_CPYMAX; i++)
		if (i < n)
			d[i] = s[i];
}
static inline void vp_set(uint8_t *d, uint8_t v, uint64_t n)
{
	__CPROVER_assert(n <= VP_CPYMAX, "vp: harness: copy bound");
	for (unsigned i = 0; i < VP_CPYMAX; i++)
		if (i < n)
			d[i] = v;
}
"""


def to_c(ir, entries, private=(1, 2)):
    """entries: function name of each thread."""
    mod = Module(ir)
    parts = [HEAD]
    acc = []
    for e in entries:
        if e not in mod.funcs:
            raise Unsupported("no function " + e)
    ana = Analysis(mod, entries, private)
    for t, e in enumerate(entries):
        em = Emit(mod, t, e, ana)
        acc.append(em.accesses)
        parts.append(em.text())
    return "\n\n".join(parts) + "\n", acc


def instrument(ir, entries, private=(1, 2)):
    """The same IR with vp_yield() in front of each access, for native replay."""
    mod = Module(ir)
    ana = Analysis(mod, entries, private)
    out, fn, need = [], None, set()

    def vis(kind, ptr, ty):
        if fn not in entries:
            return True
        size = mod.layout(ty)[0]
        if kind == "L" and ana.constant(fn, ptr, size):
            return False
        return ana.visible(entries.index(fn), fn, kind, ptr, size)

    for l in ir.splitlines():
        m = re.match(r"define [^@]*@([\w.$]+)\(", l)
        if m:
            fn = m.group(1)
        if l.startswith("}"):
            fn = None
        if fn:
            op = re.sub(r"^\s+(%s = )?" % ID, "", l)
            op = re.sub(r"^(tail|musttail|notail) call", "call", op)
            op2 = re.sub(r"\b(volatile|atomic) ", "", op)
            m = re.match(r"load (\S+), ptr ([^, ]+)", op2)
            if m and vis("L", m.group(2), m.group(1)):
                out.append("  call void @vp_yield()")
            m = re.match(r"store (\S+) .*?, ptr ([^, ]+)", op2)
            if m and vis("S", m.group(2), m.group(1)):
                out.append("  call void @vp_yield()")
            if re.match(r"(atomicrmw|cmpxchg) ", op):
                out.append("  call void @vp_yield()")
            m = re.match(r"call .*?@((?:llvm\.)?(?:memcpy|memmove|memset)[\w.]*|pthread_mutex_(?:lock|unlock|trylock))\(", op)
            if m:
                n = m.group(1)
                if "memcpy" in n or "memmove" in n:
                    l = l.replace("@" + n + "(", "@vp_cpy2v(" if n.startswith("llvm") else "@vp_cpy2(")
                    need.add("declare void @vp_cpy2v(ptr, ptr, i64, i1)" if n.startswith("llvm") else "declare ptr @vp_cpy2(ptr, ptr, i64)")
                elif "memset" in n:
                    out.append("  call void @vp_yield()")
                else:
                    l = l.replace("@" + n + "(", "@vp_n_" + n + "(")
                    need.add("declare i32 @vp_n_%s(ptr)" % n)
        out.append(l)
    return "\n".join(out) + "\n" + "\n".join(sorted(need)) + "\ndeclare void @vp_yield()\n"
