"""Parser for the LLVM IR text rustc/opt emit, and translation of each function into Python code for irexec."""
import re, struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"])*")
 |(?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-\w.]*(?:\([^)]*\))?|\#\d+)
 |(?P<fhex>f0x[0-9A-Fa-f]+|0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d*(?:[eE][+-]?\d+)?)?)
 |(?P<word>[a-zA-Z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[(){}\[\]<>,=*:|])
 |(?P<qstr>"[^"]*")
)''', re.X)


def tokenize(s):
    out, p, n = [], 0, len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == "" or s[p:].lstrip().startswith(";"):
                break
            raise ValueError("cannot tokenize %r" % s[p:p + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        p = m.end()
    return out


class IntT:
    __slots__ = ("w",)

    def __init__(s, w):
        s.w = w
    size = property(lambda s: (1 if s.w <= 8 else 2 if s.w <= 16 else 4 if s.w <= 32 else 8 if s.w <= 64 else 16))
    align = size
    kind = "int"


class SimpleT:
    def __init__(s, kind, size):
        s.kind, s.size, s.align = kind, size, max(size, 1)


PTR, F32, F64, VOID = SimpleT("ptr", 8), SimpleT("float", 4), SimpleT("double", 8), SimpleT("void", 0)


class ArrT:
    kind = "array"

    def __init__(s, n, e):
        s.n, s.e = n, e
        s.size, s.align = n * e.size, e.align


class StructT:
    kind = "struct"

    def __init__(s, fs, packed):
        s.fs = fs
        s.offs = []
        off, al = 0, 1
        for f in fs:
            if not packed:
                off = (off + f.align - 1) // f.align * f.align
                al = max(al, f.align)
            s.offs.append(off)
            off += f.size
        s.align = al
        s.size = (off + al - 1) // al * al


class VecT:
    kind = "vector"

    def __init__(s, n, e):
        s.n, s.e = n, e
        s.size = n * e.size
        s.align = s.size


class P:
    """token stream"""

    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def peek(s, k=0):
        return s.t[s.i + k][1] if s.i + k < len(s.t) else None

    def kind(s):
        return s.t[s.i][0] if s.i < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1][1]

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def need(s, x):
        if not s.eat(x):
            raise ValueError("expected %s got %s in %s" % (x, s.peek(), " ".join(t[1] for t in s.t)[:300]))

    def type(s):
        k, v = s.t[s.i]
        s.i += 1
        if v == "ptr":
            if s.peek() == "addrspace":
                s.i += 4
            return PTR
        if v == "void":
            return VOID
        if v == "float":
            return F32
        if v == "double":
            return F64
        if k == "word" and re.fullmatch(r"i\d+", v):
            return IntT(int(v[1:]))
        if k == "name":
            return s.m.named(v)
        if v == "{":
            return s._struct("}", False)
        if v == "<":
            if s.eat("{"):
                r = s._struct("}", True)
                s.need(">")
                return r
            n = int(s.next())
            s.need("x")
            e = s.type()
            s.need(">")
            return VecT(n, e)
        if v == "[":
            n = int(s.next())
            s.need("x")
            e = s.type()
            s.need("]")
            return ArrT(n, e)
        raise ValueError("type? %s in %s" % (v, " ".join(t[1] for t in s.t)[:300]))

    def _struct(s, close, packed):
        fs = []
        if not s.eat(close):
            while True:
                fs.append(s.type())
                if not s.eat(","):
                    break
            s.need(close)
        return StructT(fs, packed)

    def skip_parens(s):
        s.need("(")
        d = 1
        while d:
            v = s.next()
            d += v == "("
            d -= v == ")"

    VALW = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "none", "splat", "add", "sub", "mul", "xor", "trunc"}

    def attrs(s):
        while s.kind() in ("word", "qstr") and s.peek() not in s.VALW:
            w = s.next()
            if s.peek() == "(":
                s.skip_parens()
            elif w == "align" and s.kind() == "num":
                s.i += 1
            elif s.peek() == "=":
                s.i += 2

    def value(s, ty):
        k, v = s.t[s.i]
        s.i += 1
        if k == "name":
            return ("r", v) if v[0] == "%" else ("g", v)
        if k == "num":
            if ty.kind == "int":
                return ("c", int(v) & ((1 << ty.w) - 1))
            return ("c", float(v)) if ty.kind == "double" else ("c", struct.unpack("f", struct.pack("f", float(v)))[0])
        if k == "fhex":
            if v.startswith("f0x"):
                n = len(v) - 3
                b = int(v[3:], 16)
                if n <= 8 and ty.kind == "float":
                    return ("c", struct.unpack("<f", struct.pack("<I", b))[0])
                return ("c", struct.unpack("<d", struct.pack("<Q", b))[0])
            return ("c", struct.unpack("<d", struct.pack("<Q", int(v[2:], 16)))[0])
        if v == "true":
            return ("c", 1)
        if v in ("false", "null"):
            return ("c", 0)
        if v in ("undef", "poison"):
            return ("u", ty)
        if v == "zeroinitializer":
            return ("z", ty)
        if k == "str":
            return ("s", decode(v))
        if v == "getelementptr":
            while s.kind() == "word" and s.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                s.i += 1
                if s.peek() == "(" and s.t[s.i - 1][1] == "inrange":
                    s.skip_parens()
            s.need("(")
            t = s.type()
            s.need(",")
            args = []
            while True:
                at = s.type()
                args.append((at, s.value(at)))
                if not s.eat(","):
                    break
            s.need(")")
            return ("gep", t, args)
        if v in ("inttoptr", "ptrtoint", "bitcast"):
            s.need("(")
            t = s.type()
            x = s.value(t)
            s.need("to")
            t2 = s.type()
            s.need(")")
            return (v, x, t2)
        if v in ("add", "sub", "mul", "xor"):
            while s.peek() in ("nuw", "nsw"):
                s.i += 1
            s.need("(")
            t = s.type()
            x = s.value(t)
            s.need(",")
            s.type()
            y = s.value(t)
            s.need(")")
            return ("binop", v, x, y, t.w)
        if v == "trunc":
            s.need("(")
            t = s.type()
            x = s.value(t)
            s.need("to")
            t2 = s.type()
            s.need(")")
            return ("binop", "and", x, ("c", (1 << t2.w) - 1), t.w)
        if v in ("{", "<", "["):
            if v == "<":
                s.need("{")
            close = {"{": "}", "<": "}", "[": "]"}[v]
            el = []
            if not s.eat(close):
                while True:
                    t = s.type()
                    el.append((t, s.value(t)))
                    if not s.eat(","):
                        break
                s.need(close)
            if v == "<":
                s.need(">")
            return ("agg", el)
        raise ValueError("value? %s %s" % (k, v))


def decode(v):
    b = bytearray()
    s = v[2:-1]
    i = 0
    while i < len(s):
        if s[i:i + 2] == "\\\\":
            b.append(92)
            i += 2
        elif s[i] == "\\":
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b += s[i].encode("latin1", "replace")
            i += 1
    return bytes(b)


class Module:
    def __init__(self, path):
        self.types_src, self.types = {}, {}
        self.globals, self.funcs, self.decls, self.attrs = {}, {}, {}, {}
        cur = None
        for line in open(path, encoding="utf-8", errors="replace"):
            line = line.rstrip("\n")
            if cur is not None:
                if line == "}":
                    self.funcs[cur[0]] = cur
                    cur = None
                else:
                    cur[2].append(line)
                continue
            if line.startswith("define "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                cur = ("@" + m.group(1), line, [])
            elif line.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                self.decls["@" + m.group(1)] = line
            elif line.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', line)
                self.globals[m.group(1)] = m.group(2)
            elif line.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', line)
                self.types_src[m.group(1)] = m.group(2)
            elif line.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", line)
                self.attrs[m.group(1)] = m.group(2)

        # the panic entry points of core and alloc end a path: they are not executed
        for n, f in list(self.funcs.items()):
            if ("_4core" in n or "_5alloc" in n) and "rustdht" not in n and self.has_noreturn(f[1]):
                self.decls[n] = f[1]
                del self.funcs[n]

    def has_noreturn(self, l):
        return any(" noreturn" in (" " + self.attrs.get(a, "")) for a in re.findall(r"#\d+", l))

    def named(self, n):
        if n not in self.types:
            self.types[n] = P(tokenize(self.types_src[n]), self).type()
        return self.types[n]

    def noreturn(self, name):
        l = self.decls.get(name)
        if l is None:
            return False
        return self.has_noreturn(l)

    def global_init(self, name):
        """-> (type, value or None, constant?, thread_local?)"""
        s = self.globals[name]
        s = re.sub(r", !\w+ !\d+", "", s)
        toks = tokenize(s)
        p = P(toks, self)
        const = tls = ext = False
        while True:
            v = p.peek()
            if v == "thread_local":
                tls = True
                p.i += 1
                if p.peek() == "(":
                    p.skip_parens()
            elif v == "constant":
                const = True
                p.i += 1
                break
            elif v == "global":
                p.i += 1
                break
            elif v == "alias":
                raise ValueError("alias")
            else:
                if v in ("external", "extern_weak"):
                    ext = True
                p.i += 1
                if p.peek() == "(":
                    p.skip_parens()
        t = p.type()
        val = None if ext or p.i >= len(p.t) else p.value(t)
        return t, val, const, tls


MASKS = {w: (1 << w) - 1 for w in (1, 2, 4, 8, 16, 24, 32, 48, 64, 128)}


class Translator:
    """one IR function -> Python source"""

    def __init__(self, mod, consts):
        self.m = mod
        self.consts = consts  # list shared with the executor: python objects referenced as K[i]

    def fn(self, name):
        _, head, body = self.m.funcs[name]
        self.regs = {}
        self.name = name
        lines = self.join(body)
        # parameters
        toks = tokenize(head[len("define "):])
        p = P(toks, self.m)
        while not (p.kind() == "name" and p.peek() == name):
            p.i += 1
        p.i += 1
        p.need("(")
        params = []
        while not p.eat(")"):
            t = p.type()
            p.attrs()
            params.append(self.reg(p.next()) if p.kind() == "name" else "_unused%d" % len(params))
            p.eat(",")
        # blocks
        blocks, order, cur = {}, [], None
        for l in lines:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = "%entry"
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(l.strip())
        self.idx = {b: i for i, b in enumerate(order)}
        # numbered entry block without a label
        phis = {}
        for b in order:
            ph = []
            for l in blocks[b]:
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = phi (.*)$', l)
                if not m:
                    break
                q = P(tokenize(strip_meta(m.group(2))), self.m)
                t = q.type()
                inc = {}
                while True:
                    q.need("[")
                    v = q.value(t)
                    q.need(",")
                    inc[q.next()] = (t, v)
                    q.need("]")
                    if not q.eat(","):
                        break
                ph.append((m.group(1), inc))
            phis[b] = ph
        self.phis = phis
        codes = []
        for b in order:
            self.cur = b
            self.out = []
            for l in blocks[b]:
                self.inst(l)
            codes.append(self.out)
        src = ["def f(%s):" % ", ".join(["S"] + params)]
        if len(order) == 1:
            src += ["  " + x for x in codes[0]]
        else:
            src.append("  bb = 0")
            src.append("  while 1:")
            src.append("    S.steps += 1")
            src.append("    if S.steps > S.limit: S.budget()")
            self.tree(src, codes, 0, len(codes), "    ")
        return "\n".join(src) + "\n"

    def tree(self, src, codes, lo, hi, ind):
        if hi - lo == 1:
            src += [ind + x for x in codes[lo]]
            return
        mid = (lo + hi) // 2
        src.append(ind + "if bb < %d:" % mid)
        self.tree(src, codes, lo, mid, ind + " ")
        src.append(ind + "else:")
        self.tree(src, codes, mid, hi, ind + " ")

    def join(self, body):
        out, acc = [], None
        for l in body:
            if l.strip() == "" or l.lstrip().startswith(";"):
                continue
            if acc is not None:
                acc += " " + l.strip()
                if "]" in l:
                    out.append(acc)
                    acc = None
                continue
            if l.strip().startswith("switch") and "]" not in l:
                acc = l
                continue
            out.append(l)
        return out

    def reg(self, r):
        if r not in self.regs:
            self.regs[r] = "v%d" % len(self.regs)
        return self.regs[r]

    def k(self, o):
        self.consts.append(o)
        return "K[%d]" % (len(self.consts) - 1)

    def val(self, v, ty=None):
        if v[0] == "r":
            return self.reg(v[1])
        if v[0] == "c":
            x = v[1]
            return "(%r)" % x if x == x and abs(x) != float("inf") else self.k(x)
        if v[0] == "u":
            return self.undef(v[1])
        if v[0] == "z":
            return self.zero(v[1])
        if v[0] == "g":
            return "S.glob(%r)" % v[1]
        if v[0] == "gep":
            return self.gep_expr(v[1], [(t, x) for t, x in v[2]])
        if v[0] == "inttoptr":
            return "S.i2p(%s)" % self.val(v[1])
        if v[0] == "ptrtoint":
            return "S.p2i(%s)" % self.val(v[1])
        if v[0] == "binop":
            return "S.bin(%r, %s, %s, %d)" % (v[1], self.val(v[2]), self.val(v[3]), v[4])
        if v[0] == "agg":
            return "[" + ", ".join(self.val(x) for _, x in v[1]) + "]"
        raise ValueError("val %s" % (v,))

    def undef(self, t):
        if t.kind == "struct":
            return "[" + ", ".join(self.undef(f) for f in t.fs) + "]"
        if t.kind == "array":
            return "[" + ", ".join(self.undef(t.e) for _ in range(t.n)) + "]"
        return "X"

    def zero(self, t):
        if t.kind == "struct":
            return "[" + ", ".join(self.zero(f) for f in t.fs) + "]"
        if t.kind == "array":
            return "[" + ", ".join(self.zero(t.e) for _ in range(t.n)) + "]"
        return "0.0" if t.kind in ("float", "double") else "0"

    def gep_expr(self, t, args):
        base = self.val(args[0][1])
        const, dyn = 0, []
        for n, (it, iv) in enumerate(args[1:]):
            if n == 0:
                sz = t.size
                cur = t
            else:
                if cur.kind == "struct":
                    const += cur.offs[iv[1]]
                    cur = cur.fs[iv[1]]
                    continue
                sz = cur.e.size
                cur = cur.e
            if iv[0] == "c":
                x = iv[1]
                if x >> (it.w - 1):
                    x -= 1 << it.w
                const += x * sz
            else:
                dyn.append((self.val(iv), sz, it.w))
        if not dyn:
            return "S.gepc(%s, %d)" % (base, const)
        e = base
        for v, sz, w in dyn:
            e = "S.gep(%s, %s, %d, %d)" % (e, v, sz, w)
        if const:
            e = "S.gepc(%s, %d)" % (e, const)
        return e

    def goto(self, target):
        """statements that transfer control to a block"""
        ph = self.phis[target]
        st = []
        if ph:
            key = self.cur if self.cur in ph[0][1] else None
            if key is None:
                # unlabeled entry block is referred to by number
                cand = [k for k in ph[0][1] if k not in self.idx]
                key = cand[0]
            l = ", ".join(self.reg(r) for r, _ in ph)
            r = ", ".join(self.val(inc[key][1]) for _, inc in ph)
            st.append("%s = %s" % (l, r))
        st.append("bb = %d" % self.idx[target])
        return st

    def inst(self, l):
        l = strip_meta(l)
        dst = None
        m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        if m:
            dst = self.reg(m.group(1))
            l = m.group(2)
        p = P(tokenize(l), self.m)
        op = p.next()
        o = self.out
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "phi":
            return
        if op == "ret":
            t = p.type()
            o.append("return" if t is VOID else "return " + self.val(p.value(t)))
            return
        if op == "unreachable":
            o.append("S.end('UB', 'unreachable code reached')")
            return
        if op == "br":
            if p.eat("label"):
                o += self.goto(p.next())
                return
            t = p.type()
            c = self.val(p.value(t))
            p.need(",")
            p.need("label")
            a = p.next()
            p.need(",")
            p.need("label")
            b = p.next()
            o.append("if (%s if %s.__class__ is int else S.decide(%s)):" % (c, c, c))
            o += ["  " + x for x in self.goto(a)]
            o.append("else:")
            o += ["  " + x for x in self.goto(b)]
            return
        if op == "switch":
            t = p.type()
            v = self.val(p.value(t))
            p.need(",")
            p.need("label")
            d = p.next()
            p.need("[")
            first = True
            while not p.eat("]"):
                ct = p.type()
                c = p.value(ct)[1]
                p.need(",")
                p.need("label")
                tgt = p.next()
                o.append("%s (%s == %d if %s.__class__ is int else S.decide_eq(%s, %d, %d)):" % ("if" if first else "elif", v, c, v, v, c, t.w))
                o += ["  " + x for x in self.goto(tgt)]
                first = False
            if first:
                o += self.goto(d)
            else:
                o.append("else:")
                o += ["  " + x for x in self.goto(d)]
            return
        if op == "alloca":
            t = p.type()
            n = 1
            if p.eat(",") and p.kind() == "word" and re.fullmatch(r"i\d+", p.peek() or ""):
                nt = p.type()
                n = p.value(nt)[1]
            o.append("%s = S.alloca(%d)" % (dst, t.size * n))
            return
        if op == "load":
            atomic = p.eat("atomic")
            p.eat("volatile")
            t = p.type()
            p.need(",")
            p.type()
            a = self.val(p.value(PTR))
            o.append("%s = %s" % (dst, self.load(t, a)))
            return
        if op == "store":
            atomic = p.eat("atomic")
            p.eat("volatile")
            t = p.type()
            v = self.val(p.value(t))
            p.need(",")
            p.type()
            a = self.val(p.value(PTR))
            if t.kind in ("struct", "array"):
                o.append("S.store_agg(%s, %s, %s)" % (a, v, self.k(t)))
            elif atomic:
                o.append("S.store_atomic(%s, %d, %s, %r)" % (a, t.size, v, l))
            else:
                o.append("S.store(%s, %d, %s)" % (a, t.size, v))
            return
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.i += 1
            t = p.type()
            args = []
            while p.eat(","):
                at = p.type()
                args.append((at, p.value(at)))
            o.append("%s = %s" % (dst, self.gep_expr(t, args)))
            return
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            while p.kind() == "word" and p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.i += 1
            t = p.type()
            a = self.val(p.value(t))
            p.need(",")
            b = self.val(p.value(t))
            w = t.w
            fast = {"add": "(%s + %s) & %d", "sub": "(%s - %s) & %d", "mul": "(%s * %s) & %d"}.get(op)
            if fast:
                e = fast % (a, b, (1 << w) - 1)
            elif op in ("and", "or", "xor"):
                e = "%s %s %s" % (a, {"and": "&", "or": "|", "xor": "^"}[op], b)
            else:
                o.append("%s = S.bin(%r, %s, %s, %d)" % (dst, op, a, b, w))
                return
            o.append("%s = %s if %s.__class__ is int and %s.__class__ is int else S.bin(%r, %s, %s, %d)" % (dst, e, a, b, op, a, b, w))
            return
        if op == "icmp":
            while p.peek() == "samesign":
                p.i += 1
            c = p.next()
            t = p.type()
            a = self.val(p.value(t))
            p.need(",")
            b = self.val(p.value(t))
            w = 64 if t.kind == "ptr" else t.w
            pyop = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}.get(c)
            if pyop:
                o.append("%s = (1 if %s %s %s else 0) if %s.__class__ is int and %s.__class__ is int else S.icmp(%r, %s, %s, %d)" % (dst, a, pyop, b, a, b, c, a, b, w))
            else:
                o.append("%s = S.icmp(%r, %s, %s, %d)" % (dst, c, a, b, w))
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            self.fmf(p)
            t = p.type()
            a = self.val(p.value(t))
            p.need(",")
            b = self.val(p.value(t))
            o.append("%s = S.fbin(%r, %s, %s, %r)" % (dst, op, a, b, t.kind))
            return
        if op == "fneg":
            self.fmf(p)
            t = p.type()
            a = self.val(p.value(t))
            o.append("%s = -%s if %s.__class__ is float else X" % (dst, a, a))
            return
        if op == "fcmp":
            self.fmf(p)
            c = p.next()
            t = p.type()
            a = self.val(p.value(t))
            p.need(",")
            b = self.val(p.value(t))
            o.append("%s = S.fcmp(%r, %s, %s)" % (dst, c, a, b))
            return
        if op == "select":
            self.fmf(p)
            ct = p.type()
            c = self.val(p.value(ct))
            p.need(",")
            t = p.type()
            a = self.val(p.value(t))
            p.need(",")
            t2 = p.type()
            b = self.val(p.value(t2))
            w = t.w if t.kind == "int" else 0
            o.append("%s = (%s if %s else %s) if %s.__class__ is int else S.select(%s, %s, %s, %d)" % (dst, a, c, b, c, c, a, b, w))
            return
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "freeze", "addrspacecast"):
            while p.kind() == "word" and p.peek() in ("nneg", "nuw", "nsw"):
                p.i += 1
            self.fmf(p)
            t = p.type()
            a = self.val(p.value(t))
            if op == "freeze":
                o.append("%s = %s" % (dst, a))
                return
            p.need("to")
            t2 = p.type()
            if op == "ptrtoint":
                o.append("%s = S.p2i(%s)" % (dst, a))
            elif op == "inttoptr":
                o.append("%s = S.i2p(%s)" % (dst, a))
            elif op in ("zext", "trunc") and t.kind == "int":
                e = a if op == "zext" else "%s & %d" % (a, (1 << t2.w) - 1)
                o.append("%s = %s if %s.__class__ is int else S.cast(%r, %s, %d, %d)" % (dst, e, a, op, a, t.w, t2.w))
            else:
                o.append("%s = S.conv(%r, %s, %s, %s)" % (dst, op, a, self.k(t), self.k(t2)))
            return
        if op == "extractvalue":
            t = p.type()
            a = self.val(p.value(t))
            ix = ""
            while p.eat(","):
                ix += "[%s]" % p.next()
            o.append("%s = %s%s" % (dst, a, ix))
            return
        if op == "insertvalue":
            t = p.type()
            a = self.val(p.value(t))
            p.need(",")
            vt = p.type()
            v = self.val(p.value(vt))
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))
            o.append("%s = S.insertvalue(%s, %s, %r)" % (dst, a, v, ix))
            return
        if op == "fence":
            o.append("pass")
            return
        if op == "atomicrmw":
            p.eat("volatile")
            kind = p.next()
            p.type()
            a = self.val(p.value(PTR))
            p.need(",")
            t = p.type()
            v = self.val(p.value(t))
            o.append("%s = S.atomicrmw(%r, %s, %s, %d, %r)" % (dst or "_", kind, a, v, t.size, l))
            return
        if op == "cmpxchg":
            p.eat("weak")
            p.eat("volatile")
            p.type()
            a = self.val(p.value(PTR))
            p.need(",")
            t = p.type()
            c = self.val(p.value(t))
            p.need(",")
            t = p.type()
            n = self.val(p.value(t))
            o.append("%s = S.cmpxchg(%s, %s, %s, %d, %r)" % (dst or "_", a, c, n, t.size, l))
            return
        if op in ("call", "invoke"):
            self.fmf(p)
            # return attributes, type
            while p.kind() == "word" and not self.is_type(p):
                w = p.next()
                if p.peek() == "(":
                    p.skip_parens()
                elif w == "align" and p.kind() == "num":
                    p.i += 1
            rt = p.type()
            if p.peek() == "(":  # function type
                p.skip_parens()
            callee = p.value(PTR)
            p.need("(")
            args = []
            while not p.eat(")"):
                t = p.type()
                if t is VOID:
                    raise ValueError("void arg")
                p.attrs()
                args.append((t, self.val(p.value(t))))
                p.eat(",")
            al = ", ".join(a for _, a in args)
            if callee[0] == "g":
                name = callee[1]
                if name in self.m.funcs:
                    e = "F[%r](S%s)" % (name, ", " + al if al else "")
                else:
                    e = "S.ext(%r, [%s])" % (name, al)
            else:
                e = "S.icall(%s, [%s])" % (self.val(callee), al)
            o.append(e if dst is None else "%s = %s" % (dst, e))
            if op == "invoke":
                m2 = re.search(r'to label (%(?:"[^"]*"|[-\w.$]+))', l)
                o += self.goto(m2.group(1))
            return
        o.append("S.unsupported(%r)" % l)

    def is_type(self, p):
        v = p.peek()
        return v in ("void", "ptr", "float", "double") or re.fullmatch(r"i\d+", v) is not None

    def fmf(self, p):
        while p.kind() == "word" and p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc"):
            p.i += 1

    def load(self, t, a):
        if t.kind == "struct":
            return "[" + ", ".join(self.load(f, "S.gepc(%s, %d)" % (a, off)) for f, off in zip(t.fs, t.offs)) + "]"
        if t.kind == "array":
            return "[" + ", ".join(self.load(t.e, "S.gepc(%s, %d)" % (a, i * t.e.size)) for i in range(t.n)) + "]"
        return "S.load(%s, %d, %r)" % (a, t.size, t.kind if t.kind != "int" or t.w > 1 else "bool")


META = re.compile(r'(, ![-\w.]+ !\d+|, ![-\w.]+ !\{[^}]*\}| #\d+)')


def strip_meta(l):
    if "!" in l or "#" in l:
        # keep string constants intact: instructions have none
        l = META.sub("", l)
    return l
