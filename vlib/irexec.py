"""Symbolic executor for LLVM IR: 64-bit symbolic integers (z3 bit-vectors), object-granular memory, path forking.

Values: int (concrete), z3 BitVecRef / BoolRef (symbolic), float (concrete), X (unknown: data, undef), (Obj, offset)
for pointers, lists for aggregates."""
import math, os, pickle, struct, sys, time
import z3
from . import irparse

sys.setrecursionlimit(100000)


class Unknown:
    def __repr__(s):
        return "X"

    def __neg__(s):
        return s


X = Unknown()
M64 = (1 << 64) - 1


class PathEnd(Exception):
    pass


class Obj:
    __slots__ = ("id", "size", "mem", "kind", "epoch", "alive", "zero", "minsize", "name", "opaque", "arg")

    def __init__(s, id, size, kind, epoch, name="", zero=False, opaque=False):
        s.id, s.size, s.kind, s.epoch, s.name = id, size, kind, epoch, name
        s.mem, s.alive, s.zero, s.minsize, s.opaque, s.arg = {}, True, zero, 0, opaque, False

    def __repr__(s):
        return "<%s#%d %s>" % (s.kind, s.id, s.name)


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def away(x):
    """round half away from zero"""
    return math.copysign(math.floor(abs(x) + 0.5), x)


LIBM = {"@sin": math.sin, "@cos": math.cos, "@tan": math.tan, "@sqrt": math.sqrt, "@floor": math.floor, "@ceil": math.ceil, "@trunc": math.trunc, "@round": away,
        "@rint": round, "@nearbyint": round, "@roundeven": round, "@exp": math.exp, "@exp2": lambda x: 2.0 ** x, "@log": math.log, "@log2": math.log2, "@log10": math.log10,
        "@pow": math.pow, "@fmod": math.fmod, "@atan": math.atan, "@atan2": math.atan2, "@asin": math.asin, "@acos": math.acos, "@hypot": math.hypot, "@fabs": abs,
        "@sinh": math.sinh, "@cosh": math.cosh, "@tanh": math.tanh, "@cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "@copysign": math.copysign,
        "@maxnum": max, "@minnum": min, "@fmax": max, "@fmin": min, "@maximumnum": max, "@minimumnum": min}


class FTable(dict):
    def __init__(s, ex):
        s.ex = ex

    def __missing__(s, name):
        f = s.ex.compile(name)
        s[name] = f
        return f


class Program:
    """translated module, shared by all runs in this process"""

    def __init__(self, path):
        self.mod = irparse.Module(path)
        self.consts = []
        self.tr = irparse.Translator(self.mod, self.consts)
        self.F = FTable(self)

    def compile(self, name):
        if name not in self.mod.funcs:
            raise KeyError(name)
        src = self.tr.fn(name)
        ns = dict(F=self.F, X=X, K=self.consts)
        exec(compile(src, name[:60], "exec"), ns)
        return ns["f"]


class State:
    def __init__(self, prog, hooks, step_limit=4_000_000, max_paths=400, seconds=1e9):
        self.deadline, self.ending = time.time() + seconds, False
        self.prog, self.hooks = prog, hooks
        self.steps, self.limit = 0, step_limit
        self.max_paths = max_paths
        self.objs = {}
        self.nobj = 0
        self.globs = {}
        self.epoch = 0
        self.phase = 0
        self.solver = z3.Solver()
        self.solver.set("rlimit", 40_000_000)
        self.model = None
        self.syms = {}
        self.subst = []  # symbols with one value left on this path
        self.results = []
        self.pipe = None
        self.events = []
        self.called = set()
        self.npaths = 0
        self.queries = 0
        self.qtime = 0.0
        self.unknowns = 0
        self.opaque_branches = 0
        self.held = {}
        self.depth_forks = 0

    # ---- solver -------------------------------------------------------------------------------------------------
    def simp(self, e):
        return z3.simplify(z3.substitute(e, *self.subst)) if self.subst else z3.simplify(e)

    def check(self, *cs):
        t = time.time()
        if t > self.deadline and not self.ending:
            self.ending = True
            self.end("BUDGET", "time limit")
        r = self.solver.check(*cs)
        self.qtime += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def feasible(self, c):
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return True
        r = self.check(c)
        if r == z3.sat:
            self.model = self.solver.model()
        return r != z3.unsat

    def assume(self, c):
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def decide(self, c):
        """truth value of a condition on this path; forks when both are possible"""
        if c.__class__ is int:
            return c != 0
        if c is X:
            self.opaque_branches += 1
            return self.fork(None)
        if isinstance(c, z3.BitVecRef):
            c = c != 0
        c = self.simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        m = self.model
        t = self.feasible(c)
        mt = self.model
        self.model = m
        nc = z3.Not(c)
        f = self.feasible(nc)
        mf = self.model
        if t and not f:
            self.model = mt
            return True
        if f and not t:
            self.model = mf
            return False
        if not t and not f:
            raise PathEnd("infeasible")
        return self.fork(c, mt, mf)

    def decide_eq(self, v, c, w):
        if v is X:
            return self.decide(X)
        return self.decide(v == z3.BitVecVal(c, w))

    def fork(self, c, mt=None, mf=None):
        self.depth_forks += 1
        if self.npaths + self.depth_forks > self.max_paths:
            self.end("BUDGET", "too many paths")
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            if self.pipe is not None:
                os.close(self.pipe)
            self.pipe = w
            self.results = []
            self.queries = 0
            self.qtime = 0.0
            if c is not None:
                self.solver.add(z3.Not(c))
                self.model = mf
            return False
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if data:
            res, q, qt = pickle.loads(data)
            self.results += res
            self.queries += q
            self.qtime += qt
            self.npaths += len(res)
        else:
            self.results.append(dict(outcome="ERROR", detail="forked path died", findings=[]))
        if c is not None:
            self.solver.add(c)
            self.model = mt
        return True

    # ---- path ends ----------------------------------------------------------------------------------------------
    def end(self, outcome, detail=""):
        e = PathEnd(outcome)
        e.outcome, e.detail = outcome, detail
        raise e

    def budget(self):
        self.end("BUDGET", "step limit")

    def unsupported(self, what):
        self.end("UNSUPPORTED", str(what)[:200])

    def finish(self, outcome, detail):
        self.ending = True
        try:
            r = self.hooks.on_end(self, outcome, detail)
        except PathEnd:
            r = dict(outcome="ERROR", detail="on_end", findings=[])
        self.results.append(r)
        if self.pipe is not None:
            data = pickle.dumps((self.results, self.queries, self.qtime))
            p = 0
            while p < len(data):
                p += os.write(self.pipe, data[p:p + 65536])
            os.close(self.pipe)
            os._exit(0)
        return self.results

    def run(self, fn):
        try:
            try:
                self.prog.F[fn](self)
                out, det = "RETURN", ""
            except PathEnd as e:
                if str(e) == "infeasible":
                    out, det = "INFEASIBLE", ""
                else:
                    out, det = e.outcome, e.detail
            except RecursionError:
                out, det = "UNSUPPORTED", "recursion"
            except MemoryError:
                out, det = "UNSUPPORTED", "memory"
            except z3.Z3Exception as e:
                out, det = "UNSUPPORTED", "z3: %s" % e
            except (TypeError, ValueError, KeyError, AttributeError, IndexError, NotImplementedError) as e:
                import traceback
                out, det = "UNSUPPORTED", "executor: %s" % traceback.format_exc()[-500:]
            return self.finish(out, det)
        except BaseException:
            if self.pipe is not None:
                os._exit(1)
            raise

    # ---- memory -------------------------------------------------------------------------------------------------
    def new(self, size, kind, name="", **kw):
        return Obj(0, size, kind, self.epoch, name, **kw)

    def alloca(self, n):
        return (Obj(0, n, "stack", self.epoch), 0)

    def glob(self, name):
        g = self.globs.get(name)
        if g is not None:
            return g
        if name in self.prog.mod.funcs or name in self.prog.mod.decls:
            o = self.new(0, "fn", name)
            g = self.globs[name] = (o, 0)
            return g
        if name not in self.prog.mod.globals:
            self.unsupported("global " + name)
        t, val, const, tls = self.prog.mod.global_init(name)
        ep = self.epoch
        o = self.new(t.size, "tls" if tls else "const" if const else "global", name)
        o.epoch = 0
        g = self.globs[name] = (o, 0)
        if val is None:
            o.opaque = True
        else:
            self.init(o, 0, t, val)
        return g

    def init(self, o, off, t, v):
        k = v[0]
        if k == "c":
            if t.kind in ("float", "double"):
                o.mem[off] = (t.size, float(v[1]))
            else:
                o.mem[off] = (t.size, v[1])
        elif k == "s":
            for i, b in enumerate(v[1]):
                o.mem[off + i] = (1, b)
        elif k == "z":
            o.zero = True
        elif k == "u":
            pass
        elif k == "g":
            o.mem[off] = (8, self.glob(v[1]))
        elif k == "agg":
            if t.kind == "array":
                for i, (et, ev) in enumerate(v[1]):
                    self.init(o, off + i * t.e.size, et, ev)
            else:
                for (et, ev), fo in zip(v[1], t.offs):
                    self.init(o, off + fo, et, ev)
        elif k == "gep":
            args = v[2]
            p = self.glob(args[0][1][1])
            off2 = 0
            cur = v[1]
            for n, (it, iv) in enumerate(args[1:]):
                x = iv[1]
                if x >> (it.w - 1):
                    x -= 1 << it.w
                if n == 0:
                    off2 += x * cur.size
                elif cur.kind == "struct":
                    off2 += cur.offs[x]
                    cur = cur.fs[x]
                else:
                    off2 += x * cur.e.size
                    cur = cur.e
            o.mem[off] = (8, (p[0], off2))
        elif k == "inttoptr":
            o.mem[off] = (8, v[1][1])
        elif k == "ptrtoint":
            o.mem[off] = (8, self.p2i(self.glob(v[1][1])))
        else:
            self.unsupported("initializer " + k)

    def bounds(self, p, n):
        """-> (object, concrete or symbolic offset) after an in-bounds check"""
        if p.__class__ is not tuple:
            if p is X:
                self.unsupported("access through unknown pointer")
            if n.__class__ is int and n == 0:
                return None, 0
            if isinstance(p, z3.ExprRef):
                self.unsupported("access through symbolic address")
            self.end("UB", "access through invalid pointer 0x%x" % p)
        o, off = p
        if not o.alive:
            self.end("UB", "use after free")
        if o.kind == "fn":
            self.end("UB", "data access to a function")
        if off.__class__ is int and n.__class__ is int:
            e = off + n
            if off < 0:
                self.end("UB", "access %d bytes before %r" % (-off, o))
            if o.size.__class__ is int:
                if e > o.size:
                    self.end("UB", "out of bounds: offset %d+%d of %r (size %d)" % (off, n, o, o.size))
            elif e > o.minsize:
                if not self.decide(z3.UGE(o.size, z3.BitVecVal(e, 64))):
                    self.end("UB", "out of bounds: offset %d+%d of %r" % (off, n, o))
                o.minsize = e
            return o, off
        size = bv(o.size, 64)
        ob, nb = bv(off & M64 if off.__class__ is int else off, 64), bv(n, 64)
        if not self.decide(z3.And(z3.ULE(ob, size), z3.ULE(nb, size - ob))):
            self.end("UB", "out of bounds: symbolic offset/size in %r" % o)
        return o, off

    def on_write(self, o):
        if o.kind == "const":
            self.end("UB", "write to constant memory")
        if self.phase == 1 and o.epoch == 0 and not o.arg and o.kind != "tls" and not self.held:
            self.events.append(("shared-store", repr(o)))

    def load(self, p, n, kind):
        if p.__class__ is tuple:
            o, off = p
            if off.__class__ is int and o.alive and o.size.__class__ is int and 0 <= off and off + n <= o.size:
                e = o.mem.get(off)
                if e is not None and e[0] == n:
                    return self.view(e[1], n, kind)
            else:
                o, off = self.bounds(p, n)
        else:
            o, off = self.bounds(p, n)
        if o.kind == "slice":
            return X
        if off.__class__ is not int:
            if kind in ("double", "float") or o.opaque:
                return X
            v = self.simp(off)
            if z3.is_bv_value(v):
                off = v.as_long()
            else:
                off = self.concretize(v)
        e = o.mem.get(off)
        if e is not None and e[0] == n:
            return self.view(e[1], n, kind)
        return self.view(self.slow_load(o, off, n), n, kind)

    def concretize(self, v):
        """forks over the possible values of an expression"""
        for _ in range(4096):
            if self.check() != z3.sat:
                raise PathEnd("infeasible")
            x = self.solver.model().eval(v, model_completion=True).as_long()
            if self.decide(v == z3.BitVecVal(x, v.size())):
                return x
        self.unsupported("concretize")

    def view(self, v, n, kind):
        c = v.__class__
        if c is int:
            if kind == "double":
                return struct.unpack("<d", struct.pack("<Q", v))[0]
            if kind == "float":
                return struct.unpack("<f", struct.pack("<I", v))[0]
            if kind == "ptr":
                return self.i2p(v)
            return v
        if c is float:
            if kind == "int":
                return int.from_bytes(struct.pack("<d", v) if n == 8 else struct.pack("<f", v), "little")
            return v
        if c is tuple and kind == "int":
            return self.p2i(v)
        if kind == "bool" and isinstance(v, z3.BitVecRef):
            return z3.Extract(0, 0, v) == 1
        if kind == "int" and isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        return v

    def slow_load(self, o, off, n):
        if o.opaque:
            return X
        out = []
        i = 0
        while i < n:
            b = None
            for k in range(0, 16):
                e = o.mem.get(off + i - k)
                if e is not None and e[0] > k:
                    b = (e, k)
                    break
            if b is None:
                out.append(0 if o.zero else None)
                i += 1
                continue
            (sz, v), k = b
            if v.__class__ is int:
                out.append((v >> (8 * k)) & 255)
            elif v.__class__ is float:
                out.append((struct.pack("<d", v) if sz == 8 else struct.pack("<f", v))[k])
            elif isinstance(v, z3.BitVecRef) and v.size() == 8 * sz:
                out.append(z3.Extract(8 * k + 7, 8 * k, v))
            else:
                out.append(None)
            i += 1
        if any(b is None for b in out):
            return X
        if all(b.__class__ is int for b in out):
            return int.from_bytes(bytes(out), "little")
        return self.simp(z3.Concat(*[bv(b, 8) for b in reversed(out)])) if n > 1 else out[0]

    def clear(self, o, off, n):
        """removes what a store of n bytes at off overwrites, keeping the rest of partially overwritten entries"""
        mem = o.mem
        for k in range(off - 15, off + n):
            e = mem.get(k)
            if e is None or k + e[0] <= off:
                continue
            sz, v = e
            del mem[k]
            if v.__class__ is float:
                v = int.from_bytes(struct.pack("<d", v) if sz == 8 else struct.pack("<f", v), "little")
            for j in range(k, k + sz):
                if j < off or j >= off + n:
                    if v.__class__ is int:
                        mem[j] = (1, (v >> (8 * (j - k))) & 255)
                    elif isinstance(v, z3.BitVecRef) and v.size() == 8 * sz:
                        mem[j] = (1, z3.Extract(8 * (j - k) + 7, 8 * (j - k), v))
                    else:
                        mem[j] = (1, X)

    def store(self, p, n, v):
        o, off = self.bounds(p, n)
        if self.phase == 1 or o.kind == "const":
            self.on_write(o)
        if o.kind == "slice":
            return
        if off.__class__ is not int:
            s = self.simp(off)
            if z3.is_bv_value(s):
                off = s.as_long()
            elif v is X or v.__class__ is float:
                o.opaque = True
                o.mem = {}
                return
            else:
                off = self.concretize(s)
        if o.opaque and (v is X or v.__class__ is float):
            return
        e = o.mem.get(off)
        if e is None or e[0] != n:
            self.clear(o, off, n)
        o.mem[off] = (n, v)

    def store_agg(self, p, v, t):
        if t.kind == "struct":
            for x, f, off in zip(v, t.fs, t.offs):
                self.store_agg(self.gepc(p, off), x, f)
        elif t.kind == "array":
            for i, x in enumerate(v):
                self.store_agg(self.gepc(p, i * t.e.size), x, t.e)
        else:
            self.store(p, t.size, v)

    def copy(self, d, s, n):
        n = conc(n)
        if n.__class__ is int and n == 0:
            return
        so, soff = self.bounds(s, n)
        do, doff = self.bounds(d, n)
        if self.phase == 1 or do.kind == "const":
            self.on_write(do)
        if do.kind == "slice":
            return
        if n.__class__ is not int or soff.__class__ is not int or doff.__class__ is not int or so.opaque:
            do.opaque = True
            do.mem = {}
            return
        items = []
        if so.kind == "slice":
            items = [(i, (8, X)) for i in range(0, n - n % 8, 8)]
        elif n <= 4096:
            i = 0
            while i < n:
                e = so.mem.get(soff + i)
                if e is not None and i + e[0] <= n:
                    items.append((i, e))
                    i += e[0]
                else:
                    # byte-wise fallback where an entry starts before or ends after the range
                    b = self.slow_load(so, soff + i, 1)
                    if b is not X:
                        items.append((i, (1, b)))
                    i += 1
        else:
            items = [(k - soff, e) for k, e in so.mem.items() if soff <= k and k + e[0] <= soff + n]
        if n <= 4096:
            self.clear(do, doff, n)
        else:
            for k in [k for k, e in do.mem.items() if k + e[0] > doff and k < doff + n]:
                del do.mem[k]
        for i, e in items:
            do.mem[doff + i] = e

    def memset(self, d, b, n):
        n = conc(n)
        if n.__class__ is int and n == 0:
            return
        o, off = self.bounds(d, n)
        if self.phase == 1 or o.kind == "const":
            self.on_write(o)
        if o.kind == "slice":
            return
        if n.__class__ is not int or off.__class__ is not int:
            o.opaque = True
            o.mem = {}
            return
        self.clear(o, off, n)
        if b.__class__ is int and n % 8 == 0:
            w = int.from_bytes(bytes([b]) * 8, "little")
            for i in range(0, n, 8):
                o.mem[off + i] = (8, w)
        else:
            for i in range(n):
                o.mem[off + i] = (1, b)

    # ---- pointers -----------------------------------------------------------------------------------------------
    def gepc(self, p, k):
        if p.__class__ is tuple:
            off = p[1]
            if off.__class__ is int:
                return (p[0], off + k)
            return (p[0], off + z3.BitVecVal(k & M64, 64))
        if p is X:
            return X
        if p.__class__ is int:
            return (p + k) & M64
        return p + z3.BitVecVal(k & M64, 64)

    def gep(self, p, i, sz, w):
        if i.__class__ is int:
            if i >> (w - 1):
                i -= 1 << w
            return self.gepc(p, i * sz)
        if p is X or i is X:
            return X
        i = self.simp(bv(i, w))
        if z3.is_bv_value(i):
            return self.gepc(p, i.as_signed_long() * sz)
        if w < 64:
            i = z3.SignExt(64 - w, i)
        d = i * z3.BitVecVal(sz, 64)
        if p.__class__ is tuple:
            return (p[0], self.simp(bv(p[1] & M64 if p[1].__class__ is int else p[1], 64) + d))
        return bv(p, 64) + d

    def p2i(self, p):
        if p.__class__ is tuple:
            base = self.oid(p[0]) << 44
            if p[1].__class__ is int:
                return (base + p[1]) & M64
            return z3.BitVecVal(base, 64) + p[1]
        return p

    def oid(self, o):
        """address number of an object, given when its address is first looked at"""
        if not o.id:
            self.nobj += 1
            o.id = self.nobj
            self.objs[o.id] = o
        return o.id

    def i2p(self, v):
        if v.__class__ is int and v >= (1 << 44) - (1 << 40):
            i = (v + (1 << 40)) >> 44
            o = self.objs.get(i)
            if o is not None:
                return (o, v - (i << 44))
        return v

    # ---- arithmetic ---------------------------------------------------------------------------------------------
    def bin(self, op, a, b, w):
        if a is X or b is X:
            return X
        if a.__class__ is tuple:
            a = self.p2i(a)
        if b.__class__ is tuple:
            b = self.p2i(b)
        m = (1 << w) - 1
        if a.__class__ is int and b.__class__ is int:
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.end("UB", "division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == "sdiv" else sa - q * sb) & m
            if b >= w:
                return X
            if op == "shl":
                return (a << b) & m
            if op == "lshr":
                return a >> b
            return (sgn(a, w) >> b) & m
        if w == 1:
            A, B = tobool(a), tobool(b)
            if op == "and":
                return z3.And(A, B)
            if op == "or":
                return z3.Or(A, B)
            if op in ("xor", "add", "sub"):
                return z3.Xor(A, B)
            self.unsupported("i1 " + op)
        A, B = bv(a, w), bv(b, w)
        if op in ("udiv", "urem", "sdiv", "srem") and not z3.is_bv_value(B):
            if not self.decide(B != 0):
                self.end("UB", "division by zero")
        if self.phase == 1 and op in ("udiv", "urem") and z3.is_bv_value(B) and B.as_long():
            q = self.quotient(A, B.as_long(), w)
            if q is not None:
                return q if op == "udiv" else conc(self.simp(A - z3.BitVecVal(q * B.as_long(), w)))
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B,
             "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B), "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B),
             "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B}[op]()
        return conc(self.simp(r))

    def quotient(self, A, c, w, most=48):
        """A / c, one path per value, when there are few values; None otherwise"""
        A = self.simp(A)
        if z3.is_bv_value(A):
            return A.as_long() // c
        top = (most + 1) * c
        if top >> w or self.feasible(z3.UGE(A, z3.BitVecVal(top, w))):
            return None
        for q in range(most + 1):
            if self.decide(z3.ULT(A, z3.BitVecVal((q + 1) * c, w))):
                return q

    def icmp(self, c, a, b, w):
        if a is X or b is X:
            return X
        if a.__class__ is tuple or b.__class__ is tuple:
            if a.__class__ is tuple and b.__class__ is tuple and a[0] is b[0]:
                a, b = a[1], b[1]
                if a.__class__ is int and b.__class__ is int:
                    return 1 if {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[c] else 0
                a = a & M64 if a.__class__ is int else a
                b = b & M64 if b.__class__ is int else b
            else:
                a, b = self.p2i(a), self.p2i(b)
        if a.__class__ is int and b.__class__ is int:
            if c[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            return 1 if {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c if c in ("eq", "ne") else c[1:]] else 0
        if w == 1:
            A, B = tobool(a), tobool(b)
            if c == "eq":
                return A == B
            if c == "ne":
                return z3.Xor(A, B)
            A, B = bv(a, 1), bv(b, 1)
        else:
            A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B),
             "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B, "sge": lambda: A >= B}[c]()
        r = self.simp(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def select(self, c, a, b, w):
        if c is X:
            return a if self.decide(X) else b
        if w and a is not X and b is not X:
            if w == 1:
                return z3.If(c, tobool(a), tobool(b))
            return self.simp(z3.If(tobool(c), bv(a, w), bv(b, w)))
        return a if self.decide(c) else b

    def cast(self, op, a, w1, w2):
        if a is X:
            return X
        if a.__class__ is tuple:
            a = self.p2i(a)
            if a.__class__ is int:
                return a & ((1 << w2) - 1)
        if isinstance(a, z3.BoolRef):
            return a if w2 == 1 else z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        if op == "zext":
            return z3.ZeroExt(w2 - w1, a)
        r = self.simp(z3.Extract(w2 - 1, 0, a))
        return r == 1 if w2 == 1 else conc(r)

    def conv(self, op, a, t, t2):
        if a is X:
            return X
        if op == "sext":
            if a.__class__ is int:
                return sgn(a, t.w) & ((1 << t2.w) - 1)
            if isinstance(a, z3.BoolRef):
                return z3.If(a, z3.BitVecVal((1 << t2.w) - 1, t2.w), z3.BitVecVal(0, t2.w))
            return z3.SignExt(t2.w - t.w, a)
        if op in ("uitofp", "sitofp"):
            if a.__class__ is not int:
                return X
            x = a if op == "uitofp" else sgn(a, t.w)
            x = float(x)
            return x if t2.kind == "double" else f32(x)
        if op in ("fptoui", "fptosi"):
            if a.__class__ is not float:
                return X
            return int(a) & ((1 << t2.w) - 1)
        if op == "fpext":
            return a
        if op == "fptrunc":
            return f32(a) if a.__class__ is float else X
        if op == "bitcast":
            if t2.kind == "int" and a.__class__ is float:
                return self.view(a, t.size, "int")
            if t2.kind in ("float", "double") and a.__class__ is int:
                return self.view(a, t2.size, t2.kind)
            return a
        self.unsupported(op)

    def fbin(self, op, a, b, kind):
        if a.__class__ is not float or b.__class__ is not float:
            return X
        try:
            r = a + b if op == "fadd" else a - b if op == "fsub" else a * b if op == "fmul" else a / b if op == "fdiv" else math.fmod(a, b)
        except ZeroDivisionError:
            r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        except OverflowError:
            r = math.inf
        return r if kind == "double" else f32(r)

    def fcmp(self, c, a, b):
        if a.__class__ is not float or b.__class__ is not float:
            return X
        un = a != a or b != b
        if c == "ord":
            return 0 if un else 1
        if c == "uno":
            return 1 if un else 0
        if un:
            return 1 if c[0] == "u" else 0
        return 1 if {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c[1:]] else 0

    def insertvalue(self, a, v, ix):
        if a is X:
            self.unsupported("insertvalue into unknown")
        a = list(a)
        if len(ix) == 1:
            a[ix[0]] = v
        else:
            a[ix[0]] = self.insertvalue(a[ix[0]], v, ix[1:])
        return a

    # ---- atomics ------------------------------------------------------------------------------------------------
    def atomicrmw(self, kind, p, v, n, text):
        old = self.load(p, n, "int")
        w = 8 * n
        new = {"add": lambda: self.bin("add", old, v, w), "sub": lambda: self.bin("sub", old, v, w), "xchg": lambda: v,
               "and": lambda: self.bin("and", old, v, w), "or": lambda: self.bin("or", old, v, w), "xor": lambda: self.bin("xor", old, v, w)}.get(kind, lambda: X)()
        if kind == "xchg" and "release" in text:
            self.held.pop(self.key(p), None)
        elif kind in ("xchg", "or") and ("acquire" in text or "acq_rel" in text or "seq_cst" in text) and old.__class__ is int and old == 0:
            self.held[self.key(p)] = 1
        self.store_quiet(p, n, new)
        return old

    def key(self, p):
        return (self.oid(p[0]), p[1]) if p.__class__ is tuple and p[1].__class__ is int else None

    def store_quiet(self, p, n, v):
        ph, self.phase = self.phase, 0
        self.store(p, n, v)
        self.phase = ph

    def store_atomic(self, p, n, v, text):
        if "release" in text or "seq_cst" in text:
            self.held.pop(self.key(p), None)
        self.store_quiet(p, n, v)

    def cmpxchg(self, p, c, new, n, text):
        old = self.load(p, n, "int")
        eq = self.icmp("eq", old, c, 8 * n)
        if self.decide(eq):
            self.store_quiet(p, n, new)
            if "acquire" in text or "acq_rel" in text or "seq_cst" in text:
                self.held[self.key(p)] = 1
            return [old, 1]
        return [old, 0]

    # ---- calls --------------------------------------------------------------------------------------------------
    def icall(self, f, args):
        if f.__class__ is not tuple or f[0].kind != "fn":
            if f is X:
                self.unsupported("call through unknown pointer")
            self.end("UB", "call through invalid pointer")
        name = f[0].name
        if name in self.prog.mod.funcs:
            return self.prog.F[name](self, *args)
        return self.ext(name, args)

    def ext(self, name, args):
        if name.startswith("@llvm."):
            return self.intrinsic(name[6:], args)
        if name.startswith("@sym_"):
            return getattr(self, name[1:])(*args)
        if self.prog.mod.noreturn(name):
            if "panic_nounwind" in name or "panic_misaligned" in name or "panic_null" in name or "panic_cannot_unwind" in name:
                self.end("UB", "unsafe precondition violated")
            if "handle_alloc_error" in name:
                self.end("PANIC", "allocation failure")
            self.end("PANIC", short(name))
        if name.endswith("___rust_alloc") or name.endswith("___rust_alloc_zeroed"):
            return self.alloc(args[0], "zeroed" in name)
        if name.endswith("___rust_dealloc"):
            p = args[0]
            if p.__class__ is tuple:
                if p[0].kind != "heap" or not p[0].alive or p[1] != 0:
                    self.end("UB", "invalid free")
                p[0].alive = False
            return None
        if name.endswith("___rust_realloc"):
            old = args[0]
            new = self.alloc(args[3], False)
            a1, a3 = conc(args[1]), conc(args[3])
            n = min(a1, a3) if a1.__class__ is int and a3.__class__ is int else z3.If(z3.ULT(bv(a1, 64), bv(a3, 64)), bv(a1, 64), bv(a3, 64))
            ph, self.phase = self.phase, 0
            self.copy(new, old, n)
            self.phase = ph
            old[0].alive = False
            return new
        if "no_alloc_shim_is_unstable" in name:
            return None
        if name in ("@bcmp", "@memcmp"):
            return self.memcmp(*args)
        if name in ("@memcpy", "@memmove"):
            self.copy(args[0], args[1], args[2])
            return args[0]
        if name == "@memset":
            self.memset(args[0], args[1], args[2])
            return args[0]
        if name in LIBM or (name[-1] == "f" and name[:-1] in LIBM):
            return self.libm(LIBM.get(name) or LIBM[name[:-1]], name not in LIBM, args)
        if "3fmt6format12format_inner" in name:
            # a formatted message: its text is irrelevant here, an empty String (capacity, pointer, length) stands for it
            if self.phase == 1:
                self.events.append(("alloc", 16))
            for k, v in ((0, 0), (8, 1), (16, 0)):
                self.store(self.gepc(args[0], k), 8, v)
            return None
        if "2io5stdio6_print" in name or "2io5stdio7_eprint" in name:
            return None
        if "panic_count17is_zero_slow_path" in name:
            return 1
        if "4core3fmt" in name or "3std3fmt" in name:
            return 0
        if name == "@sincos":
            a = args[0]
            self.store(args[1], 8, math.sin(a) if a.__class__ is float else X)
            self.store(args[2], 8, math.cos(a) if a.__class__ is float else X)
            return None
        self.unsupported("external function " + name)

    def libm(self, f, single, args):
        if any(a.__class__ is not float for a in args):
            return X
        try:
            r = float(f(*args))
        except (ValueError, OverflowError):
            return X
        return f32(r) if single else r

    def alloc(self, n, zero):
        n = conc(n)
        if self.phase == 1:
            self.events.append(("alloc", n if n.__class__ is int else self.simp(n)))
        o = self.new(n, "heap", zero=zero)
        return (o, 0)

    def memcmp(self, a, b, n):
        n = conc(n)
        if n.__class__ is not int:
            return X
        for i in range(n):
            x, y = self.load(self.gepc(a, i), 1, "int"), self.load(self.gepc(b, i), 1, "int")
            if x.__class__ is not int or y.__class__ is not int:
                return X
            if x != y:
                return 1 if x > y else 0xFFFFFFFF
        return 0

    def intrinsic(self, name, a):
        base = name.split(".")[0]
        if base in ("lifetime", "invariant", "dbg", "donothing", "prefetch", "experimental"):
            return None
        if base == "assume":
            if not self.decide(a[0]):
                self.end("UB", "assumption violated")
            return None
        if base in ("memcpy", "memmove"):
            self.copy(a[0], a[1], a[2])
            return None
        if base == "memset":
            self.memset(a[0], a[1], a[2])
            return None
        if base == "expect":
            return a[0]
        if base == "trap":
            self.end("UB", "trap")
        if base == "threadlocal":
            return a[0]
        m = name.rsplit(".i", 1)
        w = int(m[1]) if len(m) == 2 and m[1].isdigit() else 64
        if ".with.overflow" in name:
            return self.overflow(name.split(".")[0], a[0], a[1], w)
        if base in ("umin", "umax", "smin", "smax"):
            c = self.icmp({"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[base], a[0], a[1], w)
            if c.__class__ is int:
                return a[0] if c else a[1]
            return self.select(c, a[0], a[1], w)
        if name.startswith("usub.sat"):
            c = self.icmp("ult", a[0], a[1], w)
            d = self.bin("sub", a[0], a[1], w)
            if c.__class__ is int:
                return 0 if c else d
            return self.select(c, 0, d, w)
        if name.startswith("uadd.sat"):
            r, c = self.overflow("uadd", a[0], a[1], w)
            if c.__class__ is int:
                return (1 << w) - 1 if c else r
            return self.select(c, (1 << w) - 1, r, w)
        if base == "ctpop":
            if a[0].__class__ is int:
                return bin(a[0]).count("1")
            if a[0] is X:
                return X
            e = z3.BitVecVal(0, w)
            for i in range(w):
                e = e + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0]))
            return e
        if base in ("cttz", "ctlz"):
            if a[0].__class__ is int:
                if a[0] == 0:
                    return w
                return (a[0] & -a[0]).bit_length() - 1 if base == "cttz" else w - a[0].bit_length()
            if a[0] is X:
                return X
            e = z3.BitVecVal(w, w)
            rng = range(w - 1, -1, -1) if base == "cttz" else range(w)
            for i in rng:
                e = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i if base == "cttz" else w - 1 - i, w), e)
            return e
        if base in ("fshl", "fshr", "bswap", "bitreverse"):
            if all(x.__class__ is int for x in a):
                if base in ("fshl", "fshr"):
                    k = a[2] % w
                    full = (a[0] << w) | a[1]
                    return (full >> (w - k)) & ((1 << w) - 1) if base == "fshl" else (full >> k) & ((1 << w) - 1)
                if base == "bswap":
                    return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
            return X
        if base == "abs":
            if a[0].__class__ is int:
                return abs(sgn(a[0], w)) & ((1 << w) - 1)
            return X
        if base == "powi":
            return self.libm(lambda x: x ** sgn(a[1], 32), ".f32" in name, a[:1]) if a[1].__class__ is int else X
        if "@" + base in LIBM:
            return self.libm(LIBM["@" + base], name.endswith("f32"), a)
        if base in ("fmuladd", "fma"):
            if all(x.__class__ is float for x in a):
                return a[0] * a[1] + a[2]
            return X
        if name.startswith("is.constant"):
            return 0
        if base in ("sadd", "ssub") and ".sat" in name:
            if a[0].__class__ is int and a[1].__class__ is int:
                v = sgn(a[0], w) + (sgn(a[1], w) if base == "sadd" else -sgn(a[1], w))
                return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, v)) & ((1 << w) - 1)
            return X
        if name.startswith("fptoui.sat") or name.startswith("fptosi.sat"):
            w = int(name.split(".")[2][1:])
            if a[0].__class__ is not float:
                return X
            if a[0] != a[0]:
                return 0
            lo, hi = (0, (1 << w) - 1) if "ui" in name else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            x = lo if a[0] < lo else hi if a[0] > hi else int(a[0])
            return x & ((1 << w) - 1)
        if base in ("ucmp", "scmp"):
            w = int(name.rsplit(".i", 1)[1])
            lt, gt = self.icmp(base[0] + "lt", a[0], a[1], w), self.icmp(base[0] + "gt", a[0], a[1], w)
            if lt.__class__ is int and gt.__class__ is int:
                return 255 if lt else 1 if gt else 0
            return z3.If(tobool(lt), z3.BitVecVal(255, 8), z3.If(tobool(gt), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        self.unsupported("intrinsic " + name)

    def overflow(self, op, a, b, w):
        m = (1 << w) - 1
        if a is X or b is X:
            return [X, 0]
        if a.__class__ is tuple:
            a = self.p2i(a)
        if b.__class__ is tuple:
            b = self.p2i(b)
        kind = op[1:]
        if a.__class__ is int and b.__class__ is int:
            if op[0] == "u":
                r = a + b if kind == "add" else a - b if kind == "sub" else a * b
                return [r & m, 1 if r < 0 or r > m else 0]
            x, y = sgn(a, w), sgn(b, w)
            r = x + y if kind == "add" else x - y if kind == "sub" else x * y
            return [r & m, 1 if r < -(1 << (w - 1)) or r >= (1 << (w - 1)) else 0]
        A, B = bv(a, w), bv(b, w)
        if op[0] == "u":
            if kind == "add":
                r = A + B
                o = z3.ULT(r, A)
            elif kind == "sub":
                r = A - B
                o = z3.ULT(A, B)
            else:
                r = A * B
                if a.__class__ is int or b.__class__ is int:
                    k, v = (a, B) if a.__class__ is int else (b, A)
                    o = z3.UGT(v, z3.BitVecVal(m // k, w)) if k else z3.BoolVal(False)
                else:
                    o = z3.Not(z3.BVMulNoOverflow(A, B, False))
        else:
            r = A + B if kind == "add" else A - B if kind == "sub" else A * B
            o = z3.Not({"add": lambda: z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)),
                        "sub": lambda: z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)),
                        "mul": lambda: z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))}[kind]())
        o = self.simp(o)
        return [conc(self.simp(r)), 1 if z3.is_true(o) else 0 if z3.is_false(o) else o]

    # ---- harness interface --------------------------------------------------------------------------------------
    def sym_param(self, i):
        return self.hooks.param(i)

    def sym_usize(self, i):
        if i not in self.syms:
            self.syms[i] = self.hooks.sym(self, i)
        return self.syms[i]

    def sym_slice(self, i, n):
        size = n * 8 if n.__class__ is int else self.simp(n * z3.BitVecVal(8, 64))
        o = self.new(size, "slice", "arg%d" % i)
        o.arg = True
        return (o, 0)

    def sym_note(self, what, a, b):
        self.hooks.note(self, what, a)

    def sym_assert(self, i, c):
        if not self.hooks.asserts:
            return
        ph, self.phase = self.phase, 0
        ok = self.decide(c)
        self.phase = ph
        if not ok:
            self.end("ASSERT", str(i))

    def sym_phase(self, p):
        self.phase = p
        if p == 1:
            self.epoch = 1
            self.hooks.begin(self)


def bv(x, w):
    if x.__class__ is int:
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def tobool(x):
    if x.__class__ is int:
        return z3.BoolVal(x != 0)
    if isinstance(x, z3.BitVecRef):
        return x != 0
    return x


def conc(x):
    if isinstance(x, z3.BitVecRef):
        if z3.is_bv_value(x):
            return x.as_long()
        return x
    return x


def sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def short(name):
    import re
    parts = re.findall(r"\d+([a-z_][a-z_0-9]+)", name)
    return "::".join(parts[-3:]) or name
