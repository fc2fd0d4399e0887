"""Which IR runs decide which property (engine S). Transforms are written like naive(5), b4, r4(64), mr(b3,b4), x2(b3),
rader(b4), split(b2,b4), probe(5) (an inner transform that only checks what it is handed; symbolic scratch needs)."""
import hashlib, re

BUTTERFLIES = [1, 2, 3, 4, 5, 6, 8, 9, 16]


def hash_of(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)


def isprime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))


def parse(s):
    """-> (postfix parameters, length)"""
    pos = 0

    def go():
        nonlocal pos
        m = re.compile(r"b(\d+)(?!\d|\()").match(s, pos)
        if m:
            pos = m.end()
            return [2, int(m.group(1))], int(m.group(1))
        m = re.compile(r"(naive|r4|probe|null)\((\d+)\)").match(s, pos)
        if m:
            pos = m.end()
            return [dict(naive=1, r4=3, probe=8, null=12)[m.group(1)], int(m.group(2))], int(m.group(2))
        m = re.compile(r"(mr|split|rader|x\d)\(").match(s, pos)
        if not m:
            raise ValueError(s[pos:])
        k = m.group(1)
        pos = m.end()
        args = [go()]
        while s[pos] == ",":
            pos += 1
            args.append(go())
        assert s[pos] == ")"
        pos += 1
        code = sum((a[0] for a in args), [])
        if k == "mr":
            return code + [4, 0], args[0][1] * args[1][1]
        if k == "split":
            return code + [6, 0], args[1][1] * 2
        if k == "rader":
            return code + [5, 0], args[0][1] + 1
        return code + [7, int(k[1])], args[0][1] * int(k[1])

    r = go()
    assert pos == len(s), s
    return r


def call(spec, entry, mode, chunks=4):
    code, n = parse(spec)
    m = max(1, (chunks + 1) * n - 1)
    v = {"0": [0, m], "2": [0, m], "1": [0, 1 << 36]}
    return dict(name=spec, entry=entry, fn="h_call", params=[dict(p=0, ip=1, oop=2)[entry]] + code + [0, 0], mode=mode, chunks=chunks, vars=v,
                few=sorted({0, 1, n // 2, max(n, 1) - 1, n, n + 1, 2 * n + 3}))


def trees(th):
    """transform shapes for the call properties"""
    t = ["b%d" % b for b in BUTTERFLIES]
    t += ["naive(%d)" % n for n in list(range(1, 14)) + [16, 17, 30, 64]]
    t += ["r4(%d)" % (1 << k) for k in range(0, 10 if not th else 13)]
    inn = {1: "b1", 2: "b2", 3: "b3", 4: "b4", 5: "b5", 6: "b6", 7: "naive(7)", 8: "b8", 9: "b9", 16: "b16", 10: "naive(10)", 11: "naive(11)", 12: "mr(b3,b4)", 15: "x3(b5)"}
    for w in (1, 2, 3, 4, 5, 6, 7, 8, 9):
        for h in (1, 2, 3, 4, 5, 6, 7, 8, 9):
            if th or (w <= 5 and h <= 5) or (w + h) % 3 == 0:
                t.append("mr(%s,%s)" % (inn[w], inn[h]))
    t += ["mr(naive(3),naive(4))", "mr(naive(4),b3)", "mr(b4,naive(3))", "mr(naive(6),naive(10))", "mr(naive(1),naive(1))", "mr(b16,naive(2))", "mr(naive(11),naive(13))",
          "mr(mr(b2,b3),mr(b3,b2))", "mr(x2(b3),rader(b4))", "mr(rader(b6),b2)", "mr(b2,rader(b6))", "mr(split(b1,b2),b3)", "mr(r4(16),naive(3))", "mr(naive(3),r4(64))",
          "mr(mr(b3,naive(5)),b2)", "mr(b2,mr(naive(5),b3))"]
    for r in (2, 3, 4, 5, 6):
        for h in range(1, 10 if not th else 17):
            for i in {inn.get(h, "naive(%d)" % h), "naive(%d)" % h}:
                t.append("x%d(%s)" % (r, i))
        t += ["x%d(mr(b2,b3))" % r, "x%d(rader(b4))" % r, "x%d(x2(b3))" % r, "x%d(r4(8))" % r, "x%d(split(b2,b4))" % r, "x%d(naive(20))" % r]
    for p in [x for x in range(2, 48 if not th else 110) if isprime(x)]:
        t.append("rader(naive(%d))" % (p - 1))
    t += ["rader(b%d)" % b for b in BUTTERFLIES if isprime(b + 1)]
    t += ["rader(mr(b3,b4))", "rader(x2(b5))", "rader(x3(b4))", "rader(split(b4,b8))", "rader(r4(16))", "rader(mr(b4,naive(7)))", "rader(x2(rader(b2)))", "rader(mr(naive(5),naive(6)))"]
    for q in range(1, 13 if not th else 33):
        t.append("split(naive(%d),naive(%d))" % (q, 2 * q))
    t += ["split(b%d,b%d)" % (b, 2 * b) for b in (1, 2, 3, 4, 8)]
    t += ["split(mr(b2,b3),mr(b3,b4))", "split(r4(16),r4(32))", "split(split(b2,b4),b16)", "split(rader(b4),x2(naive(5)))", "split(naive(5),x2(b5))", "split(x3(b3),mr(b2,b9))",
          "split(rader(b2),b6)", "split(split(b1,b2),split(b2,b4))"]
    t += ["x2(x3(x5(b2)))", "x4(mr(rader(b4),x2(b3)))", "rader(split(naive(9),mr(b2,b9)))", "mr(rader(b2),rader(b4))"]
    if th:
        t += ["x%d(x%d(b%d))" % (a, b, c) for a in (2, 3, 4, 5, 6) for b in (2, 3, 4, 5, 6) for c in (1, 2, 3)]
        t += ["mr(x%d(b2),rader(b%d))" % (a, b) for a in (2, 3, 4, 5, 6) for b in (2, 4, 6, 16)]
        t += ["naive(%d)" % n for n in (100, 128, 200)]
    return list(dict.fromkeys(t))


def probe_trees(th):
    t = []
    hs = list(range(1, 25)) + [32, 33, 64, 65, 100, 128, 129] if not th else list(range(1, 70)) + [100, 127, 128, 129, 256, 257]
    for w in range(1, 10) if not th else range(1, 17):
        for h in range(1, 10) if not th else range(1, 17):
            t.append("mr(probe(%d),probe(%d))" % (w, h))
    for r in (2, 3, 4, 5, 6):
        t += ["x%d(probe(%d))" % (r, h) for h in hs]
        t += ["x%d(x2(probe(3)))" % r, "x%d(mr(probe(2),probe(3)))" % r, "x%d(rader(probe(4)))" % r, "x%d(split(probe(2),probe(4)))" % r]
    t += ["mr(probe(%d),probe(%d))" % (w, h) for w, h in ((1, 40), (40, 1), (2, 33), (33, 2), (12, 12), (16, 11), (11, 16), (17, 5), (5, 17), (3, 64), (64, 3), (2, 128), (128, 2))]
    for p in [x for x in range(2, 102 if not th else 300) if isprime(x)] + [257]:
        t.append("rader(probe(%d))" % (p - 1))
    t += ["split(probe(%d),probe(%d))" % (q, 2 * q) for q in (list(range(1, 25)) + [32, 33, 64] if not th else range(1, 65))]
    t += ["mr(mr(probe(2),probe(3)),probe(4))", "mr(probe(4),mr(probe(2),probe(3)))", "mr(x2(probe(3)),x3(probe(2)))", "mr(rader(probe(2)),probe(4))", "mr(probe(4),rader(probe(6)))",
          "mr(split(probe(1),probe(2)),probe(3))", "mr(probe(3),split(probe(1),probe(2)))", "rader(mr(probe(2),probe(3)))", "rader(x2(probe(3)))", "rader(x6(probe(2)))",
          "rader(split(probe(4),probe(8)))", "split(mr(probe(2),probe(3)),mr(probe(3),probe(4)))", "split(x2(probe(2)),x4(probe(2)))", "split(rader(probe(4)),x5(probe(2)))",
          "split(split(probe(1),probe(2)),split(probe(2),probe(4)))", "x2(x3(x2(probe(3))))", "mr(probe(3),b4)", "mr(b4,probe(3))", "split(b4,probe(8))", "split(probe(4),b8)"]
    return list(dict.fromkeys(t))


def large_trees(th):
    """longer transforms around inner transforms that do nothing: the outer code's accesses are what is decided"""
    t = []
    for r in (2, 3, 4, 5, 6):
        t += ["x%d(null(%d))" % (r, h) for h in list(range(9, 65 if not th else 260)) + [96, 100, 127, 128, 129, 200, 255, 256, 257, 341, 512]]
    t += ["split(null(%d),null(%d))" % (q, 2 * q) for q in list(range(9, 80 if not th else 260)) + [96, 100, 127, 128, 129, 200, 255, 256, 257, 341, 512]]
    top = 16 if not th else 28
    t += ["mr(null(%d),null(%d))" % (w, h) for w in range(1, top + 1) for h in range(1, top + 1) if (w > 9 or h > 9)]
    t += ["mr(null(%d),null(%d))" % (w, h) for w, h in ((1, 100), (100, 1), (2, 256), (256, 2), (17, 31), (31, 17), (3, 333), (333, 3), (32, 32), (40, 25), (64, 20), (20, 64))]
    t += ["rader(null(%d))" % (p - 1) for p in range(48, 200 if not th else 700) if isprime(p)]
    t += ["rader(null(%d))" % (p - 1) for p in (241, 257, 331, 509, 577, 761, 1009, 1021)]
    t += ["naive(%d)" % n for n in list(range(14, 41)) + [50, 63, 64, 65, 100, 128, 129]] + (["naive(%d)" % n for n in (200, 255, 256, 257, 300)] if th else [])
    t += ["r4(1024)", "r4(2048)"] + (["r4(4096)", "r4(8192)"] if th else [])
    return list(dict.fromkeys(t))


def class_trees(th):
    """transforms whose scratch lengths are partitioned by path (C09)"""
    t = ["b%d" % b for b in BUTTERFLIES] + ["naive(1)", "naive(2)", "naive(3)", "naive(7)", "naive(12)", "r4(1)", "r4(2)", "r4(4)", "r4(8)", "r4(16)", "r4(64)"]
    t += ["mr(b1,b5)", "mr(b5,b1)", "mr(b2,b3)", "mr(b4,b4)", "mr(naive(3),naive(7))", "mr(b6,b5)"]
    t += ["x%d(%s)" % (r, i) for r in (2, 3, 4, 5, 6) for i in ("b1", "b2", "b3", "b4", "naive(7)")]
    t += ["split(b1,b2)", "split(b2,b4)", "split(b3,b6)", "split(b4,b8)", "split(naive(5),naive(10))"]
    t += ["rader(b1)", "rader(b2)", "rader(b4)", "rader(b6)", "rader(naive(10))", "rader(mr(b3,b4))", "x6(split(b4,b8))", "mr(x2(b3),rader(b4))", "split(x3(b2),mr(b3,b4))", "x5(rader(x3(b2)))",
          "mr(mr(b2,b3),mr(b3,b2))", "x3(x3(b2))", "rader(x2(rader(b4)))"]
    return t + (trees(False) if th else [])


def many_chunks(th):
    """(transform, chunk count bound) for long batches"""
    m = 40 if not th else 140
    t = [(s, m) for s in ("b1", "b2", "b3", "b4", "naive(1)", "naive(2)", "r4(2)", "r4(4)", "mr(null(1),null(2))", "rader(null(1))", "rader(null(2))", "split(null(1),null(2))",
                          "x2(null(1))", "x3(null(1))", "x4(null(1))", "x5(null(1))", "x6(null(1))")]
    t += [(s, m // 2) for s in ("b5", "b6", "b8", "b9", "b16", "naive(3)", "r4(8)", "mr(null(2),null(3))", "rader(null(4))", "split(null(2),null(4))", "x2(null(3))", "x3(null(2))",
                                "x4(null(2))", "x5(null(2))", "x6(null(2))")]
    return t


BIG = (1 << 64) - 1


def new(name, code, mode, length=None, vars=None, assume=None):
    vars = vars or {}
    return dict(name=name, fn="h_new", params=list(code) + [0, 0], mode=mode, chunks=0, vars={str(k): list(v) for k, v in vars.items()}, assume=assume,
                assume_vars=sorted(vars), length=length, steps=3_000_000, paths=3000)


def c14(th):
    j = []
    pow2 = "Or([v(20) == u(1 << k) for k in range(64)])"
    j.append(new("Radix4(any 64-bit length that is no power of two)", [10, 20], "newbad", vars={20: (0, BIG)}, assume="Not(%s)" % pow2))
    top = 11 if not th else 14
    sym = 8 if not th else 12
    j.append(new("Radix4(any power of two up to 2^%d)" % sym, [10, 20], "newgood", "v(20)", {20: (1, 1 << sym)}, pow2))
    j += [new("Radix4(2^%d)" % k, [3, 1 << k], "newgood", "u(%d)" % (1 << k)) for k in range(0, top + 2)]
    B = (1 << 60)
    j.append(new("SplitRadix(any q, any h != 2q)", [9, 20, 9, 21, 6, 0], "newbad", vars={20: (0, B), 21: (0, B)}, assume="v(21) != v(20) * u(2)"))
    j.append(new("Radix4(any length up to 200 that is no power of two)", [10, 20], "newbad", vars={20: (0, 200)}, assume="Not(%s)" % pow2))
    j.append(new("SplitRadix(any q <= 6, any h <= 20, h != 2q)", [9, 20, 9, 21, 6, 0], "newbad", vars={20: (0, 6), 21: (0, 20)}, assume="v(21) != v(20) * u(2)"))
    q = 24 if not th else 64
    j.append(new("SplitRadix(any q <= %d, 2q)" % q, [9, 20, 9, 21, 6, 0], "newgood", "v(20) * u(4)", {20: (1, q), 21: (1, 2 * q)}, "v(21) == v(20) * u(2)"))
    s = 8 if not th else 16
    for a in range(1, s + 1):
        j.append(new("MixedRadix(any w <= %d, %d)" % (s, a), [9, 20, 9, 21, 4, 0], "newgood", "v(20) * v(21)", {20: (1, s), 21: (a, a)}, None))
    h = 20 if not th else 60
    for r in (2, 3, 4, 5, 6):
        j.append(new("MixedRadix%dxn(any h <= %d)" % (r, h), [9, 20, 7, r], "newgood", "v(20) * u(%d)" % r, {20: (1, h)}, None))
    n = 40 if not th else 100
    j.append(new("DhtNaive(any n <= %d)" % n, [11, 20], "newgood", "v(20)", {20: (0, n)}, None))
    j += [new("Butterfly%d" % b, [2, b], "newgood", "u(%d)" % b) for b in BUTTERFLIES]
    lim = 600 if not th else 3000
    # squares and products of primes, pseudoprimes and Carmichael numbers minus one
    extra = [288, 360, 528, 560, 840, 960, 1104, 1728, 2464, 2820, 1330, 4095, 1023, 2046, 3480]
    extra += [p * q - 1 for p, q in ((29, 31), (31, 37), (41, 43), (61, 61), (71, 73), (97, 101), (101, 103), (127, 131), (199, 211), (251, 257), (257, 257), (541, 547), (1009, 1013))]
    extra += [n - 1 for n in (645, 1387, 1905, 2701, 3277, 4033, 4681, 6601, 8321, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 65281, 90751, 172081, 1373653)]
    for L in list(range(0, lim)) + extra:
        if isprime(L + 1):
            j.append(new("Rader(inner length %d)" % L, [12, L, 5, 0], "newgood", "u(%d)" % (L + 1)))
        else:
            j.append(new("Rader(inner length %d)" % L, [12, L, 5, 0], "newbad"))
    for L in (2, 4, 6, 10, 12, 16, 18, 256, 1008, 1020):
        j.append(new("Rader(naive %d)" % L, [1, L, 5, 0] if L < 300 else [12, L, 5, 0], "newgood", "u(%d)" % (L + 1)))
    for spec in trees(th):
        code, ln = parse(spec)
        j.append(new(spec, code, "newgood", "u(%d)" % ln))
    return j


ZERO = ["naive(0)", "mr(naive(0),b3)", "mr(b3,naive(0))", "mr(naive(0),naive(0))", "x2(naive(0))", "x3(naive(0))", "x4(naive(0))", "x5(naive(0))", "x6(naive(0))", "split(naive(0),naive(0))"]


def jobs(prop, th):
    E = ("p", "ip", "oop")
    if prop == "C14":
        return c14(th)
    mode = dict(C11="invalid", C12="valid", C13="probe", C16="valid", C18="valid")[prop]
    j = []
    if prop != "C13":
        for t in trees(th):
            n = parse(t)[1]
            ch = 8 if n <= 6 else 4 if n <= 80 else 2
            if th:
                ch = 16 if n <= 12 else 8 if n <= 80 else 4
            if prop == "C11":
                ch = min(ch, 4 if not th else 8)
            if prop in ("C16", "C18"):
                ch = 2 if not th else 4
            j += [call(t, e, mode, ch) for e in E]
    if prop in ("C11", "C13"):
        j += [call(t, e, mode, 2 if not th else 3) for t in probe_trees(th) for e in (E if prop == "C13" else ("ip", "oop"))]
    if prop in ("C11", "C12", "C18"):
        j += [call(t, e, mode, 1 if prop == "C18" else 2) for t in large_trees(th) for e in ("ip", "oop") if prop == "C12" or hash_of(t + e) % 3 == 0]
    if prop in ("C11", "C12", "C16", "C18"):
        j += [dict(call(t, e, mode, m), paths=2000) for t, m in many_chunks(th) for e in E]
    if prop == "C12":
        j += [call(t, e, mode, 2) for t in probe_trees(th) for e in ("ip", "oop")]
    if prop in ("C12", "C16", "C18"):
        j += [call(t, e, mode, 1) for t in ZERO for e in E]
    return j


EXPLAIN = dict(
    C11="Symbolic execution of the library's LLVM IR under the assumption that the buffer/output/scratch lengths are invalid; every feasible path must end in a panic. The solver decides which paths are feasible over all 64-bit lengths within the bounds.",
    C12="Symbolic execution of the library's LLVM IR (debug assertions and overflow checks on) under the assumption that all lengths are valid; no feasible path may panic, overflow, violate an unsafe precondition or access memory outside an object.",
    C13="Symbolic execution of the composite transforms around inner transforms with symbolic scratch requirements, given exactly the advertised scratch; the inner transforms assert what they are handed.",
    C14="Symbolic execution of the constructors over symbolic sizes: every feasible path on illegal sizes must panic, every path on legal sizes must return and report the documented length.",
    C16="Frame condition: on no feasible path of a valid call is there a non-atomic store (outside a held lock) to memory that existed before the call and is not one of its arguments, so concurrent calls cannot interfere.",
    C18="On no feasible path of a valid call with caller-provided scratch is an allocator function called; process() allocates exactly the advertised scratch, once.")
_C = "buffer and output lengths up to chunks+1 multiples of N minus one (chunks 2 to 8, thorough up to 16), scratch length up to 2^36, transform shapes as listed"
BOUNDS = dict(C11=_C, C12=_C, C13="scratch requirements of inner transforms up to 2^32, 1 or 2 chunks (thorough 3), inner lengths as listed", C16=_C, C18=_C,
              C14="Radix4: rejection for all 64-bit lengths, acceptance up to 2^11; SplitRadix rejection for all lengths up to 2^60; Rader inner lengths 0..230 and some larger; others as listed")
