"""Which symbolic runs decide which property (engine V)."""
import random

E64, E32 = "1e-9", "5e-4"
A64, A32 = repr(2.0 ** -40), repr(2.0 ** -12)
BUTTERFLIES = [1, 2, 3, 4, 5, 6, 8, 9, 16]
ENTRIES = ["p", "ip", "oop"]


def primes(n):
    return [p for p in range(2, n + 1) if all(p % d for d in range(2, int(p ** 0.5) + 1))]


def job(spec, prec=64, entry="p", eps=None, **kw):
    eps = eps or (E64 if prec == 64 else E32)
    s = "spec=%s prec=%d entry=%s eps=%s" % (spec, prec, entry, eps)
    for k, v in kw.items():
        s += " %s=%s" % (k, v)
    return s


def both(spec, entries=("ip", "oop"), f32=True, **kw):
    out = [job(spec, 64, e, **kw) for e in entries]
    if f32:
        out += [job(spec, 32, e, **kw) for e in entries]
    return out


def c01(thorough):
    j = []
    for b in BUTTERFLIES:
        for e in ENTRIES:
            j += [job("b%d" % b, 64, e), job("b%d" % b, 32, e), job("b%d" % b, 64, e, enc="ssa")]
            for x in (1, 3, b, 2 * b + 1):
                j.append(job("b%d" % b, 64, e, extra=x))
            for m in (2, 3, 4, 5, 7, 8):
                j.append(job("b%d" % b, 64, e, chunks=m))
                j.append(job("b%d" % b, 32, e, chunks=m))
        j.append(job("b%d" % b, 64, "ip", chunks=64))
        j.append(job("b%d" % b, 64, "oop", chunks=33))
        if thorough:
            for m in list(range(9, 40)) + [100, 128, 255, 257]:
                for e in ENTRIES:
                    j.append(job("b%d" % b, 64, e, chunks=m))
            for e in ENTRIES:
                j.append(job("b%d" % b, 32, e, enc="ssa"))
                j.append(job("b%d" % b, 64, e, enc="ssa", chunks=2))
    return j


def c02(thorough):
    j = []
    for n in list(range(1, 101)) + [105, 110, 120, 121, 125, 127, 128, 130, 144, 169, 200, 210, 225, 243, 255, 256, 257, 300, 343, 360, 400]:
        j += both("naive(%d)" % n, ("p", "ip", "oop") if n <= 32 else ("ip", "oop"), f32=n <= 128)
    for n in range(1, 9):
        j += [job("naive(%d)" % n, 64, e, enc="ssa") for e in ("ip", "oop")]
    for n in range(1, 21):
        for m in (2, 3, 4):
            j += [job("naive(%d)" % n, 64, e, chunks=m, extra=m % 3) for e in ENTRIES]
    for n in range(101, 512 if not thorough else 1100):
        j += [job("naive(%d)" % n, 64, e, sub=3) for e in ("ip", "oop")]
    for n in (512, 625, 720, 1000, 1023, 1024, 1025, 1500, 2048, 3000, 4097):
        j += [job("naive(%d)" % n, 64, e, sub=3) for e in ("ip", "oop")]
    if thorough:
        for n in range(101, 420):
            j += [job("naive(%d)" % n, 64, e) for e in ("ip", "oop")]
        for n in (500, 512, 640, 768):
            j += [job("naive(%d)" % n, 64, "oop")]
        for n in (1536, 2000, 2048, 2310, 3001, 4096, 5040):
            j += [job("naive(%d)" % n, 64, e, sub=3) for e in ("ip", "oop")]
        for n in range(9, 17):
            j += [job("naive(%d)" % n, 64, e, enc="ssa") for e in ("ip", "oop")]
    return j


def c03(thorough):
    j = []
    top = 24 if thorough else 16
    for w in range(1, top + 1):
        for h in range(1, top + 1):
            s = "mr(ideal(%d),ideal(%d))" % (w, h)
            j += both(s, f32=(w + h) % 3 == 0)
            if w * h <= 16:
                j.append(job(s, 64, "oop", enc="ssa"))
                j.append(job(s, 64, "ip", enc="ssa"))
    big = [(1, 64), (64, 1), (2, 50), (50, 2), (3, 64), (64, 3), (17, 19), (19, 17), (20, 21), (4, 81), (81, 4), (5, 60), (60, 5),
           (32, 8), (8, 32), (24, 16), (16, 24), (20, 20), (2, 128), (128, 2), (31, 7), (7, 31), (1, 127), (127, 1), (10, 33), (33, 10)]
    if thorough:
        big += [(32, 32), (27, 27), (25, 36), (36, 25), (2, 300), (300, 2), (3, 200), (200, 3), (7, 101), (101, 7), (30, 30), (23, 29), (17, 40), (40, 17)]
    for w, h in big:
        j += both("mr(ideal(%d),ideal(%d))" % (w, h), f32=False)
    for w, h in [(2, 3), (3, 2), (4, 6), (5, 5), (1, 7), (7, 1), (8, 3)]:
        for m in (2, 3):
            j += [job("mr(ideal(%d),ideal(%d))" % (w, h), 64, e, chunks=m, extra=m) for e in ("p", "ip", "oop")]
    top2 = 32 if not thorough else 56
    for w in range(1, top2 + 1):
        for h in range(1, top2 + 1):
            if max(w, h) > top:
                j += [job("mr(ideal(%d),ideal(%d))" % (w, h), 64, e, sub=3) for e in ("ip", "oop")]
    for w in (2, 3, 4, 5):
        for h in range(33, 160 if not thorough else 300):
            j.append(job("mr(ideal(%d),ideal(%d))" % (w, h), 64, ("ip", "oop")[h % 2], sub=3))
            j.append(job("mr(ideal(%d),ideal(%d))" % (h, w), 64, ("ip", "oop")[(h + w) % 2], sub=3))
    for a, b in [("r4(256)", "r4(128)"), ("r4(128)", "naive(100)"), ("naive(75)", "r4(256)"), ("naive(40)", "naive(60)"),
                 ("r4(512)", "r4(512)"), ("r4(2)", "r4(65536)"), ("r4(65536)", "r4(2)"), ("b9", "r4(16384)"), ("naive(129)", "naive(127)")]:
        j += [job("mr(%s,%s)" % (a, b), 64, e, sub=3) for e in ("ip", "oop")]
    return j


def c04(thorough):
    j = []
    top = 80 if thorough else 48
    for r in (2, 3, 4, 5, 6):
        for h in list(range(1, top + 1)) + [50, 54, 60, 64, 75, 81, 96, 100] + ([110, 120, 127, 128, 150, 180, 200, 243, 256] if thorough else [128]):
            s = "x%d(ideal(%d))" % (r, h)
            j += both(s, f32=h % 3 == 1 and h < 64)
            if r * h <= 16:
                j += [job(s, 64, e, enc="ssa") for e in ("ip", "oop")]
        for h in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
            for m in (2, 3):
                j += [job("x%d(ideal(%d))" % (r, h), 64, e, chunks=m, extra=m) for e in ("p", "ip", "oop")]
        for h in range(49, 260 if not thorough else 700):
            j.append(job("x%d(ideal(%d))" % (r, h), 64, ("ip", "oop")[(h + r) % 2], sub=3))
            if h < 130 or thorough:
                j.append(job("x%d(ideal(%d))" % (r, h), 64, ("ip", "oop")[(h + r + 1) % 2], sub=3))
        for inner in ("r4(1024)", "r4(8192)", "r4(32768)", "naive(333)", "naive(1001)", "mr(naive(99),naive(101))"):
            j += [job("x%d(%s)" % (r, inner), 64, e, sub=3) for e in ("ip", "oop")]
    return j


def c05(thorough):
    j = []
    for k in range(0, 11 if thorough else 10):
        n = 1 << k
        s = "r4(%d)" % n
        j += both(s, ("p", "ip", "oop") if k <= 8 else ("ip", "oop"), f32=k <= 8)
        if k <= 4:
            j += [job(s, 64, e, enc="ssa") for e in ("ip", "oop")]
        if k <= 6:
            for m in (2, 3, 4, 5):
                j += [job(s, 64, e, chunks=m, extra=m % 3) for e in ("p", "ip", "oop")]
        if 7 <= k <= 8:
            j += [job(s, 64, e, chunks=2) for e in ("ip", "oop")]
    for k in range(9, 20 if thorough else 18):
        n = 1 << k
        j += [job("r4(%d)" % n, 64, e, sub=3) for e in ("ip", "oop")]
        if k <= 12:
            j += [job("r4(%d)" % n, 32, e, sub=3) for e in ("ip", "oop")]
            j += [job("r4(%d)" % n, 64, e, sub=3, chunks=3) for e in ("ip", "oop")]
    return j


def c06(thorough):
    j = []
    top = 80 if thorough else 56
    for q in list(range(1, top + 1)) + [60, 64, 72, 81, 90, 96, 100] + ([120, 125, 127, 128, 160, 200] if thorough else []):
        s = "split(ideal(%d),ideal(%d))" % (q, 2 * q)
        j += both(s, f32=q <= 24)
        if q <= 4:
            j += [job(s, 64, e, enc="ssa") for e in ("ip", "oop")]
        if q <= 12:
            for m in (2, 3):
                j += [job(s, 64, e, chunks=m, extra=m) for e in ("p", "ip", "oop")]
    for q in range(57, 300 if not thorough else 700):
        j += [job("split(ideal(%d),ideal(%d))" % (q, 2 * q), 64, e, sub=3) for e in ("ip", "oop")]
    for k in (5, 6, 7, 8, 10, 12, 14) + ((16,) if thorough else ()):
        j += [job("split(r4(%d),r4(%d))" % (1 << k, 2 << k), 64, e, sub=3) for e in ("ip", "oop")]
    for q in (99, 150, 250, 333):
        j += [job("split(naive(%d),naive(%d))" % (q, 2 * q), 64, e, sub=3) for e in ("ip", "oop")]
    j += [job("split(mr(b9,r4(256)),x2(mr(b9,r4(256))))", 64, e, sub=3) for e in ("ip", "oop")]
    return j


def c07(thorough):
    j = []
    for p in primes(307 if thorough else 199):
        s = "rader(ideal(%d))" % (p - 1)
        j += both(s, f32=p < 72)
        if p <= 7:
            j += [job(s, 64, e, enc="ssa") for e in ("ip", "oop")]
        if p <= 31:
            for m in (2, 3):
                j += [job(s, 64, e, chunks=m, extra=m) for e in ("p", "ip", "oop")]
    for p in primes(1100 if not thorough else 2600):
        if p > 199:
            j += [job("rader(ideal(%d))" % (p - 1), 64, e, sub=3) for e in ("ip", "oop")]
    # primes whose least primitive root is large, and larger primes
    for s in ("rader(x6(x6(x6(x2(b5)))))", "rader(x6(x5(x4(naive(49)))))", "rader(x6(x6(x6(x2(x5(naive(17)))))))", "rader(mr(b9,r4(16384)))"):
        j += [job(s, 64, e, sub=3) for e in ("ip", "oop")]
    for p in (211, 241, 257, 331, 401, 419, 509, 577, 761, 911, 1009, 1021) + ((2017, 2039, 3001, 3571, 4001) if thorough else ()):
        j += [job("rader(naive(%d))" % (p - 1), 64, e, sub=3) for e in ("ip", "oop")]
    for s in ("rader(r4(256))", "rader(r4(65536))", "rader(split(x3(r4(1024)),x6(r4(1024))))", "rader(x3(r4(256)))", "rader(x6(naive(101)))",
              "rader(mr(x3(naive(10)),naive(337)))"):
        if s == "rader(split(x3(r4(1024)),x6(r4(1024))))":
            # 4*3*1024 + 1 = 12289 is prime
            pass
        if s == "rader(mr(x3(naive(10)),naive(337)))":
            continue
        j += [job(s, 64, e, sub=3) for e in ("ip", "oop")]
    return j


SMALL = {n: ["b%d" % n] for n in BUTTERFLIES}


def tree_len(s):
    """length of a spec string"""
    import re
    m = re.fullmatch(r"b(\d+)", s)
    if m:
        return int(m.group(1))
    m = re.fullmatch(r"(naive|ideal|r4)\((\d+)\)", s)
    if m:
        return int(m.group(2))
    head, rest = s.split("(", 1)
    args, d, cur = [], 0, ""
    for c in rest[:-1]:
        if c == "," and d == 0:
            args.append(cur)
            cur = ""
            continue
        d += c == "("
        d -= c == ")"
        cur += c
    args.append(cur)
    l = [tree_len(a) for a in args]
    if head == "mr":
        return l[0] * l[1]
    if head == "split":
        return 4 * l[0]
    if head == "rader":
        return l[0] + 1
    return int(head[1:]) * l[0]


def random_tree(rng, n, depth):
    """a random legal nesting of library transforms of length n"""
    opts = ["naive"]
    if n in BUTTERFLIES:
        opts += ["b", "b"]
    if n & (n - 1) == 0:
        opts += ["r4", "r4"]
    if depth > 0:
        for r in (2, 3, 4, 5, 6):
            if n % r == 0:
                opts += ["x%d" % r] * 2
        if n % 4 == 0:
            opts += ["split"] * 2
        divs = [d for d in range(1, n + 1) if n % d == 0]
        if len(divs) > 2:
            opts += ["mr"] * 3
        elif depth > 1:
            opts += ["mr"]
        if n >= 2 and all(n % d for d in range(2, int(n ** 0.5) + 1)):
            opts += ["rader"] * 4
    o = rng.choice(opts)
    if o == "b":
        return "b%d" % n
    if o in ("naive", "r4"):
        return "%s(%d)" % (o, n)
    if o == "split":
        return "split(%s,%s)" % (random_tree(rng, n // 4, depth - 1), random_tree(rng, n // 2, depth - 1))
    if o == "mr":
        d = rng.choice([d for d in range(1, n + 1) if n % d == 0])
        return "mr(%s,%s)" % (random_tree(rng, d, depth - 1), random_tree(rng, n // d, depth - 1))
    if o == "rader":
        return "rader(%s)" % random_tree(rng, n - 1, depth - 1)
    return "%s(%s)" % (o, random_tree(rng, n // int(o[1:]), depth - 1))


def leaves():
    return ["b%d" % b for b in BUTTERFLIES] + ["naive(7)", "r4(32)", "rader(b4)", "rader(b6)", "rader(naive(10))", "r4(2)", "naive(1)"]


def c08(thorough, seed=1):
    j = []
    ls = leaves()
    half = {"b1": "b2", "b2": "b4", "b3": "b6", "b4": "b8", "b8": "b16", "naive(7)": "x2(naive(7))", "r4(32)": "r4(64)", "b9": "x2(b9)", "b5": "naive(10)",
            "b6": "mr(b3,b4)", "b16": "r4(32)", "rader(b4)": "x2(rader(b4))"}
    for a in ls:
        for r in (2, 3, 4, 5, 6):
            j += [job("x%d(%s)" % (r, a), 64, e) for e in ("ip", "oop")]
        for b in ls:
            if tree_len(a) * tree_len(b) <= 150:
                j += [job("mr(%s,%s)" % (a, b), 64, e) for e in ("ip", "oop")]
        if a in half:
            j += [job("split(%s,%s)" % (a, half[a]), 64, e) for e in ("ip", "oop")]
    rng = random.Random(12345 + seed)
    n_trees = 2500 if thorough else 260
    for i in range(n_trees):
        n = rng.choice([rng.randint(1, 64), rng.randint(1, 240), 12 * rng.randint(1, 20), 1 << rng.randint(0, 7)])
        s = random_tree(rng, n, rng.randint(1, 4))
        j.append(job(s, 64, rng.choice(ENTRIES), chunks=rng.choice([1, 1, 1, 2, 3]) if n <= 64 else 1, extra=rng.choice([0, 0, 1, 7])))
        # worst-case f32 rounding bounds of nested Rader transforms exceed the tolerance: f32 only for at most one level
        if i % 3 == 0 and s.count("rader") <= 1:
            j.append(job(s, 32, rng.choice(ENTRIES)))
    for i in range(200 if thorough else 30):
        n = rng.choice([4096, 3600, 5040, 2048, 6561, 10000, 8192, 7920, 1296, 4093, 7919, 2310, 1024 * 15, 3125 * 4])
        while True:
            s = random_tree(rng, n, 5)
            if all(int(x) <= 400 for x in __import__("re").findall(r"naive\((\d+)\)", s)):
                break
        j.append(job(s, 64, rng.choice(("ip", "oop")), sub=3))
    return j


def transforms(big=False):
    """a spread of every transform type with contract-only inner transforms, small lengths"""
    t = ["b%d" % b for b in BUTTERFLIES]
    t += ["naive(%d)" % n for n in (1, 2, 3, 7, 12)]
    t += ["r4(%d)" % n for n in (1, 2, 4, 8, 16, 32, 64)]
    for r in (2, 3, 4, 5, 6):
        t += ["x%d(ideal(%d))" % (r, h) for h in (1, 2, 3, 4, 5, 7, 8, 11)]
    t += ["split(ideal(%d),ideal(%d))" % (q, 2 * q) for q in (1, 2, 3, 4, 5, 8, 9)]
    t += ["mr(ideal(%d),ideal(%d))" % (w, h) for w, h in ((1, 1), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (4, 4), (3, 7), (8, 4), (5, 6), (6, 5))]
    t += ["rader(ideal(%d))" % (p - 1) for p in (2, 3, 5, 7, 11, 13, 23)]
    if big:
        t += ["naive(%d)" % n for n in (20, 33, 48)] + ["r4(128)", "r4(256)"]
        t += ["x%d(ideal(%d))" % (r, h) for r in (2, 3, 4, 5, 6) for h in (13, 16, 20, 25)]
        t += ["split(ideal(%d),ideal(%d))" % (q, 2 * q) for q in (6, 7, 12, 16, 21, 32)]
        t += ["mr(ideal(%d),ideal(%d))" % (w, h) for w, h in ((9, 9), (12, 10), (10, 12), (16, 3), (3, 16), (7, 13))]
        t += ["rader(ideal(%d))" % (p - 1) for p in (29, 31, 37, 41, 61, 97)]
    return t


def nested():
    return ["x6(split(b4,b8))", "mr(x2(b3),rader(b4))", "split(x3(b2),mr(b3,b4))", "rader(mr(b3,b4))", "x5(rader(x3(b2)))", "mr(mr(b2,b3),mr(b3,b2))",
            "x4(r4(32))", "x3(x3(x3(b2)))", "x2(naive(9))", "split(rader(b6),naive(14))", "rader(x2(rader(b4)))", "mr(split(b1,b2),x5(b1))"]


def c09(thorough):
    j = []
    for s in transforms(thorough) + nested():
        n = tree_len(s)
        for e1, e2 in (("ip", "p"), ("oop", "p"), ("oop", "ip")):
            for x in sorted({0, 1, n, 2 * n + 3} | ({2, n - 1, n + 1, 3 * n, 64} if thorough else {n + 1})):
                if x < 0:
                    continue
                j.append(job(s, 64, e1, kind="agree", entry2=e2, extra=x))
        for e in ("ip", "oop"):
            for x in (0, 1, n, 2 * n + 3):
                j.append(job(s, 64, e, extra=x, pool=64))
                j.append(job(s, 64, e, extra=x, chunks=2))
            j.append(job(s, 32, e, extra=1, kind="agree", entry2="p"))
    for s in ("r4(1024)", "x3(r4(512))", "mr(r4(64),b9)", "split(r4(128),r4(256))", "rader(r4(256))", "naive(300)"):
        for e1, e2 in (("ip", "p"), ("oop", "p")):
            for x in (0, 1, 5000):
                j.append(job(s, 64, e1, kind="agree", entry2=e2, extra=x, sub=3))
    return j


def c10(thorough):
    j = []
    for s in transforms(thorough) + nested():
        n = tree_len(s)
        for e in ENTRIES:
            for m in (2, 3, 4) + ((5, 6, 7, 8) if thorough or n <= 16 else ()):
                if n * m <= 400:
                    j.append(job(s, 64, e, chunks=m, extra=m % 2))
        if n <= 12:
            for m in (9, 10, 15, 16, 17, 31, 32, 33) if (thorough or n <= 8) else (16, 17, 33):
                j.append(job(s, 64, ("ip", "oop")[m % 2], chunks=m))
                j.append(job(s, 64, ("oop", "ip")[m % 2], chunks=m))
        if n <= 6:
            for m in (64, 100) if not thorough else (63, 64, 65, 100, 127, 128, 129):
                j += [job(s, 64, e, chunks=m) for e in ("ip", "oop")]
        for m in (50, 257, 1000) + ((4099,) if thorough else ()):
            j += [job(s, 64, e, chunks=m, sub=3) for e in ("ip", "oop")]
        j.append(job(s, 32, "oop", chunks=2))
        j.append(job(s, 32, "ip", chunks=3))
    # every chunk count up to a bound, for one transform of each kind (a batch of m chunks is a loop of m iterations)
    kinds = ["b%d" % b for b in BUTTERFLIES] + ["naive(3)", "naive(7)", "r4(4)", "r4(8)", "r4(64)", "mr(ideal(2),ideal(3))", "split(ideal(1),ideal(2))", "split(ideal(2),ideal(4))",
             "rader(ideal(4))", "rader(ideal(6))"] + ["x%d(ideal(%d))" % (r, h) for r in (2, 3, 4, 5, 6) for h in (2, 3)]
    for s in kinds:
        for m in list(range(5, 101 if not thorough else 300)) + [127, 128, 129, 130, 255, 256, 258, 259, 260, 511, 512, 513, 1023, 1024, 1025, 2048]:
            j += [job(s, 64, e, chunks=m, sub=3) for e in ("ip", "oop")]
    for s in ("r4(1024)", "x3(r4(512))", "mr(r4(64),b9)", "split(r4(128),r4(256))", "rader(r4(256))", "naive(200)"):
        for m in (2, 3, 5):
            j += [job(s, 64, e, chunks=m, sub=3) for e in ENTRIES]
    return j


def c15(thorough):
    j = []

    def add(s, **kw):
        for e in ("ip", "oop"):
            j.append(job(s, 64, e, eps=A64, **kw))
            if not kw.get("sub"):
                j.append(job(s, 32, e, eps=A32, **kw))
    for b in BUTTERFLIES:
        add("b%d" % b)
    for n in list(range(1, 33)) + [48, 64, 100, 128, 200] + ([256, 300, 400] if thorough else []):
        add("naive(%d)" % n)
    for n in range(0, 10):
        add("r4(%d)" % (1 << n))
    for r in (2, 3, 4, 5, 6):
        for h in list(range(1, 25 if not thorough else 49)) + [32, 40, 48, 64]:
            add("x%d(ideal(%d))" % (r, h))
    for q in list(range(1, 25 if not thorough else 49)) + [32, 48, 64]:
        add("split(ideal(%d),ideal(%d))" % (q, 2 * q))
    for w in range(1, 11 if not thorough else 17):
        for h in range(1, 11 if not thorough else 17):
            add("mr(ideal(%d),ideal(%d))" % (w, h))
    for p in primes(101 if not thorough else 199):
        add("rader(ideal(%d))" % (p - 1))
    for s in nested():
        add(s)
    for s in ("r4(1024)", "r4(4096)", "r4(16384)", "r4(65536)", "x3(r4(4096))", "x6(r4(4096))", "x5(r4(4096))", "x2(r4(4096))", "x4(r4(4096))",
              "split(r4(2048),r4(4096))", "split(r4(8192),r4(16384))", "mr(r4(64),r4(64))", "mr(r4(128),naive(75))"):
        add(s, sub=3)
    return j


def c16(thorough):
    j = []
    for s in transforms(thorough) + nested():
        for e in ENTRIES:
            j.append(job(s, 64, e, kind="hist"))
        j.append(job(s, 64, "ip", kind="hist", chunks=2))
        j.append(job(s, 32, "oop", kind="hist", extra=3))
        if "ideal" in s:
            for e in ENTRIES:
                j.append(job(s, 64, e, kind="reent"))
            j.append(job(s, 64, "oop", kind="reent", chunks=2))
            j.append(job(s, 64, "ip", kind="reent", chunks=2))
    for s in ("x3(mr(ideal(2),ideal(3)))", "mr(x2(ideal(3)),split(ideal(1),ideal(2)))", "rader(x2(ideal(5)))", "split(x3(ideal(2)),mr(ideal(3),ideal(4)))"):
        for e in ENTRIES:
            j.append(job(s, 64, e, kind="reent"))
    return j


def c17(thorough):
    j = []
    for s in transforms(True) + nested():
        for e1, e2 in (("ip", "ip"), ("oop", "oop"), ("ip", "oop"), ("oop", "ip"), ("p", "oop")):
            j.append(job(s, 64, e1, kind="inv", entry2=e2, pw=2))
        j.append(job(s, 64, "oop", kind="inv", entry2="ip", pw=2, chunks=2))
    for s in ("r4(1024)", "r4(8192)", "x3(r4(1024))", "mr(r4(64),naive(81))", "split(r4(512),r4(1024))", "rader(r4(256))", "x5(r4(1024))"):
        for e1, e2 in (("ip", "oop"), ("oop", "ip")):
            j.append(job(s, 64, e1, kind="inv", entry2=e2, pw=2, sub=3))
    if thorough:
        for n in range(1, 150):
            j.append(job("naive(%d)" % n, 64, "oop", kind="inv", entry2="ip", pw=2))
        for r in (2, 3, 4, 5, 6):
            for h in range(1, 40):
                j.append(job("x%d(ideal(%d))" % (r, h), 64, "oop", kind="inv", entry2="ip", pw=2))
    return j


CATALOG = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C15=c15, C16=c16, C17=c17)
