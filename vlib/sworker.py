"""IR worker (python3-vt): argv[1] = linked LLVM IR; reads one JSON job per line, answers one JSON line.

job: fn, params, mode (valid | invalid | probe | new), entry, chunks, vars {id: [lo, hi]}, legal (python expression), steps, paths
"""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vlib import irexec

SLEN_MAX = 1 << 32


def u64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


class Hooks:
    def __init__(self, job):
        self.j = job
        self.notes = {}
        self.asserts = job["mode"] != "invalid"
        self.small = []  # preferences for sample models

    def param(self, i):
        if not isinstance(i, int):
            raise NotImplementedError("symbolic parameter index")
        p = self.j["params"]
        return p[i] if i < len(p) else 0

    def sym(self, st, i):
        lo, hi = self.j["vars"].get(str(i), [0, SLEN_MAX])
        if lo == hi:
            return lo
        v = z3.BitVec("v%d" % i, 64)
        st.solver.add(z3.UGE(v, u64(lo)), z3.ULE(v, u64(hi)))
        if self.j.get("reduced") and 10 <= i < 20 and self.j.get("few"):
            st.solver.add(z3.Or([v == u64(k) for k in self.j["few"]]))
        st.model = None
        st.syms[i] = v
        a = self.j.get("assume")
        if a and all(k in st.syms for k in self.j["assume_vars"]):
            st.solver.add(eval(a, self.env(st)))
        return v

    def env(self, st):
        return dict(z3=z3, v=lambda i: u64(st.syms[i]), u=u64, Or=z3.Or, And=z3.And, Not=z3.Not, URem=z3.URem, ULE=z3.ULE)

    def note(self, st, what, a):
        self.notes[what] = a

    def begin(self, st):
        """all arguments are known: restrict to the calls this job is about"""
        j = self.j
        n, req = self.notes[1], self.notes[2]
        b, s, o = (st.syms.get(k) for k in (0, 1, 2))
        n_, b_ = u64(n), u64(b)
        c = []
        if isinstance(n, int) and n == 0:
            ok = b_ == 0
        else:
            # 1 <= multiples <= chunks (the buffer lengths are bounded by chunks + 1 multiples)
            ok = z3.Or([b_ == (u64(n * m) if isinstance(n, int) else n_ * u64(m)) for m in range(1, j["chunks"] + 1)])
        if o is not None:
            ok = z3.And(ok, u64(o) == b_)
        if s is not None:
            ok = z3.And(ok, (u64(s) == u64(req)) if j["mode"] == "probe" else z3.UGE(u64(s), u64(req)))
        if s is not None and j.get("reduced"):
            rq = u64(req)
            st.assume(z3.Or([u64(s) == rq + u64(k) for k in j["few"]] + [u64(s) == rq - 1, u64(s) == 0]))
        st.assume(z3.simplify(z3.Not(ok) if j["mode"] == "invalid" else ok))
        st.model = None
        r = st.check()
        if r == z3.unsat:
            st.end("INFEASIBLE", "no such call")
        if j["mode"] != "invalid" and isinstance(n, int) and n and not isinstance(b, int):
            # one path per number of multiples
            for m in range(1, j["chunks"] + 1):
                if st.decide(b_ == u64(n * m)):
                    st.subst = [(x, u64(n * m)) for x in (b, o) if x is not None and not isinstance(x, int)]
                    break
        if s is not None:
            self.small.append(z3.ULE(u64(s), u64(req) + 3))
        self.small.append(z3.ULE(b_, n_ * 2))
        if not isinstance(req, int):
            self.small.append(z3.ULE(req, u64(1 << 16)))

    def values(self, st, extra=()):
        """a model of this path, small when possible; None when the path with `extra` is infeasible"""
        small = list(self.small)
        for v in st.syms.values():
            if not isinstance(v, int):
                small.append(z3.ULE(v, u64(1 << 20)))
        if st.check(*extra) != z3.sat:
            return None
        m = st.solver.model()
        keep = list(extra)
        for c in small:
            if st.check(*keep, c) == z3.sat:
                keep.append(c)
                m = st.solver.model()
        out = {}
        for i, v in st.syms.items():
            out[str(i)] = v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()
        return out

    def on_end(self, st, outcome, detail):
        j = self.j
        r = dict(outcome=outcome, detail=detail, steps=st.steps, opaque=st.opaque_branches, phase=st.phase)
        if outcome == "INFEASIBLE":
            return r
        r["notes"] = {str(k): (v if isinstance(v, int) else None) for k, v in self.notes.items()}
        bad = None
        extra = []
        if j["mode"] in ("newgood", "newbad"):
            if j["mode"] == "newbad":
                if outcome == "RETURN" or outcome == "UB" or (outcome == "PANIC" and st.phase == 3):
                    bad = "constructed although the size is illegal (%s)" % outcome
            elif outcome == "RETURN":
                length = eval(j["length"], self.env(st))
                r["values"] = self.values(st, [u64(self.notes[1]) != u64(length)])
                bad = "reports the wrong length" if r["values"] else None
            elif outcome in ("PANIC", "UB", "ASSERT"):
                bad = "%s %s on a legal size" % (outcome, detail)
        elif j["mode"] == "invalid":
            if outcome in ("RETURN", "UB", "ASSERT"):
                bad = "does not panic (%s %s)" % (outcome, detail)
        else:
            if outcome in ("PANIC", "UB", "ASSERT"):
                bad = "%s %s" % (outcome, detail)
        ev = {}
        for k, what in st.events:
            ev.setdefault(k, []).append(what)
        if ev.get("shared-store"):
            r["shared"] = sorted(set(ev["shared-store"]))[:4]
        if outcome == "RETURN" and ev.get("alloc"):
            r["allocs"] = [x if isinstance(x, int) else str(x) for x in ev["alloc"]]
        if ("values" not in r or r["values"] is None) and time.time() < st.deadline + 10:
            r["values"] = self.values(st)
        if j.get("alt") and outcome == "RETURN" and r.get("values") and not isinstance(st.syms.get(1, 0), int):
            # further members of this path's class of scratch lengths
            r["alt"] = []
            sv, s0 = st.syms[1], r["values"]["1"]
            for lo, hi in ((s0 + 1, s0 + 9), (s0 + 10, s0 + 400), (s0 + 401, 1 << 14)):
                v = self.values(st, [z3.UGE(sv, u64(lo)), z3.ULE(sv, u64(hi))]) if lo <= hi else None
                if v:
                    r["alt"].append(v)
        r["bad"] = bad
        return r


def main():
    prog = irexec.Program(sys.argv[1])
    for line in sys.stdin:
        j = json.loads(line)
        t = time.time()
        st = irexec.State(prog, Hooks(j), step_limit=j.get("steps", 400_000), max_paths=j.get("paths", 300), seconds=j.get("seconds", 60))
        try:
            res = st.run("@" + j["fn"])
            out = dict(paths=res, queries=st.queries, qtime=round(st.qtime, 3), wall=round(time.time() - t, 3), functions=len(prog.F), unknowns=st.unknowns)
        except Exception as e:
            import traceback
            out = dict(error=traceback.format_exc()[-800:])
        print(json.dumps(out), flush=True)


main()
