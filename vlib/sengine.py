"""Engine S: executes the library's LLVM IR symbolically (sworker.py, python3-vt) and decides the length, bounds, scratch,
constructor, sharing and allocation contracts."""
import collections, glob, hashlib, json, os, queue, random, re, resource, select, shutil, subprocess, threading, time
from . import common, irparse, scatalog

CRATE = os.path.join(common.VERIF, "irh")
PROPS = ("C11", "C12", "C13", "C14", "C16", "C18")
PASSES = "internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce"


def tools():
    s = subprocess.run(["rustc", "--print", "sysroot"], env=common.env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    return glob.glob(os.path.join(s, "lib/rustlib/*/bin"))[0]


def std_ir(linked):
    """bitcode of core's and alloc's non-generic functions (the precompiled library has no IR), with the symbol names `linked` uses; None if it cannot be had"""
    ver = subprocess.run(["rustc", "-vV"], env=common.env(), stdout=subprocess.PIPE, text=True).stdout
    d = os.path.join(common.BUILD, "stdir." + hashlib.sha256(ver.encode()).hexdigest()[:12])
    out = os.path.join(d, "std.bc")
    if os.path.exists(out):
        return out
    if os.path.exists(os.path.join(d, "failed")):
        return None
    os.makedirs(d, exist_ok=True)
    t = tools()
    src = os.path.join(t.split("/lib/rustlib/")[0], "lib/rustlib/src/rust/library")
    text = open(linked).read()
    procs = []
    for c in ("core", "alloc"):
        cmd = ["rustc", "--crate-name", c, os.path.join(src, c, "src/lib.rs"), "--crate-type", "lib", "--emit=llvm-ir", *"-C panic=abort -C codegen-units=1 -C debuginfo=0 -C opt-level=2 -C no-prepopulate-passes -C debug-assertions=off -C overflow-checks=off -Zforce-unstable-if-unmarked --cap-lints allow --edition 2024".split(), "-o", os.path.join(d, "%s.%d.raw.ll" % (c, os.getpid()))]
        procs.append((c, cmd[-1], subprocess.Popen(cmd, env=dict(common.env(), RUSTC_BOOTSTRAP="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    lls = []
    for c, f, p in procs:
        p.wait()
        pat = r"Cs([A-Za-z0-9]+)_%d%s(?![a-z_])" % (len(c), c)
        want = collections.Counter(re.findall(pat, text)).most_common(1)
        if p.returncode or not want:
            continue
        s = open(f).read()
        os.remove(f)
        own = [h for h, _ in collections.Counter(re.findall(pat, s)).most_common() if len(h) == len(want[0][0])]
        for h in own:
            s = s.replace(h, want[0][0])
        lls.append(f.replace(".raw", ""))
        open(lls[-1], "w").write(s)
    tmp = out + ".%d" % os.getpid()
    if len(lls) == 2 and subprocess.run([os.path.join(t, "llvm-link"), *lls, "-o", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        os.replace(tmp, out)
    else:
        open(os.path.join(d, "failed"), "w").close()
    for f in lls:
        os.remove(f)
    return out if os.path.exists(out) else None


def needs_std(ll):
    """does the IR call precompiled functions of core or alloc other than panics and formatting?"""
    m = irparse.Module(ll)
    return any(("_4core" in n or "_5alloc" in n) and not m.noreturn(n) and "3fmt" not in n for n in m.decls)


def build_ir(dbg):
    onoff = "on" if dbg else "off"
    fl = ("--emit=llvm-ir -C panic=abort -C codegen-units=1 -C debuginfo=0 -C opt-level=2 -C no-prepopulate-passes "
          "-C debug-assertions=%s -C overflow-checks=%s" % (onoff, onoff))
    d, secs = common.cargo_build(CRATE, "ir" + onoff, dict(RUSTFLAGS=fl), args=("--lib",))
    out = os.path.join(d, "final.ll")
    if not os.path.exists(out):
        t = tools()
        lls = sorted(glob.glob(os.path.join(d, "debug/deps/*.ll")))
        tmp = os.path.join(d, "linked.ll")
        def sh(cmd, must=True):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode and must:
                raise common.BuildError("%s failed: %s" % (cmd[0], p.stdout[-2000:]))
            return p.returncode == 0
        sh([os.path.join(t, "llvm-link"), "-S", *lls, "-o", tmp])
        def opt(src):
            sh([os.path.join(t, "opt"), "-S", "-passes=" + PASSES, "--internalize-public-api-list=h_new,h_call", src, "-o", out + ".tmp"])
        opt(tmp)
        if needs_std(out + ".tmp"):
            std = std_ir(tmp)
            if std and sh([os.path.join(t, "llvm-link"), "-S", "--only-needed", tmp, std, "-o", tmp + ".std"], False):
                opt(tmp + ".std")
        os.replace(out + ".tmp", out)
    return out, secs


def build_native(dbg):
    d, secs = common.cargo_build(CRATE, "irh" + ("d" if dbg else "r"), args=() if dbg else ("--release",))
    return os.path.join(d, "debug" if dbg else "release", "irh"), secs


def build():
    return build_ir(True), build_ir(False), build_native(True), build_native(False)


class Worker:
    def __init__(self, ll):
        self.p = subprocess.Popen(["python3-vt", os.path.join(common.VERIF, "vlib", "sworker.py"), ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, start_new_session=True)

    def run(self, job, timeout):
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
        except OSError:
            return None, "died"
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None, "timeout"
        l = self.p.stdout.readline()
        if not l:
            self.p.wait()
            return None, "died (status %s)" % self.p.returncode
        return json.loads(l), None

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
            self.p.wait()
        except OSError:
            pass


def native(exe, job, values, align=0, ro=False, timeout=20):
    """-> (kind, text): RETURN, PANIC (in or before the call: phase), ASSERT, UB, HANG, NOMEM"""
    cmd = [exe, job["fn"], str(align)] + [str(x) for x in job["params"]] + [";"] + ["%s=%d" % kv for kv in sorted(values.items())]
    e = common.env()
    if job["mode"] == "invalid":
        e["IRH_NOASSERT"] = "1"
    if ro:
        e["IRH_RO"] = "1"
    # an accepted illegal size may ask for any amount of memory
    lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))) if job["fn"] == "h_new" else None
    try:
        p = subprocess.run(cmd, env=e, preexec_fn=lim, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "HANG", "no answer in %d s" % timeout, cmd
    o = p.stdout
    if p.returncode == 9:
        return "NOMEM", o, cmd
    if p.returncode == 0 and "RETURNED" in o:
        return "RETURN", o, cmd
    if p.returncode == 101:
        return "PANIC", o, cmd
    if p.returncode == 7:
        return "ASSERT", o, cmd
    return "UB", "status %d %s" % (p.returncode, o), cmd


def fact(o, key):
    m = re.search(r"^%s (\d+)(?: (\d+))?" % key, o, re.M)
    return (int(m.group(1)), int(m.group(2) or 0)) if m else (None, None)


def judge(prop, job, values, exe):
    """runs one concrete call natively; returns a description when it breaks the property, else None"""
    seen = []
    for align in (0, 1) if job["fn"] == "h_call" else (0,):
        kind, o, cmd = native(exe, job, values, align)
        seen.append(kind)
        o1 = o.strip().replace("\n", "; ")[-300:]
        if kind == "NOMEM":
            continue
        mode = job["mode"]
        if mode in ("invalid", "newbad"):
            if kind != "PANIC" or (mode == "newbad" and "NOTE 1" in o):
                return "expected a panic, got %s: %s" % (kind, o1), cmd, seen
        elif prop == "C18":
            if kind == "RETURN":
                n, b = fact(o, "ALLOCS")
                req = fact(o, "NOTE 2")[0]
                if job["params"][0] != 0 and n:
                    return "%d heap allocations (%d bytes) in a call with caller-provided scratch" % (n, b), cmd, seen
                if job["params"][0] == 0 and (n > 1 or b != 8 * req):
                    return "%d heap allocations, %d bytes, where the advertised scratch takes %d bytes" % (n, b, 8 * req), cmd, seen
        elif prop == "C16":
            kind, o, cmd = native(exe, job, values, align, ro=True)
            if kind == "UB" and seen[-1] == "RETURN":
                return "writes to the shared instance (memory made read-only for the duration of the call): %s" % o.strip()[-200:], cmd, seen
            if (fact(o, "STATICS-CHANGED")[0] or 0) > 0:
                return "changes %d bytes of static memory" % fact(o, "STATICS-CHANGED")[0], cmd, seen
        elif mode == "newgood":
            if kind != "RETURN":
                return "%s: %s" % (kind, o1), cmd, seen
            want = eval(job["length"], dict(v=lambda i: values[str(i)], u=lambda x: x))
            if fact(o, "NOTE 1")[0] != want:
                return "reports length %s, expected %d" % (fact(o, "NOTE 1")[0], want), cmd, seen
        elif kind != "RETURN":
            return "%s: %s" % (kind, o1), cmd, seen
    return None, None, seen


def scratch_classes(th, budget):
    """Which scratch lengths does the code tell apart? Symbolic execution of valid calls splits the scratch lengths into one class per path;
    -> (list of (spec, entry, chunks, extra scratch): some members of every class, statistics)"""
    ll, _ = build_ir(False)
    jobs = [dict(scatalog.call(t, e, "valid", 2), alt=True, seconds=40) for t in scatalog.class_trees(th) for e in ("ip", "oop")]
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    out, st, lock, t_end = [], collections.Counter(jobs=len(jobs)), threading.Lock(), time.time() + budget

    def loop():
        w = Worker(ll)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            r, err = w.run(j, max(1, min(60, t_end - time.time())))
            if err:
                w.kill()
                w = Worker(ll)
            with lock:
                if err or "error" in r:
                    st["undecided"] += 1
                    continue
                st["queries"] += r["queries"]
                st["solver_ms"] += int(1000 * r["qtime"])
                st["undecided"] += any(p["outcome"] in ("UNSUPPORTED", "BUDGET", "ERROR") for p in r["paths"])
                for p in r["paths"]:
                    if p["outcome"] != "RETURN" or not p.get("values"):
                        continue
                    st["classes"] += 1
                    n, req = p["notes"].get("1"), p["notes"].get("2")
                    for v in [p["values"]] + p.get("alt", []):
                        if n and req is not None and v["1"] - req <= 1 << 20:
                            out.append((j["name"], j["entry"], v["0"] // n, v["1"] - req))
        w.kill()

    ts = [threading.Thread(target=loop) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return sorted(set(out)), dict(st)


def run(prop, tier, budget):
    th = tier == "thorough"
    dbg = prop in ("C12", "C13", "C14", "C16", "C18")
    if prop in ("C16", "C18"):
        dbg = False
    with_ir, s1 = build_ir(dbg)
    exe, s2 = build_native(dbg)
    jobs = scatalog.jobs(prop, th)
    order = list(range(len(jobs)))
    random.Random(5).shuffle(order)
    q = queue.Queue()
    for i in order:
        q.put(jobs[i])
    lock = threading.Lock()
    stop = threading.Event()
    t_end = time.time() + max(60, budget)
    viol, und, done = [], [], []
    st = collections.Counter()
    jt = 900 if th else 160

    def report(job, path, why, cmd, values):
        txt = "# %s\n# transform %s, entry %s, mode %s\n# values: %s\n# native replay (harness %s):\n%s\n" % (
            why, job["name"], job.get("entry"), job["mode"], json.dumps(values), "dev build" if dbg else "release build", " ".join("'%s'" % c if c == ";" else c for c in cmd))
        viol.append((common.save_replay(prop, txt), "%s %s %s: %s (lengths %s)" % (job["name"], job.get("entry", ""), job["mode"], why, values)))
        stop.set()

    def handle(job, r):
        paths = r["paths"]
        decided, hit_return = True, False
        for p in paths:
            oc = p["outcome"]
            with lock:
                st["path_" + oc] += 1
                st["steps"] += p.get("steps", 0)
            if oc == "INFEASIBLE":
                continue
            v = p.get("values")
            interesting = bool(p.get("bad"))
            if prop == "C16":
                interesting = bool(p.get("shared"))
            if prop == "C18":
                interesting = False
                if oc == "RETURN":
                    al = p.get("allocs") or []
                    want = 8 * (p["notes"].get("2") or 0)
                    interesting = bool(al) if job["params"][0] else (len(al) > 1 or sum(x if isinstance(x, int) else 1 << 60 for x in al) != want)
            if oc in ("UNSUPPORTED", "BUDGET", "ERROR"):
                decided = False
                with lock:
                    und.append((job["name"], job.get("entry"), oc, p["detail"][-160:]))
            if oc == "RETURN":
                hit_return = True
            if job["fn"] == "h_call" and oc in ("UNSUPPORTED", "BUDGET", "ERROR") and not p.get("phase"):
                continue  # gave up before the call began: the lengths are not constrained yet
            if v is None:
                if interesting:
                    decided = False
                    with lock:
                        und.append((job["name"], job.get("entry"), "no model for a suspicious path", p.get("bad")))
                continue
            if any(str(k) not in v for k in job.get("assume_vars") or ()):
                continue
            # every path's model is replayed natively: it confirms violations and validates the executor
            why, cmd, seen = judge(prop, job, v, exe)
            with lock:
                st["native_replays"] += len(seen)
                if why:
                    report(job, p, why, cmd, v)
                elif interesting:
                    decided = False
                    und.append((job["name"], job.get("entry"), "counterexample not reproduced natively", p.get("bad") or p.get("shared") or p.get("allocs")))
                elif oc in ("RETURN", "PANIC", "ASSERT"):
                    if seen and all(k in (oc, "NOMEM") for k in seen):
                        st["paths_matching_native_outcome"] += 1
                    elif p.get("opaque"):
                        st["paths_data_dependent"] += 1
                    else:
                        decided = False
                        und.append((job["name"], job.get("entry"), "executor says %s, native run %s" % (oc, seen), str(v)))
        with lock:
            st["paths"] += len(paths)
            st["queries"] += r["queries"]
            st["solver_ms"] += int(r["qtime"] * 1000)
            st["unknown_answers"] += r["unknowns"]
            st["functions"] = max(st["functions"], r["functions"])
            done.append((job, decided, hit_return))

    def loop():
        w = Worker(with_ir)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            if stop.is_set() or time.time() > t_end:
                with lock:
                    st["skipped_for_time"] += 1
                continue
            can = bool(j.get("few"))
            j["reduced"] = can and st["retries"] >= 4
            j["seconds"] = jt * (0.5 if j["reduced"] or not can else 0.2)
            r, err = w.run(j, jt)
            if err:
                w.kill()
                w = Worker(with_ir)
            if can and not j["reduced"] and (err or "error" in r or any(p["outcome"] == "BUDGET" for p in r["paths"])) and not any(p.get("bad") for p in (r or {}).get("paths", ())):
                # loops over a symbolic scratch length: decide the job for a few scratch lengths around the interesting ones
                with lock:
                    st["retries"] += 1
                j["reduced"], j["seconds"] = True, jt * 0.5
                r, err = w.run(j, jt)
                if err:
                    w.kill()
                    w = Worker(with_ir)
            if j["reduced"]:
                with lock:
                    st["reduced"] += 1
            if err or "error" in r:
                with lock:
                    und.append((j["name"], j.get("entry"), "worker", err or r["error"][-300:]))
                continue
            handle(j, r)
        w.kill()

    ts = [threading.Thread(target=loop) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ndec = sum(1 for _, d, _ in done if d)
    names = sorted({j["name"] for j, d, _ in done if d})
    wit = sum(1 for j, d, h in done if h)
    cov = dict(
        explanation=scatalog.EXPLAIN[prop],
        jobs=len(jobs), decided=ndec, undecided=len(jobs) - ndec - st["skipped_for_time"],
        skipped_for_time=st["skipped_for_time"], paths=st["paths"], path_outcomes={k[5:]: v for k, v in st.items() if k.startswith("path_")},
        queries=st["queries"], solver_seconds=round(st["solver_ms"] / 1000, 1), solver_unknowns=st["unknown_answers"],
        basic_blocks_executed=st["steps"], ir_functions_encoded=st["functions"],
        native_replays=st["native_replays"], paths_matching_native_outcome=st["paths_matching_native_outcome"],
        jobs_with_a_returning_path=wit, jobs_decided_for_selected_scratch_lengths_only=st["reduced"],
        bounds=scatalog.BOUNDS[prop],
        ir="LLVM IR of the library and its dependencies, rustc -C opt-level=2 -C no-prepopulate-passes, debug assertions and overflow checks %s, linked and cleaned with %s" % ("on" if dbg else "off", PASSES),
        transforms=names[:300], undecided_jobs=[str(u) for u in und[:20]], build_seconds=round(s1 + s2, 1))
    assume = ["f64 instantiation; element contents are unknown values (a branch on them is explored both ways)",
              "heap allocation succeeds; distinct allocations do not overlap",
              "rustc's LLVM IR after sroa/early-cse/simplifycfg has the behaviour of the compiled code"]
    # undecided jobs are listed in the evidence and claimed by nobody; with most of the jobs undecided there is no verdict at all
    if und:
        print("NOTE: %d of %d jobs undecided, e.g. %s" % (len(jobs) - ndec - st["skipped_for_time"], len(jobs), und[:2]))
    bad = not viol and ndec < max(1, 0.5 * (len(jobs) - st["skipped_for_time"]))
    return cov, assume, viol, ["%d of %d jobs undecided: %s" % (len(jobs) - ndec, len(jobs), und[:4])] if bad else []
