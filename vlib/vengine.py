"""Engine V: runs symbolic jobs (symdht workers) in parallel and collects verdicts."""
import json, os, queue, random, select, subprocess, threading, time
from . import common

CRATE = os.path.join(common.VERIF, "symdht")
SOLVER = "z3-new -in"


class Worker:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, SOLVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, job, timeout):
        try:
            self.p.stdin.write(job + "\n")
            self.p.stdin.flush()
        except OSError:
            return None, "died"
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None, "timeout"
        l = self.p.stdout.readline()
        if not l:
            self.p.wait()
            return None, "died (status %s)" % self.p.returncode
        return json.loads(l), None

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


def build():
    d, secs = common.cargo_build(CRATE, "symdht")
    return os.path.join(d, "release", "symdht"), secs


def native_random(exe, job, timeout=100):
    """re-runs a job on the native element type in a process of its own; (violated?, description)"""
    try:
        p = subprocess.run([exe, "random", job], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "the native run does not terminate within %d s" % timeout
    if p.returncode < 0:
        return True, "the native run is killed by signal %d: %s" % (-p.returncode, p.stdout[-300:])
    if p.returncode == 1:
        return True, p.stdout.strip()[-400:]
    if p.returncode != 0:
        return True, "the native run aborts with status %d: %s" % (p.returncode, p.stdout[-300:])
    return False, ""


def confirm(exe, path):
    try:
        p = subprocess.run([exe, "native", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return True, "the native run does not terminate"
    return p.returncode != 0, p.stdout.strip()[-400:]


def run_jobs(prop, jobs, budget, job_timeout=150, nworkers=8, stop_on_violation=True):
    """-> dict(results, violations[(path, text)], undecided[(job, why)], skipped, build_s)"""
    exe, build_s = build()
    jobs = list(dict.fromkeys(jobs))
    random.Random(7).shuffle(jobs)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    res, viol, und = [], [], []
    lock = threading.Lock()
    stop = threading.Event()
    t_end = time.time() + budget
    skipped = [0]

    def loop():
        w = Worker(exe)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            if stop.is_set() or time.time() > t_end:
                with lock:
                    skipped[0] += 1
                continue
            r, err = w.run(j, job_timeout)
            if err:
                w.kill()
                w = Worker(exe)
                bad, why = native_random(exe, j)
                with lock:
                    if bad:
                        txt = "# native replay: symdht random '<job>'\n# %s\n%s\n" % (why.replace("\n", " "), j)
                        viol.append((common.save_replay(prop, txt), "%s: %s" % (j, why)))
                        stop.set()
                    else:
                        und.append((j, "symbolic run: " + err))
                continue
            with lock:
                res.append(r)
            if r["status"] == "violation":
                txt = "# %s\n# replay: symdht native FILE (values are f64 bit patterns)\n%s\n%s\n%s\n" % (
                    r["detail"].replace("\n", " "), j, " ".join(r["garbage"]), " ".join(r["vals"]))
                path = common.save_replay(prop, txt)
                ok, out = confirm(exe, path)
                with lock:
                    if ok:
                        viol.append((path, "%s: %s" % (j, r["detail"])))
                        if stop_on_violation:
                            stop.set()
                    else:
                        und.append((j, "counterexample did not replay in a fresh process"))
            elif r["status"] == "inconclusive":
                with lock:
                    und.append((j, r["detail"]))
        w.kill()

    ts = [threading.Thread(target=loop) for _ in range(nworkers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return dict(results=res, violations=viol, undecided=und, skipped=skipped[0], build_s=build_s, total=len(jobs))
