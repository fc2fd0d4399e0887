"""Shared plumbing: build directories keyed by the contents of /repo, evidence, violations, known findings."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "evidence", "replay")
BUILD = os.path.join(VERIF, "build")


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


def tree_hash(*extra):
    """hash of everything that can influence a build of /repo's crate, plus the given files"""
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in fs:
            files.append(os.path.join(root, f))
    for x in extra:
        if os.path.isdir(x):
            for root, dirs, fs in os.walk(x):
                dirs[:] = sorted(d for d in dirs if d != "target")
                files += [os.path.join(root, f) for f in fs]
        else:
            files.append(x)
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def build_dir(name, key):
    """a build directory for this state of the tree; older ones of the same name are dropped"""
    d = os.path.join(BUILD, "%s-%s" % (name, key))
    os.makedirs(BUILD, exist_ok=True)
    olds = [x for x in os.listdir(BUILD) if x.startswith(name + "-") and x != os.path.basename(d)]
    olds.sort(key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
    for x in olds[:-1]:
        shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


def cargo_build(crate, name, extra_env=None, args=("--release",)):
    key = tree_hash(crate) + hashlib.sha256(repr(sorted((extra_env or {}).items())).encode()).hexdigest()[:4]
    d = build_dir(name, key)
    e = env()
    e["CARGO_TARGET_DIR"] = d
    e.update(extra_env or {})
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("building %s against /repo failed:\n%s" % (crate, p.stdout[-6000:]))
    return d, time.time() - t


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(l)
    return out


def write_evidence(prop, tier, level, coverage, assumptions, t0, violations):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=coverage,
             assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)


def save_replay(prop, text):
    os.makedirs(REPLAY, exist_ok=True)
    h = hashlib.sha256(text.encode()).hexdigest()[:8]
    p = os.path.join(REPLAY, "%s-%s.txt" % (prop, h))
    with open(p, "w") as f:
        f.write(text)
    return p
