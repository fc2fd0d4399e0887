#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decides one property of /repo's current tree. Exit 0 holds, 1 violation."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common, catalog, vengine

ASSUME_V = [
    "element types f32 and f64 with round-to-nearest; no overflow or underflow (inputs scaled away from both ends of the exponent range)",
    "every operation the library performs on elements goes through the num-traits interface the symbolic type implements; this is validated on each run by comparing the DAG's value with the native result bit for bit",
    "inner transforms written ideal(n) stand for any correct inner transform: they return the exact DHT (rounded once) and overwrite scratch and out-of-place input with arbitrary values",
    "jobs with sub=D let the inputs range over a seeded D-dimensional subspace instead of the whole space (lengths too large for full symbolic inputs)",
]


def run_v(prop, tier, t0, budget):
    th = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    gen = catalog.CATALOG[prop]
    jobs = gen(th, seed) if prop == "C08" else gen(th)
    part = None
    if prop == "C09":
        from vlib import sengine
        cl, part = sengine.scratch_classes(th, 150 if not th else 1800)
        jobs += [catalog.job(s, 64, e, chunks=m, extra=x, pool=64) for s, e, m, x in cl]
        part["value_jobs"] = len(cl)
    r = vengine.run_jobs(prop, jobs, budget)
    ok = [x for x in r["results"] if x["status"] == "holds"]
    full = [x for x in ok if "sub=" not in x["job"]]
    specs = sorted({x["job"].split()[0][5:] for x in ok})
    cov = dict(
        explanation="Each job executes the real library code with symbolic element values and asks the SMT solver whether any input within the bounds makes an output differ from its specified value by more than the tolerance; unsat decides the job.",
        jobs=r["total"], decided=len(ok), undecided=len(r["undecided"]), skipped_for_time=r["skipped"],
        queries=sum(x["queries"] for x in r["results"]),
        solver_seconds=round(sum(x["solver_ms"] for x in r["results"]) / 1e3, 2),
        smt_bytes=sum(x["smt_bytes"] for x in r["results"]),
        operations_encoded=sum(x["nodes"] for x in r["results"]),
        rounded_operations=sum(x["rounded"] for x in r["results"]),
        output_claims=sum(x["outputs"] for x in r["results"]),
        paths=sum(x["paths"] for x in r["results"]),
        path_budget_exhausted=sum(1 for x in r["results"] if x.get("truncated")),
        runs_bit_checked_against_native=sum(x["validated"] for x in r["results"]),
        distinct_transforms=len(specs),
        largest_length_all_inputs_symbolic=max([x["n"] for x in full] or [0]),
        largest_length_subspace=max([x["n"] for x in ok if "sub=" in x["job"]] or [0]),
        largest_error_bound_relative_to_tolerance=max([float(x["margin"]) for x in ok] or [0.0]),
        functions_encoded="constructors and process / process_with_scratch / process_outofplace_with_scratch of the transforms listed, with everything they call",
        transforms=specs[:400],
        undecided_jobs=["%s: %s" % u for u in r["undecided"][:20]],
        samples=[{k: x[k] for k in ("job", "queries", "vars", "nodes", "outputs", "margin", "solver_ms")} for x in ok[:3]],
        build_seconds=round(r["build_s"], 1),
    )
    if part:
        cov["scratch_length_classes"] = dict(part, explanation="The library's LLVM IR is executed symbolically on valid calls with a symbolic scratch length (up to 2^36): each path is one class of scratch lengths the code tells apart; the value jobs include members of every class.")
    # undecided jobs are listed in the evidence and claimed by nobody; with most of the jobs undecided there is no verdict at all
    if r["undecided"]:
        print("NOTE: %d of %d jobs undecided, e.g. %s" % (len(r["undecided"]), r["total"], str(r["undecided"][:2])[:500]))
    bad = not r["violations"] and len(ok) < max(1, 0.5 * (r["total"] - r["skipped"]))
    return cov, list(ASSUME_V), r["violations"], (["%d of %d jobs undecided, e.g. %s" % (len(r["undecided"]), r["total"], r["undecided"][:2])] if bad else [])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    budget = 480 if tier == "quick" else 4 * 3600
    cov, assume, viol, errs = {}, [], [], []
    try:
        if prop in catalog.CATALOG:
            c, a, v, e = run_v(prop, tier, t0, budget)
            cov.update(c)
            assume += a
            viol += v
            errs += e
        try:
            from vlib import sengine
        except ImportError:
            sengine = None
        if sengine and prop in sengine.PROPS and not viol:
            c, a, v, e = sengine.run(prop, tier, budget - (time.time() - t0))
            cov["structure" if cov else "explanation"] = c if cov else c.pop("explanation")
            if "structure" not in cov:
                cov.update(c)
            assume += a
            viol += v
            errs += e
    except common.BuildError as ex:
        print(str(ex))
        common.write_evidence(prop, tier, "other", dict(explanation="build of the harness against /repo failed"), [], t0, 0)
        return 2
    except Exception:
        traceback.print_exc()
        common.write_evidence(prop, tier, "other", dict(explanation="internal error of the check"), [], t0, 0)
        return 3
    known = common.known_findings()
    fresh = []
    for path, text in viol:
        hit = [k for k in known if ("property=%s " % prop) in k and k.split("match=", 1)[-1].strip() in text]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            fresh.append((path, text))
    common.write_evidence(prop, tier, "other", cov, assume, t0, len(fresh))
    brief = {k: v for k, v in cov.items() if isinstance(v, (int, float))}
    print("%s %s: %s wall=%.1fs" % (prop, tier, brief, time.time() - t0))
    if fresh:
        for path, text in fresh:
            print("  " + text[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        for e in errs:
            print("UNDECIDED: " + e[:1500])
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
