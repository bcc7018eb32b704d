#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property.

Exit 0: held on everything explored; 1: VIOLATION line printed; other: the
check itself failed."""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nnvlib import *
import plan

LEVEL = "model_checking"


class Job:
    def __init__(self, spec, idx):
        self.__dict__.update(dict(kind="trace", argv=None, module="NNTileTrace", shim=True, env={}, timeout=400, cfg=None,
                                  args=(), workers="1", name="", mem="3g", rt=False, expect=None))
        self.__dict__.update(spec)
        self.idx = idx


def run_trace(job, work):
    """-> dict(violations=[(what, detail)], …)"""
    out = os.path.join(work, "j%d.tr" % job.idx)
    for f in os.listdir(work):
        if f.startswith("j%d." % job.idx) and not f.endswith(".beh"): os.remove(os.path.join(work, f))
    env2 = dict(job.env)
    logf = None
    if job.rt:
        logf = os.path.join(work, "j%d.rt" % job.idx); env2["NNV_LOG"] = logf
    rc, so, se = run_driver(job.argv, out, job.shim, env2, job.timeout)
    res = dict(job=job.name, violations=[], generated=0, distinct=0, lines=0, cases=0, ops=0, samples=[], stats={})
    if rc != 0:
        last = ""
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for l in f:
                    if l.startswith("#"): last = l[1:].strip()
        what = {86: "the runtime reported a misuse", 87: "unsupported runtime call"}.get(rc, "driver ended with %s" % rc)
        if rc == 87: raise CheckError("%s: %s" % (job.name, se[-2000:]))
        if rc == 88: raise CheckError("%s: driver error: %s" % (job.name, se[-2000:]))
        res["violations"].append((what, dict(last_attempt=last, stderr=se[-3000:], rc=str(rc))))
    else:
        try: res["stats"] = json.loads([l for l in so.splitlines() if l.startswith("{")][-1])
        except Exception: raise CheckError("%s: no statistics: %s %s" % (job.name, so[-500:], se[-500:]))
    todo = ([(job.module, out)] if job.module else []) + ([(job.rt if isinstance(job.rt, str) else "RuntimeTrace", logf)] if logf else [])
    for module, trace in todo:
        if not os.path.exists(trace): continue
        v = validate(module, trace, work, timeout=job.timeout)
        res["generated"] += v["generated"]; res["distinct"] += v["distinct"]; res["lines"] += v["lines"]
        starts = [k for k, l in enumerate(v["text"]) if CASE.search(l)]
        if trace == out or not job.module: res["cases"] += len(starts)
        for n, why in v["rejected"]:
            res["violations"].append(("history rejected by the specification " + module,
                                      dict(history=case_of(v["text"], n), expected=why[:4000])))
        if starts:
            res["samples"] += [json.loads(l) for l in v["text"][starts[0]:(starts + [len(v["text"])])[1]][:12]]
        if not res["violations"]:
            for f in (trace, trace + ".t"):
                if os.path.exists(f): os.remove(f)
    return res


def run_mc(job, work):
    rc, text, gen, dist = tlc(job.module, job.cfg, job.env, work, job.workers, job.args, job.timeout, job.mem)
    if job.expect:      # a deliberately wrong specification: the named invariant must fail
        if "Invariant %s is violated" % job.expect not in text:
            raise CheckError("%s/%s: %s did not fail (rc=%s)\n%s" % (job.module, job.cfg, job.expect, rc, text[-2000:]))
        return dict(job=job.name, violations=[], generated=gen, distinct=dist, lines=0, cases=0, ops=0, samples=[], stats={}, mc=True)
    bad = rc != 0 and not (rc == "timeout" and "-simulate" in job.args)
    if bad or (rc == 0 and re.search(r"^Error:", text, re.M)):
        raise CheckError("model checking of %s/%s failed (rc=%s)\n%s" % (job.module, job.cfg, rc, text[-3000:]))
    return dict(job=job.name, violations=[], generated=gen, distinct=dist, lines=0, cases=0, ops=0, samples=[], stats={}, mc=True)


def run_gen(job, work):
    """behaviours generated by TLC from the specification, replayed into the code"""
    f = os.path.join(work, "j%d.beh" % job.idx)
    rc, text, gen, dist = tlc(job.gen, job.cfg, dict(job.env, BEH=f), work, "1", job.args, job.timeout, job.mem)
    lines = [m.group(1) for m in re.finditer(r'<<"BEH", "(.*)">>', text)]
    if rc not in (0,) or not lines:
        raise CheckError("generation from %s failed (rc=%s)\n%s" % (job.gen, rc, text[-3000:]))
    with open(f, "w") as g:
        for l in lines: g.write(json.loads('"' + l + '"') + "\n")
    job.argv = [a.replace("@BEH", f) for a in job.argv]
    r = run_trace(job, work)
    r["generated"] += gen; r["distinct"] += dist; r["stats"]["behaviours"] = len(lines)
    return r


RUN = {"trace": run_trace, "mc": run_mc, "gen": run_gen}


def known():
    """accepted findings: id -> list of substrings"""
    k = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m: k.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
    return k


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("NNV_JOBS", "8")))
    o = ap.parse_args()
    t0 = time.time()
    build()
    tb = time.time() - t0
    os.makedirs(os.path.join(B, "starpu"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="nnv-%s-" % o.pid)
    jobs = [Job(s, i) for i, s in enumerate(plan.jobs(o.pid, o.tier, o.seed)) if o.only in s.get("name", "")]
    results, viol, errors = [], [], []
    keepdir = os.path.join(B, "replay")

    def one(j):
        t = time.time()
        r = RUN[j.kind](j, work)
        if r["violations"]:
            # a violation counts only if running again repeats it
            again = None
            for _ in range(1 if j.shim else 4):
                again = RUN[j.kind](j, work)
                if again["violations"]: break
            if not again["violations"]:
                r["violations"] = []; r["unrepeated"] = True
        r["wall"] = time.time() - t
        return r

    with cf.ThreadPoolExecutor(o.jobs) as ex:
        # the longest jobs first
        fs = {ex.submit(one, j): j for j in sorted(jobs, key=lambda j: -getattr(j, "weight", 1))}
        for f in cf.as_completed(fs):
            j = fs[f]
            try: r = f.result()
            except CheckError as e:
                errors.append(str(e)); continue
            except Exception:
                errors.append("%s\n%s" % (j.name, traceback.format_exc())); continue
            results.append(r)
            if o.v: print("%6.1fs %-28s lines=%d cases=%d states=%d viol=%d%s" % (r["wall"], r["job"], r["lines"], r["cases"],
                          r["distinct"], len(r["violations"]), " UNREPEATED" if r.get("unrepeated") else ""), flush=True)
            for what, d in r["violations"]: viol.append((j, what, d))
    kn = known().get(o.pid, [])
    new, old = [], {}
    for j, what, d in viol:
        text = what + " " + json.dumps(d)
        for sub, desc in kn:
            if sub in text: old[sub] = desc; break
        else: new.append((j, what, d))
    for sub, desc in sorted(old.items()): print("KNOWN-FINDING: property=%s %s" % (o.pid, desc))
    rc = 0
    if new:
        rc = 1
        os.makedirs(keepdir, exist_ok=True)
        for j, what, d in new[:5]:
            body = dict(property=o.pid, what=what, job=j.name, argv=j.argv, shim=j.shim, env=j.env, module=j.module, detail=d,
                        rerun="bin/check.py %s --seed %d --tier %s --only '%s'" % (o.pid, o.seed, o.tier, j.name))
            h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(keepdir, "%s-%s.json" % (o.pid, h))
            with open(p, "w") as f: json.dump(body, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (o.pid, p))
            if o.v: print("   ", what, json.dumps(d)[:1500])
    elif errors:
        rc = 2
    for e in errors[:5]: print("CHECK-ERROR: " + e, file=sys.stderr)
    cov = dict(states=sum(r["distinct"] for r in results), transitions=sum(r["generated"] for r in results),
               traces_validated_against_impl=sum(r["cases"] for r in results),
               trace_lines=sum(r["lines"] for r in results),
               requests=sum(r["stats"].get("ops", 0) for r in results),
               distinct_requests=sum(r["stats"].get("distinct", 0) for r in results),
               model_checking_runs=sum(1 for r in results if r.get("mc")),
               jobs=len(results), job_states={r["job"]: r["distinct"] for r in results},
               samples=[r["samples"] for r in sorted(results, key=lambda r: r["job"]) if r["samples"]][:3])
    extra = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, int) and k not in ("ops", "distinct", "cases"): extra[k] = extra.get(k, 0) + v
    cov.update(extra)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", o.pid + ".json"), "w") as f:
        json.dump(dict(property=o.pid, tier=o.tier, seed=o.seed, level=LEVEL, coverage=cov, assumptions=plan.ASSUME,
                       wall_s=round(time.time() - t0, 2), violations=len(new)), f, indent=1)
    print("%s %s seed=%d: %d jobs, %d cases, %d states, %d violations, %d errors, build %.1fs, %.1fs" % (
        o.pid, o.tier, o.seed, len(results), cov["traces_validated_against_impl"], cov["states"], len(new), len(errors), tb,
        time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
