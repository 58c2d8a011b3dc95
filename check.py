#!/usr/bin/env python3
"""Decide one property:  check.py PROP   (environment: VERIF_SEED, VERIF_TIER=quick|thorough)

1. run the Quint model(s) of the property: behaviours + invariants of the specification (ITF traces);
2. build the replayer against /repo's working tree, in both configurations;
3. replay every behaviour in the real code and compare every observation;
4. write evidence/<PROP>.json, print VIOLATION / KNOWN-FINDING lines.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import build
from plan import PLAN

def main():
    prop = sys.argv[1]
    if prop == "--pregenerate":
        sys.exit(pregenerate())
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        rc = run(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def fail_tool(msg):
    print("CHECK-ERROR: " + msg)
    return 2

CACHE = os.path.join(V, "target", "traces")

def deps(path, seen=None):
    """The specification file and everything it imports."""
    seen = {} if seen is None else seen
    if path in seen: return seen
    txt = open(path).read()
    seen[path] = txt
    for m in re.findall(r'from "\./(\w+)"', txt):
        deps(os.path.join(V, "spec", m + ".qnt"), seen)
    return seen

def model_jobs(prop, tier, seed):
    """One entry per quint process: the command without output option, and the cache key."""
    spec = PLAN[prop]
    jobs, k = [], 0
    for m in spec["models"]:
        reps = m[tier] if tier in m else m["quick"]
        for i in range(reps["procs"]):
            cmd = ["quint", "run", "--main", m["main"], "--max-steps", str(reps["steps"]),
                   "--max-samples", str(reps.get("samples", 1)), "--n-traces", str(reps.get("samples", 1)),
                   "--n-threads", "1", "--verbosity", "1", "--seed", str(derive(seed, prop, k))]
            if m.get("inv"): cmd += ["--invariant", m["inv"]]
            if m.get("inits"): cmd += ["--init", m["inits"][i % len(m["inits"])]]
            elif m.get("init"): cmd += ["--init", m["init"]]
            if m.get("step"): cmd += ["--step", m["step"]]
            jobs.append((cmd, m["file"], m.get("replay", True))); k += 1
    for mt in spec.get("modeltests", []):
        cmd = ["quint", "test", "--main", mt["main"], "--seed", str(derive(seed, prop, 999)), "--max-samples", "1"]
        if mt.get("match"): cmd += ["--match", mt["match"]]
        jobs.append((cmd, mt["file"], False))
    return jobs

def quint_job(job):
    """Run one process of the specification.  Its output is a function of the specification, the command
    and the seed only, so it is kept under target/traces and reused (the code under test is not involved)."""
    cmd, file, traced = job
    h = hashlib.sha256(repr(cmd).encode())
    for p, t in sorted(deps(os.path.join(V, "spec", file)).items()):
        h.update(os.path.basename(p).encode() + b"\0" + t.encode() + b"\0")
    d = os.path.join(CACHE, h.hexdigest()[:24])
    if os.path.exists(os.path.join(d, "ok")):
        return cmd, 0, "", d, True
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="new-", dir=CACHE)
    full = list(cmd)
    if cmd[1] == "run" and traced:
        full += ["--out-itf", os.path.join(tmp, "t{seq}.itf.json")]
    full.append(os.path.join(V, "spec", file))
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        open(os.path.join(tmp, "ok"), "w").close()
        shutil.rmtree(d, ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        shutil.rmtree(tmp, ignore_errors=True)
    return full, r.returncode, r.stdout, d, False

def pregenerate():
    """Set-up: run the quick specification of every property and drop what no property uses any more."""
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    keep, bad = set(), 0
    jobs = [j for p in PLAN for j in model_jobs(p, "quick", seed)]
    with ThreadPoolExecutor(8) as pool:
        for cmd, rc, out, d, hit in pool.map(quint_job, jobs):
            keep.add(os.path.basename(d))
            if rc != 0:
                bad += 1
                print("specification failed: " + " ".join(cmd) + "\n" + out[-2000:])
    for d in os.listdir(CACHE):
        if d not in keep:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    print(f"{len(jobs)} specification runs, {bad} failed")
    return 0

def derive(seed, prop, k):
    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{k}".encode()).digest()[:6], "big")

def run(prop, tier, seed, work, t0):
    if prop not in PLAN:
        return fail_tool(f"unknown property {prop}")
    spec = PLAN[prop]
    # ---------------------------------------------------------------- model side
    jobs = model_jobs(prop, tier, seed)
    pool = ThreadPoolExecutor(8)
    bfut = pool.submit(build.build_all)
    futs = [pool.submit(quint_job, j) for j in jobs]
    traces, cached = [], 0
    for f in futs:
        cmd, rc, out, dirp, hit = f.result()
        if rc != 0:
            return fail_tool("the specification violates its own invariant or fails to run:\n" + " ".join(cmd) + "\n" + out[-3000:])
        traces += sorted(glob.glob(os.path.join(dirp, "t*.itf.json")))
        cached += hit
    tq = time.time() - t0
    bins, err = bfut.result()
    if err:
        return fail_tool("build failed\n" + err[-3000:])
    tb = time.time() - t0
    if not traces:
        return fail_tool("the specification produced no behaviour")
    # ---------------------------------------------------------------- implementation side
    known = load_known(prop)
    findings, summ, errs = [], {}, []
    nrun = 0
    for name, exe in bins.items():
        if spec.get("builds") and name not in spec["builds"]:
            continue
        f, s, e = replay(exe, name, traces, spec)
        findings += f; errs += e
        summ[name] = s
        nrun += 1
    wall = time.time() - t0
    ops = sum(s.get("ops", 0) for s in summ.values())
    nst = count_states(traces)
    first = next(iter(summ.values()), {})
    samples = sample_ops(traces)
    cov = {"evaluations": ops, "distinct_nontrivial": first.get("distinct", 0),
           "rule": "one evaluation = one operation of a specification behaviour executed in one build of the real code "
                   "and compared on all its observations; distinct = distinct (operation, type, operands, expected) tuples "
                   "of the generated behaviours, counted once for both builds; " + spec["rule"],
           "states": nst, "transitions": max(0, nst - len(traces)),
           "traces_validated_against_impl": len(traces) * nrun,
           "by_operation": first.get("by_op", {}), "skipped": sum(s.get("skipped", 0) for s in summ.values()), "builds": {n: s.get("ops", 0) for n, s in summ.items()},
           "samples": samples, "spec_runs": len(jobs), "spec_runs_reused_from_setup": cached, "spec_s": round(tq, 1), "build_s": round(tb, 1)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    kf, viol = [], []
    for f in findings:
        hit = next((k for k in known if matches(k, f)), None)
        (kf if hit else viol).append((f, hit))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "wall_s": round(wall, 1)}
    if viol: ev["violations"] = [v[0] for v in viol][:5]
    if kf: ev["known_findings_seen"] = len(kf)
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if any(h is k for _, h in kf) else " (not exercised in this run)"))
    if viol:
        f = viol[0][0]
        rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{seed}-{tier}.json")
        rec = dict(f)
        if f.get("trace") and os.path.exists(f["trace"]):
            tp = path.replace(".json", ".itf.json")
            shutil.copy(f["trace"], tp)
            rec["trace"] = tp
            rec["reproduce"] = f"{bins[f['build']]} -j 1 {tp}"
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1)
        print(json.dumps({k: (v if len(str(v)) < 600 else str(v)[:600]) for k, v in rec.items()}))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        return fail_tool("; ".join(errs)[:3000])
    skipped = sum(s.get("skipped", 0) for s in summ.values())
    if skipped: print(f"NOTE: {skipped} operations left out (guarded hooks missing or without effect)")
    need = spec.get("min_ops", 1)
    if ops == 0 or ops + skipped < need * nrun:
        return fail_tool(f"vacuous run: only {ops} operations replayed")
    missing = [o for o in spec.get("ops", []) if not any(b.split(":", 1)[1] == o for b in first.get("by_op", {}))]
    if missing and not skipped:
        return fail_tool(f"vacuous run: operations never exercised: {missing}")
    print(f"OK property={prop} behaviours={len(traces)} operations={ops} builds={nrun} spec={tq:.0f}s build={tb:.0f}s wall={wall:.0f}s")
    return 0

def replay(exe, name, traces, spec):
    """Replay in chunks of one process; a process killed by a signal or hanging is bisected to the operation."""
    limit = str(spec.get("op_limit", 60))
    env = dict(os.environ, VERIF_BUILD=name)
    env.update(spec.get("env", {}))
    lst = exe + f".{os.getpid()}.lst"
    def go(ts, extra=(), j="8"):
        with open(lst, "w") as fh: fh.write("\n".join(ts))
        r = subprocess.run([exe, "-j", str(spec.get("threads", j)) if j == "8" else j, "-t", limit, *extra, "@" + lst],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        os.unlink(lst)
        return r
    r = go(traces)
    F, E, S = parse(r.stdout, name)
    if r.returncode in (0, 1) and (S or F):
        return F, S, E
    if r.returncode == 2:
        return F, S, E or ["replayer reported a tool error: " + r.stderr[-500:]]
    # abnormal end (signal, abort, stack overflow): locate the operation
    for t in traces:
        r2 = go([t], ("-v",), "1")
        if r2.returncode < 0 or r2.returncode not in (0, 1, 2):
            at = [l for l in r2.stderr.splitlines() if l.startswith("AT ")]
            F.append({"mismatch": f"the process died (code {r2.returncode}) in this operation", "at": at[-1] if at else "?",
                      "trace": t, "build": name})
            return F, S, E
    return F, S, E + [f"replayer ended with {r.returncode}: {r.stderr[-300:]}"]

def parse(out, name):
    F, E, S = [], [], {}
    for l in out.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if "mismatch" in d: d["build"] = name; F.append(d)
        elif "tool_error" in d: E.append(str(d["tool_error"]) + " " + str(d.get("at", ""))[:300])
        elif "summary" in d: S = d["summary"]
    return F, E, S

def count_states(traces):
    n = 0
    for t in traces:
        with open(t) as fh: n += fh.read().count('"#meta":{"index"') or 0
    if n == 0:
        for t in traces:
            n += len(json.load(open(t))["states"])
    return n

def sample_ops(traces):
    d = json.load(open(traces[0]))
    outl = []
    for s in d["states"][1:3]:
        for o in s["log"][:3]:
            s1 = json.dumps(o)
            outl.append(s1 if len(s1) < 900 else s1[:900] + "...")
    return outl or [json.dumps(d["states"][0]["log"][:1])[:900]]

def load_known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]

def matches(k, f):
    """A known finding is identified by operation, type, arguments (or a predicate on them) and the message."""
    if k.get("op") and k["op"] != f.get("op"): return False
    if k.get("types") and f.get("type") not in k["types"]: return False
    if k.get("args") and k["args"] != f.get("args"): return False
    if k.get("message") and not re.search(k["message"], f.get("mismatch", "")): return False
    return True

if __name__ == "__main__":
    main()
