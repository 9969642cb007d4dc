"""Batch driver: plans -> worker processes -> evidence, minimised replay files, exit codes."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
PY = sys.executable


_WHERE = {"C01": "p_threads", "C02": "p_threads", "C03": "p_faults", "C04": "p_faults", "C05": "p_history", "C06": "p_history",
          "C07": "p_solver", "C08": "p_integrals", "C09": "p_random", "C10": "p_random", "C11": "p_ambient", "C12": "p_ambient",
          "C13": "p_farm", "C14": "p_keep", "C15": "p_nest", "C16": "p_nest"}


def get_prop(prop):
    import importlib
    return getattr(importlib.import_module("sim." + _WHERE[prop]), prop)


def _leave(P, code):
    """End a child process at once, after removing what the property simulation left on disk."""
    try:
        if hasattr(P, "close"):
            P.close()
    finally:
        os._exit(code)


def _sweep():
    """Remove scratch directories of child processes that were killed."""
    d = os.path.join(EVID, "scratch")
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.isdigit() and (int(n) == os.getpid() or not os.path.exists("/proc/" + n)):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def clean(plan):
    return {k: v for k, v in plan.items() if not k.startswith("_")}


def run_seed(prop, seed, idx):
    return random.Random("%s/%d/%d" % (prop, seed, idx))


# ---------------------------------------------------------------------------------------------------------------------
def worker_main(argv):
    """worker: prop seed tier start stop step deadline"""
    prop, seed, tier, start, stop, step, deadline = argv[0], int(argv[1]), argv[2], int(argv[3]), int(argv[4]), int(argv[5]), float(argv[6])
    from . import sched, world
    P = get_prop(prop)
    world.init_worker()
    if hasattr(P, "init"):
        P.init()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    stats = world.Stats()
    digests = set()
    nontrivial = set()
    samples = []
    known = known_findings(prop)
    seen_known = []
    logh = hashlib.blake2b(digest_size=16)
    runs = 0
    beat = time.time()

    def on_hang(detail):
        out.write(json.dumps({"type": "violation", "idx": idx, "kind": "no-progress", "detail": detail, "plan": clean(plan)}) + "\n")
        out.flush()
        _leave(P, 0)
    _watch(prop, on_hang)
    for idx in range(start, stop, step):
        if time.time() > deadline:
            break
        rng = run_seed(prop, seed, idx)
        plan = None
        try:
            plan = P.gen(seed, idx, rng, stats)
            info = P.execute(plan, stats)
            runs += 1
            h = hashlib.blake2b(repr(info["digest"]).encode(), digest_size=8).hexdigest()
            digests.add(h)
            if info.get("nontrivial"):
                nontrivial.add(h)
            logh.update(h.encode())
            if len(samples) < 3 and info.get("nontrivial"):
                samples.append({"index": idx, "plan": _brief(clean(plan))})
        except world.Violation as v:
            runs += 1
            hit = [k for k in known if k[1] in v.detail]
            if hit:
                stats.inc("known_findings_met")
                if hit[0] not in seen_known:
                    seen_known.append(hit[0])
                    out.write(json.dumps({"type": "known", "line": hit[0][0], "detail": v.detail}) + "\n")
                    out.flush()
                continue
            out.write(json.dumps({"type": "violation", "idx": idx, "kind": v.kind, "detail": v.detail, "plan": clean(plan)}) + "\n")
            out.flush()
            break
        except BaseException as e:
            out.write(json.dumps({"type": "error", "idx": idx, "error": repr(e)[:500], "trace": traceback.format_exc()[-4000:],
                                  "plan": clean(plan) if plan else None}) + "\n")
            out.flush()
            _leave(P, 3)
        if runs % 50 == 0 or time.time() - beat > 20:
            beat = time.time()
            out.write(json.dumps({"type": "beat", "runs": runs}) + "\n")
            out.flush()
    out.write(json.dumps({"type": "done", "runs": runs, "stats": stats, "digests": sorted(digests), "nontrivial": sorted(nontrivial),
                          "samples": samples, "log": logh.hexdigest()}) + "\n")
    out.flush()
    _leave(P, 0)


def _brief(plan, n=900):
    s = json.dumps(plan)
    return plan if len(s) <= n else s[:n] + "..."


def child_env(**kw):
    env = dict(os.environ)
    env.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
                "PYTHONHASHSEED": env.get("VERIF_HASHSEED", "0"), "PYTHONPATH": HERE})
    scratch = os.path.join(EVID, "scratch", str(os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    env.update({"TMPDIR": scratch, "PYSCF_TMPDIR": scratch})
    env.update(kw)
    return env


def run_worker_proc(args, **kw):
    return subprocess.Popen([PY, "-m", "sim.main", "worker"] + [str(a) for a in args], cwd=HERE, env=child_env(**kw),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def batch(prop, seed, tier, nruns, wall, workers=None, start=0):
    """Run indices start..start+nruns; returns a dict."""
    import selectors
    workers = workers or min(8, os.cpu_count() or 4)
    t0 = time.time()
    deadline = t0 + wall
    procs = []
    for w in range(workers):
        procs.append(run_worker_proc([prop, seed, tier, start + w, start + nruns, workers, deadline]))
    sel = selectors.DefaultSelector()
    res = {"runs": 0, "stats": {}, "digests": set(), "nontrivial": set(), "samples": [], "violations": [], "errors": [], "logs": {}, "known": [], "workers": workers}
    last = {}
    bufs = {}
    for w, p in enumerate(procs):
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, w)
        last[w] = time.time()
        bufs[w] = ""
    open_ = set(range(workers))
    finished = set()
    stop_at = None
    idle = 400 if tier == "quick" else 170
    while open_:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            chunk = key.fileobj.read()
            if not chunk:
                sel.unregister(key.fileobj)
                open_.discard(w)
                continue
            last[w] = time.time()
            bufs[w] += chunk
            while "\n" in bufs[w]:
                line, bufs[w] = bufs[w].split("\n", 1)
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m["type"] == "violation":
                    res["violations"].append(m)
                    if stop_at is None:
                        stop_at = time.time() + 3
                elif m["type"] == "known":
                    res["known"].append(m)
                elif m["type"] == "error":
                    res["errors"].append(m)
                elif m["type"] == "done":
                    finished.add(w)
                    res["runs"] += m["runs"]
                    for k, v in m["stats"].items():
                        res["stats"][k] = res["stats"].get(k, 0) + v
                    res["digests"].update(m["digests"])
                    res["nontrivial"].update(m["nontrivial"])
                    res["samples"] += m["samples"]
                    res["logs"][w] = m["log"]
        now = time.time()
        if stop_at is not None and now > stop_at:
            break
        for w in list(open_):
            if now - last[w] > idle:
                res["errors"].append({"type": "error", "error": "worker %d made no progress for %d s" % (w, idle)})
                procs[w].kill()
                open_.discard(w)
    for w, p in enumerate(procs):
        if p.poll() is None:
            p.kill()
    for w, p in enumerate(procs):
        try:
            p.wait(10)
            err = p.stderr.read()
        except Exception:
            err = ""
        if w not in finished and not res["violations"] and not any(e.get("idx") is not None for e in res["errors"]):
            res["errors"].append({"type": "error", "error": "worker %d ended with status %s" % (w, p.returncode), "trace": err[-2000:]})
        p.stdout.close()
        p.stderr.close()
    res["wall"] = time.time() - t0
    return res


# ---------------------------------------------------------------------------------------------------------------------
def try_plan(prop, plan):
    """Execute a plan in this process -> (kind, detail) or None."""
    from . import world
    P = get_prop(prop)
    try:
        P.execute(dict(plan), world.Stats())
    except world.Violation as v:
        return (v.kind, v.detail)
    return None


def minimise_main(argv):
    """child: reads {prop, plan, kind} on stdin, writes the minimised plan."""
    from . import world
    job = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    world.init_worker()
    P = get_prop(job["prop"])
    if hasattr(P, "init"):
        P.init()
    plan, kind = job["plan"], job["kind"]
    attempt = [plan]

    def on_hang(detail):
        q = attempt[0] if kind == "no-progress" else plan
        json.dump({"plan": q, "reproduced": kind == "no-progress", "kind": kind, "detail": detail, "tried": tried}, out)
        out.flush()
        _leave(P, 0)
    tried = 0
    _watch(job["prop"], on_hang)
    first = try_plan(job["prop"], plan)
    t0 = time.time()
    if first is not None:
        kind = first[0]
        improved = True
        while improved and time.time() - t0 < job["budget"]:
            improved = False
            for q in P.shrink(plan):
                if time.time() - t0 > job["budget"]:
                    break
                tried += 1
                attempt[0] = q
                try:
                    r = try_plan(job["prop"], q)
                except BaseException:
                    r = None
                if r is not None and r[0] == kind:
                    plan = q
                    first = r
                    improved = True
                    break
    json.dump({"plan": plan, "reproduced": first is not None, "kind": first[0] if first else None,
               "detail": first[1] if first else None, "tried": tried}, out)
    out.flush()
    _leave(P, 0)


def _child(cmd, payload, timeout):
    p = subprocess.run([PY, "-m", "sim.main", cmd], cwd=HERE, env=child_env(), input=json.dumps(payload), capture_output=True, text=True, timeout=timeout)
    return p


def minimise(prop, v, budget=60):
    try:
        p = _child("minimise", {"prop": prop, "plan": v["plan"], "kind": v["kind"], "budget": budget}, budget + 180)
        return json.loads(p.stdout)
    except Exception as e:
        return {"plan": v["plan"], "reproduced": False, "kind": v["kind"], "detail": v["detail"], "tried": 0, "error": repr(e)}


def _reproduced(P, job, kind, detail):
    print("REPRODUCED property=%s kind=%s" % (job["property"], kind))
    print(detail)
    print("identical to the recorded failure: %s" % (kind == job["kind"] and detail == job["detail"]))
    sys.stdout.flush()
    _leave(P, 1)


def _watch(prop, on_hang):
    # the checks that start processes of their own watch those instead
    if prop not in ("C13", "C16"):
        from . import sched
        sched.watchdog(on_hang)


def replay_main(argv):
    """replay PATH: execute the plan of a replay file; exit 1 and print the violation if it reproduces."""
    from . import world
    with open(argv[0]) as f:
        job = json.load(f)
    world.init_worker()
    P = get_prop(job["property"])
    if hasattr(P, "init"):
        P.init()
    stats = world.Stats()

    def on_hang(detail):
        _reproduced(P, job, "no-progress", detail)
    _watch(job["property"], on_hang)
    pre = job.get("prefix")
    if pre:
        for idx in range(pre["start"], pre["stop"], pre["step"]):
            P.execute(P.gen(job["seed"], idx, run_seed(job["property"], job["seed"], idx), stats), stats)
        # the failing plan is generated here as well, because generating it runs calls
        P.gen(job["seed"], pre["stop"], run_seed(job["property"], job["seed"], pre["stop"]), stats)
    try:
        P.execute(dict(job["plan"]), stats)
    except world.Violation as v:
        _reproduced(P, job, v.kind, v.detail)
    print("no violation on replay")
    sys.stdout.flush()
    _leave(P, 0)


# ---------------------------------------------------------------------------------------------------------------------
def known_findings(prop):
    """Committed list of known findings: lines 'known: property=<id> kind=<kind> match=<text>'."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                m = line.split(" match=", 1)
                if len(m) == 2:
                    out.append((line, m[1]))
    return out


COMPONENTS = {
    "real": ["all cqcpy modules from the working tree", "numpy", "pyscf tensor contraction", "pyscf molecules and AO-MO transformation",
             "pyscf Cell and momentum-conservation helper", "CPython threads"],
    "simulated": ["thread scheduling", "exceptions and kills at executed lines", "periodic density-fitting backend", "locks and sleeping in library code"],
}


def _replay_ok(path):
    try:
        r = subprocess.run([PY, "-m", "sim.main", "replay", path], cwd=HERE, env=child_env(), capture_output=True, text=True, timeout=250)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1 and "identical to the recorded failure: True" in r.stdout


def _save(path, rec):
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)


def report(prop, P, seed, tier, v, workers):
    """Minimise, write the replay file, and confirm in new processes that it fails in exactly the recorded way."""
    m = minimise(prop, v, 45 if tier == "quick" else 90)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    path = os.path.join(EVID, "replay", "%s-seed%d-run%d.json" % (prop, seed, v["idx"]))
    rec = {"property": prop, "seed": seed, "tier": tier, "run_index": v["idx"], "kind": v["kind"], "detail": v["detail"], "plan": v["plan"],
           "original_plan": v["plan"], "original_detail": v["detail"], "minimiser_candidates": m["tried"], "replay_verified": False,
           "how": "cd /verif && python -m sim.main replay <this file>"}
    if m["reproduced"]:
        rec.update(kind=m["kind"], detail=m["detail"], plan=m["plan"])
        _save(path, rec)
        rec["replay_verified"] = _replay_ok(path) and _replay_ok(path)
    if not rec["replay_verified"]:
        # the failure may need what earlier runs of the same worker process left behind: replay those too
        rec.update(kind=v["kind"], detail=v["detail"], plan=v["plan"],
                   prefix={"start": v["idx"] % workers, "step": workers, "stop": v["idx"]})
        _save(path, rec)
        rec["replay_verified"] = _replay_ok(path)
    _save(path, rec)
    return rec, path


def check(prop, argv=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    P = get_prop(prop)
    nruns = P.quick_runs if tier == "quick" else P.thorough_runs
    if "VERIF_RUNS" in os.environ:
        nruns = int(os.environ["VERIF_RUNS"])
    wall = float(os.environ.get("VERIF_WALL", "240" if tier == "quick" else "720"))
    t0 = time.time()
    res = batch(prop, seed, tier, nruns, wall)
    viol = []
    code = 0
    lines = []
    res["violations"].sort(key=lambda v: v["idx"])
    shown = set()
    for k in res["known"]:
        if k["line"] not in shown:
            shown.add(k["line"])
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["detail"]))
    for v in res["violations"][:3]:
        rec, path = report(prop, P, seed, tier, v, res["workers"])
        if rec["replay_verified"]:
            lines.append("%s: %s" % (rec["kind"], rec["detail"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            viol.append({"kind": rec["kind"], "detail": rec["detail"], "replay": path, "replay_verified": True})
            code = 1
            break
        lines.append("ERROR of the check: run %d failed once (%s: %s) but not on replay of %s" % (v["idx"], v["kind"], v["detail"], path))
        code = 2
    if code == 0 and res["errors"]:
        for e in res["errors"][:3]:
            lines.append("ERROR of the check: %s\n%s" % (e.get("error"), e.get("trace", "")))
            if e.get("plan"):
                lines.append("plan: %s" % json.dumps(e["plan"])[:3000])
        code = 2
    elif code == 0 and res["runs"] < 0.2 * nruns:
        lines.append("ERROR of the check: only %d of %d runs finished" % (res["runs"], nruns))
        code = 2
    _sweep()
    wall_s = time.time() - t0
    write_evidence(prop, P, tier, seed, res, nruns, wall_s, viol)
    for ln in lines:
        print(ln)
    if code == 0:
        print("OK property=%s runs=%d wall=%.1fs" % (prop, res["runs"], wall_s))
    sys.stdout.flush()
    return code


def write_evidence(prop, P, tier, seed, res, nruns, wall_s, viol):
    st = res["stats"]
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault_") and not k.startswith("fault_at")}
    ev = st.get(P.eval_key, 0)
    rule = P.rule
    cov = {"evaluations": int(ev), "distinct_nontrivial": len(res["nontrivial"]), "rule": rule,
           "samples": [json.dumps(s)[:1200] for s in res["samples"][:5]] or ["none"],
           "simulated_runs": res["runs"], "planned_runs": nruns, "distinct_runs": len(res["digests"]),
           "runs_per_hour": round(res["runs"] / max(res["wall"], 1e-6) * 3600.0),
           "simulated_steps": st.get("events", 0),
           "simulated_time_s": round(st.get("events", 0) * 1e-6 + st.get("sim_time", 0.0), 3),
           "simulated_time_rule": "nominal: the library has no clock, so one microsecond per executed library event; simulated_steps is the real measure",
           "thread_switches": st.get("switches", 0), "faults_fired": faults,
           "process_starts": st.get("universes", 0), "known_findings_met": st.get("known_findings_met", 0),
           "counters": {k: v for k, v in sorted(st.items()) if k not in (P.eval_key, "events", "switches", "universes", "known_findings_met")
                        and k[6:] not in faults},
           "components": dict(COMPONENTS, **getattr(P, "components", {}))}
    doc = {"property": prop, "tier": tier, "seed": seed, "level": P.level, "coverage": cov, "wall_s": round(wall_s, 2),
           "assumptions": getattr(P, "assumptions", ["sys.monitoring reports every executed line of library code",
                                                     "numpy and pyscf calls are atomic with respect to thread switches"])}
    if viol:
        doc["violations"] = viol
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
