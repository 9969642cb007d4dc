"""C03 (failures are never answers), C04 (aborted calls leave no trace)."""
from . import backend, bundle, catalog, sched, values
from .p_threads import _lens, _threads, focus_of, shrink_threads
from .world import FAULTS, Violation, World, make_schedule, pick_event, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

EXC = ["MemoryError", "KeyboardInterrupt", "FloatingPointError", "OSError"]


def _points(rng, n, nb, limit, kinds=1):
    """Failure points: every event if there are few enough, else a sample; plus every backend crossing."""
    pts = []
    if n:
        if n > 5000:
            kinds = min(kinds, 2)
        limit = min(max(1, limit // kinds), max(4, 8000000 // (n * kinds)))     # long calls get fewer
        if n <= limit:
            evs = range(1, n + 1)
        else:
            # one visit to each place in the code first, then any events
            evs = {rng.choice(pl) for pl in rng.sample(n.places, min(len(n.places), max(1, 3 * limit // 4)))}
            evs = sorted(evs | set(rng.sample(range(1, n + 1), limit - len(evs))))
        for e in evs:
            for x in rng.sample(EXC, kinds):
                pts.append({"ev": e, "exc": x, "rep": rng.choice([0, 0, 0, 1, 3])})
    if nb:
        bs = range(1, nb + 1) if nb <= 60 else sorted(rng.sample(range(1, nb + 1), 60))
        for c in bs:
            pts.append({"bk": c, "exc": rng.choice(["OSError", "MemoryError", "RuntimeError", "KeyboardInterrupt"])})
    return pts


BFAULTS = dict(FAULTS, RuntimeError=lambda: RuntimeError("backend failed (injected)"))


def _one_call(U, b, name, p, pt, stats, watch=False):
    """One faulted call in an active universe -> (outcome, fired, change-of-arguments)."""
    fn, args, kw = catalog.call_of(U, b, name, p)
    w = values.Watch([("argument %s" % i, a) for i, a in enumerate(args)] + [("argument " + k, a) for k, a in kw.items()]) if watch else None
    sim = sched.Sim()
    bp = backend.Plan({(0, pt["bk"]): BFAULTS[pt["exc"]]} if pt and "bk" in pt else None)
    backend.install(bp)
    res = {}

    def script(th):
        th.cap = 5000000
        res["out"] = th.call(fn, args, kw, fault=(pt["ev"], BFAULTS[pt["exc"]], pt.get("rep", 0)) if pt and "ev" in pt else None)
        res["fired"] = bool(th.fired) or bool(bp.fired)
    try:
        sim.run_inline(script)
    except (sched.SimKill, sched.SimStepLimit):
        raise Violation("no-progress", "%s waits for a lock nobody holds the key to" % name)
    finally:
        backend.install(None)
    stats.inc("events", sim.steps)
    if res["fired"]:
        stats.inc("fault_" + pt["exc"])
        stats.inc("fault_at_backend" if "bk" in pt else "fault_at_event")
    return res["out"], res["fired"], (w.changed_full() if w else None)


class C03(object):
    eval_key = 'evaluations'
    rule = ("evaluations are calls executed with one planned failure point; runs are distinct by operation, parameters, event granularity and "
            "the points at which a fault actually fired, and non-trivial if at least one fired")
    level = "fault_enumeration"
    quick_runs = 2700
    thorough_runs = 30000

    @staticmethod
    def gen(seed, idx, rng, stats):
        name = focus_of(seed, idx, True)
        plan = {"mode": "instr" if rng.random() < 0.35 else "line"}
        spec = spec_for(rng, name, big=rng.random() < 0.15)
        if spec["cn"] > 4:
            plan["mode"] = "line"       # long calls
        plan["bundles"] = [{"spec": spec}]
        plan["op"] = name
        plan["p"] = catalog.make_params(name, rng, spec)
        W = World(plan, stats)
        _, n, nb = W.baseline(name, plan["p"], spec)
        heavy = catalog.OPS[name].pyscf
        # one process image per failure point, or one for all of them with every fault kind at every point
        plan["shared"] = rng.random() < 0.7
        if plan["shared"]:
            plan["points"] = _points(rng, n, nb, 100 if heavy else 800 if plan["mode"] == "line" else 400, 4)
        else:
            plan["points"] = _points(rng, n, nb, 60 if heavy else 400 if plan["mode"] == "line" else 120)
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        W._base = plan.get("_base") or {}
        spec = plan["bundles"][0]["spec"]
        name, p = plan["op"], plan["p"]
        ref = W.baseline(name, p, spec)[0]
        fired_at = []
        W.start()
        for k, pt in enumerate(plan["points"]):
            if k and not plan.get("shared"):
                W.start()
            with W.U, sched.patched_primitives():
                b = W.bundles[0]
                out, fired, _ = _one_call(W.U, b, name, p, pt, stats)
                stats.inc("evaluations")
                if fired:
                    fired_at.append(pt.get("ev", -pt.get("bk", 0)))
                if out[0] == "exc":
                    if not fired and ref[0] == "ok" and not plan.get("shared"):
                        raise Violation("raised", "%s raised %r without a fault" % (name, out[1]))
                    continue
                if not fired and plan.get("shared"):
                    continue
                if ref[0] == "exc":
                    if fired:
                        raise Violation("answer", "%s returned a value although it was hit by %s at %s and raises when undisturbed" % (name, pt["exc"], _at(pt)))
                    continue
                d = values.compare(values.freeze(out[1]), ref[1])
                if d:
                    raise Violation("answer", "%s was hit by %s at %s and returned a wrong result: %s" % (name, pt["exc"], _at(pt), d))
                if fired:
                    stats.inc("survived_correctly")
        return {"digest": name + str(plan["p"]) + plan["mode"] + str(fired_at[:50]) + str(len(fired_at)), "nontrivial": bool(fired_at), "n": len(fired_at),
                "samples": ["%s %s@%s" % (name, pt["exc"], _at(pt)) for pt in plan["points"][:1]]}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["points"]):
            if c:
                yield dict(plan, points=c)
        if plan.get("shared"):
            yield dict(plan, shared=False)
        for i, pt in enumerate(plan["points"]):
            if pt.get("rep"):
                yield dict(plan, points=plan["points"][:i] + [dict(pt, rep=0)] + plan["points"][i + 1:])
        for s in shrink_spec(plan["bundles"][0]["spec"]):
            yield dict(plan, bundles=[{"spec": s}])


def _at(pt):
    return "backend crossing %d" % pt["bk"] if "bk" in pt else "event %d" % pt["ev"]


class C04(object):
    eval_key = 'evaluations'
    rule = ("evaluations are calls or thread groups executed with planned failure points; runs are distinct by operation, parameters, points, "
            "later calls or switch points, and non-trivial if at least one fault fired")
    level = "fault_enumeration"
    quick_runs = 2400
    thorough_runs = 40000

    @staticmethod
    def gen(seed, idx, rng, stats):
        name = focus_of(seed, idx, True)
        plan = {"mode": "instr" if rng.random() < 0.3 else "line"}
        spec = spec_for(rng, name, big=rng.random() < 0.15)
        if spec["cn"] > 4:
            plan["mode"] = "line"       # long calls
        W = World(plan, stats)
        if rng.random() < 0.6:
            # sequential: abort(s), then retry and other calls
            plan["kind"] = "seq"
            plan["bundles"] = [{"spec": spec}, {"spec": bundle.twin_of(rng, spec)}]
            if not catalog.applicable(name, plan["bundles"][1]["spec"]):
                plan["bundles"][1] = {"spec": dict(spec, seed=rng.randrange(1 << 30))}
            plan["op"] = name
            plan["p"] = catalog.make_params(name, rng, spec)
            _, n, nb = W.baseline(name, plan["p"], spec)
            heavy = catalog.OPS[name].pyscf
            pts = _points(rng, n, nb, 20 if heavy else 120 if plan["mode"] == "line" else 50)
            plan["group"] = rng.choice([1, 1, 1, 2, 4])     # aborts in a row before looking
            plan["points"] = pts
            others = pick_ops(rng, spec, 2, near=name)
            # a call of another shape, and sometimes a completed call before the first abort
            other = spec_for(rng, name)
            plan["bundles"].append({"spec": other})
            plan["before"] = []
            if rng.random() < 0.3:
                k = rng.randrange(3)
                plan["before"].append({"op": name, "b": k, "p": catalog.make_params(name, rng, plan["bundles"][k]["spec"])})
            if rng.random() < 0.15 and not heavy:       # a call rejected half-way because its arguments do not fit
                plan["before"].append({"op": name, "b": 0, "p": dict(plan["p"], misfit=[rng.randrange(24), rng.randrange(5)])})
            plan["after"] = [{"op": name, "b": 0, "p": plan["p"]}]
            if rng.random() < 0.7:
                plan["after"].append({"op": name, "b": 1, "p": plan["p"]})
            if rng.random() < 0.5:
                plan["after"].append({"op": name, "b": 2, "p": catalog.make_params(name, rng, other)})
            for o in others:
                if rng.random() < 0.4:
                    plan["after"].append({"op": o, "b": 0, "p": catalog.make_params(o, rng, spec)})
            if rng.random() < 0.3:
                rng.shuffle(plan["after"])
        else:
            plan["kind"] = "conc"
            plan["bundles"], plan["threads"] = _threads(rng, W, name, spec, rng.choice([2, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2]))
            lens = _lens(W, plan)
            plan["schedule"], plan["style"] = make_schedule(rng, lens)
            plan["faults"] = []
            victims = rng.sample(range(len(plan["threads"])), rng.choice([1, 1, 2]) if len(plan["threads"]) > 2 else 1)
            for t in victims:
                for k, o in enumerate(plan["threads"][t]):
                    b = plan["bundles"][o["b"]]
                    n = W.events(o["op"], o["p"], b["spec"])
                    if n and (k == 0 or rng.random() < 0.5):
                        plan["faults"].append({"tid": t, "op": k, "ev": pick_event(rng, n), "exc": rand_exc(rng)})
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        return _c04_seq(plan, stats) if plan["kind"] == "seq" else _c04_conc(plan, stats)

    @staticmethod
    def shrink(plan):
        if plan["kind"] == "conc":
            yield from shrink_threads(plan)
            return
        for c in shrink_list(plan["points"]):
            if c:
                yield dict(plan, points=c)
        if plan["group"] > 1:
            yield dict(plan, group=1)
        for c in shrink_list(plan["after"]):
            yield dict(plan, after=c)
        if plan.get("before"):
            yield dict(plan, before=[])
        for i in range(len(plan["bundles"])):
            for s in shrink_spec(plan["bundles"][i]["spec"]):
                yield dict(plan, bundles=plan["bundles"][:i] + [{"spec": s}] + plan["bundles"][i + 1:])


def _c04_seq(plan, stats):
    W = World(plan, stats)
    W._base = plan.get("_base") or {}
    name, p = plan["op"], plan["p"]
    g = plan["group"]
    pts = plan["points"]
    nfired = 0
    for i in range(0, len(pts), g):
        W.start()
        with W.U, sched.patched_primitives():
            for o in plan.get("before", ()):
                _one_call(W.U, W.bundles[o["b"]], o["op"], o["p"], None, stats)
            for pt in pts[i:i + g]:
                out, fired, ch = _one_call(W.U, W.bundles[0], name, p, pt, stats, watch=True)
                stats.inc("evaluations")
                nfired += bool(fired)
                out = None
                if ch:
                    raise Violation("argument", "%s of %s changed (%s) when the call was cut short by %s at %s" % (ch[0], name, ch[1], pt["exc"], _at(pt)))
            for o in plan["after"]:
                spec = plan["bundles"][o["b"]]["spec"]
                if not catalog.applicable(o["op"], spec):
                    continue
                out, _, _ = _one_call(W.U, W.bundles[o["b"]], o["op"], o["p"], None, stats)
                stats.inc("calls_judged")
                W.judge("after %s was cut short by %s at %s, %s" % (name, pt["exc"], _at(pt), o["op"]),
                        (out[0], values.freeze(out[1]) if out[0] == "ok" else out[1]), W.baseline(o["op"], o["p"], spec)[0])
    return {"digest": "%s %s %s %d %s" % (name, plan["p"], plan["mode"], len(pts), [o["op"] for o in plan["after"]]), "nontrivial": nfired > 0, "n": nfired}


def _c04_conc(plan, stats):
    W = World(plan, stats)
    W._base = plan.get("_base") or {}
    lens = _lens(W, plan)
    W.start()
    sim = sched.Sim(plan["schedule"])
    faults = {(f["tid"], f["op"]): f for f in plan.get("faults", [])}
    results = []
    nf = [0]
    changed = []
    with W.U, sched.patched_primitives():
        backend.install(backend.Plan())
        allcalls = [[(o, catalog.call_of(W.U, W.bundles[o["b"]], o["op"], o["p"])) for o in prog] for prog in plan["threads"]]
        watch = values.Watch([("an argument of " + o["op"], a) for c in allcalls for o, (fn, args, kw) in c for a in list(args) + list(kw.values())])

        def make(calls):
            def script(th):
                for k, (o, (fn, args, kw)) in enumerate(calls):
                    f = faults.get((th.tid, k))
                    out = th.call(fn, args, kw, fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
                    if f and th.fired:
                        stats.inc("fault_" + f["exc"])
                        stats.inc("fault_at_event")
                        nf[0] += 1
                        c = watch.changed_full()
                        if c:
                            changed.append((c, o["op"]))
                        out = th.call(fn, args, kw)           # immediate retry
                    results.append((th.tid, o, (out[0], values.freeze(out[1]) if out[0] == "ok" else out[1])))
            return script
        for t, calls in enumerate(allcalls):
            sim.spawn(make(calls)).cap = 40 * lens[t] + 20000
        sim.run()
    stats.inc("events", sim.steps)
    stats.inc("switches", sim.nswitch)
    stats.inc("evaluations")
    if changed:
        raise Violation("argument", "%s changed (%s) after %s was cut short" % (changed[0][0][0], changed[0][0][1], changed[0][1]))
    if sim.deadlock:
        raise Violation("no-progress", "after an aborted call the remaining calls wait for ever")
    if sim.steplimit is not None:
        raise Violation("no-progress", "after an aborted call thread %d exceeds its step limit" % sim.steplimit)
    for tid, o, out in results:
        b = plan["bundles"][o["b"]]
        stats.inc("calls_judged")
        W.judge("thread %d: %s (with aborted calls around it)" % (tid, o["op"]), out, W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()))[0])
    return {"digest": sim.interleaving_digest() + str(sim.fault_log), "nontrivial": nf[0] > 0, "n": nf[0]}
