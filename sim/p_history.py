"""C05 (no dependence on history), C06 (results belong to the caller)."""
import gc

import numpy

from . import backend, bundle, catalog, sched, values
from .p_threads import focus_of, items_of, near_twin
from .world import FAULTS, Violation, World, make_schedule, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for


class C05(object):
    eval_key = 'calls_judged'
    rule = ("evaluations are calls compared with the same call in a fresh process; runs are distinct by the sequence of calls, overwrites and "
            "re-creations, and non-trivial if it has more than one step")
    level = "exploration"
    quick_runs = 9000
    thorough_runs = 150000

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        plan = {"mode": "line"}
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        nb = rng.choice([1, 2, 2, 3])
        bundles = [{"spec": spec}]
        pf = catalog.make_params(focus, rng, spec)
        items = items_of(focus, pf, spec)
        for _ in range(nb - 1):
            r = rng.random()
            if r < 0.35:
                bundles.append(near_twin(rng, spec, items))
                continue
            t = bundle.twin_of(rng, spec) if r < 0.8 else spec_for(rng, focus, big=rng.random() < 0.2)
            if not catalog.applicable(focus, t):
                t = dict(spec, seed=rng.randrange(1 << 30))
            bundles.append({"spec": t})
        plan["bundles"] = bundles
        others = pick_ops(rng, spec, 3, near=focus)
        steps = []
        for k in range(rng.randint(3, 12)):
            r = rng.random()
            bi = rng.randrange(nb)
            if r < 0.55 or k == 0:
                if rng.random() < 0.75:
                    nm = focus
                    p = pf if rng.random() < 0.6 else catalog.make_params(focus, rng, bundles[bi]["spec"])
                else:
                    nm = rng.choice(others)
                    p = catalog.make_params(nm, rng, bundles[bi]["spec"])
                st = ["call", bi, nm, p]
                if rng.random() < 0.08:
                    st.append({"ev": rng.randint(1, 60), "exc": rand_exc(rng)})
                steps.append(st)
            elif r < 0.85:
                steps.append(["mut", bi, rng.choice(items) if items else "T1", rng.randrange(32), rng.randrange(1 << 30)])
            elif r < 0.95:
                ch = [[i, rng.randrange(32), rng.randrange(1 << 30)] for i in rng.sample(items, min(len(items), rng.choice([1, 1, 3])))]
                steps.append(["renew", bi, ch])
            else:
                steps.append(["gc", bi])
        steps.append(["call", rng.randrange(nb), focus, pf])
        r = rng.random()
        if r < 0.1 and catalog.OPS[focus].heavy <= 4:
            # long histories: the same call very often, or many different inputs in two rounds
            if r < 0.05:
                steps.insert(rng.randrange(len(steps) + 1), ["burst", rng.randrange(nb), focus, pf, rng.choice([20, 70, 150])])
            else:
                m = rng.choice([6, 12, 20, 36])
                seeds = [rng.randrange(1 << 30) for _ in range(m)]
                order = list(range(m)) + rng.choices(range(m), k=m)
                steps.insert(rng.randrange(len(steps) + 1), ["many", 0, focus, pf, seeds, order])
        plan["steps"] = steps
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats).start()
        trace = []
        with W.U, sched.patched_primitives():
            for st in plan["steps"]:
                b = W.bundles[st[1] % len(W.bundles)]
                if st[0] == "call":
                    if not catalog.applicable(st[2], b.s):
                        continue
                    fault = st[4] if len(st) > 4 else None
                    fn, args, kw = catalog.call_of(W.U, b, st[2], st[3])
                    sim = sched.Sim()
                    res = {}

                    def script(th):
                        th.cap = 5000000
                        res["out"] = th.call(fn, args, kw, fault=(fault["ev"], FAULTS[fault["exc"]]) if fault else None)
                        res["fired"] = bool(th.fired)
                    backend.install(backend.Plan())
                    try:
                        sim.run_inline(script)
                    except (sched.SimKill, sched.SimStepLimit):
                        raise Violation("no-progress", "%s waits for ever" % st[2])
                    backend.install(None)
                    stats.inc("events", sim.steps)
                    out = res["out"]
                    fn = args = kw = None
                    if fault and res["fired"]:
                        stats.inc("fault_" + fault["exc"])
                        out = res["out"] = None
                        continue
                    fz = (out[0], values.freeze(out[1]) if out[0] == "ok" else out[1])
                    out = res["out"] = None
                    stats.inc("calls_judged")
                    trace.append(st[2])
                    try:
                        W.judge("call of %s after %d earlier steps" % (st[2], len(trace) - 1), fz, W.baseline(st[2], st[3], b.s, b.muts)[0])
                    except Violation as v:
                        v.detail += "; history: %s" % (trace,)
                        raise
                elif st[0] == "mut":
                    b.mutate(*st[2:])
                    stats.inc("overwrites")
                    trace.append("overwrite " + st[2])
                elif st[0] == "renew":
                    b.drop()
                    for m in st[2]:
                        b.mutate(*m)
                    stats.inc("recreations")
                    trace.append("re-create all arguments")
                elif st[0] == "gc":
                    gc.collect()
                elif st[0] in ("burst", "many"):
                    if not catalog.applicable(st[2], b.s):
                        continue
                    if st[0] == "burst":
                        todo = [(b, W.baseline(st[2], st[3], b.s, b.muts)[0])] * st[4]
                    else:
                        bs = [bundle.Bundle(W.U, dict(b.s, seed=x)) for x in st[4]]
                        todo = [(bs[k], W.baseline(st[2], st[3], bs[k].s)[0]) for k in st[5] if k < len(bs)]
                    for n, (bb, exp) in enumerate(todo):
                        fn, args, kw = catalog.call_of(W.U, bb, st[2], st[3])
                        try:
                            out = ("ok", values.freeze(fn(*args, **kw)))
                        except Exception as e:
                            out = ("exc", e)
                        stats.inc("calls_judged")
                        stats.inc("calls_in_long_histories")
                        W.judge("call %d of %s in a long history" % (n + 1, st[2]), out, exp)
                    trace.append("%s %s %d" % (st[0], st[2], len(todo)))
        return {"digest": repr(trace), "nontrivial": len(trace) > 1}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["steps"]):
            if c:
                yield dict(plan, steps=c)
        for i, st in enumerate(plan["steps"]):
            if st[0] == "many":
                for c in shrink_list(st[5]):
                    yield dict(plan, steps=plan["steps"][:i] + [st[:5] + [c]] + plan["steps"][i + 1:])
            elif st[0] == "burst" and st[4] > 1:
                for k in (st[4] // 2, st[4] - 1):
                    yield dict(plan, steps=plan["steps"][:i] + [st[:4] + [k]] + plan["steps"][i + 1:])
        for i in range(len(plan["bundles"])):
            for s in shrink_spec(plan["bundles"][i]["spec"]):
                yield dict(plan, bundles=plan["bundles"][:i] + [dict(plan["bundles"][i], spec=s)] + plan["bundles"][i + 1:])


# ------------------------------------------------------------------------------------------------------------------
def _scribble(raw, which, seed):
    """Overwrite some of the writable arrays of a result; returns indices actually overwritten."""
    arrs = values.arrays_at(raw)
    if not arrs:
        return []
    rng = bundle.rng_for(seed, "scribble")
    done = []
    sel = range(len(arrs)) if which == "all" else [which % len(arrs)]
    for k in sel:
        a = arrs[k]
        if not a.flags.writeable or a.size == 0 or a.dtype.kind not in "fciu":
            continue
        if a.dtype.kind in "iu":
            a[...] = rng.integers(3, 9, a.shape)
        else:
            a[...] = 1e3 * rng.uniform(1, 2, a.shape)
        done.append(k)
    return done


class _Ledger(object):
    """What every returned result must look like now."""

    def __init__(self, stats):
        self.rows = []
        self.stats = stats

    def add(self, what, raw, views):
        self.rows.append({"what": what, "raw": raw, "views": views,
                          "arrs": values.arrays_at(raw), "exp": [numpy.array(a, copy=True) for a in values.arrays_at(raw)]})

    def scribble(self, k, which, seed):
        if not self.rows:
            return
        r = self.rows[k % len(self.rows)]
        if r["views"]:
            return
        done = _scribble(r["raw"], which, seed)
        self.stats.inc("arrays_overwritten", len(done))
        # the overwritten arrays now hold junk; all others must be as before
        for j in done:
            r["exp"][j] = numpy.array(r["arrs"][j], copy=True)
        self.check("after overwriting %s of %s" % ("arrays %s" % done, r["what"]))

    def check(self, when):
        for r in self.rows:
            for j, (a, e) in enumerate(zip(r["arrs"], r["exp"])):
                if a.shape != e.shape or a.dtype != e.dtype or a.tobytes() != e.tobytes():
                    raise Violation("result-changed", "array %d of the result of %s changed %s" % (j, r["what"], when))


class C06(object):
    eval_key = 'calls_judged'
    rule = ("evaluations are calls compared with their solo result while all earlier results are re-checked; runs are distinct by the sequence "
            "of calls and scribbles plus switch points, and non-trivial if a scribble happened after a call")
    level = "exploration"
    quick_runs = 9000
    thorough_runs = 150000

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        plan = {"mode": "line"}
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        nb = rng.choice([1, 1, 2])
        bundles = [{"spec": spec}]
        for _ in range(nb - 1):
            t = bundle.twin_of(rng, spec)
            if not catalog.applicable(focus, t):
                t = dict(spec, seed=rng.randrange(1 << 30))
            bundles.append({"spec": t})
        plan["bundles"] = bundles
        pf = catalog.make_params(focus, rng, spec)
        others = pick_ops(rng, spec, 3, near=focus)
        nth = rng.choice([1, 1, 2])
        threads = []
        lens = []
        W = World(plan, stats)
        for t in range(nth):
            steps = []
            n = 0
            for k in range(rng.randint(3, 8) if nth == 1 else rng.randint(2, 5)):
                r = rng.random()
                bi = rng.randrange(nb)
                if r < 0.6 or k == 0:
                    if rng.random() < 0.75:
                        nm, p = focus, (pf if rng.random() < 0.6 else catalog.make_params(focus, rng, bundles[bi]["spec"]))
                    else:
                        nm = rng.choice(others)
                        p = catalog.make_params(nm, rng, bundles[bi]["spec"])
                    if not catalog.applicable(nm, bundles[bi]["spec"]):
                        continue
                    steps.append(["call", bi, nm, p])
                    n += W.events(nm, p, bundles[bi]["spec"]) + 1
                else:
                    steps.append(["scribble", rng.randrange(16), rng.choice(["all", rng.randrange(16)]), rng.randrange(1 << 30)])
                    n += 1
            threads.append(steps)
            lens.append(n)
        plan["threads"] = threads
        plan["schedule"], plan["style"] = make_schedule(rng, lens)
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        W._base = plan.get("_base") or {}
        # baselines first, so that event counts do not depend on what happens below
        for prog in plan["threads"]:
            for st in prog:
                if st[0] == "call":
                    W.baseline(st[2], st[3], plan["bundles"][st[1]]["spec"])
        W.start()
        led = _Ledger(stats)
        viol = []
        trace = []
        sim = sched.Sim(plan["schedule"])
        with W.U, sched.patched_primitives():
            backend.install(backend.Plan())
            pre = []
            for prog in plan["threads"]:
                pre.append([catalog.call_of(W.U, W.bundles[st[1]], st[2], st[3]) if st[0] == "call" else None for st in prog])
            watch = values.Watch([("argument %d of %s" % (i, st[2]), a) for prog, calls in zip(plan["threads"], pre)
                                  for st, c in zip(prog, calls) if c for i, a in enumerate(list(c[1]) + list(c[2].values()))])

            def make(prog, calls):
                def script(th):
                    for st, c in zip(prog, calls):
                        if viol:
                            return
                        try:
                            if st[0] == "call":
                                out = th.call(c[0], c[1], c[2])
                                fz = (out[0], values.freeze(out[1]) if out[0] == "ok" else out[1])
                                trace.append(st[2])
                                led.check("during later calls (%s)" % trace[-3:])
                                W.judge("call of %s (after %s)" % (st[2], trace[-4:-1]), fz, W.baseline(st[2], st[3], plan["bundles"][st[1]]["spec"])[0])
                                stats.inc("calls_judged")
                                if out[0] == "ok":
                                    led.add("%s (call %d)" % (st[2], len(trace)), out[1], catalog.OPS[st[2]].views)
                            else:
                                th.sim.boundary(th)
                                led.scribble(st[1], st[2], st[3])
                                trace.append("scribble")
                            ch = watch.changed()
                            if ch:
                                raise Violation("argument", "%s changed (%s) after the caller overwrote results; history %s" % (ch[0], ch[1], trace))
                        except Violation as v:
                            viol.append(v)
                            return
                return script
            for prog, calls in zip(plan["threads"], pre):
                sim.spawn(make(prog, calls)).cap = 5000000
            sim.run()
            if not viol:
                led.check("by the end of the history")
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        if viol:
            raise viol[0]
        return {"digest": repr(trace) + sim.interleaving_digest(), "nontrivial": "scribble" in trace and len(trace) > 1}

    @staticmethod
    def shrink(plan):
        for i in range(len(plan["threads"])):
            if len(plan["threads"]) > 1:
                q = dict(plan)
                q["threads"] = plan["threads"][:i] + plan["threads"][i + 1:]
                q["schedule"] = [[t - (t > i), n] for t, n in plan["schedule"] if t != i]
                yield q
            for c in shrink_list(plan["threads"][i]):
                q = dict(plan)
                q["threads"] = plan["threads"][:i] + [c] + plan["threads"][i + 1:]
                yield q
        for c in shrink_list(plan["schedule"]):
            yield dict(plan, schedule=c)
        for i in range(len(plan["bundles"])):
            for s in shrink_spec(plan["bundles"][i]["spec"]):
                yield dict(plan, bundles=plan["bundles"][:i] + [{"spec": s}] + plan["bundles"][i + 1:])
