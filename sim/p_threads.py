"""C01 (isolation of concurrent calls), C02 (arguments untouched at every instant)."""
import random

from . import backend, bundle, catalog, scent, sched, universe, values
from .world import FAULTS, Events, Violation, World, make_schedule, pick_event, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

OPNAMES = list(catalog.OPS)


def focus_of(seed, idx, tries=False):
    """Every operation in turn; every other run goes to operations that reach module state or the interpreter, if there are any."""
    order = list(OPNAMES)
    random.Random("order%d" % seed).shuffle(order)
    some = scent.marked()
    if some and idx % 2:
        return sorted(some, key=order.index)[idx // 2 % len(some)]
    if some:
        idx //= 2
    if tries and idx % 4 == 3:
        # operations with clean-up or error handling of their own
        some = scent.marked(True)
        if some:
            return sorted(some, key=order.index)[idx // 4 % len(some)]
    return order[idx % len(order)]


def items_of(name, p, spec):
    """Which bundle items an operation touches."""
    U = universe.Universe()
    with U:
        b = bundle.Bundle(U, spec)
        catalog.call_of(U, b, name, p)
        return [k for k in b.items]


def near_twin(rng, spec, items):
    """The same arguments except for a few overwritten elements, signs or positions of one or two arrays."""
    muts = [[rng.choice(items), rng.randrange(32), rng.randrange(1 << 30)] for _ in range(rng.choice([1, 1, 2]))] if items else []
    return {"spec": dict(spec), "muts": muts}


def _threads(rng, W, focus, spec, nthreads, maxops, nb):
    """Thread programs biased towards the focus operation on same-shaped inputs."""
    bundles = [{"spec": spec}]
    pf = catalog.make_params(focus, rng, spec)
    for _ in range(nb - 1):
        if rng.random() < 0.2:
            bundles.append(near_twin(rng, spec, items_of(focus, pf, spec)))
            continue
        t = bundle.twin_of(rng, spec)
        if not catalog.applicable(focus, t):
            t = dict(spec, seed=rng.randrange(1 << 30))
        bundles.append({"spec": t})
    others = pick_ops(rng, spec, 3, near=focus)
    threads = []
    pair = rng.random() < 0.25                  # two different operations against each other
    for t in range(nthreads):
        prog = []
        for k in range(rng.randint(1, maxops)):
            if (k == 0 and t < (1 if pair else 2)) or (rng.random() < 0.6 and not (pair and t == 1)):
                nm = focus
                p = pf if rng.random() < 0.7 else catalog.make_params(nm, rng, spec)
            else:
                nm = rng.choice(others)
                p = catalog.make_params(nm, rng, spec)
            prog.append({"op": nm, "b": rng.randrange(nb), "p": p})
        threads.append(prog)
    return bundles, threads


def _lens(W, plan):
    out = []
    for prog in plan["threads"]:
        parts = []
        for o in prog:
            b = plan["bundles"][o["b"]]
            parts.append(W.events(o["op"], o["p"], b["spec"], b.get("muts", ())))
        out.append(Events.total(parts))
    return out


# ------------------------------------------------------------------------------------------------------------------
class C01(object):
    eval_key = 'calls_judged'
    rule = ("evaluations are calls compared with their solo result; runs are distinct by the hash of the sequence of switch points "
            "(thread, function, line or bytecode offset) and non-trivial if at least one switch happened inside the run")
    level = "exploration"
    quick_runs = 9000
    thorough_runs = 120000

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        plan = {"mode": "instr" if rng.random() < 0.3 else "line"}
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        if spec["cn"] > 4:
            plan["mode"] = "line"       # long calls
        nthreads = rng.choice([2, 2, 2, 2, 3, 4])
        W = World(plan, stats)
        plan["bundles"], plan["threads"] = _threads(rng, W, focus, spec, nthreads, rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 2, 3]))
        plan["schedule"], plan["style"] = make_schedule(rng, _lens(W, plan))
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        W._base = plan.get("_base") or {}
        lens = _lens(W, plan)
        W.start()
        sim = sched.Sim(plan["schedule"])
        results = []
        with W.U, sched.patched_primitives():
            backend.install(backend.Plan())
            for t, prog in enumerate(plan["threads"]):
                calls = [(o, catalog.call_of(W.U, W.bundles[o["b"]], o["op"], o["p"])) for o in prog]
                sim.spawn(_script(calls, results)).cap = 20 * lens[t] + 20000
            sim.run()
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        stats.inc("style_" + plan.get("style", "x"))
        info = {"digest": sim.interleaving_digest(), "nontrivial": sim.nswitch > 0}
        if sim.deadlock:
            raise Violation("no-progress", "all calls wait for each other (deadlock)")
        if sim.steplimit is not None:
            raise Violation("no-progress", "thread %d exceeded %d steps" % (sim.steplimit, sim.threads[sim.steplimit].cap))
        for tid, o, out, frozen, raw in results:
            b = plan["bundles"][o["b"]]
            stats.inc("calls_judged")
            W.judge("thread %d: %s" % (tid, o["op"]), (out[0], frozen if out[0] == "ok" else out[1]),
                    W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()))[0])
        for tid, o, out, frozen, raw in results:
            if out[0] == "ok":
                d = values.compare(values.freeze(raw), frozen, exact=True)
                if d:
                    raise Violation("result", "result of thread %d: %s changed after it was returned: %s" % (tid, o["op"], d))
        return info

    @staticmethod
    def shrink(plan):
        return shrink_threads(plan)


def _script(calls, results):
    def script(th):
        for o, (fn, args, kw) in calls:
            out = th.call(fn, args, kw)
            results.append((th.tid, o, out, values.freeze(out[1]) if out[0] == "ok" else None, out[1] if out[0] == "ok" else None))
    return script


def shrink_threads(plan):
    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            q = dict(plan)
            q["threads"] = plan["threads"][:i] + plan["threads"][i + 1:]
            q["schedule"] = [[t - (t > i), n] for t, n in plan["schedule"] if t != i]
            if plan.get("faults"):
                q["faults"] = [dict(f, tid=f["tid"] - (f["tid"] > i)) for f in plan["faults"] if f["tid"] != i]
            yield q
    for i, prog in enumerate(plan["threads"]):
        for j in range(len(prog)):
            if len(prog) > 1:
                q = dict(plan)
                q["threads"] = [list(x) for x in plan["threads"]]
                del q["threads"][i][j]
                if plan.get("faults"):
                    q["faults"] = [dict(f, op=f["op"] - (f["tid"] == i and f["op"] > j)) for f in plan["faults"]
                                   if not (f["tid"] == i and f["op"] == j)]
                yield q
    for c in shrink_list(plan["schedule"]):
        yield dict(plan, schedule=c)
    for i, f in enumerate(plan.get("faults", ())):
        yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    merged = []
    for t, n in plan["schedule"]:
        if merged and merged[-1][0] == t:
            merged[-1][1] += n
        else:
            merged.append([t, n])
    if len(merged) < len(plan["schedule"]):
        yield dict(plan, schedule=merged)
    for i in range(len(plan["bundles"])):
        for s in shrink_spec(plan["bundles"][i]["spec"]):
            yield dict(plan, bundles=plan["bundles"][:i] + [dict(plan["bundles"][i], spec=s)] + plan["bundles"][i + 1:])
    for i, (t, n) in enumerate(plan["schedule"]):
        if n > 1:
            for m in sorted({1, n // 2, n - 1}):
                yield dict(plan, schedule=plan["schedule"][:i] + [[t, m]] + plan["schedule"][i + 1:])
    if plan.get("mode") == "instr":
        yield dict(plan, mode="line")


# ------------------------------------------------------------------------------------------------------------------
LOOKED_AT = 3 * 10**9


class C02(object):
    eval_key = 'observations'
    rule = ("evaluations are instants at which all arguments were compared with their original bytes; runs are distinct by first operation, "
            "switch points and number of faults, and non-trivial if more than two instants were observed")
    level = "exploration"
    quick_runs = 9000
    thorough_runs = 120000

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        plan = {"mode": "instr" if rng.random() < 0.25 else "line"}
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        if spec["cn"] > 4:
            plan["mode"] = "line"       # long calls
        W = World(plan, stats)
        nthreads = rng.choice([1, 1, 1, 2])
        plan["bundles"], plan["threads"] = _threads(rng, W, focus, spec, nthreads, rng.choice([1, 1, 2]), rng.choice([1, 1, 2]))
        lens = _lens(W, plan)
        plan["schedule"], plan["style"] = make_schedule(rng, lens)
        plan["faults"] = []
        if rng.random() < 0.45:
            for t, prog in enumerate(plan["threads"]):
                for k, o in enumerate(prog):
                    if rng.random() < 0.7:
                        b = plan["bundles"][o["b"]]
                        n = W.events(o["op"], o["p"], b["spec"])
                        if n:
                            plan["faults"].append({"tid": t, "op": k, "ev": pick_event(rng, n), "exc": rand_exc(rng)})
        tot = sum(lens)
        plan["stride"] = 1 if tot < 1500 else rng.choice([tot // 700, tot // 1500 + 1])
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        W._base = plan.get("_base") or {}
        lens = _lens(W, plan)
        W.start()
        sim = sched.Sim(plan["schedule"])
        faults = {(f["tid"], f["op"]): f for f in plan.get("faults", [])}
        found = []
        outcomes = []
        with W.U, sched.patched_primitives():
            backend.install(backend.Plan())
            allcalls = []
            for t, prog in enumerate(plan["threads"]):
                allcalls.append([(o, catalog.call_of(W.U, W.bundles[o["b"]], o["op"], o["p"])) for o in prog])
            named = []
            for t, calls in enumerate(allcalls):
                for k, (o, (fn, args, kw)) in enumerate(calls):
                    for i, a in enumerate(args):
                        named.append(("argument %d of %s" % (i, o["op"]), a))
                    for kname, a in kw.items():
                        named.append(("argument %s of %s" % (kname, o["op"]), a))
            watch = values.Watch(named)
            obs = [0]
            # at most this many bytes are compared in one run
            afford = max(40, LOOKED_AT // (watch.nbytes + 1000))
            stride = max(plan.get("stride", 1), sum(lens) // afford)

            def make(calls):
                def script(th):
                    th.rares = afford
                    for k, (o, (fn, args, kw)) in enumerate(calls):
                        f = faults.get((th.tid, k))

                        def look(th_, n):
                            obs[0] += 1
                            if not found:
                                c = watch.changed()
                                if c:
                                    found.append((th.tid, o["op"], n, th.where, c, "during"))
                        out = th.call(fn, args, kw, watch=look, stride=stride,
                                      fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
                        if th.fired:
                            stats.inc("fault_" + f["exc"])
                        obs[0] += 1
                        if not found:
                            c = watch.changed_full()
                            if c:
                                found.append((th.tid, o["op"], th.last_op_events, th.where, c, "after" if out[0] == "ok" else "after abort of"))
                        outcomes.append((th.tid, k, o, out, values.freeze(out[1]) if out[0] == "ok" else None, bool(th.fired)))
                        out = None
                return script
            for t, calls in enumerate(allcalls):
                sim.spawn(make(calls)).cap = 20 * lens[t] + 20000
            sim.run()
        stats.inc("events", sim.steps)
        stats.inc("observations", obs[0])
        stats.inc("switches", sim.nswitch)
        info = {"digest": sim.interleaving_digest() + str(len(sim.fault_log)) + plan["threads"][0][0]["op"], "nontrivial": obs[0] > 2}
        if found:
            tid, nm, n, where, c, when = found[0]
            raise Violation("argument", "%s of %s changed (%s) %s %s, event %d at %s" % (c[0], nm, c[1], when, nm, n, where))
        if sim.deadlock or sim.steplimit is not None:
            return info
        for tid, k, o, out, frozen, fired in outcomes:
            if fired:
                continue
            b = plan["bundles"][o["b"]]
            ref = W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()), layout="c")[0]
            if b["spec"].get("layout") == "ro" and ref[0] == "ok" and out[0] == "exc":
                raise Violation("read-only", "%s rejects read-only arguments: %s: %s" % (o["op"], type(out[1]).__name__, str(out[1])[:120]))
        return info

    shrink = C01.shrink
