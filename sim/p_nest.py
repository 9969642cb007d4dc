"""C15 (calls made inside a call in the same thread), C16 (forked child processes)."""
import gc
import json
import os
import select
import signal
import time

from . import backend, bundle, catalog, sched, universe, values
from .p_threads import _lens, _threads, focus_of, near_twin, items_of
from .world import FAULTS, Violation, World, make_schedule, pick_event, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

def _twins(rng, focus, p, spec, n):
    out = [{"spec": spec}]
    for _ in range(n - 1):
        if rng.random() < 0.2:
            out.append(near_twin(rng, spec, items_of(focus, p, spec)))
            continue
        t = bundle.twin_of(rng, spec)
        if not catalog.applicable(focus, t):
            t = dict(spec, seed=rng.randrange(1 << 30))
        out.append({"spec": t})
    return out


# ------------------------------------------------------------------------------------------------------------------
class C15(object):
    eval_key = "calls_judged"
    rule = ("evaluations are calls, interrupted or made inside another call, compared with their solo result; runs are distinct by the tree of calls and the places "
            "(function, line) where the inner ones began, and non-trivial if at least one call ran inside another")
    level = "exploration"
    quick_runs = 12000
    thorough_runs = 150000
    components = {"real": ["all cqcpy modules, with a call inserted before every statement", "numpy", "pyscf"],
                  "simulated": ["signal handlers", "periodic backend", "locks in library code"]}
    assumptions = ["the calls inserted between the statements of library functions change nothing else", "handlers run between statements of library functions, not inside numpy"]

    @staticmethod
    def init():
        universe.HOOK[0] = sched.on_statement
        universe.Universe()

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        plan = {"mode": "off"}
        W = World(plan, stats)
        pf = catalog.make_params(focus, rng, spec)
        plan["bundles"] = _twins(rng, focus, pf, spec, rng.choice([1, 2, 2, 3]))
        others = pick_ops(rng, spec, 3, near=focus)

        def node(depth):
            if depth == 0 or rng.random() < 0.6:
                op, p = focus, pf if rng.random() < 0.7 else catalog.make_params(focus, rng, spec)
            else:
                op = rng.choice(others)
                p = catalog.make_params(op, rng, spec)
            b = rng.randrange(len(plan["bundles"]))
            x = {"op": op, "b": b, "p": p, "in": []}
            bs = plan["bundles"][b]
            n = W.events(op, p, bs["spec"], bs.get("muts", ()))
            if n and (depth == 0 or (depth < 3 and rng.random() < 0.3)):
                for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else 1):
                    x["in"].append({"ev": pick_event(rng, n), "calls": [node(depth + 1) for _ in range(rng.choice([1, 1, 2]))]})
                    if rng.random() < 0.15:
                        x["in"][-1]["raise"] = rand_exc(rng)
            return x
        plan["calls"] = [node(0) for _ in range(rng.choice([1, 1, 2]))]
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        W._base = plan.get("_base") or {}
        W.start()
        results, trace = [], []
        sim = sched.Sim()

        def perform(th, node, depth):
            """One call with its interruptions."""
            fn, args, kw = catalog.call_of(W.U, W.bundles[node["b"]], node["op"], node["p"])
            due = {}
            for i in node["in"]:
                due.setdefault(i["ev"], []).append(i)
            raised = []

            def look(th_, n):
                for i in due.pop(n, ()):
                    kept = (th.watch, th.stride, th.op_start, th.ev, th.where, th.before_try)
                    trace.append((depth, node["op"], th.where, [c["op"] for c in i["calls"]]))
                    stats.inc("interruptions")
                    for c in i["calls"]:
                        perform(th, c, depth + 1)
                    th.watch, th.stride, th.op_start, _, th.where, _ = kept
                    th.op_start += th.ev - kept[3]
                    if i.get("raise") and not kept[5] and not sched.in_cleanup():
                        stats.inc("fault_" + i["raise"])
                        raised.append(i["raise"])
                        raise FAULTS[i["raise"]]()
            k = len(results)
            results.append(None)
            out = th.call(fn, args, kw, watch=look if due else None)
            results[k] = (node, depth, out, values.freeze(out[1]) if out[0] == "ok" else None, bool(raised))
            if raised:
                out = th.call(fn, args, kw)
                results.append((node, depth, out, values.freeze(out[1]) if out[0] == "ok" else None, False))
        dead = None
        with W.U, sched.patched_primitives():
            backend.install(backend.Plan())

            def script(th):
                th.cap = 5000000
                for node in plan["calls"]:
                    perform(th, node, 0)
            try:
                sim.run_inline(script)
            except sched.SimKill:
                dead = "wait for ever"
            except sched.SimStepLimit:
                dead = "do not finish"
            backend.install(None)
        stats.inc("events", sim.steps)
        if dead:
            raise Violation("no-progress", "calls %s when made inside a call: %s" % (dead, trace[-3:]))
        for node, depth, out, frozen, hit in results:
            b = plan["bundles"][node["b"]]
            if hit and out[0] == "exc":
                continue
            stats.inc("calls_judged")
            W.judge("%s %s" % ("interrupted" if node["in"] else "inner", node["op"]), (out[0], frozen if out[0] == "ok" else out[1]),
                    W.baseline(node["op"], node["p"], b["spec"], b.get("muts", ()))[0])
        for node, depth, out, frozen, hit in results:
            if out[0] == "ok":
                d = values.compare(values.freeze(out[1]), frozen, exact=True)
                if d:
                    raise Violation("result", "result of %s changed after it was returned: %s" % (node["op"], d))
        return {"digest": repr(trace), "nontrivial": len(trace) > 0}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["calls"]):
            if c:
                yield dict(plan, calls=c)

        def variants(node):
            for k in range(len(node["in"])):
                yield dict(node, **{"in": node["in"][:k] + node["in"][k + 1:]})
            for k, i in enumerate(node["in"]):
                if len(i["calls"]) > 1:
                    for j in range(len(i["calls"])):
                        yield dict(node, **{"in": node["in"][:k] + [dict(i, calls=i["calls"][:j] + i["calls"][j + 1:])] + node["in"][k + 1:]})
                if "raise" in i:
                    yield dict(node, **{"in": node["in"][:k] + [{"ev": i["ev"], "calls": i["calls"]}] + node["in"][k + 1:]})
                for j, c in enumerate(i["calls"]):
                    for v in variants(c):
                        yield dict(node, **{"in": node["in"][:k] + [dict(i, calls=i["calls"][:j] + [v] + i["calls"][j + 1:])] + node["in"][k + 1:]})
        for k, node in enumerate(plan["calls"]):
            for v in variants(node):
                yield dict(plan, calls=plan["calls"][:k] + [v] + plan["calls"][k + 1:])
        for i in range(len(plan["bundles"])):
            for s in shrink_spec(plan["bundles"][i]["spec"]):
                yield dict(plan, bundles=plan["bundles"][:i] + [dict(plan["bundles"][i], spec=s)] + plan["bundles"][i + 1:])


# ------------------------------------------------------------------------------------------------------------------
def _while(busy):
    return "the parent is inside %s" % (busy,) if busy else "nothing else runs"


def _activity(pid):
    """Processor time used by a process if all its threads are asleep, else None."""
    used = []
    try:
        for t in sorted(os.listdir("/proc/%d/task" % pid)):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                x = f.read().rsplit(")", 1)[1].split()
            if x[0] != "S":
                return None
            used.append((t, x[11], x[12]))
    except OSError:
        return None
    return used


class C16(object):
    eval_key = "calls_judged"
    rule = ("evaluations are calls in forked children, and calls of their parents, compared with their solo result; runs are distinct by calls, switch points and places of "
            "the forks, and non-trivial if a child was forked")
    level = "exploration"
    quick_runs = 4000
    thorough_runs = 60000
    components = {"real": ["all cqcpy modules", "numpy", "pyscf", "fork"],
                  "simulated": ["thread scheduling", "instants of forks, pauses and deaths of children", "periodic backend", "locks in library code"]}

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        plan = {"mode": "line"}
        W = World(plan, stats)
        nt = rng.choice([1, 2, 2, 2, 3])
        plan["bundles"], plan["threads"] = _threads(rng, W, focus, spec, nt, rng.choice([1, 2, 2]), rng.choice([1, 2, 2]))
        lens = _lens(W, plan)
        plan["schedule"], plan["style"] = make_schedule(rng, lens)
        t = rng.randrange(nt)
        if nt > 1:
            # someone is in the middle of a call when the fork happens
            for o in rng.sample([x for x in range(nt) if x != t], rng.randint(1, nt - 1)):
                plan["schedule"].insert(0, [o, pick_event(rng, lens[o])])
        others = pick_ops(rng, spec, 2, near=focus)
        prog = []
        for k in range(rng.choice([1, 1, 2, 3])):
            op = focus if k == 0 or rng.random() < 0.5 else rng.choice(others)
            prog.append({"op": op, "b": rng.randrange(len(plan["bundles"])), "p": plan["threads"][0][0]["p"] if op == focus and rng.random() < 0.6
                         else catalog.make_params(op, rng, spec)})
        plan["forks"] = [{"tid": t, "before": rng.randint(0, len(plan["threads"][t])), "prog": prog}]
        r = rng.random()
        if r < 0.4:
            plan["forks"][0]["pause"] = [rng.randrange(len(prog)), rng.choice([rng.randint(1, 15), rng.randint(1, 200)])]
        elif r < 0.5:
            plan["forks"][0]["die"] = [rng.randrange(len(prog)), rng.choice([rng.randint(1, 15), rng.randint(1, 200)])]
        for o in prog:
            b = plan["bundles"][o["b"]]
            W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()))
        plan["_base"] = W._base
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        W._base = plan.get("_base") or {}
        lens = _lens(W, plan)
        for f in plan["forks"]:
            for o in f["prog"]:
                b = plan["bundles"][o["b"]]
                W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()))
        W.start()
        sim = sched.Sim(plan["schedule"])
        results, kids, trace = [], [], []
        with W.U, sched.patched_primitives():
            backend.install(backend.Plan())
            for t, prog in enumerate(plan["threads"]):
                calls = [(o, catalog.call_of(W.U, W.bundles[o["b"]], o["op"], o["p"])) for o in prog]
                forks = [f for f in plan["forks"] if f["tid"] == t]
                sim.spawn(C16.script(plan, W, sim, calls, forks, results, kids, trace)).cap = 20 * lens[t] + 20000
            try:
                sim.run()
            finally:
                notes = [C16.finish(k) for k in kids]
            backend.install(None)
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        stats.inc("forks", len(kids))
        for f, note in zip([k[3] for k in kids], notes):
            if note is None:
                raise sched.HarnessTimeout("a forked child did not answer")
            stats.inc("calls_judged", note["judged"])
            stats.inc("events", note["events"])
            for k in ("pause", "die"):
                if k in f:
                    stats.inc("fault_child_" + k)
            if note.get("error"):
                raise RuntimeError("in a forked child: " + note["error"])
            if note.get("violation"):
                raise Violation(*note["violation"])
        if sim.deadlock or sim.steplimit is not None:
            raise Violation("no-progress", "calls in the parent never finish")
        for tid, o, out, frozen, raw in results:
            b = plan["bundles"][o["b"]]
            stats.inc("calls_judged")
            W.judge("thread %d of the parent: %s" % (tid, o["op"]), (out[0], frozen if out[0] == "ok" else out[1]),
                    W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()))[0])
        for tid, o, out, frozen, raw in results:
            if out[0] == "ok":
                d = values.compare(values.freeze(raw), frozen, exact=True)
                if d:
                    raise Violation("result", "result of %s in the parent changed after it was returned: %s" % (o["op"], d))
        return {"digest": sim.interleaving_digest() + repr(trace) + repr([[o["op"] for o in f["prog"]] for f in plan["forks"]]), "nontrivial": len(kids) > 0}

    @staticmethod
    def script(plan, W, sim, calls, forks, results, kids, trace):
        def script(th):
            for k in range(len(calls) + 1):
                for f in forks:
                    if f["before"] == k:
                        busy = [t.where for t in sim.threads if t is not th and t.in_op]
                        trace.append((k, busy))
                        kid = C16.fork(plan, W, sim, th, f, busy)
                        kids.append(kid)
                if k < len(calls):
                    o, (fn, args, kw) = calls[k]
                    out = th.call(fn, args, kw)
                    results.append((th.tid, o, out, values.freeze(out[1]) if out[0] == "ok" else None, out[1] if out[0] == "ok" else None))
        return script

    # -- the child ----------------------------------------------------------------------------------------------------
    @staticmethod
    def fork(plan, W, sim, th, f, busy):
        """Fork; wait until the child has finished, paused or died."""
        up, down = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(up[0])
                os.close(down[1])
                C16.child(plan, W, sim, th, f, busy, up[1], down[0])
            finally:
                os._exit(0)
        os.close(up[1])
        os.close(down[0])
        kid = [pid, up[0], down[1], f, b"", busy]
        C16.hear(kid)
        return kid

    @staticmethod
    def hear(kid):
        """Read one message from the child (kept in the record), or notice its end."""
        end = time.monotonic() + sched.WALL
        last, still = None, 0
        while not kid[4].endswith(b"\n"):
            r, _, _ = select.select([kid[1]], [], [], 1.0)
            if not r:
                # all threads of the child asleep and no processor time used, again and again: nothing will ever wake it
                now = _activity(kid[0])
                still = still + 1 if now is not None and now == last else 0
                last = now
                if still >= 6:
                    text = "%s in a child forked while %s waits for ever" % (" or ".join(sorted({o["op"] for o in kid[3]["prog"]})), _while(kid[5]))
                    kid[4] = (json.dumps({"judged": 0, "events": 0, "violation": ["no-progress", text]}) + "\n").encode()
                    return
                if time.monotonic() > end:
                    return
                continue
            c = os.read(kid[1], 65536)
            if not c:
                return
            kid[4] += c

    @staticmethod
    def finish(kid):
        """Let a paused child go on; -> its report."""
        try:
            if kid[4] == b"paused\n":
                kid[4] = b""
                os.write(kid[2], b"go\n")
                C16.hear(kid)
            text = kid[4].decode()
            if text == "dying\n":
                return {"judged": 0, "events": 0}
            return json.loads(text) if text.endswith("\n") else None
        finally:
            os.close(kid[1])
            os.close(kid[2])
            try:
                os.kill(kid[0], signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(kid[0], 0)

    @staticmethod
    def child(plan, W, sim, th, f, busy, out, inp):
        note = {"judged": 0, "events": 0}
        try:
            gc.disable()
            sim.threads = [th]
            sim.schedule = []
            th.quota = sched.INF
            ev0 = sim.steps
            th.cap = th.ev + 2000000
            for k, o in enumerate(f["prog"]):
                fn, args, kw = catalog.call_of(W.U, W.bundles[o["b"]], o["op"], o["p"])
                stop = f.get("pause") or f.get("die")

                def look(th_, n):
                    if n == stop[1]:
                        if "die" in f:
                            os.write(out, b"dying\n")
                            os._exit(0)
                        os.write(out, b"paused\n")
                        os.read(inp, 16)
                where = "%s in a child forked while %s" % (o["op"], _while(busy))
                try:
                    r = th.call(fn, args, kw, watch=look if stop and stop[0] == k else None)
                except sched.SimKill:
                    raise Violation("no-progress", where + " waits for ever")
                except sched.SimStepLimit:
                    raise Violation("no-progress", where + " does not finish")
                b = plan["bundles"][o["b"]]
                note["judged"] += 1
                W.judge(where, (r[0], values.freeze(r[1]) if r[0] == "ok" else r[1]), W.baseline(o["op"], o["p"], b["spec"], b.get("muts", ()))[0])
            note["events"] = sim.steps - ev0
        except Violation as v:
            note["violation"] = [v.kind, v.detail]
        except BaseException as e:
            note["error"] = repr(e)[:300]
        os.write(out, (json.dumps(note) + "\n").encode())

    @staticmethod
    def shrink(plan):
        from .p_threads import shrink_threads
        for i, f in enumerate(plan["forks"]):
            for c in shrink_list(f["prog"]):
                if c:
                    yield dict(plan, forks=plan["forks"][:i] + [{"tid": f["tid"], "before": f["before"], "prog": c}] + plan["forks"][i + 1:])
            for k in ("pause", "die"):
                if k in f:
                    yield dict(plan, forks=plan["forks"][:i] + [{a: b for a, b in f.items() if a != k}] + plan["forks"][i + 1:])
        for q in shrink_threads(plan):
            if len(q["threads"]) < len(plan["threads"]):
                gone = [i for i in range(len(plan["threads"])) if plan["threads"][:i] + plan["threads"][i + 1:] == q["threads"]]
                if not gone or any(f["tid"] == gone[0] for f in plan["forks"]):
                    continue
                q["forks"] = [dict(f, tid=f["tid"] - (f["tid"] > gone[0])) for f in plan["forks"]]
            yield q
