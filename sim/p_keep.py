"""C14 (finished calls keep nothing alive)."""
import gc
import weakref

import numpy

from . import backend, bundle, catalog, sched, universe, values
from .p_threads import focus_of
from .world import FAULTS, Violation, World, make_schedule, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

# what belongs to the library or the caller; backend objects may be remembered by the backend itself
_OWN = ("Dstring", "Pstring", "one_e_blocks", "two_e_blocks", "two_e_blocks_full", "lambda_int")


def _collect(x, out, seen, depth=0):
    """Weak references to every array (and the memory it looks into) and library object of a value."""
    if id(x) in seen or depth > 8:
        return
    seen.add(id(x))
    if isinstance(x, numpy.ndarray):
        out.append((weakref.ref(x), "an array of shape %s" % (x.shape,)))
        if isinstance(x.base, numpy.ndarray):
            _collect(x.base, out, seen, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _collect(v, out, seen, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            _collect(v, out, seen, depth + 1)
    elif (type(x).__module__ or "").startswith("cqcpy"):
        try:
            out.append((weakref.ref(x), "a %s" % type(x).__name__))
        except TypeError:
            pass
        for v in values._attrs(x).values():
            _collect(v, out, seen, depth + 1)
    elif (type(x).__module__ or "").startswith(("sim.", "pyscf.")):
        for k in ("mo_coeff", "mo_occ"):
            if k in getattr(x, "__dict__", {}):
                _collect(x.__dict__[k], out, seen, depth + 1)


def _alive(refs):
    return [what for r, what in refs if r() is not None]


def held(U):
    """How much is reachable from the library's own modules: (objects, bytes of array data)."""
    seen = set()
    stack = []
    for m in U.mods.values():
        stack += list(vars(m).values())
    n = size = 0
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, (str, int, float, complex, bytes, bool, type(None))):
            continue
        t = type(x)
        if isinstance(x, type) or callable(x):
            mod = getattr(x, "__module__", None) or ""
            if not mod.startswith("cqcpy"):
                continue
        elif t.__name__ in ("module", "code", "frame", "traceback", "builtin_function_or_method", "method_descriptor", "wrapper_descriptor", "getset_descriptor"):
            continue
        seen.add(id(x))
        n += 1
        if isinstance(x, numpy.ndarray):
            size += x.nbytes
            if x.dtype.kind != "O":
                continue
        if t.__module__.startswith("pyscf") or t.__name__ in ("ModuleSpec",):
            continue
        for y in gc.get_referents(x):
            if isinstance(y, dict) and "__builtins__" in y:          # the globals of a module
                continue
            stack.append(y)
    return n, size


class C14(object):
    eval_key = "calls_checked"
    rule = ("evaluations are calls after which every argument and result was let go and found released; runs are distinct by the sequence of calls, aborts and switch "
            "points, and non-trivial if at least one call was made")
    level = "exploration"
    quick_runs = 9000
    thorough_runs = 120000
    components = {"real": ["all cqcpy modules", "numpy", "pyscf", "CPython reference counting and garbage collection"],
                  "simulated": ["thread scheduling", "aborts", "periodic backend"]}

    @staticmethod
    def init():
        gc.collect()
        gc.freeze()

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx, True)
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        plan = {"mode": "line", "spec": spec}
        r = rng.random()
        if r < 0.08 and catalog.OPS[focus].heavy <= 4:
            plan["kind"] = "long"
            plan["op"] = focus
            plan["p"] = catalog.make_params(focus, rng, spec)
            plan["n"] = 150
            plan["vary"] = rng.random() < 0.6             # other parameters in every call, or only other data
            plan["pseed"] = rng.randrange(1 << 30)
            plan["abort"] = rng.choice([0, 0, 3, 7])      # every so many calls are cut short
            plan["ev"] = rng.randint(1, 40)
            plan["exc"] = rand_exc(rng)
            return plan
        names = [focus] + [focus if rng.random() < 0.4 else n for n in pick_ops(rng, spec, rng.randint(0, 4), near=focus)]

        def step(n):
            st = [n, catalog.make_params(n, rng, spec), rng.randrange(1 << 30) if rng.random() < 0.5 else spec["seed"]]
            if rng.random() < 0.35:
                st.append({"ev": rng.choice([rng.randint(1, 20), rng.randint(1, 150)]), "exc": rand_exc(rng)})
            return st
        plan["kind"] = "seq" if rng.random() < 0.75 else "conc"
        plan["steps"] = [step(n) for n in names]
        plan["each"] = rng.random() < 0.5
        if plan["kind"] == "conc":
            plan["other"] = [step(focus)] + [step(n) for n in pick_ops(rng, spec, rng.randint(0, 1), near=focus)]
            plan["schedule"], plan["style"] = make_schedule(rng, [60 * len(plan["steps"]), 60 * len(plan["other"])])
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        sched.set_mode("line")
        if plan["kind"] == "long":
            return C14.long(plan, stats)
        U = universe.Universe()
        stats.inc("universes")
        refs = []
        trace = []
        progs = [plan["steps"]] + ([plan["other"]] if plan["kind"] == "conc" else [])
        with U, sched.patched_primitives():
            if plan["kind"] == "conc":
                C14.group(plan, U, progs, plan["schedule"], refs, trace, stats)
            else:
                for st in plan["steps"]:
                    C14.group(plan, U, [[st]], (), refs, trace, stats)
                    if plan["each"]:
                        C14.released(refs, trace)
            C14.released(refs, trace)
        return {"digest": repr(trace), "nontrivial": len(trace) > 0}

    @staticmethod
    def group(plan, U, progs, schedule, refs, trace, stats):
        """Make the calls; afterwards only weak references are left here."""
        sim = sched.Sim(schedule)
        backend.install(backend.Plan())
        progress = []
        for prog in progs:
            sim.spawn(C14.script(plan, U, prog, refs, trace, progress, stats)).cap = 5000000
        if len(progs) > 1:
            sim.run()
            dead = sim.deadlock or sim.steplimit is not None
        else:
            th = sim.threads.pop()
            try:
                sim.run_inline(th.script)
                dead = False
            except (sched.SimKill, sched.SimStepLimit):
                dead = True
        backend.install(None)
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        if dead:
            raise Violation("no-progress", "calls do not finish: %s" % (trace,))

    @staticmethod
    def script(plan, U, prog, refs, trace, progress, stats):
        def script(th):
            th.cap = 5000000
            for st in prog:
                b = bundle.Bundle(U, dict(plan["spec"], seed=st[2]))
                if not catalog.applicable(st[0], b.s):
                    continue
                fn, args, kw = catalog.call_of(U, b, st[0], st[1])
                mine = []
                _collect((args, kw), mine, set())
                f = st[3] if len(st) > 3 else None
                out = th.call(fn, args, kw, fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
                if f and th.fired:
                    stats.inc("fault_" + f["exc"])
                trace.append(st[0] + (" (cut short)" if f and th.fired else ""))
                refs.extend([(r, w + " given to " + trace[-1]) for r, w in mine])
                stats.inc("objects_tracked", len(mine))
                if out[0] == "ok":
                    mine = []
                    _collect(out[1], mine, set())
                    refs.extend([(r, w + " returned by " + trace[-1]) for r, w in mine])
                    stats.inc("objects_tracked", len(mine))
                th.fault = th.watch = None
                stats.inc("calls_checked")
                fn = args = kw = out = b = mine = None
        return script

    @staticmethod
    def released(refs, trace):
        left = _alive(refs)
        if left:
            gc.collect()
            left = _alive(refs)
        if left:
            raise Violation("kept", "%s is still alive after everything was let go (%d objects); calls: %s" % (left[0], len(left), trace[-6:]))
        del refs[:]

    @staticmethod
    def long(plan, stats):
        import random
        name, n = plan["op"], plan["n"]
        U = universe.Universe()
        stats.inc("universes")
        marks = []
        rng = random.Random(plan["pseed"])
        with U, sched.patched_primitives():
            backend.install(backend.Plan())
            k, last = -1, 2 * n - 1
            while k < last:
                k += 1
                if k in (n, last, 3 * last // 4):
                    gc.collect()
                    marks.append((k,) + held(U))
                    if k == 2 * n - 1 == last and (marks[-1][1] > marks[0][1] or marks[-1][2] > marks[0][2]):
                        last = 16 * n                    # a table of limited size fills up by then
                s = dict(plan["spec"], seed=(plan["spec"]["seed"] + k) % (1 << 30))
                p = catalog.make_params(name, rng, s) if plan["vary"] else plan["p"]
                p = C14.drift(p, k) if plan["vary"] else p
                b = bundle.Bundle(U, s)
                fn, args, kw = catalog.call_of(U, b, name, p)
                cut = plan["abort"] and k % plan["abort"] == 0
                sim = sched.Sim()

                def script(th):
                    th.cap = 5000000
                    th.call(fn, args, kw, fault=(plan["ev"], FAULTS[plan["exc"]]) if cut else None)
                try:
                    if cut:
                        sim.run_inline(script)
                        stats.inc("fault_" + plan["exc"])
                    else:
                        fn(*args, **kw)
                except (sched.SimKill, sched.SimStepLimit):
                    raise Violation("no-progress", "%s waits for ever" % name)
                except Exception:
                    pass
                stats.inc("calls_checked")
            backend.install(None)
        stats.inc("long_histories")
        (k1, n1, s1), (k2, n2, s2) = marks[-2:] if last > 2 * n else (marks[0], marks[-1])
        stats.inc("library_bytes_seen", s2)
        if n2 > n1 or s2 > s1:
            raise Violation("grows", "the library holds more after %d calls of %s than after %d: %d -> %d objects, %d -> %d bytes of arrays"
                            % (k2, name, k1, n1, n2, s1, s2))
        return {"digest": "long %s %s %s" % (name, plan["p"], plan["pseed"]), "nontrivial": True}

    @staticmethod
    def drift(p, k):
        """Parameters that never repeat, where that is possible."""
        q = dict(p)
        for key in ("beta", "mu"):
            if key in q:
                q[key] = q[key] + 1e-4 * k
        return q

    @staticmethod
    def shrink(plan):
        if plan["kind"] == "long":
            if plan["abort"]:
                yield dict(plan, abort=0)
            if plan["vary"]:
                yield dict(plan, vary=False)
            for s in shrink_spec(plan["spec"]):
                yield dict(plan, spec=s)
            return
        for c in shrink_list(plan["steps"]):
            if c or plan.get("other"):
                yield dict(plan, steps=c)
        if plan["kind"] == "conc":
            for c in shrink_list(plan["other"]):
                yield dict(plan, other=c)
            yield dict(plan, kind="seq", steps=plan["steps"] + plan["other"])
            for c in shrink_list(plan["schedule"]):
                yield dict(plan, schedule=c)
        for i, st in enumerate(plan["steps"]):
            if len(st) > 3:
                yield dict(plan, steps=plan["steps"][:i] + [st[:3]] + plan["steps"][i + 1:])
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
