"""C13 (calls carried out in other processes on shipped arguments, calculations divided among them)."""
import copy
import pickle

import numpy

from . import backend, bundle, catalog, sched, universe, values
from .p_threads import focus_of
from .world import FAULTS, Violation, World, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

SHIP = ["p2", "p3", "p4", "p5", "p5", "copy", "deep", "twice"]


# -- dividing a calculation into independent parts ---------------------------------------------------------------------
def _chunks(n, k):
    k = max(1, min(n, k))
    cut = [n * i // k for i in range(k + 1)]
    return [slice(cut[i], cut[i + 1]) for i in range(k)]


def _along(pos, axis=0, take=None):
    """Cut the array argument at a position; concatenate the results."""
    def split(U, name, args, kw, k):
        a = args[pos]
        ax = take if take is not None else 0
        out = []
        for c in _chunks(a.shape[ax], k):
            ix = tuple([slice(None)] * ax + [c])
            out.append((name, args[:pos] + (a[ix],) + args[pos + 1:], kw))
        return out, lambda rs, whole: numpy.concatenate(rs, axis=axis)
    return split


def _additive(pos):
    """Share the elements of a vector or tensor out over several summands; add the results."""
    def split(U, name, args, kw, k):
        a = args[pos]
        idx = numpy.arange(a.size).reshape(a.shape) % k
        return [(name, args[:pos] + (numpy.where(idx == j, a, 0),) + args[pos + 1:], kw) for j in range(k)], lambda rs, whole: sum(rs[1:], rs[0])
    return split


def _two_spins(U, name, args, kw, k):
    beta, ea, eb, mu = args
    out = [(name, (beta, ea[c], eb, mu), kw) for c in _chunks(ea.shape[0], k)]
    return out, lambda rs, whole: (numpy.concatenate([r[0] for r in rs]), rs[-1][1])


def _momenta(U, name, args, kw, k):
    """The k-point integral tensor from its blocks."""
    kmf = args[0]
    nk = len(kmf.kpts)
    from pyscf.pbc.lib import kpts_helper
    kc = kpts_helper.get_kconserv(kmf.cell, kmf.kpts)
    phys = kw.get("eriorder", "chem") == "phys"
    out = []
    where = []
    for p in range(nk):
        for q in range(nk):
            for r in range(nk):
                s = int(kc[p, r, q]) if phys else int(kc[p, q, r])
                where.append((p, q, r))
                out.append(("integrals.get_phys_solk" if phys else "integrals.get_chem_solk",
                            (kmf, (p, q, r, s)) + tuple(kmf.mo_coeff[x] for x in (p, q, r, s)), {}))

    def join(rs, whole):
        h2 = numpy.zeros_like(whole[1])
        for w, r in zip(where, rs):
            h2[w] = r
        return (whole[0], h2)
    return out, join


SPLIT = {"utils.D1": _along(0), "utils.D2u": _along(0), "ft_utils.uGP0": _two_spins, "cc_energy.cc_energy_d": _additive(0), "cc_energy.cc_energy_s1": _additive(0),
         "integrals.get_solk_integrals": _momenta}
for _n in ("ff", "ffv", "GP0", "dGP0"):
    SPLIT["ft_utils." + _n] = _along(1)
for _n in ("s_on_vec", "d_on_vec", "sa_on_vec", "sb_on_vec", "da_on_vec", "db_on_vec", "sasb_on_vec", "H_on_vec", "gH_on_vec"):
    SPLIT["ci_utils." + _n] = _additive(1)
for _n in ("get_chem", "get_phys", "get_chem_sol", "get_phys_sol"):
    SPLIT["integrals." + _n] = _along(1, 0, 1)


def _splits(name, p, spec):
    if name not in SPLIT or p.get("anti"):
        return False
    return name != "integrals.get_solk_integrals" or spec.get("kmesh", 0) == 0


def _mean_field(args):
    return any((type(a).__module__ or "").startswith("pyscf.scf") for a in args)


# -- transport -----------------------------------------------------------------------------------------------------------
def _ship(kind, U0, Uw, obj, what):
    """Carry an object from one process image to another."""
    try:
        if kind in ("copy", "deep"):
            with U0:
                return copy.deepcopy(obj) if kind == "deep" else _shallow(obj)
        proto = {"p2": 2, "p3": 3, "p4": 4}.get(kind, 5)
        with U0:
            blob = pickle.dumps(obj, proto)
        if kind == "twice":
            mid = universe.Universe()
            with mid:
                blob = pickle.dumps(pickle.loads(blob), 4)
        with Uw:
            return pickle.loads(blob)
    except Exception as e:
        raise Violation("transport", "%s cannot be sent (%s): %s: %s" % (what, kind, type(e).__name__, str(e)[:200]))


def _shallow(x):
    if isinstance(x, tuple):
        return tuple(_shallow(v) for v in x)
    if isinstance(x, dict):
        return {k: _shallow(v) for k, v in x.items()}
    return copy.copy(x)


def _strings_in(x, out, depth=0):
    if isinstance(x, (list, tuple)):
        for v in x:
            _strings_in(v, out, depth + 1)
    elif type(x).__name__ in ("Dstring", "Pstring"):
        out.append(x)
    return out


class C13(object):
    eval_key = "tasks_run"
    rule = ("evaluations are tasks carried out on shipped arguments; runs are distinct by tasks, transports, deliveries, losses and worker deaths, and non-trivial "
            "if at least one task crossed a process boundary")
    level = "exploration"
    quick_runs = 9000
    thorough_runs = 130000
    components = {"real": ["all cqcpy modules", "numpy", "pyscf molecules and transformations", "pickle and copy"],
                  "simulated": ["worker processes", "message order, loss and repetition", "deaths and failures of workers", "periodic backend"]}

    @staticmethod
    def gen(seed, idx, rng, stats):
        focus = focus_of(seed, idx)
        spec = spec_for(rng, focus, big=rng.random() < 0.2)
        plan = {"mode": "line", "spec": spec, "items": [], "nw": rng.choice([1, 2, 2, 3])}
        names = [focus] + pick_ops(rng, spec, rng.randint(0, 3), near=focus)
        tasks = []
        for n in names:
            p = catalog.make_params(n, rng, spec)
            p.pop("misfit", None)
            it = {"op": n, "p": p, "ship": rng.choice(SHIP), "parts": 0}
            if _splits(n, p, spec) and rng.random() < 0.6:
                it["parts"] = rng.choice([1, 2, 2, 3])
            k = len(plan["items"])
            plan["items"].append(it)
            m = 1 if not it["parts"] else 8 if n.endswith("get_solk_integrals") else it["parts"]
            tasks += [[k, j] for j in range(m)]
        rng.shuffle(tasks)
        out = []
        todo = list(tasks)
        while todo and len(out) < 60:
            t = todo.pop(0)
            d = {"task": t, "w": rng.randrange(plan["nw"])}
            r = rng.random()
            if r < 0.2:
                d["fault"] = {"ev": rng.choice([rng.randint(1, 12), rng.randint(1, 120)]), "exc": "Kill" if rng.random() < 0.6 else rand_exc(rng)}
                todo.insert(rng.randint(0, len(todo)), t)
            elif r < 0.3:
                d["lost"] = True
                todo.insert(rng.randint(0, len(todo)), t)
            elif r < 0.42:
                todo.insert(rng.randint(0, len(todo)), t)
            out.append(d)
        plan["deliveries"] = out
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        sched.set_mode("line")
        U0 = universe.Universe()
        stats.inc("universes")
        with U0:
            b = bundle.Bundle(U0, plan["spec"])
            items = []
            for it in plan["items"]:
                fn, args, kw = catalog.call_of(U0, b, it["op"], it["p"])
                args = tuple(args)
                if it["parts"]:
                    tasks, join = SPLIT[it["op"]](U0, it["op"], args, kw, it["parts"])
                else:
                    tasks, join = [(it["op"], args, kw)], None
                items.append((it, tasks, join))
        watch = values.Watch([("argument %d of %s" % (i, it["op"]), a) for it, tasks, _ in items for t in tasks for i, a in enumerate(t[1])])
        workers = {}
        got = {}
        trace = []
        moved = [0]
        queue = list(plan["deliveries"])
        n = 0
        while True:
            if n < len(queue):
                d = queue[n]
            else:
                # whatever is still missing goes to a new worker
                miss = [(k, j) for k, (it, tasks, _) in enumerate(items) for j in range(len(tasks)) if (k, j) not in got]
                if not miss:
                    break
                d = {"task": list(miss[0]), "w": "last"}
            n += 1
            k, j = d["task"]
            if k >= len(items) or j >= len(items[k][1]):
                continue
            r = C13.deliver(W, U0, workers, items[k], j, d, stats, moved)
            trace.append((k, j, d["w"], bool(d.get("fault")), r is None))
            if r is not None and not d.get("lost"):
                got.setdefault((k, j), []).append(r)
            if n > len(queue) + 200:
                raise Violation("no-progress", "%s never finishes on a new worker" % items[k][0]["op"])
        ch = watch.changed_full()
        if ch:
            raise Violation("argument", "%s changed (%s) while copies of it were sent out" % ch)
        for k, (it, tasks, join) in enumerate(items):
            exp = W.baseline(it["op"], it["p"], plan["spec"])[0]
            for j in range(len(tasks)):
                for r in got[(k, j)][1:]:
                    first = got[(k, j)][0]
                    if r[0] != first[0] or (r[0] == "ok" and values.compare(r[1], first[1])):
                        raise Violation("result", "part %d of %s sent out twice gives two different results" % (j, it["op"]))
            rs = [got[(k, j)][0] for j in range(len(tasks))]
            bad = [r for r in rs if r[0] != "ok"]
            what = "%s carried out elsewhere (%s)" % (it["op"], it["ship"])
            if not join:
                W.judge(what, rs[0], exp)
            elif exp[0] == "ok":
                if bad:
                    W.judge(what + " in %d parts" % len(tasks), bad[0], exp)
                W.judge(what + " in %d parts" % len(tasks), ("ok", values.freeze(join([r[1] for r in rs], exp[1]))), exp)
            stats.inc("calls_judged")
        return {"digest": repr(trace) + repr([(i["op"], i["p"], i["ship"], i["parts"]) for i in plan["items"]]), "nontrivial": moved[0] > 0}

    @staticmethod
    def deliver(W, U0, workers, item, j, d, stats, moved):
        """-> outcome with frozen value, or None if the worker died or the call was cut short."""
        it, tasks, _ = item
        name, args, kw = tasks[j]
        kind = it["ship"]
        if _mean_field(args):
            kind = "copy"
        if kind in ("copy", "deep"):
            U = U0
        else:
            U = workers.get(d["w"])
            if U is None:
                U = workers[d["w"]] = universe.Universe()
                stats.inc("universes")
            moved[0] += 1
        a, k = _ship(kind, U0, U, (args, kw), "an argument of " + name)
        diff = values.compare(values.freeze((a, k)), values.freeze((args, kw)), exact=True)
        if diff:
            raise Violation("transport", "arguments of %s changed on the way (%s): %s" % (name, kind, diff))
        C13.equal(U0, U, kind, args)
        res = {}
        f = d.get("fault")
        sim = sched.Sim()

        def script(th):
            th.cap = 5000000
            res["out"] = th.call(fn, a, k, fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
            res["fired"] = bool(th.fired)
        stats.inc("tasks_run")
        with U, sched.patched_primitives():
            fn = catalog.OPS[name].resolve(U)
            backend.install(backend.Plan())
            try:
                sim.run_inline(script)
            except sched.SimKill:
                if f and f["exc"] == "Kill":
                    stats.inc("fault_Kill")
                    if U is not U0:
                        workers.pop(d["w"], None)
                    return None
                raise Violation("no-progress", "%s waits for ever in a worker" % name)
            except sched.SimStepLimit:
                raise Violation("no-progress", "%s does not finish in a worker" % name)
            finally:
                backend.install(None)
                stats.inc("events", sim.steps)
        if f and res["fired"]:
            stats.inc("fault_" + f["exc"])
            return None
        out = res["out"]
        if out[0] == "exc":
            return out
        back = _ship(kind if kind in ("copy", "deep", "p2") else "p5", U, U0, out[1], "the result of " + name)
        fz = values.freeze(back)
        diff = values.compare(fz, values.freeze(out[1]), exact=True)
        if diff:
            raise Violation("transport", "the result of %s changed on the way back (%s): %s" % (name, kind, diff))
        C13.compare_strings(U0, _strings_in(args, [])[:8], _strings_in(back, [])[:8])
        if kind != "copy":
            # what was sent and what came back belong to whoever holds them
            for x in values.arrays_in((a, k, out[1])):
                if x.flags.writeable and x.dtype.kind in "fciub":
                    x[...] = 77
            diff = values.compare(values.freeze(back), fz, exact=True)
            if diff:
                raise Violation("transport", "the copy (%s) of the result of %s follows the original: %s" % (kind, name, diff))
        return ("ok", fz)

    @staticmethod
    def equal(U0, U, kind, args):
        """Determinant strings that made the trip, and strings made elsewhere, equal the ones here if and only if their contents agree."""
        strs = _strings_in(args, [])
        if not strs:
            return
        strs = strs[:6]
        C13.compare_strings(U0, strs, _ship("deep" if kind in ("copy", "deep") else "p5", U0, U0, tuple(strs), "a determinant string"))
        if U is not U0:
            with U:
                made = tuple(getattr(U.ci_utils, type(x).__name__)(x.n, numpy.roll(x.occ, i % 3)) for i, x in enumerate(strs))
            C13.compare_strings(U0, strs, _ship("p5", U, U0, made, "a determinant string"))

    @staticmethod
    def compare_strings(U0, here, back):
        with U0:
            for x in here:
                for y in back:
                    if type(x) is not type(y):
                        continue
                    same = len(x.occ) == len(y.occ) and numpy.array_equal(x.occ, y.occ)
                    if bool(x == y) != same or bool(y == x) != same:
                        raise Violation("transport", "determinant string %s compares %s to %s after the trip" % (list(map(int, x.occ)), "unequal" if same else "equal",
                                                                                                                  list(map(int, y.occ))))

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["deliveries"]):
            yield dict(plan, deliveries=c)
        for k in range(len(plan["items"])):
            if len(plan["items"]) > 1:
                ds = [dict(d, task=[d["task"][0] - (d["task"][0] > k), d["task"][1]]) for d in plan["deliveries"] if d["task"][0] != k]
                yield dict(plan, items=plan["items"][:k] + plan["items"][k + 1:], deliveries=ds)
        for i, d in enumerate(plan["deliveries"]):
            if d.get("fault"):
                yield dict(plan, deliveries=plan["deliveries"][:i] + [{"task": d["task"], "w": d["w"]}] + plan["deliveries"][i + 1:])
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
