"""C07: killed and resumed solver iterations follow the trajectory of an uninterrupted run.

The driver (iteration, saving, restarting) is simulated; every residual, energy, density, denominator and basis comes
from the real library.  A kill ends the simulated process at an arbitrary executed line or disk operation.
"""
import hashlib
import pickle
import random

import numpy

from . import backend, bundle, sched, universe, values
from .world import FAULTS, Violation, World, rand_exc, shrink_list, shrink_spec, spec_for

ETA = 0.05


class Disk(object):
    """Files with a volatile and a durable copy.  A crash keeps, tears or loses what was not synced."""

    def __init__(self, rng):
        self.durable = {}
        self.volatile = {}
        self.rng = rng
        self.torn = self.lost = self.fallbacks = 0

    def write(self, th, name, data):
        half = len(data) // 2
        th.sim.boundary(th)
        self.volatile[name] = data[:half]
        th.sim.boundary(th)
        self.volatile[name] = data

    def sync(self, th, name):
        th.sim.boundary(th)
        self.durable[name] = self.volatile[name]
        th.sim.boundary(th)

    def crash(self):
        for name, data in sorted(self.volatile.items()):
            old = self.durable.get(name)
            if old == data:
                continue
            r = self.rng.random()
            if r < 0.4:
                self.durable[name] = data[:self.rng.randrange(len(data) + 1)]
                self.torn += 1
            elif r < 0.7:
                self.durable[name] = data
            else:
                self.lost += 1
        self.volatile = dict(self.durable)

    def save(self, th, k, obj, sync):
        body = pickle.dumps(obj, protocol=4)
        name = "state%d" % (k % 2)          # two slots used in turn, so the previous one survives a torn write
        self.write(th, name, hashlib.blake2b(body, digest_size=16).digest() + body)
        if sync:
            self.sync(th, name)

    def load(self):
        best = None
        for name in sorted(self.durable):
            d = self.durable[name]
            if len(d) < 16 or hashlib.blake2b(d[16:], digest_size=16).digest() != d[:16]:
                self.fallbacks += 1
                continue
            obj = pickle.loads(d[16:])
            if best is None or obj["k"] > best["k"]:
                best = obj
        return best


class Raised(Exception):
    pass


class Caller(object):
    """Makes the library calls of one process life; aborted calls are repeated or end in a reload."""

    def __init__(self, th, faults, stats):
        self.th = th
        self.faults = faults
        self.stats = stats
        self.ncall = 0

    def __call__(self, fn, *args, **kw):
        self.ncall += 1
        f = self.faults.pop(str(self.ncall), None)
        out = self.th.call(fn, args, kw, fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
        if f and self.th.fired:
            self.stats.inc("fault_" + f["exc"])
            if f["then"] == "reload":
                raise _Reload()
            out = self.th.call(fn, args, kw)
        if out[0] == "exc":
            raise Raised("%s: %s" % (type(out[1]).__name__, str(out[1])[:200]))
        return out[1]


class _Reload(Exception):
    pass


def _items(b, *names):
    return {n: b.get(n) for n in names}


def _upd(old, res, den, inplace):
    if inplace:
        old -= ETA * res / den
        return old
    return old - ETA * res / den


# -- solver flavours: inputs(bundle) -> saved inputs, start(bundle) -> saved unknowns, step(call, U, inp, x, ctx, inplace) -> (x, energy)
class SpinOrbital(object):
    def __init__(self, fn):
        self.fn = fn
        self.singles = "ccsd" in fn

    def inputs(self, b):
        return _items(b, "F", "I", "eo", "ev")

    def start(self, b):
        return [b.get("T1").copy(), b.get("T2").copy()]

    def prepare(self, call, U, inp):
        return call(U.utils.D1, inp["ev"], inp["eo"]), call(U.utils.D2, inp["ev"], inp["eo"])

    def step(self, call, U, inp, x, ctx, inplace):
        f = getattr(U.cc_equations, self.fn)
        if self.fn in ("ccd_ladder_simple", "ccd_ring_simple"):
            r1, r2 = 0.0 * x[0], call(f, inp["I"], x[1])
        elif self.singles:
            r1, r2 = call(f, inp["F"], inp["I"], x[0], x[1])
        else:
            r1, r2 = 0.0 * x[0], call(f, inp["F"], inp["I"], x[1])
        x = [_upd(x[0], r1, ctx[0], inplace), _upd(x[1], r2, ctx[1], inplace)]
        return x, call(U.cc_energy.cc_energy, x[0], x[1], inp["F"].ov, inp["I"].oovv)

    def finish(self, call, U, inp, x):
        return None


class Unrestricted(object):
    def inputs(self, b):
        return _items(b, "Fa", "Fb", "Ia", "Ib", "Iabab", "eob", "evb", "eoa2", "eva2")

    def start(self, b):
        return [b.get(n).copy() for n in ("T1a", "T1b", "T2aa", "T2ab", "T2bb")]

    def prepare(self, call, U, inp):
        ea, oa, eb, ob = inp["eva2"], inp["eoa2"], inp["evb"], inp["eob"]
        return [call(U.utils.D1, ea, oa), call(U.utils.D1, eb, ob), call(U.utils.D2, ea, oa),
                call(U.utils.D2u, ea, eb, oa, ob), call(U.utils.D2, eb, ob)]

    def step(self, call, U, inp, x, ctx, inplace):
        r1, r2 = call(U.cc_equations.uccsd_stanton, inp["Fa"], inp["Fb"], inp["Ia"], inp["Ib"], inp["Iabab"], (x[0], x[1]), (x[2], x[3], x[4]))
        x = [_upd(a, r, d, inplace) for a, r, d in zip(x, list(r1) + list(r2), ctx)]
        return x, call(U.cc_energy.ucc_energy, (x[0], x[1]), (x[2], x[3], x[4]), inp["Fa"].ov, inp["Fb"].ov, inp["Ia"].oovv, inp["Ib"].oovv, inp["Iabab"].oovv)

    def finish(self, call, U, inp, x):
        return None


class Restricted(object):
    def inputs(self, b):
        return _items(b, "Fr", "Ir", "eoa2", "eva2")

    def start(self, b):
        return [b.get("T1r").copy(), b.get("T2r").copy()]

    def prepare(self, call, U, inp):
        return call(U.utils.D1, inp["eva2"], inp["eoa2"]), call(U.utils.D2, inp["eva2"], inp["eoa2"])

    def step(self, call, U, inp, x, ctx, inplace):
        r = call(U.cc_equations.rccsd_stanton, inp["Fr"], inp["Ir"], x[0], x[1])
        x = [_upd(a, y, d, inplace) for a, y, d in zip(x, r, ctx)]
        return x, call(U.cc_energy.rcc_energy, x[0], x[1], inp["Fr"].ov, inp["Ir"].oovv)

    def finish(self, call, U, inp, x):
        return None


class Lambda(object):
    def __init__(self, fn):
        self.fn = fn

    def inputs(self, b):
        return _items(b, "F", "I", "T1", "T2", "eo", "ev", *(["intor"] if self.fn == "ccsd_lambda_opt_int" else []))

    def start(self, b):
        return [b.get("L1").copy(), b.get("L2").copy()]

    def prepare(self, call, U, inp):
        return call(U.utils.D1, inp["ev"], inp["eo"]).T, call(U.utils.D2, inp["ev"], inp["eo"]).transpose((2, 3, 0, 1))

    def step(self, call, U, inp, x, ctx, inplace):
        f = getattr(U.cc_equations, self.fn)
        if self.fn == "ccd_lambda_simple":
            r = [0.0 * x[0], call(f, inp["F"], inp["I"], x[1], inp["T2"])]
        else:
            extra = [inp["intor"]] if "intor" in inp else []
            r = call(f, inp["F"], inp["I"], x[0], x[1], inp["T1"], inp["T2"], *extra)
        x = [_upd(a, y, d, inplace) for a, y, d in zip(x, r, ctx)]
        return x, call(U.cc_energy.cc_energy, inp["T1"], inp["T2"], inp["F"].ov, inp["I"].oovv)

    def finish(self, call, U, inp, x):
        E = U.cc_equations
        a = (inp["T1"], inp["T2"], x[0], x[1])
        return [call(E.ccsd_1rdm_ba_opt, *a), call(E.ccsd_1rdm_ji_opt, *a), call(E.ccsd_1rdm_ai_opt, *a), call(E.ccsd_2rdm_abij_opt, *a)]


class ULambda(object):
    T = ("T1a", "T1b", "T2aa", "T2ab", "T2bb")

    def inputs(self, b):
        return _items(b, "Fa", "Fb", "Ia", "Ib", "Iabab", "eob", "evb", "eoa2", "eva2", *self.T)

    def start(self, b):
        return [b.get(n).copy() for n in ("L1a", "L1b", "L2aa", "L2ab", "L2bb")]

    def prepare(self, call, U, inp):
        d = Unrestricted().prepare(call, U, inp)
        return [x.T if x.ndim == 2 else x.transpose((2, 3, 0, 1)) for x in d]

    def step(self, call, U, inp, x, ctx, inplace):
        t = [inp[n] for n in self.T]
        r1, r2 = call(U.cc_equations.uccsd_lambda_opt, inp["Fa"], inp["Fb"], inp["Ia"], inp["Ib"], inp["Iabab"],
                      (x[0], x[1]), (x[2], x[3], x[4]), (t[0], t[1]), (t[2], t[3], t[4]))
        x = [_upd(a, r, d, inplace) for a, r, d in zip(x, list(r1) + list(r2), ctx)]
        return x, 0.0

    def finish(self, call, U, inp, x):
        t = [inp[n] for n in self.T]
        return [call(U.cc_equations.uccsd_1rdm_ba, *(t + x)), call(U.cc_equations.uccsd_1rdm_ji, *(t + x))]


class RLambda(object):
    def inputs(self, b):
        return _items(b, "Fr", "Ir", "T1r", "T2r", "eoa2", "eva2")

    def start(self, b):
        return [b.get("L1r").copy(), b.get("L2r").copy()]

    def prepare(self, call, U, inp):
        a, c = Restricted().prepare(call, U, inp)
        return a.T, c.transpose((2, 3, 0, 1))

    def step(self, call, U, inp, x, ctx, inplace):
        r = call(U.cc_equations.rccsd_lambda_opt, inp["Fr"], inp["Ir"], x[0], x[1], inp["T1r"], inp["T2r"])
        x = [_upd(a, y, d, inplace) for a, y, d in zip(x, r, ctx)]
        return x, 0.0

    def finish(self, call, U, inp, x):
        return [call(U.cc_equations.rccsd_1rdm_ba, inp["T1r"], inp["T2r"], x[0], x[1])]


class CI(object):
    """Power iteration; the determinant list is saved, or made anew by every process."""

    def __init__(self, spin, basis):
        self.spin = spin
        self.basis = basis

    def inputs(self, b):
        s = b.s
        inp = _items(b, "ha", "hb", "cIa", "cIb", "cIab") if self.spin == "u" else _items(b, "gh", "gI")
        if self.basis == "saved":
            inp["basis"] = b.get("ubasis" if self.spin == "u" else "gbasis")
        inp["dims"] = (s["cn"], s["cna"], s["cnb"])
        return inp

    def start(self, b):
        return [numpy.zeros(0)]

    def prepare(self, call, U, inp):
        if "basis" in inp:
            return inp["basis"]
        n, na, nb = inp["dims"]
        if self.spin == "u":
            return call(U.ci_utils.ucisd_basis, n, na, nb)
        return call(U.ci_utils.gcisd_basis, 2 * n, na + nb)

    def step(self, call, U, inp, x, ctx, inplace):
        v = x[0]
        if v.size == 0:
            v = 1.0 / (1.0 + numpy.arange(len(ctx)))
        if self.spin == "u":
            w = call(U.ci_utils.H_on_vec, ctx, v, inp["ha"], inp["hb"], inp["cIa"], inp["cIb"], inp["cIab"])
        else:
            w = call(U.ci_utils.gH_on_vec, ctx, v, inp["gh"], inp["gI"])
        e = float(numpy.dot(v, w) / numpy.dot(v, v))
        w = 0.5 * v + 0.1 * w
        w = w / numpy.linalg.norm(w)
        if inplace:
            v[...] = w
            w = v
        return [w], e

    def finish(self, call, U, inp, x):
        return None


FLAVOURS = {n: (lambda n=n: SpinOrbital(n)) for n in ("lccd_simple", "lccsd_simple", "ccd_simple", "ccd_ladder_simple", "ccd_ring_simple",
                                                       "ccsd_simple", "ccsd_stanton", "ccd_stanton")}
FLAVOURS.update({"uccsd": Unrestricted, "rccsd": Restricted, "ulambda": ULambda, "rlambda": RLambda})
FLAVOURS.update({n: (lambda n=n: Lambda(n)) for n in ("ccd_lambda_simple", "ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton", "ccsd_lambda_opt_int")})
for _s in "ug":
    for _b in ("saved", "made"):
        FLAVOURS["ci_%s_%s" % (_s, _b)] = (lambda s=_s, b=_b: CI(s, b))
NAMES = sorted(FLAVOURS)


def _mkbundle(U, spec):
    b = bundle.Bundle(U, spec)
    r = bundle.rng_for(spec["seed"], "uenergies")
    b.items["eoa2"] = -1.0 - r.uniform(0, 2, spec["noa"])
    b.items["eva2"] = 1.0 + r.uniform(0, 2, spec["nva"])
    return b


def _snapshot(k, x, e):
    return k, values.freeze([x, e])


def _life(plan, disk, faults, kill_at, stats, record, limit):
    """One process life: load or start, iterate, save.  -> 'done' | 'killed'."""
    U = universe.Universe()
    stats.inc("universes")
    fl = FLAVOURS[plan["flavour"]]()
    n, every, inplace = plan["iterations"], plan["every"], plan["inplace"]
    sim = sched.Sim()
    faults = dict(faults)

    def script(th):
        th.kill_at = kill_at
        th.cap = limit
        call = Caller(th, faults, stats)
        while True:
            try:
                st = disk.load() if disk else None
                if st is None:
                    b = _mkbundle(U, plan["spec"])
                    st = {"k": 0, "inp": fl.inputs(b), "x": fl.start(b)}
                else:
                    stats.inc("resumed")
                k, inp, x = st["k"], st["inp"], st["x"]
                ctx = fl.prepare(call, U, inp)
                if disk and k == 0:
                    disk.save(th, 0, st, True)
                while k < n:
                    x, e = fl.step(call, U, inp, x, ctx, inplace)
                    k += 1
                    stats.inc("iterations_judged")
                    record(k, values.freeze([x, e]))
                    if disk and k % every == 0:
                        disk.save(th, k // every, {"k": k, "inp": inp, "x": x}, plan["sync"])
                fin = fl.finish(call, U, inp, x)
                record("end", values.freeze(fin))
                return th.ev
            except _Reload:
                continue
            except Raised as e:
                record("raised", str(e))
                return th.ev
    with U, sched.patched_primitives():
        backend.install(backend.Plan())
        try:
            return "done", sim.run_inline(script), sim
        except sched.SimKill:
            if kill_at is None:
                raise Violation("no-progress", "the iteration waits for ever after a restart")
            return "killed", sim.steps, sim
        except sched.SimStepLimit:
            raise Violation("no-progress", "the iteration exceeds its step limit")
        finally:
            backend.install(None)


class C07(object):
    level = "fault_enumeration"
    eval_key = "iterations_judged"
    rule = ("evaluations are executed iterations, each compared with the same iteration of the uninterrupted run; runs are distinct by solver flavour, "
            "save interval, places of the kills (function, line or disk operation) and aborted calls, and non-trivial if at least one kill or fault fired")
    quick_runs = 20000
    thorough_runs = 190000
    components = {"real": ["residuals, Lambda equations, densities, energies, denominators, determinant lists and matrix-vector products of cqcpy",
                           "pickling of the library's containers"],
                  "simulated": ["iteration driver", "checkpoint disk with torn and lost writes", "process kill and restart"]}

    @staticmethod
    def gen(seed, idx, rng, stats):
        flav = NAMES[idx % len(NAMES)]
        ci = flav.startswith("ci")
        spec = bundle.random_spec(rng, big=rng.random() < 0.1, cplx=False if ci else None, layout=rng.choice(["c", "sl", "f", "view", "neg"]))
        if spec["cn"] > 3:
            spec.update(cn=3, cna=min(spec["cna"], 2), cnb=min(spec["cnb"], 2))
        spec["nd"] = min(spec["nd"], 6)
        spec["alias"] = False
        plan = {"mode": "line", "flavour": flav, "spec": spec, "iterations": rng.randint(1, 6), "every": rng.choice([1, 1, 2, 3]),
                "inplace": rng.random() < 0.5, "sync": rng.random() < 0.6, "diskseed": rng.randrange(1 << 30)}
        World(plan, stats)
        sched.set_mode("line")
        ev = _life(plan, None, {}, None, stats, lambda k, v: None, 5000000)[1]
        kills = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5])):
            kills.append(rng.randint(1, ev + 12))
        plan["kills"] = kills
        faults = {}
        if rng.random() < 0.35 or not kills:
            for _ in range(rng.choice([1, 1, 2])):
                faults.setdefault(str(rng.randint(0, len(kills))), {})[str(rng.randint(1, 12))] = {
                    "ev": rng.randint(1, 60), "exc": rand_exc(rng), "then": rng.choice(["retry", "reload"])}
        plan["faults"] = faults
        return plan

    @staticmethod
    def execute(plan, stats):
        World(plan, stats)
        sched.set_mode(plan["mode"])
        ref = {}
        quiet = type(stats)()
        _, ev, _ = _life(plan, None, {}, None, quiet, ref.__setitem__, 5000000)
        stats.inc("universes", quiet.get("universes", 0))
        stats.inc("events", ev)
        disk = Disk(random.Random(plan["diskseed"]))
        where = []

        def record(k, v):
            if k not in ref:
                raise Violation("trajectory", "%s: %s where the uninterrupted run has none (%s)%s" % (plan["flavour"], _name(k), v if k == "raised" else "value", hist()))
            if k == "raised":
                return
            d = values.compare(v, ref[k])
            if d:
                raise Violation("trajectory", "%s: %s differs from the uninterrupted run: %s%s" % (plan["flavour"], _name(k), d, hist()))

        def hist():
            return " after kills at %s" % (where,) if where else " without any kill"

        life = 0
        done = False
        for kill in list(plan["kills"]) + [None]:
            faults = plan["faults"].get(str(life), {})
            how, steps, sim = _life(plan, disk, faults, kill, stats, record, 40 * ev + 50000)
            stats.inc("events", sim.steps)
            life += 1
            if how == "killed":
                disk.crash()
                where.append([sim.fault_log[-1][2], sim.fault_log[-1][3]])
                stats.inc("fault_kill")
            else:
                done = True
                break
        stats.inc("disk_torn", disk.torn)
        stats.inc("disk_lost", disk.lost)
        stats.inc("disk_fallbacks", disk.fallbacks)
        if not done:
            raise Violation("no-progress", "%s did not finish after the last kill" % plan["flavour"])
        return {"digest": repr([plan["flavour"], plan["every"], plan["iterations"], where, plan["faults"]]), "nontrivial": bool(where or plan["faults"])}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["kills"]):
            yield dict(plan, kills=c)
        for life in plan["faults"]:
            q = dict(plan["faults"])
            del q[life]
            yield dict(plan, faults=q)
        if plan["iterations"] > 1:
            yield dict(plan, iterations=plan["iterations"] - 1)
        if plan["every"] > 1:
            yield dict(plan, every=1)
        if plan["inplace"]:
            yield dict(plan, inplace=False)
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
        for i, k in enumerate(plan["kills"]):
            for m in sorted({1, k // 2, k - 1}):
                if 0 < m < k:
                    yield dict(plan, kills=plan["kills"][:i] + [m] + plan["kills"][i + 1:])


def _name(k):
    return {"end": "the final density", "raised": "an exception"}.get(k, "iteration %s" % k)
