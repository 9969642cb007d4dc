"""C09 (symmetry of random tensors for every outcome of the random source), C10 (reproducible random stream)."""
import os
import random

import numpy

from . import backend, bundle, catalog, sched, universe, values
from .world import FAULTS, Violation, World, make_schedule, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

GENS = sorted(catalog.GEN)
BLK9 = bundle.BLK9
BLK16 = bundle.BLK16


# -- the random source under the simulator's control -------------------------------------------------------------
def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def script_stream(doubles):
    """State of numpy's global generator that delivers the given doubles next (at most 312, cycled)."""
    words = []
    for k in range(312):
        m = int(doubles[k % len(doubles)] * 9007199254740992.0)
        m = min(max(m, 0), (1 << 53) - 1)
        words += [(m >> 26) << 5, (m & ((1 << 26) - 1)) << 6]
    return ("MT19937", numpy.array([_untemper(w) for w in words], dtype=numpy.uint32), 0, 0, 0.0)


TOP = (2.0 ** 53 - 1) / 2.0 ** 53
TINY = 2.0 ** -53


def stream(kind, seed):
    r = random.Random("stream%d" % seed)
    if kind == "zeros":
        return [0.0]
    if kind == "top":
        return [TOP]
    if kind == "const":
        return [r.random()]
    if kind == "ties":
        vals = [r.random() for _ in range(2)]
        return [r.choice(vals) for _ in range(312)]
    if kind == "extremes":
        return [r.choice([0.0, TINY, TOP, 0.5]) for _ in range(312)]
    if kind == "spike":
        v = [0.0] * 312
        for _ in range(r.choice([1, 2, 5])):
            v[r.randrange(312)] = r.choice([TOP, TINY, 0.5])
        return v
    if kind == "ramp":
        return [k / 312.0 for k in range(312)]
    if kind == "down":
        return [1 - (k + 1) / 312.0 for k in range(312)]
    return [r.random() for _ in range(312)]


STREAMS = ["plain", "plain", "zeros", "top", "const", "ties", "ties", "extremes", "spike", "ramp", "down"]


# -- what each generator promises -----------------------------------------------------------------------------------
def _shape(what, a, shape):
    if not isinstance(a, numpy.ndarray) or a.shape != tuple(shape):
        raise Violation("shape", "%s has shape %s, requested %s" % (what, getattr(a, "shape", type(a).__name__), tuple(shape)))
    if not numpy.isfinite(a).all():
        raise Violation("symmetry", "%s has entries that are not finite" % what)


def _same(what, a, b):
    if a.shape != b.shape or not (abs(a - b) <= 1e-12).all():
        raise Violation("symmetry", what)


def _anti(what, t, i, j):
    if t.shape[i] == t.shape[j]:
        _same("%s is not antisymmetric in indices %d, %d" % (what, i, j), t, -t.swapaxes(i, j))


def _ovs(name, no, nv):
    return tuple(no if c == "o" else nv for c in name)


def _check_F(r, no, nv, what="F"):
    for b in ("oo", "ov", "vo", "vv"):
        _shape(what + "." + b, getattr(r, b), _ovs(b, no, nv))
    _same(what + ".oo is not symmetric", r.oo, r.oo.T)
    _same(what + ".vv is not symmetric", r.vv, r.vv.T)
    _same(what + ".vo is not the transpose of ov", r.vo, r.ov.T)


def _blocks_shape(r, names, no, nv, what):
    for b in names:
        _shape("%s.%s" % (what, b), getattr(r, b), _ovs(b, no, nv))


def _check_I(r, no, nv):
    _blocks_shape(r, BLK9, no, nv, "I")
    for b in ("vvvv", "vvoo", "oovv", "oooo"):
        t = getattr(r, b)
        _same("I.%s lacks particle-exchange symmetry" % b, t, t.transpose((1, 0, 3, 2)))


def _check_I_anti(r, no, nv):
    _blocks_shape(r, BLK9, no, nv, "I")
    for b in BLK9:
        t = getattr(r, b)
        if b[0] == b[1]:
            _anti("I." + b, t, 0, 1)
        if b[2] == b[3]:
            _anti("I." + b, t, 2, 3)


def _assemble(r, no, nv):
    n = no + nv
    t = numpy.empty((n,) * 4)
    for b in BLK16:
        t[tuple(slice(None, no) if c == "o" else slice(no, None) for c in b)] = getattr(r, b)
    return t


def _check_Ifull(r, no, nv):
    _blocks_shape(r, BLK16, no, nv, "I")
    t = _assemble(r, no, nv)
    _anti("the tensor made of all blocks", t, 0, 1)
    _anti("the tensor made of all blocks", t, 2, 3)


def _check_gen(r, *d):
    o, n = d[0::2], d
    for b in BLK16:
        _shape("I." + b, getattr(r, b), [d[2 * k] if c == "o" else d[2 * k + 1] for k, c in enumerate(b)])


def _check_Itot(t, n):
    _shape("I", t, (n,) * 4)
    for p in ((1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)):
        _same("I lacks symmetry %s" % (p,), t, t.transpose(p))


def _tup(r, k):
    if not isinstance(r, tuple) or len(r) != k:
        raise Violation("shape", "expected %d tensors" % k)
    return r


def _a2(what, t, off=0):
    _anti(what, t, off, off + 1)
    _anti(what, t, off + 2, off + 3)


def _check_T(r, no, nv):
    a, b = _tup(r, 2)
    _shape("T1", a, (nv, no))
    _shape("T2", b, (nv, nv, no, no))
    _a2("T2", b)


def _check_L(r, no, nv):
    a, b = _tup(r, 2)
    _shape("L1", a, (no, nv))
    _shape("L2", b, (no, no, nv, nv))
    _a2("L2", b)


def _check_T2s(r, noa, nva, nob, nvb):
    aa, ab, bb = _tup(r, 3)
    _shape("T2aa", aa, (nva, nva, noa, noa))
    _shape("T2bb", bb, (nvb, nvb, nob, nob))
    _shape("T2ab", ab, (nva, nvb, noa, nob))
    _a2("T2aa", aa)
    _a2("T2bb", bb)


def _check_T1s(r, noa, nva, nob, nvb):
    a, b = _tup(r, 2)
    _shape("T1a", a, (nva, noa))
    _shape("T1b", b, (nvb, nob))


def _check_ftI(r, n):
    f, t = _tup(r, 2)
    _shape("F", f, (n, n))
    _shape("I", t, (n,) * 4)
    _same("F is not symmetric", f, f.T)
    _a2("I", t)


def _check_ftT(r, ng, n):
    a, b = _tup(r, 2)
    _shape("T1", a, (ng, n, n))
    _shape("T2", b, (ng,) + (n,) * 4)
    _a2("T2", b, 1)


def _check_ftT1s(r, ng, na, nb):
    a, b = _tup(r, 2)
    _shape("T1a", a, (ng, na, na))
    _shape("T1b", b, (ng, nb, nb))


def _check_ftT2s(r, ng, na, nb):
    aa, ab, bb = _tup(r, 3)
    _shape("T2aa", aa, (ng,) + (na,) * 4)
    _shape("T2bb", bb, (ng,) + (nb,) * 4)
    _shape("T2ab", ab, (ng, na, nb, na, nb))
    _a2("T2aa", aa, 1)
    _a2("T2bb", bb, 1)


def _diffs(what, d):
    """d[i, j] = e_i - e_j for one set of energies."""
    _same(what + " are not differences of one set of energies", d, d[:, :1] + d[:1, :])


def _check_D1(d, n):
    _shape("D1", d, (n, n))
    _same("D1 is not antisymmetric", d, -d.T)
    _diffs("the D1 denominators", d)


def _check_D(r, n):
    d1, d2 = _tup(r, 2)
    _check_D1(d1, n)
    _shape("D2", d2, (n,) * 4)
    _same("D2 does not follow from the energies of D1", d2, d1[:, None, :, None] + d1[None, :, None, :])


def _check_D2(d, n1, n2):
    _shape("D2", d, (n1, n2, n1, n2))
    x = d[:, 0, :, 0]
    y = d[0, :, 0, :]
    for e, nm in ((x, "first"), (y, "second")):
        _same("D2 in its %s pair is not antisymmetric" % nm, e, -e.T)
        _diffs("the D2 denominators in the %s pair" % nm, e)
    _same("D2 is not the sum of its pairs", d, x[:, None, :, None] + y[None, :, None, :])


def _check_ints(r, no, nv):
    f, i = _tup(r, 2)
    _check_F(f, no, nv)
    _check_I_anti(i, no, nv)


ORACLE = {"make_random_F": _check_F, "make_random_I": _check_I, "make_random_I_anti": _check_I_anti, "make_random_Itot": _check_Itot,
          "make_random_Ifull": _check_Ifull, "make_random_Ifull_gen": _check_gen, "make_random_integrals": _check_ints, "make_random_T": _check_T,
          "make_random_T1_spatial": _check_T1s, "make_random_T2_spatial": _check_T2s, "make_random_L": _check_L,
          "make_random_ft_integrals": _check_ftI, "make_random_ft_T": _check_ftT, "make_random_ft_T1_spatial": _check_ftT1s,
          "make_random_ft_T2_spatial": _check_ftT2s, "make_random_ft_D": _check_D, "make_random_ft_D1": _check_D1, "make_random_ft_D2": _check_D2}


def judge_gen(name, args, value, where=""):
    try:
        ORACLE[name](value, *args)
    except Violation as v:
        raise Violation(v.kind, "%s%s%s: %s" % (name, tuple(args), where, v.detail))


class C09(object):
    level = "exploration"
    eval_key = "tensors_judged"
    rule = ("evaluations are generator results checked for shape and symmetry; runs are distinct by generators, dimensions, stream kind and seed, "
            "switch points and faults, and non-trivial if the stream is adversarial, a switch happened or a fault fired")
    quick_runs = 60000
    thorough_runs = 600000
    components = {"real": ["cqcpy.test_utils", "numpy global generator algorithm"],
                  "simulated": ["state of the random source", "thread scheduling", "aborts"]}

    @staticmethod
    def gen(seed, idx, rng, stats):
        g = GENS[idx % len(GENS)]
        plan = {"mode": "instr" if rng.random() < 0.2 else "line", "stream": [rng.choice(STREAMS), rng.randrange(1 << 30)]}
        args = list(catalog.GEN[g](rng))
        nth = rng.choice([1, 1, 1, 2, 2, 3])
        threads = []
        for t in range(nth):
            prog = []
            for k in range(rng.choice([1, 2, 3])):
                if k == 0 or rng.random() < 0.6:
                    nm, a = g, (args if rng.random() < 0.7 else list(catalog.GEN[g](rng)))
                else:
                    nm = rng.choice(GENS)
                    a = list(catalog.GEN[nm](rng))
                st = {"g": nm, "a": a}
                if rng.random() < 0.2:
                    st["ev"], st["exc"] = rng.randint(1, 40), rand_exc(rng)
                prog.append(st)
            threads.append(prog)
        plan["threads"] = threads
        plan["schedule"], plan["style"] = make_schedule(rng, [40 * len(p) for p in threads])
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats).start()
        sim = sched.Sim(plan["schedule"])
        results = []
        nf = [0]
        numpy.random.set_state(script_stream(stream(*plan["stream"])))
        with W.U, sched.patched_primitives():
            tu = W.U.test_utils

            def make(prog):
                def script(th):
                    for st in prog:
                        f = (st["ev"], FAULTS[st["exc"]]) if "ev" in st else None
                        out = th.call(getattr(tu, st["g"]), st["a"], {}, fault=f)
                        if th.fired:
                            nf[0] += 1
                            stats.inc("fault_" + st["exc"])
                            out = th.call(getattr(tu, st["g"]), st["a"], {})
                        results.append((th.tid, st, out))
                return script
            for prog in plan["threads"]:
                sim.spawn(make(prog)).cap = 500000
            sim.run()
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        stats.inc("stream_" + plan["stream"][0])
        if sim.deadlock or sim.steplimit is not None:
            raise Violation("no-progress", "concurrent generators never finish")
        for tid, st, out in results:
            if out[0] == "exc":
                raise Violation("raised", "%s%s raised %r for stream %s" % (st["g"], tuple(st["a"]), out[1], plan["stream"][0]))
            stats.inc("tensors_judged")
            judge_gen(st["g"], st["a"], out[1], " in thread %d with stream %s" % (tid, plan["stream"][0]))
        return {"digest": repr([plan["stream"], [[(s["g"], s["a"]) for s in p] for p in plan["threads"]]]) + sim.interleaving_digest() + repr(sim.fault_log),
                "nontrivial": plan["stream"][0] != "plain" or sim.nswitch > 0 or nf[0] > 0}

    @staticmethod
    def shrink(plan):
        for i in range(len(plan["threads"])):
            if len(plan["threads"]) > 1:
                yield dict(plan, threads=plan["threads"][:i] + plan["threads"][i + 1:], schedule=[[t - (t > i), n] for t, n in plan["schedule"] if t != i])
        for i, prog in enumerate(plan["threads"]):
            for c in shrink_list(prog):
                if c:
                    yield dict(plan, threads=plan["threads"][:i] + [c] + plan["threads"][i + 1:])
            for j, st in enumerate(prog):
                if "ev" in st:
                    yield dict(plan, threads=plan["threads"][:i] + [prog[:j] + [{"g": st["g"], "a": st["a"]}] + prog[j + 1:]] + plan["threads"][i + 1:])
                for k, d in enumerate(st["a"]):
                    if d > 1:
                        yield dict(plan, threads=plan["threads"][:i] + [prog[:j] + [dict(st, a=st["a"][:k] + [d - 1] + st["a"][k + 1:])] + prog[j + 1:]]
                                   + plan["threads"][i + 1:])
        for c in shrink_list(plan["schedule"]):
            yield dict(plan, schedule=c)


# ------------------------------------------------------------------------------------------------------------------
def np_state():
    s = numpy.random.get_state()
    return (s[0], s[1].tobytes(), int(s[2]), int(s[3]), float(s[4]))


_entropy = []


def _guard(mod, name, seedless):
    orig = getattr(mod, name)
    if getattr(orig, "_verif", False):
        return
    if isinstance(orig, type):
        class Guarded(orig):
            _verif = True

            def __init__(self, *a, **k):
                if sched.from_cqcpy() and seedless(a, k):
                    _entropy.append(name)
                orig.__init__(self, *a, **k)
        Guarded.__name__ = name
        setattr(mod, name, Guarded)
        return

    def f(*a, **k):
        if sched.from_cqcpy() and seedless(a, k):
            _entropy.append(name)
        return orig(*a, **k)
    f._verif = True
    f.__name__ = name
    setattr(mod, name, f)


def _noseed(a, k):
    return not a and not any(v is not None for v in k.values()) or (a and a[0] is None)


def guard_entropy():
    """Reports entropy taken by library code itself; numpy's own set-up is left alone."""
    import secrets
    import uuid
    _guard(os, "urandom", lambda a, k: True)
    if hasattr(os, "getrandom"):
        _guard(os, "getrandom", lambda a, k: True)
    for n in ("token_bytes", "token_hex", "randbits", "randbelow"):
        _guard(secrets, n, lambda a, k: True)
    for n in ("uuid1", "uuid4"):
        _guard(uuid, n, lambda a, k: True)
    _guard(random, "SystemRandom", lambda a, k: True)
    for n in ("default_rng",):
        _guard(numpy.random, n, _noseed)


class C10(object):
    level = "exploration"
    eval_key = "calls_judged"
    rule = ("evaluations are generator calls compared bit for bit with the same call in a fresh process at the same stream position, plus other calls "
            "whose effect on every random state was examined; runs are distinct by the sequence of steps, faults and switch points, and non-trivial if "
            "they contain at least two calls")
    quick_runs = 30000
    thorough_runs = 350000
    components = {"real": ["all cqcpy modules", "numpy and stdlib generators"], "simulated": ["seeding, entropy sources, aborts, thread scheduling"]}

    @staticmethod
    def init():
        guard_entropy()

    @staticmethod
    def gen(seed, idx, rng, stats):
        from .p_threads import focus_of
        op = focus_of(seed, idx)
        spec = spec_for(rng, op, big=rng.random() < 0.2)
        plan = {"mode": "line", "bundles": [{"spec": spec}], "kind": "conc" if rng.random() < 0.2 else "seq", "seed0": rng.randrange(1 << 31)}
        steps = []
        gens = [rng.choice(GENS) for _ in range(2)]
        ga = {g: list(catalog.GEN[g](rng)) for g in gens}
        others = [op] + pick_ops(rng, spec, 2, near=op)
        seeds = [rng.randrange(1 << 31) for _ in range(2)]

        def other():
            n = rng.choice(others)
            st = ["op", n, catalog.make_params(n, rng, spec)]
            if rng.random() < 0.35:
                st.append({"ev": rng.randint(1, 80), "exc": rand_exc(rng)})
            return st
        for k in range(rng.randint(3, 10)):
            r = rng.random()
            if r < 0.2:
                steps.append(["seed", rng.choice(seeds)])
            elif r < 0.27:
                steps.append(["state", rng.choice(STREAMS), rng.randrange(1 << 30)])
            elif r < 0.62:
                g = rng.choice(gens)
                st = ["gen", g, ga[g] if rng.random() < 0.7 else list(catalog.GEN[g](rng))]
                if rng.random() < 0.2:
                    st.append({"ev": rng.randint(1, 30), "exc": rand_exc(rng)})
                steps.append(st)
            else:
                steps.append(other())
        g = gens[0]
        steps += [["seed", seeds[0]], ["gen", g, ga[g]]]
        plan["steps"] = steps
        if plan["kind"] == "conc":
            plan["steps"] = [s[:3] for s in steps if s[0] in ("seed", "gen")]
            plan["other"] = [other() for _ in range(rng.choice([1, 2, 3]))]
            plan["schedule"], plan["style"] = make_schedule(rng, [30 * len(plan["steps"]), 100])
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats).start()
        numpy.random.seed(plan["seed0"])
        random.seed(plan["seed0"])
        del _entropy[:]
        trace = []
        viol = []
        glob = numpy.random.mtrand._rand
        glob_bg = glob._bit_generator
        fns = {n: getattr(numpy.random, n) for n in ("random", "seed", "get_state", "set_state", "rand", "uniform", "random_sample")}

        def intact(what):
            if numpy.random.mtrand._rand is not glob or glob._bit_generator is not glob_bg or any(getattr(numpy.random, n) is not f for n, f in fns.items()):
                raise Violation("replaced", "%s replaced part of numpy's global random machinery" % what)
            if _entropy:
                raise Violation("entropy", "%s drew entropy: %s" % (what, _entropy[0]))

        sim = sched.Sim(plan.get("schedule", ()))
        bun = W.bundles[0]
        others_running = plan["kind"] == "conc"

        def do_gen(th, st):
            before, pb = np_state(), random.getstate()
            full = numpy.random.get_state()
            f = st[3] if len(st) > 3 else None
            out = th.call(getattr(W.U.test_utils, st[1]), st[2], {}, fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
            intact(st[1])
            if f and th.fired:
                stats.inc("fault_" + f["exc"])
                trace.append(st[1] + " (aborted)")
                return
            after = numpy.random.get_state()
            trace.append(st[1])
            if not others_running and random.getstate() != pb:
                raise Violation("stream", "%s changed the state of Python's own generator" % st[1])
            if out[0] == "exc":
                raise Violation("raised", "%s%s raised %r" % (st[1], tuple(st[2]), out[1]))
            if np_state() == before:
                raise Violation("stream", "%s%s did not consume any draws; history %s" % (st[1], tuple(st[2]), trace))
            got.append((st, full, values.freeze(out[1]), after, list(trace)))

        def do_op(th, st, c):
            before, pb = np_state(), random.getstate()
            f = st[3] if len(st) > 3 else None
            out = th.call(c[0], c[1], c[2], fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
            if f and th.fired:
                stats.inc("fault_" + f["exc"])
            elif len(vals) < 1:
                vals.append((st, (out[0], values.freeze(out[1]) if out[0] == "ok" else out[1])))
            stats.inc("calls_judged")
            trace.append(st[1] + (" (aborted)" if f and th.fired else ""))
            intact(st[1])
            if not others_running and (np_state() != before or random.getstate() != pb):
                raise Violation("stream", "%s read, advanced or reseeded a global random state%s" % (st[1], " (aborted)" if f and th.fired else ""))

        got = []
        vals = []
        with W.U, sched.patched_primitives():
            backend.install(backend.Plan())
            ready = {}
            saved = numpy.random.get_state()
            for st in plan["steps"] + plan.get("other", []):
                if st[0] == "op":
                    ready[id(st)] = catalog.call_of(W.U, bun, st[1], st[2])
            numpy.random.set_state(saved)

            def make(steps):
                def script(th):
                    try:
                        for st in steps:
                            if viol:
                                return
                            if st[0] == "seed":
                                numpy.random.seed(st[1])
                                random.seed(st[1])
                                trace.append("seed")
                            elif st[0] == "state":
                                numpy.random.set_state(script_stream(stream(st[1], st[2])))
                                trace.append("set state")
                            elif st[0] == "gen":
                                do_gen(th, st)
                            else:
                                do_op(th, st, ready[id(st)])
                    except Violation as v:
                        viol.append(v)
                return script
            sim.spawn(make(plan["steps"])).cap = 5000000
            if others_running:
                sim.spawn(make(plan["other"])).cap = 5000000
            sim.run()
            backend.install(None)
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        if viol:
            raise viol[0]
        if sim.deadlock or sim.steplimit is not None:
            raise Violation("no-progress", "the calls never finish")
        # the value of another call must not depend on the position of the stream
        for st, out in vals:
            numpy.random.seed(plan["seed0"] ^ 0x5a5a5a)
            W.judge("with another position of the random stream, %s" % st[1], out, W.baseline(st[1], st[2], plan["bundles"][0]["spec"])[0])
        # every generator call again, alone in a fresh process, from the same stream position
        for st, full, fz, after, tr in got:
            ref, raft = _solo_gen(st, full, stats)
            stats.inc("calls_judged")
            d = values.compare(fz, ref, exact=True)
            if d:
                raise Violation("stream", "%s%s gives another tensor than in a fresh process at the same stream position: %s; history %s" % (st[1], tuple(st[2]), d, tr))
            if after[1].tobytes() != raft[1].tobytes() or after[2] != raft[2] or after[3] != raft[3]:
                raise Violation("stream", "%s%s leaves the stream at another position than in a fresh process; history %s" % (st[1], tuple(st[2]), tr))
        return {"digest": repr(trace) + sim.interleaving_digest(), "nontrivial": len(trace) > 1}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["steps"]):
            if c:
                yield dict(plan, steps=c)
        if plan["kind"] == "conc":
            for c in shrink_list(plan["other"]):
                yield dict(plan, other=c)
            for c in shrink_list(plan["schedule"]):
                yield dict(plan, schedule=c)
        for key in ("steps", "other"):
            for i, st in enumerate(plan.get(key, ())):
                if len(st) > 3:
                    yield dict(plan, **{key: plan[key][:i] + [st[:3]] + plan[key][i + 1:]})
        for s in shrink_spec(plan["bundles"][0]["spec"]):
            yield dict(plan, bundles=[{"spec": s}])


def _solo_gen(st, full, stats):
    U = universe.Universe()
    stats.inc("universes")
    with U:
        keep = numpy.random.get_state()
        numpy.random.set_state(full)
        v = getattr(U.test_utils, st[1])(*st[2])
        aft = numpy.random.get_state()
        numpy.random.set_state(keep)
        return values.freeze(v), aft
