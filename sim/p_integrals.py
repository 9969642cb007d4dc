"""C08: integral assembly is faithful and all-or-nothing under backend failures.

The expected tensors come from a model that shares no code with the library: the full AO tensor is transformed in one
contraction, spin is treated by doubling the AO space, and momentum conservation is decided from the k-vectors.
"""
import numpy

from . import backend, bundle, catalog, sched, values
from .p_threads import shrink_threads
from .world import Violation, World, make_schedule, shrink_list, shrink_spec, spec_for

IOPS = [n for n in catalog.OPS if catalog.OPS[n].pyscf]
BEXC = {"OSError": lambda: OSError(5, "Input/output error (injected)"), "NoSpace": lambda: OSError(28, "No space left on device (injected)"),
        "MemoryError": lambda: MemoryError("injected"), "RuntimeError": lambda: RuntimeError("backend failed (injected)"),
        "KeyboardInterrupt": lambda: KeyboardInterrupt()}
BEXC_NAMES = sorted(BEXC)
BLK = ["vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"]


# -- the model ---------------------------------------------------------------------------------------------------
def _trans(e, c1, c2, c3, c4):
    t = numpy.tensordot(c1.conj().T, e, axes=(1, 0))
    t = numpy.tensordot(t, c2, axes=(1, 0))
    t = numpy.tensordot(t, c3.conj(), axes=(1, 0))
    t = numpy.tensordot(t, c4, axes=(1, 0))
    return t


def _spin_ao(e):
    n = e.shape[0]
    d = numpy.eye(2)
    return numpy.einsum("ab,cd,pqrs->apbqcrds", d, d, e).reshape((2 * n,) * 4)


def _spin_c(a, b):
    n = a.shape[0]
    c = numpy.zeros((2 * n, a.shape[1] + b.shape[1]), dtype=numpy.result_type(a, b))
    c[:n, :a.shape[1]] = a
    c[n:, a.shape[1]:] = b
    return c


def _chem(e, c, anti):
    t = _trans(e, *c)
    if anti:
        t = t - _trans(e, c[0], c[3], c[2], c[1]).swapaxes(1, 3)
    return t


def _phys(e, c, anti):
    return _chem(e, (c[0], c[2], c[1], c[3]), anti).swapaxes(1, 2)


def _ao(obj):
    """AO tensor of a molecule, a molecular or a Gamma-point mean field."""
    if isinstance(obj, backend.SimSolMF):
        return obj.with_df.ao_eri(None)
    mol = getattr(obj, "mol", obj)
    n = mol.nao
    return mol.intor("int2e").reshape((n,) * 4)


def _conserved(kmf, k):
    """k1 - k2 + k3 - k4 is a reciprocal lattice vector."""
    q = kmf.kpts[k[0]] - kmf.kpts[k[1]] + kmf.kpts[k[2]] - kmf.kpts[k[3]]
    x = numpy.dot(kmf.cell.lattice_vectors(), q) / (2 * numpy.pi)
    return bool(abs(x - numpy.rint(x)).max() < 1e-6)


def _chemk(kmf, k, c, anti):
    if not _conserved(kmf, k):
        return numpy.zeros(tuple(x.shape[1] for x in c), dtype=complex)
    df = kmf.with_df
    t = _trans(df.ao_eri(k), *c)
    if anti:
        t = t - _trans(df.ao_eri((k[0], k[3], k[2], k[1])), c[0], c[3], c[2], c[1]).swapaxes(1, 3)
    return t


def _pair(mf):
    if numpy.ndim(mf.mo_occ) == 1:
        return mf.mo_coeff, mf.mo_coeff
    return mf.mo_coeff[0], mf.mo_coeff[1]


def expected(name, args, kw):
    """-> frozen expected value"""
    fn = name.split(".", 1)[1]
    anti = "anti" in fn or kw.get("anti", False)
    phys = "phys" in fn
    f = _phys if phys else _chem
    if fn == "eri_blocks":
        mf = args[0]
        code = kw.get("code", 0)
        ca, cb = _pair(mf)
        occ = numpy.atleast_2d(mf.mo_occ)
        oa, ob = occ[0] > 0, occ[-1] > 0
        sl = {"o": _spin_c(ca[:, oa], cb[:, ob]), "v": _spin_c(ca[:, ~oa], cb[:, ~ob])}
        e = _spin_ao(_ao(mf))
        return {b: (_phys(e, [sl[x] for x in b], True) if code in (0, i + 1) else None) for i, b in enumerate(BLK)}
    if fn == "get_solk_integrals":
        kmf = args[0]
        ch = kw.get("eriorder", "chem") == "chem"
        mo = kmf.mo_coeff
        nk, n = len(kmf.kpts), mo[0].shape[1]
        h1 = numpy.array([mo[k].conj().T @ kmf._h[k] @ mo[k] for k in range(nk)])
        h2 = numpy.zeros((nk,) * 3 + (n,) * 4, dtype=complex)
        for p in range(nk):
            for q in range(nk):
                for r in range(nk):
                    for s in range(nk):
                        kk = (p, q, r, s) if ch else (p, r, q, s)
                        if _conserved(kmf, kk):
                            t = _chemk(kmf, kk, [mo[x] for x in kk], False)
                            h2[p, q, r] = t if ch else t.swapaxes(1, 2)
        return h1, h2
    if fn.endswith("solk"):
        kmf, k = args[0], args[1]
        c = args[2:6]
        if phys:
            return _chemk(kmf, (k[0], k[2], k[1], k[3]), (c[0], c[2], c[1], c[3]), anti).swapaxes(1, 2)
        return _chemk(kmf, tuple(k), c, anti)
    if fn in ("get_physu_all_gen", "get_phys_antiu_all_gen"):
        c = _spin_c(*_pair(args[0]))
        return f(_spin_ao(_ao(args[0])), (c,) * 4, anti)
    if "u_all" in fn:
        c = _spin_c(args[1], args[2])
        return f(_spin_ao(_ao(args[0])), (c,) * 4, anti)
    if len(args) == 9:
        c = [_spin_c(args[1 + i], args[5 + i]) for i in range(4)]
        return f(_spin_ao(_ao(args[0])), c, anti)
    return f(_ao(args[0]), args[1:5], anti)


def verdict(what, name, value, exp):
    if name.endswith("eri_blocks"):
        for b in BLK:
            has = getattr(value, "has_" + b)
            if bool(has) != (exp[b] is not None):
                raise Violation("blocks", "%s: announces block %s: %s" % (what, b, has))
            got = getattr(value, b, None)
            if (got is None) != (exp[b] is None):
                raise Violation("blocks", "%s: block %s is %s" % (what, b, "missing" if got is None else "present but was not asked for"))
            if got is not None:
                _cmp(what + " block " + b, got, exp[b])
        return
    if isinstance(exp, tuple):
        if not isinstance(value, tuple) or len(value) != len(exp):
            raise Violation("value", "%s: expected %d tensors" % (what, len(exp)))
        for i, (v, e) in enumerate(zip(value, exp)):
            _cmp("%s tensor %d" % (what, i), v, e)
        return
    _cmp(what, value, exp)


def _cmp(what, got, exp):
    if not isinstance(got, numpy.ndarray) or got.shape != exp.shape:
        raise Violation("value", "%s has shape %s, expected %s" % (what, getattr(got, "shape", type(got).__name__), exp.shape))
    d = abs(got - exp)
    if not (d <= 1e-9 + 1e-8 * abs(exp)).all():
        i = numpy.unravel_index(int(numpy.argmax(numpy.nan_to_num(d, nan=numpy.inf))), d.shape)
        raise Violation("value", "%s is %s at %s, expected %s" % (what, got[i], tuple(int(x) for x in i), exp[i]))


# -- simulation ---------------------------------------------------------------------------------------------------
def _focus(seed, idx):
    import random
    order = list(IOPS)
    random.Random("ints%d" % seed).shuffle(order)
    return order[idx % len(order)]


class C08(object):
    level = "fault_enumeration"
    eval_key = "requests_judged"
    rule = ("evaluations are requests compared with the independent model, or with 'must raise' if a backend failure was delivered; runs are "
            "distinct by requests, failing crossings and switch points, and non-trivial if a failure fired, a switch happened or more than one "
            "request was made")
    quick_runs = 1300
    thorough_runs = 40000
    components = {"real": ["cqcpy.integrals", "pyscf Mole, libcint integrals, ao2mo transformation", "pyscf Cell and momentum-conservation helper"],
                  "simulated": ["periodic density-fitting backend", "backend failures", "thread scheduling"]}

    @staticmethod
    def gen(seed, idx, rng, stats):
        name = _focus(seed, idx)
        spec = spec_for(rng, name, cplx=rng.random() < 0.5)
        plan = {"mode": "line", "kind": rng.choice(["enum", "enum", "hist", "conc", "sweep"])}
        W = World(plan, stats)
        if plan["kind"] == "sweep":
            # many requests of other sizes, numbers and options on one process image
            plan["bundles"], plan["steps"] = [], []
            for k in range(8 if catalog.OPS[name].heavy > 10 else 12):
                n = name if rng.random() < 0.7 else rng.choice(["integrals.eri_blocks", rng.choice(IOPS)])
                plan["bundles"].append({"spec": spec_for(rng, n, cplx=rng.random() < 0.5)})
                st = ["call", k, n, catalog.make_params(n, rng, plan["bundles"][-1]["spec"])]
                if rng.random() < 0.2:
                    st.append({"bk": rng.randint(1, 8), "exc": rng.choice(BEXC_NAMES)})
                plan["steps"].append(st)
            return plan
        p = catalog.make_params(name, rng, spec)
        if plan["kind"] == "enum":
            plan["bundles"] = [{"spec": spec}]
            nb = W.baseline(name, p, spec)[2]
            pts = list(range(1, nb + 1))
            if nb > 40:
                pts = sorted(rng.sample(pts, 40))
            plan["op"], plan["p"] = name, p
            plan["points"] = [{"bk": c, "exc": rng.choice(BEXC_NAMES), "again": rng.choice([0, 0, 0, 1, 2])} for c in pts]
            return plan
        nb = rng.choice([1, 2])
        plan["bundles"] = [{"spec": spec}]
        for _ in range(nb - 1):
            t = bundle.twin_of(rng, spec)
            plan["bundles"].append({"spec": t if catalog.applicable(name, t) else dict(spec, seed=rng.randrange(1 << 30))})
        group = [n for n in IOPS if catalog.OPS[n].group == catalog.OPS[name].group and catalog.applicable(n, spec)]

        def one():
            n = name if rng.random() < 0.6 else rng.choice(group)
            pp = p if n == name and rng.random() < 0.6 else catalog.make_params(n, rng, spec)
            return n, pp
        if plan["kind"] == "hist":
            steps = []
            from .p_history import items_of
            items = items_of(name, p, spec)
            for k in range(rng.randint(2, 7)):
                bi = rng.randrange(nb)
                r = rng.random()
                if r < 0.7 or k == 0:
                    n, pp = one()
                    st = ["call", bi, n, pp]
                    if rng.random() < 0.4:
                        st.append({"bk": rng.randint(1, 8), "exc": rng.choice(BEXC_NAMES)})
                    steps.append(st)
                elif r < 0.9:
                    steps.append(["mut", bi, rng.choice(items), rng.randrange(32), rng.randrange(1 << 30)])
                else:
                    steps.append(["renew", bi, [[rng.choice(items), rng.randrange(32), rng.randrange(1 << 30)]]])
            steps.append(["call", rng.randrange(nb), name, p])
            plan["steps"] = steps
            return plan
        threads = []
        for t in range(rng.choice([2, 2, 3])):
            prog = []
            for k in range(rng.choice([1, 1, 2])):
                n, pp = (name, p) if k == 0 and t < 2 else one()
                prog.append({"op": n, "b": rng.randrange(nb), "p": pp})
            threads.append(prog)
        plan["threads"] = threads
        from .p_threads import _lens
        plan["schedule"], plan["style"] = make_schedule(rng, _lens(W, plan))
        plan["faults"] = []
        if rng.random() < 0.6:
            plan["faults"] = [{"tid": rng.randrange(len(threads)), "op": 0, "bk": rng.randint(1, 10), "exc": rng.choice(BEXC_NAMES)}]
        return plan

    @staticmethod
    def execute(plan, stats):
        return {"enum": _enum, "hist": _hist, "sweep": _hist, "conc": _conc}[plan["kind"]](plan, stats)

    @staticmethod
    def shrink(plan):
        if plan["kind"] == "conc":
            yield from shrink_threads(plan)
            return
        key = "points" if plan["kind"] == "enum" else "steps"
        for c in shrink_list(plan[key]):
            yield dict(plan, **{key: c})
        if plan["kind"] == "enum":
            for i, pt in enumerate(plan["points"]):
                if pt["again"]:
                    yield dict(plan, points=plan["points"][:i] + [dict(pt, again=0)] + plan["points"][i + 1:])
        else:
            for i, st in enumerate(plan["steps"]):
                if len(st) == 5 and st[0] == "call":
                    yield dict(plan, steps=plan["steps"][:i] + [st[:4]] + plan["steps"][i + 1:])
        for i in range(len(plan["bundles"])):
            for s in shrink_spec(plan["bundles"][i]["spec"]):
                yield dict(plan, bundles=plan["bundles"][:i] + [{"spec": s}] + plan["bundles"][i + 1:])


def _request(U, b, name, p, fault, stats):
    """One request -> (outcome, delivered failure or None, expected value)."""
    fn, args, kw = catalog.call_of(U, b, name, p)
    exp = expected(name, args, kw)
    bp = backend.Plan({(0, fault["bk"]): BEXC[fault["exc"]]} if fault else None)
    backend.install(bp)
    sim = sched.Sim()
    res = {}

    def script(th):
        th.cap = 5000000
        res["out"] = th.call(fn, args, kw)
    try:
        sim.run_inline(script)
    except (sched.SimKill, sched.SimStepLimit):
        raise Violation("no-progress", "%s never finishes" % name)
    finally:
        backend.install(None)
    stats.inc("events", sim.steps)
    stats.inc("backend_crossings", bp.count.get(0, 0))
    if bp.fired:
        stats.inc("fault_" + fault["exc"])
        stats.inc("at_" + bp.fired[0][2] + "_" + bp.fired[0][3])
    return res["out"], (bp.fired[0] if bp.fired else None), exp


def _settle(what, name, out, fired, exp, fault, stats):
    stats.inc("requests_judged")
    if fired:
        if out[0] == "ok":
            raise Violation("answer", "%s returned although its backend call failed (%s at crossing %d, %s)" % (what, fault["exc"], fault["bk"], fired[3]))
        return
    if out[0] == "exc":
        raise Violation("raised", "%s raised %s: %s without any backend failure" % (what, type(out[1]).__name__, str(out[1])[:160]))
    verdict(what, name, out[1], exp)


def _enum(plan, stats):
    W = World(plan, stats)
    name, p = plan["op"], plan["p"]
    nf = 0
    W.start()
    with W.U, sched.patched_primitives():
        out, fired, exp = _request(W.U, W.bundles[0], name, p, None, stats)
        _settle(name, name, out, fired, exp, None, stats)
    for pt in plan["points"]:
        W.start()
        with W.U, sched.patched_primitives():
            for k in range(1 + pt["again"]):
                out, fired, exp = _request(W.U, W.bundles[0], name, p, pt, stats)
                nf += bool(fired)
                _settle("%s (attempt %d)" % (name, k + 1), name, out, fired, exp, pt, stats)
            out, fired, exp = _request(W.U, W.bundles[0], name, p, None, stats)
            _settle("%s repeated after %s at crossing %d" % (name, pt["exc"], pt["bk"]), name, out, fired, exp, None, stats)
    return {"digest": repr([name, p, [(x["bk"], x["exc"]) for x in plan["points"]], [W.plan["bundles"][0]["spec"][k] for k in ("oc", "nmo", "mol")]]),
            "nontrivial": nf > 0}


def _hist(plan, stats):
    W = World(plan, stats).start()
    trace = []
    with W.U, sched.patched_primitives():
        for st in plan["steps"]:
            b = W.bundles[st[1] % len(W.bundles)]
            if st[0] == "call":
                if not catalog.applicable(st[2], b.s):
                    continue
                fault = st[4] if len(st) > 4 else None
                out, fired, exp = _request(W.U, b, st[2], st[3], fault, stats)
                trace.append(st[2] + (" (fails)" if fired else ""))
                _settle("%s in history %s" % (st[2], trace), st[2], out, fired, exp, fault, stats)
                out = exp = None
            elif st[0] == "mut":
                b.mutate(*st[2:])
                trace.append("overwrite " + st[2])
            else:
                b.drop()
                for m in st[2]:
                    b.mutate(*m)
                trace.append("re-create")
    return {"digest": repr(trace), "nontrivial": len(trace) > 1}


def _conc(plan, stats):
    from .p_threads import _lens
    W = World(plan, stats)
    lens = _lens(W, plan)
    W.start()
    sim = sched.Sim(plan["schedule"])
    bp = backend.Plan({(f["tid"], f["bk"]): BEXC[f["exc"]] for f in plan["faults"]})
    results = []
    with W.U, sched.patched_primitives():
        allcalls = [[(o, catalog.call_of(W.U, W.bundles[o["b"]], o["op"], o["p"])) for o in prog] for prog in plan["threads"]]
        exps = [[expected(o["op"], a, k) for o, (f, a, k) in c] for c in allcalls]
        backend.install(bp)

        def make(calls, ex):
            def script(th):
                for (o, (fn, a, k)), e in zip(calls, ex):
                    nf = len([x for x in bp.fired if x[0] == th.tid])
                    out = th.call(fn, a, k)
                    fired = [x for x in bp.fired if x[0] == th.tid][nf:]
                    results.append((th.tid, o, out, fired, e))
                    if fired:
                        out = th.call(fn, a, k)
                        results.append((th.tid, o, out, [], e))
            return script
        for t, (calls, ex) in enumerate(zip(allcalls, exps)):
            sim.spawn(make(calls, ex)).cap = 40 * lens[t] + 20000
        sim.run()
        backend.install(None)
    stats.inc("events", sim.steps)
    stats.inc("switches", sim.nswitch)
    stats.inc("backend_crossings", sum(bp.count.values()))
    for tid, n, kind, phase in bp.fired:
        f = [x for x in plan["faults"] if x["tid"] == tid and x["bk"] == n][0]
        stats.inc("fault_" + f["exc"])
        stats.inc("at_%s_%s" % (kind, phase))
    if sim.deadlock or sim.steplimit is not None:
        raise Violation("no-progress", "concurrent requests never finish")
    for tid, o, out, fired, e in results:
        f = [x for x in plan["faults"] if fired and x["tid"] == tid]
        _settle("thread %d: %s" % (tid, o["op"]), o["op"], out, fired[0] if fired else None, e, f[0] if f else None, stats)
    return {"digest": sim.interleaving_digest() + repr(bp.fired) + repr([[o["op"] for o in t] for t in plan["threads"]]),
            "nontrivial": sim.nswitch > 0}
