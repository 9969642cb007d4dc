"""Shared machinery of the property simulations: baselines, runs, outcomes."""
import json
import os
import random
import re
import sys
import threading
import time
import warnings

import numpy

from . import backend, bundle, catalog, scent, sched, universe, values

_real_time = time.time
_default_err = None
_default_filters = None
_default_env = None


def init_worker():
    global _default_err, _default_filters, _default_env
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    backend._pyscf()
    backend.wrap_real()
    sched.setup()
    from . import p_ambient
    p_ambient.capture()
    universe.Universe()
    _default_err = numpy.geterr()
    _default_filters = list(warnings.filters)
    _default_env = dict(os.environ)
    scent.scents()
    reset_ambient()
    return True


class pristine(object):
    """The environment variables of a process started afresh."""

    def __enter__(self):
        self.kept = None
        if dict(os.environ) != _default_env:
            self.kept = dict(os.environ)
            os.environ.clear()
            os.environ.update(_default_env)

    def __exit__(self, *exc):
        if self.kept is not None:
            os.environ.clear()
            os.environ.update(self.kept)


def reset_ambient():
    """Put the worker process back into its reference state between runs."""
    numpy.seterr(**_default_err)
    warnings.filters[:] = _default_filters
    if dict(os.environ) != _default_env:
        os.environ.clear()
        os.environ.update(_default_env)
    numpy.random.seed(12345)
    random.seed(12345)
    backend.reset()


FAULTS = {
    "MemoryError": lambda: MemoryError("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
    "FloatingPointError": lambda: FloatingPointError("injected"),
    "OSError": lambda: OSError(28, "No space left on device (injected)"),
    "Kill": lambda: sched.SimKill(),
}


class Violation(Exception):
    def __init__(self, kind, detail):
        # addresses and object identities differ from process to process
        detail = re.sub(r"(?<![\d.])\d{10,}(?![\d.])", "<number>", re.sub(r"0x[0-9a-f]{6,}", "<address>", detail))
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def add(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
        return self


def bkey(bs):
    return json.dumps([bs["spec"], bs.get("muts", [])], sort_keys=True)


class Events(int):
    """A number of events that knows, for every place in the code, some of the events that happen there."""

    def __new__(cls, n, places=()):
        x = int.__new__(cls, n)
        x.places = places
        return x

    @staticmethod
    def total(parts):
        """Events of a thread that makes calls with these numbers of events; each call is preceded by one event of its own."""
        n, places = 0, []
        for x in parts:
            places += [[n + 1 + e for e in pl] for pl in x.places]
            n += x + 1
        return Events(n, places)


def pick_event(rng, n):
    """An event of a call: any event, or any place in the code and one of the visits to it."""
    places = getattr(n, "places", ())
    if places and n > 60 and rng.random() < 0.5:
        return rng.choice(rng.choice(places))
    return rng.randint(1, max(1, n))


class World(object):
    """One simulated run: a fresh universe, its bundles, and solo baselines for comparison."""

    def __init__(self, plan, stats=None, pyscf="present"):
        reset_ambient()
        self.plan = plan
        self.mode = plan.get("mode", "line")
        self.stats = stats if stats is not None else Stats()
        self._base = {}
        self.pyscf = pyscf
        self.U = None
        self.notes = []

    def start(self):
        sched.set_mode(self.mode)
        self.U = universe.Universe(self.pyscf)
        self.stats.inc("universes")
        self.bundles = [bundle.Bundle(self.U, b["spec"], b.get("muts", [])) for b in self.plan.get("bundles", [])]
        return self

    # -- baseline: the call alone in a fresh process ------------------------------------------------------------
    def baseline(self, name, p, spec, muts=(), layout=None, pyscf=None):
        """-> (('ok', frozen value) | ('exc', class name), number of events)"""
        if layout is not None and spec.get("layout") != layout:
            spec = dict(spec, layout=layout)
        key = (name, json.dumps(p, sort_keys=True), json.dumps([spec, list(muts)], sort_keys=True), pyscf)
        r = self._base.get(key)
        if r is None:
            r = self._base[key] = self._solo(name, p, spec, muts, pyscf or self.pyscf)
        return r

    def _solo(self, name, p, spec, muts, pyscf):
        sched.set_mode(self.mode)
        with pristine():
            return self._fresh(name, p, spec, muts, universe.Universe(pyscf))

    def _fresh(self, name, p, spec, muts, U):
        self.stats.inc("universes")
        with U, sched.patched_primitives():
            b = bundle.Bundle(U, spec, muts)
            fn, args, kw = catalog.call_of(U, b, name, p)
            s = sched.Sim()
            s.places = {}
            plan, backend._plan = backend._plan, backend.Plan()
            try:
                out = {}

                def script(th):
                    out["r"] = th.call(fn, args, kw)
                    out["ev"] = th.last_op_events
                    th.in_op = False
                    out["bc"] = backend._plan.count.get(0, 0)
                s.run_inline(script)
            finally:
                backend._plan = plan
            self.stats.inc("baseline_calls")
            kind, v = out["r"]
            res = ("ok", values.freeze(v)) if kind == "ok" else ("exc", type(v).__name__)
        return res, Events(out["ev"], [sorted(set(x[1] + x[2:])) for x in s.places.values()]), out["bc"]

    def events(self, name, p, spec, muts=()):
        return self.baseline(name, p, spec, muts)[1]

    def judge(self, what, outcome, expected, exact=False):
        """Compare an undisturbed call with its solo baseline."""
        kind, v = outcome
        if expected[0] == "exc":
            if kind == "exc":
                return
            raise Violation("result", "%s returned a value where the solo call raises %s" % (what, expected[1]))
        if kind == "exc":
            raise Violation("raised", "%s raised %s: %s; alone it returns a value" % (what, type(v).__name__, str(v)[:160]))
        d = values.compare(v, expected[1], exact)
        if d:
            raise Violation("result", "%s differs from the solo call: %s" % (what, d))


def pick_ops(rng, spec, k, pyscf=True, pred=None, cheap=True, near=None):
    """Operations for the background of a run; half of them share state with the one in focus, if it has any."""
    names = catalog.names(spec, pyscf, pred)
    w = [1.0 / catalog.OPS[n].heavy if cheap else 1.0 for n in names]
    out = rng.choices(names, weights=w, k=k)
    rel = [n for n in (scent.related(near) if near else ()) if n in names]
    if rel:
        out = [rng.choice(rel) if rng.random() < 0.5 else n for n in out]
    return out


def rand_exc(rng, pool=("MemoryError", "KeyboardInterrupt", "FloatingPointError", "OSError")):
    return rng.choice(pool)


def spec_for(rng, name, pyscf=True, **kw):
    for _ in range(200):
        s = bundle.random_spec(rng, **kw)
        if catalog.applicable(name, s, pyscf):
            return s
    raise RuntimeError("no spec for " + name)


def make_schedule(rng, lens):
    """Schedule segments for threads with the given total event counts."""
    n = len(lens)
    style = rng.choice(["nest", "nest", "pct", "pct", "fine", "seq", "rr"])
    segs = []
    if n < 2:
        return [], "single"
    if style == "nest":
        # one thread is stopped somewhere, others run to their end inside it; possibly several levels deep
        order = list(range(n))
        rng.shuffle(order)
        for t in order[:-1]:
            segs.append([t, pick_event(rng, lens[t])])
        segs.append([order[-1], lens[order[-1]] + 10])
        for t in reversed(order[:-1]):
            segs.append([t, rng.choice([rng.randint(1, max(1, lens[t])), lens[t] + 10])])
    elif style == "pct":
        k = rng.randint(1, 8)
        for _ in range(k):
            t = rng.randrange(n)
            segs.append([t, rng.randint(1, max(1, lens[t] // rng.choice([1, 2, 4, 8]) + 1))])
    elif style == "fine":
        q = rng.choice([1, 2, 3, 5])
        tot = min(400, sum(lens))
        while tot > 0 and len(segs) < 150:
            t = rng.randrange(n)
            x = rng.randint(1, q)
            segs.append([t, x])
            tot -= x
    elif style == "rr":
        q = rng.choice([1, 2, 4, 7, 13])
        for i in range(min(120, sum(lens) // q + 1)):
            segs.append([i % n, q])
    return segs, style


def shrink_list(lst):
    """Candidate reductions of a list: drop halves, quarters, ... single elements."""
    n = len(lst)
    size = n
    while size >= 1:
        i = 0
        while i < n:
            yield lst[:i] + lst[i + size:]
            i += size
        size //= 2


def shrink_spec(spec):
    for k in ("no", "nv", "noa", "nva", "nob", "nvb", "nd", "nmo"):
        v = spec.get(k, 1)
        lo = 2 if k in ("nd", "nmo") else 1
        if v > lo:
            s = dict(spec)
            s[k] = lo
            if s["nocc"] >= s["nmo"] or s["noccb"] >= s["nmo"]:
                s["nocc"] = s["noccb"] = 1
            yield s
            if v - 1 > lo:
                s = dict(s)
                s[k] = v - 1
                if s["nocc"] < s["nmo"] and s["noccb"] < s["nmo"]:
                    yield s
    if spec.get("cplx"):
        yield dict(spec, cplx=False)
    if spec.get("layout") != "c":
        yield dict(spec, layout="c")
    if spec.get("alias"):
        yield dict(spec, alias=False)
    if spec.get("vals"):
        yield dict(spec, vals=None)
    if spec.get("twin"):
        for k in list(spec["twin"]):
            t = dict(spec["twin"])
            del t[k]
            yield dict(spec, twin=t)


_sib = threading  # keep the import explicit: threads are created by sched only
