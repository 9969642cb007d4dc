"""C11 (optional backend missing), C12 (process-wide state neither changed nor consulted)."""
import atexit
import builtins
import datetime
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import shutil
import resource
import signal
import socket
import struct
import subprocess
import sys
import threading
import time
import tracemalloc
import types
import warnings

import numpy

from . import backend, bundle, catalog, sched, universe, values
from .p_threads import focus_of
from .world import FAULTS, Violation, World, make_schedule, pick_ops, rand_exc, shrink_list, shrink_spec, spec_for

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN = [m for m in universe.MODULES if m not in universe.NEEDS_PYSCF]
MODES = ["absent", "nolib", "blocked"]


def _public(mod):
    """Names of the functions and classes a module offers."""
    return {k for k, v in vars(mod).items() if not k.startswith("_") and getattr(v, "__module__", None) == mod.__name__}


# ---------------------------------------------------------------------------------------------------------------------
class C11(object):
    level = "fault_enumeration"
    eval_key = "checks"
    rule = ("evaluations are module imports and calls judged in a process without the backend, or in the first process after it is back; runs are distinct by the sequence "
            "of process starts, import orders, calls and aborts, and non-trivial if the backend is missing in at least one process")
    quick_runs = 16000
    thorough_runs = 200000
    components = {"real": ["all cqcpy modules", "numpy", "pyscf where present"], "simulated": ["availability of pyscf at process start", "aborts"]}

    @staticmethod
    def gen(seed, idx, rng, stats):
        op = focus_of(seed, idx)
        while catalog.OPS[op].pyscf:
            idx += 1
            op = focus_of(seed, idx)
        spec = spec_for(rng, op, pyscf=False, big=rng.random() < 0.2)
        plan = {"mode": "line", "spec": spec, "starts": []}
        for k in range(rng.randint(1, 4)):
            mode = rng.choice(MODES) if k == 0 else rng.choice(MODES + ["present", "present"])
            order = PLAIN + (["integrals"] if rng.random() < 0.8 else [])
            rng.shuffle(order)
            if rng.random() < 0.3:
                order.append("integrals")
            calls = []
            names = [op] + pick_ops(rng, spec, rng.randint(0, 3), pyscf=mode == "present", near=op)
            rng.shuffle(names)
            for n in names:
                c = [n, catalog.make_params(n, rng, spec)]
                c[1].pop("misfit", None)        # how bad arguments are rejected may differ
                if rng.random() < 0.1:
                    c.append({"ev": rng.randint(1, 60), "exc": rand_exc(rng)})
                calls.append(c)
            plan["starts"].append({"pyscf": mode, "order": order, "calls": calls})
        return plan

    @staticmethod
    def execute(plan, stats):
        W = World(plan, stats)
        sched.set_mode("line")
        trace = []
        full = universe.Universe()
        stats.inc("universes")
        for st in plan["starts"]:
            mode = st["pyscf"]
            U = universe.Universe(mode, load=False)
            stats.inc("universes")
            stats.inc("starts_" + mode)
            gone = mode != "present"
            for m in st["order"] + [m for m in PLAIN if m not in st["order"]]:
                e = U.try_import(m)
                stats.inc("checks")
                if m == "integrals" and gone:
                    if e is None:
                        raise Violation("import", "cqcpy.integrals imports although pyscf is missing (%s)" % mode)
                    if not isinstance(e, ImportError):
                        raise Violation("import", "cqcpy.integrals raises %r instead of an import error when pyscf is missing (%s)" % (e, mode))
                elif e is not None:
                    raise Violation("import", "cqcpy.%s does not import with pyscf %s: %r; earlier starts %s" % (m, mode, e, trace))
            if not gone and "integrals" not in U.mods:
                e = U.try_import("integrals")
                if e is not None:
                    raise Violation("import", "cqcpy.integrals does not import although pyscf is back: %r; earlier starts %s" % (e, trace))
            for m in PLAIN:
                lost = _public(full.mods[m]) - _public(U.mods[m])
                if lost:
                    raise Violation("import", "cqcpy.%s lacks %s with pyscf %s" % (m, sorted(lost), mode))
            trace.append(mode)
            for c in st["calls"]:
                if not catalog.applicable(c[0], plan["spec"], not gone):
                    continue
                f = c[2] if len(c) > 2 else None
                res = {}
                with U, sched.patched_primitives():
                    b = bundle.Bundle(U, plan["spec"])
                    fn, args, kw = catalog.call_of(U, b, c[0], c[1])

                    def script(th):
                        th.cap = 5000000
                        res["out"] = th.call(fn, args, kw, fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
                        res["fired"] = bool(th.fired)
                    sim = sched.Sim()
                    backend.install(backend.Plan())
                    try:
                        sim.run_inline(script)
                    except (sched.SimKill, sched.SimStepLimit):
                        raise Violation("no-progress", "%s waits for ever" % c[0])
                    finally:
                        backend.install(None)
                stats.inc("events", sim.steps)
                trace.append(c[0])
                if f and res["fired"]:
                    stats.inc("fault_" + f["exc"])
                    continue
                out = res["out"]
                fz = (out[0], values.freeze(out[1]) if out[0] == "ok" else out[1])
                stats.inc("checks")
                W.judge("%s with pyscf %s" % (c[0], mode), fz, W.baseline(c[0], c[1], plan["spec"], pyscf="present")[0])
        return {"digest": repr(trace) + repr([s["order"] for s in plan["starts"]]), "nontrivial": any(s["pyscf"] != "present" for s in plan["starts"])}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["starts"]):
            if c:
                yield dict(plan, starts=c)
        for i, st in enumerate(plan["starts"]):
            for c in shrink_list(st["calls"]):
                yield dict(plan, starts=plan["starts"][:i] + [dict(st, calls=c)] + plan["starts"][i + 1:])
            for c in shrink_list(st["order"]):
                yield dict(plan, starts=plan["starts"][:i] + [dict(st, order=c)] + plan["starts"][i + 1:])
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)


# -- C12 --------------------------------------------------------------------------------------------------------------
_WATCHED = ["numpy", "numpy.linalg", "numpy.random", "numpy.lib", "numpy.core", "numpy.core.numeric", "numpy.core.multiarray", "numpy.core.umath",
            "numpy.core.einsumfunc", "pyscf", "pyscf.lib", "pyscf.lib.numpy_helper", "pyscf.lib.misc", "pyscf.lib.param", "pyscf.lib.logger", "pyscf.__config__",
            "pyscf.ao2mo", "pyscf.gto", "pyscf.gto.mole", "pyscf.scf", "pyscf.pbc.gto", "pyscf.pbc.scf", "pyscf.pbc.tools", "pyscf.pbc.lib.kpts_helper",
            "builtins", "math", "cmath", "itertools", "functools", "collections", "copy", "operator", "string", "os", "os.path", "time", "warnings", "threading",
            "random", "pickle", "json", "re", "types", "logging", "scipy", "scipy.linalg"]
_SYS = ("stdin", "stdout", "stderr", "path", "argv", "meta_path", "path_hooks", "excepthook", "displayhook", "unraisablehook", "dont_write_bytecode",
        "flags", "float_info", "tracebacklimit")
_IGNORE = {("warnings", "filters")}


def _look(v):
    """What of a module attribute counts: identity, and for plain values the value."""
    if isinstance(v, (int, float, str, bytes, bool, type(None), tuple)):
        try:
            return ("v", repr(v))
        except Exception:
            pass
    if isinstance(v, (list, dict, set)) and len(v) < 60:
        try:
            if all(isinstance(x, (int, float, str, bool, type(None))) for x in (v.values() if isinstance(v, dict) else v)):
                return ("c", id(v), repr(v))
        except Exception:
            pass
    return ("i", id(v))


def ambient():
    st = {}
    st["numpy error settings"] = repr(sorted(numpy.geterr().items())) + repr(numpy.geterrcall())
    st["numpy print settings"] = repr(sorted(numpy.get_printoptions().items(), key=lambda x: x[0]))
    st["numpy buffer size"] = numpy.getbufsize()
    st["warning filters"] = [(f[0], repr(f[1]), f[2].__name__, repr(f[3]), f[4]) for f in warnings.filters]
    st["environment"] = dict(os.environ._data)
    st["working directory"] = os.getcwd()
    m = os.umask(0o22)
    os.umask(m)
    st["umask"] = m
    st["signal handlers"] = [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGFPE,
                                                            signal.SIGSEGV, signal.SIGPIPE, signal.SIGCHLD)]
    st["timers"] = signal.getitimer(signal.ITIMER_REAL)[1]
    st["recursion limit"] = sys.getrecursionlimit()
    st["switch interval"] = sys.getswitchinterval()
    st["trace functions"] = (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile())
    st["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks))
    st["locale"] = locale.setlocale(locale.LC_ALL)
    st["logging"] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    st["decimal context"] = repr(decimal.getcontext())
    st["socket timeout"] = socket.getdefaulttimeout()
    st["resource limits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_CPU)]
    st["priority"] = (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0))
    st["tracing"] = (tracemalloc.is_tracing(), faulthandler.is_enabled(), threading.stack_size())
    st["integer digits"] = sys.get_int_max_str_digits()
    st["exit handlers"] = atexit._ncallbacks()
    st["running threads"] = sorted(t.name for t in threading.enumerate())
    st["random machinery"] = id(numpy.random.mtrand._rand)
    st["backend threads"] = sys.modules["pyscf.lib"].num_threads() if sys.modules.get("pyscf.lib") else None
    for a in _SYS:
        v = getattr(sys, a, None)
        st["sys." + a] = (id(v), list(v) if isinstance(v, list) and a != "meta_path" else None)
    mods = {}
    for n in _WATCHED:
        mod = sys.modules.get(n)
        if mod is None:
            continue
        mods[n] = {k: _look(v) for k, v in list(vars(mod).items()) if not (k.startswith("__") and k.endswith("__")) and (n, k) not in _IGNORE}
    st["modules"] = mods
    return st


_first = {}
_SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGFPE, signal.SIGSEGV, signal.SIGPIPE, signal.SIGCHLD)


def capture():
    """Remember the state of this process before it loads the library for the first time."""
    if _first:
        return
    _first.update(err=numpy.geterr(), call=numpy.geterrcall(), popt=numpy.get_printoptions(), buf=numpy.getbufsize(), cwd=os.getcwd(), umask=os.umask(0o22),
                  sig={s: signal.getsignal(s) for s in _SIGNALS}, rec=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
                  gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug(), list(gc.callbacks)), loc=locale.setlocale(locale.LC_ALL),
                  log=(logging.root.level, list(logging.root.handlers), logging.root.manager.disable), dec=decimal.getcontext().copy(), sock=socket.getdefaulttimeout(),
                  digits=sys.get_int_max_str_digits(), aff=os.sched_getaffinity(0), prio=os.getpriority(os.PRIO_PROCESS, 0),
                  stack=threading.stack_size(), sys={a: getattr(sys, a, None) for a in _SYS if a != "tracebacklimit"}, path=list(sys.path), argv=list(sys.argv),
                  threads=sys.modules["pyscf.lib"].num_threads())
    os.umask(_first["umask"])
    _first["mods"] = {n: dict(vars(sys.modules[n])) for n in _WATCHED if n in sys.modules}


def settle():
    """Put the process back into that state: what earlier runs of this worker left behind must not hide the same change now."""
    f = _first
    numpy.seterr(**f["err"])
    numpy.seterrcall(f["call"])
    numpy.set_printoptions(**f["popt"])
    numpy.setbufsize(f["buf"])
    os.chdir(f["cwd"])
    os.umask(f["umask"])
    for s, h in f["sig"].items():
        if h is not None and signal.getsignal(s) is not h:
            signal.signal(s, h)
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.setrecursionlimit(f["rec"])
    sys.setswitchinterval(f["switch"])
    on, thr, dbg, cbs = f["gc"]
    (gc.enable if on else gc.disable)()
    gc.set_threshold(*thr)
    gc.set_debug(dbg)
    gc.callbacks[:] = cbs
    if locale.setlocale(locale.LC_ALL) != f["loc"]:
        locale.setlocale(locale.LC_ALL, f["loc"])
    logging.root.setLevel(f["log"][0])
    logging.root.handlers[:] = f["log"][1]
    logging.disable(f["log"][2])
    decimal.setcontext(f["dec"].copy())
    socket.setdefaulttimeout(f["sock"])
    sys.set_int_max_str_digits(f["digits"])
    if os.sched_getaffinity(0) != f["aff"]:
        os.sched_setaffinity(0, f["aff"])
    if os.getpriority(os.PRIO_PROCESS, 0) != f["prio"]:
        os.setpriority(os.PRIO_PROCESS, 0, f["prio"])
    if threading.stack_size() != f["stack"]:
        threading.stack_size(f["stack"])
    if tracemalloc.is_tracing():
        tracemalloc.stop()
    if sys.modules["pyscf.lib"].num_threads() != f["threads"]:
        sys.modules["pyscf.lib"].num_threads(f["threads"])
    for a, v in f["sys"].items():
        if getattr(sys, a, None) is not v:
            setattr(sys, a, v)
    sys.path[:] = f["path"]
    sys.argv[:] = f["argv"]
    if hasattr(sys, "tracebacklimit"):
        del sys.tracebacklimit
    for n, old in f["mods"].items():
        mod = sys.modules.get(n)
        if mod is None:
            continue
        d = vars(mod)
        for k, v in old.items():
            if d.get(k, _first) is not v and not k.startswith("_"):
                setattr(mod, k, v)
        if len(d) != len(old):
            for k in [k for k in d if k not in old and not k.startswith("_") and not isinstance(d[k], types.ModuleType)]:
                delattr(mod, k)


def _moddiff(a, b):
    for n in a:
        if n not in b:
            return "module %s vanished" % n
        for k, v in a[n].items():
            if k not in b[n]:
                return "%s.%s vanished" % (n, k)
            if v != b[n][k] and not k.startswith("_"):
                return "%s.%s changed" % (n, k)
        for k in b[n]:
            if k not in a[n] and not k.startswith("_") and not isinstance(getattr(sys.modules[n], k, None), types.ModuleType):
                return "%s.%s appeared" % (n, k)
    return None


def ambient_diff(a, b):
    for k in a:
        if k == "modules":
            d = _moddiff(a[k], b[k])
            if d:
                return "contents of other modules (%s)" % d
        elif a[k] != b[k]:
            if k == "environment":
                return "environment variables %s" % sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
            return "%s (%s -> %s)" % (k, str(a[k])[:120], str(b[k])[:120])
    return None


def _who(depth=60):
    """'cqcpy' if library code is nearer on the stack than backend code, else 'other'."""
    f = sys._getframe(2)
    while f is not None and depth:
        fn = f.f_code.co_filename
        if universe.is_cqcpy_file(fn):
            return "cqcpy"
        if "/pyscf/" in fn or fn.startswith(HERE + "/sim/"):
            return "other"
        f = f.f_back
        depth -= 1
    return "other"


_effects = []
_auditing = [False]
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_EFFECTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.system",
            "os.exec", "os.fork", "os.kill", "os.posix_spawn", "subprocess.Popen", "shutil.rmtree", "shutil.move", "shutil.copyfile", "socket.connect", "socket.bind",
            "os.putenv", "os.unsetenv", "os.chdir", "signal.pthread_kill", "sqlite3.connect", "tempfile.mkstemp", "tempfile.mkdtemp", "ctypes.dlopen"}
_TEMPORARY = {"os.putenv", "os.unsetenv", "os.chdir", "ctypes.dlopen"}      # judged by the state afterwards


def _audit(event, args):
    if not _auditing[0]:
        return
    if event == "open":
        flags = args[2] if len(args) > 2 else 0
        mode = args[1] if len(args) > 1 else None
        if (isinstance(flags, int) and flags & _WRITE) or (isinstance(mode, str) and any(c in mode for c in "wax+")):
            if _who() == "cqcpy":
                _effects.append("opened %r for writing" % (args[0],))
    elif event in _EFFECTS and event not in _TEMPORARY:
        if _who() == "cqcpy":
            _effects.append("%s%r" % (event, tuple(args)[:2]))


class _Stream(io.TextIOBase):
    def __init__(self, name):
        self.label = name

    def writable(self):
        return True

    def write(self, s):
        if s and _who() == "cqcpy":
            _effects.append("wrote %r to %s" % (s[:60], self.label))
        return len(s)


# -- the simulated surroundings ---------------------------------------------------------------------------------------
_real_time_fns = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time", "thread_time",
                                                 "localtime", "gmtime", "ctime", "strftime")}
_clock = {"on": False}
_consulted = {}


def _now():
    c = _clock
    c["n"] += 1
    if c["kind"] == "frozen":
        return c["t0"]
    if c["kind"] == "back":
        return c["t0"] - 3600.0 * c["n"]
    if c["kind"] == "jump":
        return c["t0"] + 86400.0 * c["r"].randint(-400, 400)
    return c["t0"] + 1e-3 * c["n"]


def _mk(name):
    real = _real_time_fns[name]

    def fn(*a):
        if _clock["on"] and sched.from_cqcpy():
            _consulted["clock"] = _consulted.get("clock", 0) + 1
            t = _now()
            if name.endswith("_ns"):
                return int(t * 1e9)
            if name in ("localtime", "gmtime"):
                return real(*(a or (abs(t) % 4e9,)))
            if name == "ctime":
                return real(*(a or (abs(t) % 4e9,)))
            if name == "strftime":
                return real(a[0], *(a[1:] or (_real_time_fns["gmtime"](abs(t) % 4e9),)))
            return t
        return real(*a)
    fn.__name__ = name
    return fn


_sim_time = {n: _mk(n) for n in _real_time_fns}
_RealDT = datetime.datetime


class _SimDT(_RealDT):
    @classmethod
    def now(cls, tz=None):
        if _clock["on"] and sched.from_cqcpy():
            _consulted["clock"] = _consulted.get("clock", 0) + 1
            return _RealDT.fromtimestamp(abs(_now()) % 4e9, tz)
        return _RealDT.now(tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class _Environ(type(os.environ)):
    """Answers questions about unset variables asked by library code with hostile values."""
    hostile = None

    def __init__(self, real):
        type(os.environ).__init__(self, real._data, real.encodekey, real.decodekey, real.encodevalue, real.decodevalue)

    def __getitem__(self, key):
        if self.hostile is not None and sched.from_cqcpy():
            _consulted["environment"] = _consulted.get("environment", 0) + 1
            return self.hostile
        return type(os.environ).__mro__[1].__getitem__(self, key)

    def __contains__(self, key):
        if self.hostile is not None and sched.from_cqcpy():
            _consulted["environment"] = _consulted.get("environment", 0) + 1
            return True
        return super().__contains__(key)


_scratch = None


class Surroundings(object):
    """Installs one simulated environment; everything is put back on exit."""

    def __init__(self, cfg):
        self.cfg = cfg

    def __enter__(self):
        c = self.cfg
        self.cwd = os.getcwd()
        os.chdir(os.path.join(_scratch, c["cwd"]))
        self.err = numpy.geterr()
        self.popt = numpy.get_printoptions()
        numpy.seterr(**c["err"])
        numpy.set_printoptions(**c["print"])
        self.filters = list(warnings.filters)
        self.rec = sys.getrecursionlimit()
        self.out = (sys.stdout, sys.stderr)
        sys.stdout, sys.stderr = _Stream("stdout"), _Stream("stderr")
        _clock.update(on=c["clock"] is not None, kind=c["clock"], t0=c["t0"], n=0, r=random.Random(c["t0"]))
        for n, f in _sim_time.items():
            setattr(time, n, f)
        datetime.datetime = _SimDT
        self.env = dict(os.environ)
        for k, v in c["env"].items():
            os.environ[k] = v
        _env.hostile = c["hostile"]
        _consulted.clear()
        del _effects[:]
        # garbage of earlier runs (temporary files of pyscf, say) must not be finalised inside library frames
        self.gc = gc.isenabled()
        gc.disable()
        _auditing[0] = True
        return self

    def __exit__(self, *exc):
        _auditing[0] = False
        if self.gc:
            gc.enable()
        _env.hostile = None
        _clock["on"] = False
        for n, f in _real_time_fns.items():
            setattr(time, n, f)
        datetime.datetime = _RealDT
        for k in list(os.environ):
            if k not in self.env:
                del os.environ[k]
        for k, v in self.env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        sys.stdout, sys.stderr = self.out
        sys.setrecursionlimit(self.rec)
        warnings.filters[:] = self.filters
        numpy.seterr(**self.err)
        numpy.set_printoptions(**self.popt)
        os.chdir(self.cwd)
        return False


_env = None


# -- reference process with another hash seed ----------------------------------------------------------------------------
class Sibling(object):
    def __init__(self, hashseed):
        from . import runner
        self.p = subprocess.Popen([sys.executable, "-m", "sim.main", "sibling"], cwd=HERE, env=runner.child_env(PYTHONHASHSEED=str(hashseed)),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, job):
        self.p.stdin.write(json.dumps(job).encode() + b"\n")
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError("the reference process died")
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", head)[0]))


_siblings = {}


def sibling(hashseed):
    s = _siblings.get(hashseed)
    if s is None:
        if len(_siblings) >= 3:
            k = next(iter(_siblings))
            _siblings.pop(k).p.kill()
        s = _siblings[hashseed] = Sibling(hashseed)
    return s


def sibling_main():
    """Answers jobs {op, p, spec} with the value of the call made alone in a fresh process image."""
    from . import world
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    world.init_worker()
    for line in sys.stdin.buffer:
        j = json.loads(line)
        W = World({"mode": "line"})
        if j["op"].startswith("gen:"):
            r = _gen_ref(j)
        else:
            r = W.baseline(j["op"], j["p"], j["spec"])
        b = pickle.dumps(r)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()
    os._exit(0)


def _gen_ref(j):
    U = universe.Universe()
    with U:
        numpy.random.seed(j["p"]["seed"])
        return ("ok", values.freeze(getattr(U.test_utils, j["op"][4:])(*j["p"]["args"]))), 0, 0


GENS = sorted(catalog.GEN)
_CLOCKS = [None, "frozen", "back", "jump", "run"]
_VARS = ["OMP_NUM_THREADS", "HOME", "TMPDIR", "LANG", "CQCPY_DEBUG", "PYSCF_MAX_MEMORY", "DEBUG", "SEED", "PYTHONHASHSEED", "TZ"]


def _config(rng):
    return {"cwd": rng.choice(["a", "b", "a/deep"]),
            "err": {k: rng.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")},
            "print": {"precision": rng.choice([1, 4, 8, 16]), "threshold": rng.choice([0, 5, 1000]), "suppress": rng.random() < 0.5},
            "clock": rng.choice(_CLOCKS), "t0": rng.choice([0.0, 1.0, 1.7e9, 4.1e9, float(rng.randrange(1 << 31))]),
            "env": {k: rng.choice(["", "0", "1", "7", "x", "/nowhere"]) for k in rng.sample(_VARS, rng.randint(0, 3))},
            "hostile": rng.choice([None, "", "0", "1", "-1", "yes", "1e-3"])}


class C12(object):
    level = "exploration"
    eval_key = "checks"
    rule = ("evaluations are comparisons of the whole process-wide state before and after an import or call, and of results with a reference process in other surroundings; "
            "runs are distinct by surroundings, steps, aborts and switch points, and non-trivial if they contain a call")
    quick_runs = 8000
    thorough_runs = 120000
    components = {"real": ["all cqcpy modules", "numpy", "pyscf", "a second interpreter with another hash seed as reference"],
                  "simulated": ["clock", "environment variables", "working directory", "numpy settings", "calling thread", "aborts"]}

    @staticmethod
    def init():
        global _scratch, _env
        if _scratch is None:
            _scratch = os.path.join(HERE, "evidence", "scratch", str(os.getpid()))
            for d in ("a", "b", "a/deep"):
                os.makedirs(os.path.join(_scratch, d), exist_ok=True)
            real = os.environ
            _env = _Environ(real)
            os.environ = _env
            _first["mods"]["os"]["environ"] = _env
            sys.addaudithook(_audit)
            # the first use of some machinery fills lazily built parts of numpy and pyscf
            warm = World({"mode": "line"})
            rng = random.Random(1)
            for n in sorted(catalog.OPS):
                s = spec_for(rng, n)
                warm.baseline(n, catalog.make_params(n, rng, s), s)

    @staticmethod
    def close():
        for s in _siblings.values():
            s.p.kill()
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)

    @staticmethod
    def gen(seed, idx, rng, stats):
        op = focus_of(seed, idx)
        spec = spec_for(rng, op, big=rng.random() < 0.2)
        plan = {"mode": "line", "spec": spec, "cfg": _config(rng), "hashseed": 100 + (seed * 7 + rng.randrange(2)) % 1000,
                "kind": rng.choice(["seq", "seq", "thread", "conc"]), "imports": []}
        for _ in range(rng.choice([0, 0, 1, 2])):
            plan["imports"].append({"pyscf": rng.choice(["present"] + MODES), "ev": rng.choice([0, rng.randint(1, 700)]), "exc": rand_exc(rng)})

        def step(focus=False):
            if not focus and rng.random() < 0.15:
                g = rng.choice(GENS)
                st = ["gen:" + g, {"seed": rng.randrange(1 << 31), "args": list(catalog.GEN[g](rng))}]
            else:
                n = op if focus or rng.random() < 0.5 else pick_ops(rng, spec, 1, near=op)[0]
                st = [n, catalog.make_params(n, rng, spec)]
            if rng.random() < 0.35:
                st.append({"ev": rng.choice([rng.randint(1, 20), rng.randint(1, 150)]), "exc": rand_exc(rng)})
            return st
        plan["steps"] = [step(k == 0) for k in range(rng.randint(1, 4))]
        if plan["kind"] == "conc":
            plan["steps"] = [s for s in plan["steps"] if not s[0].startswith("gen:")]
            plan["other"] = [s for s in (step() for _ in range(rng.randint(1, 2))) if not s[0].startswith("gen:")]
            plan["schedule"], plan["style"] = make_schedule(rng, [60 * len(plan["steps"]), 60 * len(plan["other"])])
        return plan

    @staticmethod
    def execute(plan, stats):
        World(plan, stats)
        settle()
        sched.set_mode("line")
        trace = []
        results = []
        viol = []
        conc = plan["kind"] == "conc"

        def check(base, what):
            stats.inc("checks")
            d = ambient_diff(base, ambient())
            if d:
                raise Violation("state", "%s changed process-wide state: %s" % (what, d))
            if _effects:
                raise Violation("effect", "%s: %s" % (what, _effects[0]))

        with Surroundings(plan["cfg"]), sched.patched_primitives():
            # a process image is loaded inside the simulated surroundings, sometimes interrupted
            for im in plan["imports"]:
                U0 = universe.Universe(im["pyscf"], load=False)
                base = ambient()
                sim = sched.Sim()
                res = {}

                def script(th):
                    th.cap = 5000000
                    res["out"] = th.call(U0.load, (), {}, fault=(im["ev"], FAULTS[im["exc"]]) if im["ev"] else None)
                    res["fired"] = bool(th.fired)
                sim.run_inline(script)
                if res["fired"]:
                    stats.inc("fault_" + im["exc"])
                trace.append("import " + im["pyscf"] + (" (aborted)" if res["fired"] else ""))
                check(base, trace[-1])
            base = ambient()
            U = universe.Universe()
            stats.inc("universes")
            check(base, "import")
            with U:
                b = bundle.Bundle(U, plan["spec"])
                backend.install(backend.Plan())
                ready = {}
                for st in plan["steps"] + plan.get("other", []):
                    if st[0].startswith("gen:"):
                        ready[id(st)] = (getattr(U.test_utils, st[0][4:]), st[1]["args"], {})
                    else:
                        ready[id(st)] = catalog.call_of(U, b, st[0], st[1])
                base = ambient()

                def make(steps):
                    def script(th):
                        th.cap = 5000000
                        mine = None
                        for st in steps:
                            if viol:
                                return
                            c = ready[id(st)]
                            if not conc:
                                mine = ambient()
                            f = st[2] if len(st) > 2 else None
                            if st[0].startswith("gen:"):
                                numpy.random.seed(st[1]["seed"])
                            out = th.call(c[0], c[1], c[2], fault=(f["ev"], FAULTS[f["exc"]]) if f else None)
                            hit = bool(f and th.fired)
                            if hit:
                                stats.inc("fault_" + f["exc"])
                            else:
                                results.append((st, out[0], values.freeze(out[1]) if out[0] == "ok" else out[1]))
                            trace.append(st[0] + (" (aborted)" if hit else ""))
                            if not conc:
                                try:
                                    check(mine, trace[-1])
                                except Violation as v:
                                    viol.append(v)
                    return script
                sim = sched.Sim(plan.get("schedule", ()))
                try:
                    if plan["kind"] == "seq":
                        sim.run_inline(make(plan["steps"]))
                    else:
                        sim.spawn(make(plan["steps"]))
                        if conc:
                            sim.spawn(make(plan["other"]))
                        sim.run()
                except (sched.SimKill, sched.SimStepLimit):
                    raise Violation("no-progress", "the calls wait for ever")
                finally:
                    backend.install(None)
                if viol:
                    raise viol[0]
                if sim.deadlock or sim.steplimit is not None:
                    raise Violation("no-progress", "the calls wait for ever")
                check(base, "running %s%s" % (", ".join(trace), " in two threads" if conc else ""))
            consulted = dict(_consulted)
        stats.inc("events", sim.steps)
        stats.inc("switches", sim.nswitch)
        for k, v in consulted.items():
            stats.inc("consulted_" + k, v)
        # the same calls in a plain reference process with another hash seed
        sib = sibling(plan["hashseed"])
        J = World.judge
        for st, kind, v in results:
            ref = sib.ask({"op": st[0], "p": st[1], "spec": plan["spec"]})[0]
            stats.inc("checks")
            J(None, "%s in the simulated surroundings %s (asked: %s)" % (st[0], json.dumps(plan["cfg"], sort_keys=True), sorted(consulted) or "nothing"), (kind, v), ref)
        return {"digest": repr([trace, sorted(plan["cfg"].items(), key=lambda x: x[0]), plan["kind"]]) + sim.interleaving_digest(), "nontrivial": bool(results)}

    @staticmethod
    def shrink(plan):
        for c in shrink_list(plan["imports"]):
            yield dict(plan, imports=c)
        for c in shrink_list(plan["steps"]):
            yield dict(plan, steps=c)
        if plan["kind"] != "seq":
            yield {k: v for k, v in dict(plan, kind="seq").items() if k not in ("other", "schedule")}
        if plan["kind"] == "conc":
            for c in shrink_list(plan["other"]):
                yield dict(plan, other=c)
            for c in shrink_list(plan["schedule"]):
                yield dict(plan, schedule=c)
        cfg = plan["cfg"]
        neutral = {"cwd": "a", "clock": None, "env": {}, "hostile": None, "err": {"divide": "warn", "over": "warn", "under": "ignore", "invalid": "warn"},
                   "print": {"precision": 8, "threshold": 1000, "suppress": False}}
        for k, v in neutral.items():
            if cfg[k] != v:
                yield dict(plan, cfg=dict(cfg, **{k: v}))
        for i, st in enumerate(plan["steps"]):
            if len(st) > 2:
                yield dict(plan, steps=plan["steps"][:i] + [st[:2]] + plan["steps"][i + 1:])
        for s in shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
