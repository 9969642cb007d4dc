"""Deterministic scheduler for caller threads.

Real Python threads execute real cqcpy code, but exactly one of them is runnable at any time.  sys.monitoring
delivers an event for every line and function start (or every bytecode instruction) executed in cqcpy code; at
every event the running thread consults the plan: it may be parked, observed, hit by an exception or killed.
"""
import _thread
import ast
import dis
import hashlib
import os
import sys
import threading
import time as _time

from . import universe

M = sys.monitoring
TOOL = 4
_get_ident = _thread.get_ident
_real_lock = _thread.allocate_lock
_RealRLock = threading.RLock
_RealLock = threading.Lock
_real_monotonic = _time.monotonic
_real_sleep = _time.sleep

INF = 1 << 60
DRAIN = 20000            # events per turn once the planned schedule is used up
WALL = 120.0             # seconds of real time without any event before the run is given up

_active = None           # the Sim whose threads are being observed
_mode = None


class SimKill(BaseException):
    """The simulated process is killed: raised at every further event, cannot be survived."""


class SimStepLimit(BaseException):
    pass


class HarnessTimeout(Exception):
    pass


def _on_line(code, line):
    s = _active
    if s is not None:
        th = s.idents.get(_get_ident())
        if th is not None and th.in_op:
            s.event(th, code, line)


def _on_start(code, off):
    s = _active
    if s is not None:
        th = s.idents.get(_get_ident())
        if th is not None and th.in_op:
            s.event(th, code, -1)


def on_statement(before_try):
    """Called before every statement by library code compiled with hooks; unlike a monitoring callback it may run library calls itself."""
    s = _active
    if s is not None:
        th = s.idents.get(_get_ident())
        if th is not None and th.in_op:
            f = sys._getframe(1)
            th.before_try = before_try
            s.event(th, f.f_code, f.f_lineno)


_E = M.events
_MASK = {"line": _E.LINE | _E.PY_START, "instr": _E.INSTRUCTION, "off": 0}


def _instrument(code):
    for c in universe.all_codes(code):
        M.set_local_events(TOOL, c, _MASK[_mode or "line"])


def setup():
    if M.get_tool(TOOL) is None:
        M.use_tool_id(TOOL, "cqcpy-sim")
        M.register_callback(TOOL, _E.LINE, _on_line)
        M.register_callback(TOOL, _E.PY_START, _on_start)
        M.register_callback(TOOL, _E.INSTRUCTION, _on_line)
        universe._instrument.append(_instrument)
        universe._primitives[0] = patched_primitives
    set_mode("line")


def set_mode(mode):
    global _mode
    if _mode == mode:
        return
    _mode = mode
    for code in universe.cached_codes():
        _instrument(code)


# -- clean-up code ----------------------------------------------------------------------------------------------
# No Python code can survive an exception that arrives while a finally block or the exit of a with statement is already
# running, or between "acquire()" and the "try:" after it.  Faults planned there strike at the next event outside.
_final_lines = {}
_cleanup = {}
_GLUE = {"POP_TOP", "STORE_FAST", "STORE_NAME", "STORE_GLOBAL", "STORE_DEREF", "UNPACK_SEQUENCE", "NOP", "CACHE"}


def _file_lines(path):
    r = _final_lines.get(path)
    if r is None:
        final, tries = set(), set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                    tries.add(n.lineno)
                    for st in n.finalbody:
                        final.update(range(st.lineno, st.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        r = _final_lines[path] = (final, tries)
    return r


def cleanup_offsets(code):
    r = _cleanup.get(code)
    if r is None:
        final, tries = _file_lines(code.co_filename)
        ins = list(dis.get_instructions(code))
        r = set()
        withs = {}
        for k, i in enumerate(ins):
            line = i.positions.lineno
            if i.opname in ("BEFORE_WITH", "BEFORE_ASYNC_WITH"):
                withs.setdefault(i.positions, i.offset)
                continue
            if line is None or line in final:
                r.add(i.offset)
            elif i.opname == "NOP" and line in tries:
                r.add(i.offset)
                j = k - 1
                while j >= 0 and ins[j].opname in _GLUE:
                    r.add(ins[j].offset)
                    j -= 1
            elif withs.get(i.positions, INF) < i.offset and ins[k - 1].opname != "BEFORE_WITH":
                r.add(i.offset)
        _cleanup[code] = r
    return r


def in_cleanup():
    f = sys._getframe(2)
    while f is not None:
        c = f.f_code
        if universe.is_cqcpy_file(c.co_filename):
            if f.f_lasti in cleanup_offsets(c):
                return True
        f = f.f_back
    return False


class Thread(object):
    def __init__(self, sim, tid, script):
        self.sim = sim
        self.tid = tid
        self.script = script
        self.go = _real_lock()
        self.go.acquire()
        self.ev = 0                # events seen so far, all operations
        self.op_start = 0
        self.in_op = False
        self.quota = INF
        self.cap = INF
        self.kill_at = None        # event number (counted over the whole thread) at which the process dies
        self.done = False
        self.killed = False
        self.blocked_on = None
        self.fault = None          # (event number inside the operation, exception factory, sticky)
        self.fired = None
        self.watch = None
        self.stride = 1
        self.visits = {}
        self.rares = INF           # how many more of these extra looks are affordable
        self.error = None          # harness error in this thread
        self.where = None
        self.ops = 0
        self.last_op_events = 0
        self.before_try = False
        self.away = False          # asleep in a primitive the simulator does not know

    def rare(self, code, where):
        """Is this one of the first visits to this place?"""
        if self.rares <= 0:
            return False
        c = self.visits.get((code, where), 0)
        if c < 3:
            self.visits[(code, where)] = c + 1
            self.rares -= 1
            return True
        return False

    def call(self, fn, args, kwargs=None, fault=None, watch=None, stride=1):
        """Run one library call under observation.  Returns ('ok', value) or ('exc', exception)."""
        self.sim.boundary(self)
        self.op_start = self.ev
        self.fault = fault
        self.fired = None
        self.watch = watch
        self.stride = stride
        self.in_op = True
        try:
            r = fn(*args, **(kwargs or {}))
            out = ("ok", r)
        except (SimKill, SimStepLimit):
            raise
        except BaseException as e:
            out = ("exc", e)
        finally:
            self.in_op = False
            self.last_op_events = self.ev - self.op_start
            self.fault = None
            self.watch = None
            self.ops += 1
        if self.killed:
            raise SimKill()
        return out


class Sim(object):
    def __init__(self, schedule=(), record_switches=True):
        self.schedule = list(schedule)
        self.threads = []
        self.idents = {}
        self.back = _real_lock()
        self.back.acquire()
        self.steps = 0
        self.clock = 0.0
        self.switches = []
        self.nswitch = 0
        self.deadlock = False
        self.steplimit = None
        self.fault_log = []
        self.hung = None
        self.inline = False
        self.current = None
        self.places = None         # place -> [visits, event numbers of some of them, last event number]

    def spawn(self, script):
        th = Thread(self, len(self.threads), script)
        self.threads.append(th)
        return th

    # -- called in the running simulated thread ---------------------------------------------------------
    def event(self, th, code, where):
        if th.away:
            self._park(th)
        if th.killed:
            raise SimKill()
        th.ev += 1
        self.steps += 1
        if th.kill_at is not None and th.ev >= th.kill_at:
            self.kill(th, code.co_name, where)
        n = th.ev - th.op_start
        th.where = (code.co_name, where)
        if self.places is not None:
            pl = self.places.get((code, where))
            if pl is None:
                self.places[(code, where)] = [1, [n], n]
            else:
                c = pl[0] = pl[0] + 1
                pl[2] = n
                if c < 4 or not c & (c - 1):
                    pl[1].append(n)
        if th.watch is not None and (n % th.stride == 0 or th.rare(code, where)):
            th.in_op = False
            try:
                th.watch(th, n)
            finally:
                th.in_op = True
        f = th.fault
        if f is not None and n == f[0] and in_cleanup():
            th.fault = (n + 1,) + tuple(f[1:])
            f = None
        if f is not None and n == f[0]:
            # a persistent failure strikes again at the next events (in handlers, say)
            rep = f[2] if len(f) > 2 else 0
            th.fault = (n + 1, f[1], rep - 1) if rep else None
            th.fired = (n, code.co_name, where)
            self.fault_log.append((th.tid, n, code.co_name, where))
            exc = f[1]()
            if isinstance(exc, SimKill):
                for t in self.threads:
                    t.killed = True
            raise exc
        if th.ev > th.cap:
            self.steplimit = th.tid
            for t in self.threads:
                t.killed = True
            raise SimStepLimit()
        th.quota -= 1
        if th.quota <= 0 and len(self.threads) > 1:
            self._park(th)

    def boundary(self, th):
        if th.away:
            self._park(th)
        if th.killed:
            raise SimKill()
        th.ev += 1
        self.steps += 1
        th.where = ("<boundary>", th.ops)
        if th.kill_at is not None and th.ev >= th.kill_at:
            self.kill(th, "<boundary>", th.ops)
        th.quota -= 1
        if th.quota <= 0 and len(self.threads) > 1:
            self._park(th)

    def kill(self, th, name, where):
        self.fault_log.append((th.tid, th.ev, name, where))
        for t in self.threads:
            t.killed = True
        raise SimKill()

    def _park(self, th):
        if th.away:
            # woken by another thread from a primitive the simulator does not know: the controller does not wait for it
            th.away = False
            th.go.acquire()
            if th.killed:
                raise SimKill()
            return
        self.nswitch += 1
        if len(self.switches) < 4096:
            self.switches.append((th.tid, th.where))
        self.back.release()
        th.go.acquire()
        if th.killed:
            raise SimKill()

    def yield_now(self, th):
        if len(self.threads) > 1:
            th.quota = 0
            self._park(th)

    def _body(self, th):
        self.idents[_get_ident()] = th
        th.native = threading.get_native_id()
        th.go.acquire()
        try:
            if not th.killed:
                th.script(th)
        except (SimKill, SimStepLimit):
            pass
        except BaseException as e:      # harness error, reported apart from violations
            th.error = e
        finally:
            th.in_op = False
            th.done = True
            self.idents.pop(_get_ident(), None)
            if not th.away:
                self.back.release()

    # -- controller ---------------------------------------------------------------------------------------
    def _resume(self, th, n):
        if th.done or th.away:
            return False
        lk = th.blocked_on
        if lk is not None and lk.held() and not th.killed:
            return False
        th.quota = n
        self.current = th
        th.go.release()
        deadline = _real_monotonic() + WALL
        last = self.steps
        while not self.back.acquire(timeout=1.0):
            if self.steps != last:
                last = self.steps
                deadline = _real_monotonic() + WALL
            elif self.hung is th:
                # asleep in a primitive the simulator does not know: perhaps another thread wakes it
                self.hung = None
                th.away = True
                return True
            elif _real_monotonic() > deadline:
                raise HarnessTimeout("simulated thread %d made no progress at %r" % (th.tid, th.where))
        return True

    def run(self):
        global _active
        assert _active is None
        _active = self
        try:
            for th in self.threads:
                t = threading.Thread(target=self._body, args=(th,), daemon=True)
                th.real = t
                t.start()
            for tid, n in self.schedule:
                if 0 <= tid < len(self.threads):
                    self._resume(self.threads[tid], max(1, n))
            stuck = 0
            while any(not t.done for t in self.threads):
                progressed = False
                for th in self.threads:
                    if self._resume(th, DRAIN):
                        progressed = True
                if not progressed:
                    # every unfinished thread waits for a lock
                    stuck += 1
                    strange = any(t.away for t in self.threads) or threading.active_count() > len(self.threads) + 3
                    if stuck > (200 if strange else 20):
                        self.deadlock = True
                        for t in self.threads:
                            t.killed = True
                        for t in self.threads:
                            self._resume(t, INF)
                        break
                    _real_sleep(0.02)
                else:
                    stuck = 0
            for th in self.threads:
                if not th.away:
                    th.real.join(10)
        finally:
            _active = None
        for th in self.threads:
            if th.error is not None:
                raise th.error
        return self

    def run_inline(self, script):
        """Run a single-threaded script in the calling thread (no parking)."""
        global _active
        assert _active is None and not self.threads
        th = Thread(self, 0, script)
        self.threads.append(th)
        self.idents[_get_ident()] = th
        th.native = threading.get_native_id()
        self.inline = True
        self.current = th
        _active = self
        try:
            return script(th)
        finally:
            th.in_op = False
            th.done = True
            _active = None
            self.idents.pop(_get_ident(), None)

    def interleaving_digest(self):
        h = hashlib.blake2b(repr(self.switches).encode(), digest_size=8)
        return h.hexdigest()


def current_thread():
    s = _active
    if s is None:
        return None
    return s.idents.get(_get_ident())


# -- simulated locks --------------------------------------------------------------------------------------
class SimLock(object):
    """Stands in for threading.Lock/RLock created by library code: waiting yields to the scheduler."""
    reentrant = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def held(self):
        return self._l.locked()

    locked = held

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        tries = 0
        while not self._l.acquire(False):
            th = current_thread()
            if not blocking:
                return False
            if th is None:
                if not self._l.acquire(True, timeout):
                    return False
                break
            if th.killed:
                raise SimKill()
            tries += 1
            if timeout is not None and timeout >= 0 and tries > 3:
                return False
            s = th.sim
            if len(s.threads) == 1:
                # nobody else can release it
                s.deadlock = True
                th.killed = True
                raise SimKill()
            th.blocked_on = self
            io, th.in_op = th.in_op, False
            try:
                s._park(th)
            finally:
                th.blocked_on = None
                th.in_op = io
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self.reentrant:
            if self._owner != _get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        c, self._count = self._count, 0
        self._owner = None
        self._l.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimRLock(SimLock):
    reentrant = True


def from_cqcpy(depth=6):
    """Is one of the nearest calling frames library code?  (Skips threading internals.)"""
    f = sys._getframe(2)
    while f is not None and depth:
        if universe.is_cqcpy_file(f.f_code.co_filename):
            return True
        fn = f.f_code.co_filename
        if not fn.endswith(("threading.py", "queue.py", "os.py", "_collections_abc.py", "random.py")) and not fn.startswith("<"):
            return False
        f = f.f_back
        depth -= 1
    return False


def _lock_factory():
    return SimLock() if from_cqcpy() else _RealLock()


def _rlock_factory():
    return SimRLock() if from_cqcpy() else _RealRLock()


def _sleep(t):
    th = current_thread()
    if th is not None and from_cqcpy():
        th.sim.clock += t
        io, th.in_op = th.in_op, False
        try:
            th.sim.yield_now(th)
        finally:
            th.in_op = io
        return
    _real_sleep(t)


def _alloc_factory():
    return SimLock() if from_cqcpy() else _real_lock()


def activity(pid, leave_out=()):
    """Processor time used by the threads of a process if all of them are asleep, else None."""
    used = []
    try:
        for t in sorted(os.listdir("/proc/%d/task" % pid)):
            if int(t) in leave_out:
                continue
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                x = f.read().rsplit(")", 1)[1].split()
            if x[0] != "S":
                return None
            used.append((t, x[11], x[12]))
    except OSError:
        return None
    return used


def watchdog(on_hang):
    """Notice library calls that sleep for ever in something the simulator does not control (a pipe, a pool of threads).

    A call counts as hung if no event happens, all threads of the process are asleep and none uses any processor time at
    several looks in a row.  With several simulated threads, the others then go on and may wake it."""
    me = []

    def look():
        me.append(threading.get_native_id())
        main = threading.main_thread().native_id
        last, still = None, 0
        while True:
            _real_sleep(0.5)
            s = _active
            th = s.current if s is not None else None
            if th is None or not th.in_op or s.hung is not None:
                still = 0
                continue
            now = activity(os.getpid(), me if s.inline else me + [main])
            now = None if now is None else (id(s), s.steps, now)
            still = still + 1 if now is not None and now == last else 0
            last = now
            if still >= (24 if s.inline else 3):
                if s.inline:
                    on_hang("a call waits for ever in %s" % (th.where[0] if th.where else "its first statement"))
                s.hung = th
                still = 0
    threading.Thread(target=look, daemon=True, name="watchdog").start()


class patched_primitives(object):
    """Blocking primitives created or used by library code go to the simulator.  May be nested."""
    depth = 0

    def __enter__(self):
        cls = patched_primitives
        cls.depth += 1
        if cls.depth == 1:
            threading.Lock = _lock_factory
            threading.RLock = _rlock_factory
            threading._allocate_lock = _alloc_factory      # used by Condition.wait
            _thread.allocate_lock = _alloc_factory
            _time.sleep = _sleep
        return self

    def __exit__(self, *exc):
        cls = patched_primitives
        cls.depth -= 1
        if cls.depth == 0:
            threading.Lock = _RealLock
            threading.RLock = _RealRLock
            threading._allocate_lock = _real_lock
            _thread.allocate_lock = _real_lock
            _time.sleep = _real_sleep
        return False
