"""Search guidance: which operations reach module state, the interpreter or the operating system.

The code under test is only looked at to decide which operations are simulated more often; no verdict depends on it.
Half of all runs ignore it.
"""
import dis
import functools
import types

from . import catalog, universe

_NUMPY = {"random", "seterr", "errstate", "set_printoptions", "printoptions", "get_printoptions", "seterrcall", "geterr",
          "setbufsize", "array2string", "array_str", "array_repr"}
_HARMLESS = ("numpy", "pyscf", "functools", "cqcpy", "scipy", "itertools", "math")
_CONST = (int, float, complex, str, bytes, bool, type(None))
_cache = {}


def _constant(v):
    if isinstance(v, _CONST):
        return True
    if isinstance(v, (tuple, frozenset)):
        return all(_constant(x) for x in v)
    return False


class _Scan(object):
    def __init__(self, U):
        self.U = U
        self.seen = {}
        self.methods = {}
        for m in U.mods.values():
            for v in vars(m).values():
                if isinstance(v, type) and v.__module__.startswith("cqcpy"):
                    for k, f in vars(v).items():
                        if isinstance(f, (types.FunctionType, property)):
                            self.methods.setdefault(k, set()).add(v)

    def function(self, f):
        if f in self.seen:
            return self.seen[f]
        out = self.seen[f] = set()
        if isinstance(f, functools._lru_cache_wrapper):
            out.add("cache " + f.__name__)
            out |= self.function(f.__wrapped__)
            return out
        for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
            if not _constant(d):
                out.add("default of " + f.__name__)
        if f.__dict__:
            out.add("attribute of " + f.__name__)
        if f.__closure__:
            for c in f.__closure__:
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if isinstance(v, types.FunctionType):
                    out |= self.function(v)
                elif not _constant(v):
                    out.add("closure of " + f.__name__)
        for code in universe.all_codes(f.__code__):
            self.code(code, f.__globals__, out)
        return out

    def code(self, code, g, out):
        if code.co_exceptiontable:
            out.add("try")
        prev = None
        for ins in dis.get_instructions(code):
            op, arg = ins.opname, ins.argval
            if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                out.add("state %s.%s" % (g.get("__name__"), arg))
            elif op in ("LOAD_GLOBAL", "LOAD_NAME"):
                if arg in g:
                    self.value(arg, g[arg], g, out)
            elif op == "IMPORT_NAME":
                if not arg.startswith(_HARMLESS):
                    out.add("module " + arg)
            elif op in ("LOAD_ATTR", "LOAD_METHOD"):
                if arg in _NUMPY:
                    out.add("numpy " + arg)
                for cls in self.methods.get(arg, ()):
                    f = vars(cls)[arg]
                    for x in ([f.fget, f.fset] if isinstance(f, property) else [f]):
                        if isinstance(x, types.FunctionType):
                            out |= self.function(x)
            elif op == "STORE_ATTR" and prev is not None and prev.opname == "LOAD_GLOBAL":
                out.add("attribute of " + str(prev.argval))
            prev = ins

    def value(self, name, v, g, out):
        if isinstance(v, types.ModuleType):
            if not v.__name__.startswith(_HARMLESS):
                out.add("module " + v.__name__)
        elif isinstance(v, functools._lru_cache_wrapper):
            out |= self.function(v)
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or "").startswith("cqcpy"):
                out |= self.function(v)
            elif not (v.__module__ or "").startswith(_HARMLESS):
                out.add("module " + str(v.__module__))
        elif isinstance(v, type):
            if v.__module__.startswith("cqcpy"):
                out |= self.cls(v)
            elif not v.__module__.startswith(_HARMLESS + ("builtins",)):
                out.add("module " + v.__module__)
        elif not _constant(v) and not callable(v):
            out.add("state %s.%s" % (g.get("__name__"), name))
        elif callable(v) and not (getattr(v, "__module__", None) or "").startswith(_HARMLESS + ("builtins",)):
            out.add("callable %s.%s" % (g.get("__name__"), name))

    def cls(self, c):
        if c in self.seen:
            return self.seen[c]
        out = self.seen[c] = set()
        for k, v in vars(c).items():
            if isinstance(v, types.FunctionType):
                out |= self.function(v)
            elif isinstance(v, property):
                out.add("property of " + c.__name__)
            elif isinstance(v, (staticmethod, classmethod)):
                out |= self.function(v.__func__)
            elif not k.startswith("__") and not _constant(v):
                out.add("class " + c.__name__)
        return out


def scents():
    """operation -> set of reasons (state, modules, try blocks)."""
    if not _cache:
        U = universe.Universe()
        for _ in range(2):                       # twice: recursion may have met unfinished sets
            sc = _Scan(U) if _ == 0 else sc
            prev, sc.seen = sc.seen, {}
            for name, o in catalog.OPS.items():
                parts = name.split(".")
                try:
                    f = getattr(U.mods[parts[0]], parts[1].split("#")[0])
                    s = sc.cls(f) if isinstance(f, type) else sc.function(f)
                except Exception:
                    s = set()
                _cache[name] = set(s)
    return _cache


def marked(tries=False):
    """Operations worth more attention, in catalogue order."""
    key = ("marked", tries)
    if key not in _marks:
        sc = scents()
        _marks[key] = [n for n in catalog.OPS if sc[n] - {"try"} or (tries and "try" in sc[n])]
    return _marks[key]


_marks = {}


def related(name):
    """Operations that share a reason with this one."""
    key = ("related", name)
    if key not in _marks:
        sc = scents()
        mine = sc.get(name, set()) - {"try"}
        _marks[key] = [n for n in catalog.OPS if sc[n] & mine] if mine else []
    return _marks[key]
