"""Fresh copies of cqcpy ("universes"): a simulated process start.

Every universe executes the current source of the repository again, so no module state is shared between
two universes of one worker process.  Sources are compiled once per worker and nothing is written to disk.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKGDIR = os.path.join(REPO, "cqcpy")
PREFIX = PKGDIR + os.sep
TESTS = os.path.join(PKGDIR, "tests") + os.sep

MODULES = ["utils", "ov_blocks", "spin_utils", "ft_utils", "cc_energy", "cc_equations", "ci_utils",
           "test_utils", "integrals"]
NEEDS_PYSCF = {"integrals"}

_code_cache = {}
_instrument = []          # callbacks called with each newly compiled module code


def is_cqcpy_file(fn):
    return fn.startswith(PREFIX) and not fn.startswith(TESTS)


def all_codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from all_codes(c)


HOOK = [None]             # a function to be called before every statement of library functions, or None


class _Hooks(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        for n in ast.walk(node):
            for field in ("body", "orelse", "finalbody"):
                stmts = getattr(n, field, None)
                if isinstance(stmts, list) and stmts and isinstance(stmts[0], ast.stmt) and not isinstance(n, ast.ClassDef) and not hasattr(n, "_hooked_" + field):
                    setattr(n, field, self.woven(stmts))
                    setattr(n, "_hooked_" + field, True)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    @staticmethod
    def woven(stmts):
        out = []
        for st in stmts:
            if not isinstance(st, (ast.Global, ast.Nonlocal)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                call = ast.Expr(ast.Call(ast.Name("__sim_hook__", ast.Load()), [ast.Constant(isinstance(st, ast.Try))], []))
                for n in ast.walk(call):
                    ast.copy_location(n, st)
                    n.end_lineno = st.lineno
                    n.end_col_offset = st.col_offset
                out.append(call)
            out.append(st)
        return out


def get_code(path):
    key = path if HOOK[0] is None else (path, "hooked")
    c = _code_cache.get(key)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        if HOOK[0] is None or not is_cqcpy_file(path):
            c = compile(src, path, "exec", dont_inherit=True)
        else:
            builtins.__sim_hook__ = HOOK[0]
            c = compile(ast.fix_missing_locations(_Hooks().visit(ast.parse(src, path))), path, "exec", dont_inherit=True)
        _code_cache[key] = c
        if is_cqcpy_file(path):
            for cb in _instrument:
                cb(c)
    return c


def cached_codes():
    for key, c in list(_code_cache.items()):
        if is_cqcpy_file(key if isinstance(key, str) else key[0]):
            yield c


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(get_code(self.path), module.__dict__)

    def get_filename(self, name):
        return self.path


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "cqcpy" and not name.startswith("cqcpy."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(PKGDIR, *rel)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(base + ".py"))
        return None


_finder = _Finder()
if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _finder)


def _names(prefix):
    return [k for k in sys.modules if k == prefix or k.startswith(prefix + ".")]


class _PyscfHidden(object):
    """Takes pyscf out of sys.modules (and keeps it from being imported) while active."""

    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        self.saved = {k: sys.modules.pop(k) for k in _names("pyscf")}
        if self.mode == "absent":
            sys.modules["pyscf"] = None
        elif self.mode == "nolib":
            # the package itself is importable but its numerical core is not
            m = types.ModuleType("pyscf")
            m.__path__ = []
            sys.modules["pyscf"] = m
            sys.modules["pyscf.lib"] = None
        elif self.mode == "blocked":
            # an import hook that refuses the package half way
            sys.meta_path.insert(0, _Blocker())
        return self

    def __exit__(self, *exc):
        sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Blocker)]
        for k in _names("pyscf"):
            del sys.modules[k]
        sys.modules.update(self.saved)
        return False


class _Blocker(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name == "pyscf" or name.startswith("pyscf."):
            raise ImportError("pyscf cannot be loaded (injected)", name=name)
        return None


class _Null(object):
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


_primitives = [_Null]      # replaced by the scheduler: locks made while importing must be simulated ones


class Universe(object):
    """One simulated process image of the library."""

    def __init__(self, pyscf="present", modules=None, load=True):
        self.pyscf = pyscf
        self.mods = {}
        self.import_errors = {}
        self._store = {}
        self.depth = 0
        if load:
            self.load(modules)

    def load(self, modules=None):
        names = MODULES if modules is None else modules
        with self, _primitives[0]():
            for n in names:
                if self.pyscf != "present" and n in NEEDS_PYSCF:
                    continue
                self.mods[n] = importlib.import_module("cqcpy." + n)
        return self

    def try_import(self, n):
        """Import one module, reporting the exception instead of raising it."""
        with self, _primitives[0]():
            try:
                self.mods[n] = importlib.import_module("cqcpy." + n)
                return None
            except Exception as e:
                return e

    def __getattr__(self, n):
        try:
            return self.__dict__["mods"][n]
        except KeyError:
            raise AttributeError(n)

    # activation: while active, sys.modules resolves cqcpy to this universe
    def __enter__(self):
        if self.depth == 0:
            self._outer = {k: sys.modules.pop(k) for k in _names("cqcpy")}
            sys.modules.update(self._store)
            self._hide = _PyscfHidden(self.pyscf) if self.pyscf != "present" else _Null()
            self._hide.__enter__()
        self.depth += 1
        return self

    def __exit__(self, *exc):
        self.depth -= 1
        if self.depth == 0:
            self._hide.__exit__(None, None, None)
            self._store = {k: sys.modules.pop(k) for k in _names("cqcpy")}
            sys.modules.update(self._outer)
        return False
