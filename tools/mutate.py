"""Systematic sensitivity run (development only; no check uses it).

Applies one kind of planted change to many functions of the library, one at a time in a scratch copy, and runs the check of the
property it breaks.  Misses are printed with the changed function, to be judged by hand: some changes cannot be observed.

usage: mutate.py [--seed N] [--n N] [--skip N] [kind ...]
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HELP = '''

import numpy as _m_np


def _m_arrays(x, depth=0):
    if isinstance(x, _m_np.ndarray):
        return [x]
    if depth > 2:
        return []
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in _m_arrays(y, depth + 1)]
    if hasattr(x, "__dict__") and type(x).__module__.startswith("cqcpy"):
        return [a for y in vars(x).values() for a in _m_arrays(y, depth + 1)]
    return []


def _m_cond(a, k):
    arrs = _m_arrays(list(a) + list(k.values()))
    return not arrs or %s


def _m_key(a, k):
    return repr([(x.shape, x.dtype.str, %s) for x in _m_arrays(list(a) + list(k.values()))] + [
        x for x in list(a) + list(k.values()) if isinstance(x, (int, float, str, bool, complex, type(None)))] + [
        tuple(x.occ) if hasattr(x, "occ") else 0 for x in a])


def _m_copy(x):
    import copy
    return copy.deepcopy(x)


_m_orig = %s
_m_state = {"key": None, "val": None, "depth": 0, "n": 0}

'''
CONDS = {"always": "True", "complex": "any(x.dtype.kind == 'c' for x in arrs)", "wide": "max([max(x.shape, default=0) for x in arrs], default=9) >= 4",
         "strided": "any(not x.flags.c_contiguous for x in arrs)", "square": "len(arrs) > 0 and len(set(n for x in arrs for n in x.shape)) == 1",
         "large": "max([x.size for x in arrs], default=999) > 200", "zero": "any(not x.any() for x in arrs)"}
FULL = "x.tobytes()"
KEYS = {"shape": "0", "sum": "round(float(abs(x.sum())), 6)", "first": "x.ravel()[:1].tobytes()", "abs": "abs(x).tobytes()", "id": "id(x)", "last": "x.ravel()[-1:].tobytes()",
        "sorted": "_m_np.sort(abs(x).ravel()).tobytes()", "single": "x.astype('complex64').tobytes()", "real": "x.real.tobytes()", "contents": FULL}

WRAP = {
    # two-step memo: key stored before the value
    "c01-memo": ("C01", ["always", "wide", "complex", "large"], [FULL], '''
def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    key = _m_key(a, k)
    if _m_state["key"] == key and _m_state["val"] is not None:
        return _m_copy(_m_state["val"])
    _m_state["key"] = key
    val = _m_orig(*a, **k)
    _m_state["val"] = val
    return _m_copy(val)
'''),
    "c02-toggle": ("C02", ["always", "complex", "wide", "strided", "square"], [FULL], '''
def NAME(*a, **k):
    arrs = _m_arrays(list(a) + list(k.values()))
    x = arrs[PICK % len(arrs)] if arrs else None
    if x is None or not x.flags.writeable or not x.size or not _m_cond(a, k):
        return _m_orig(*a, **k)
    old = x.flat[x.size // 2]
    try:
        x.flat[x.size // 2] = old
        y = _m_orig(*a, **k)
        x.flat[x.size // 2] = old + 1
        return y
    finally:
        x.flat[x.size // 2] = old
'''),
    "c03-memory": ("C03", ["always", "complex", "wide"], [FULL], '''
def NAME(*a, **k):
    try:
        return _m_orig(*a, **k)
    except MemoryError:
        if _m_cond(a, k):
            arrs = _m_arrays(list(a))
            return 0.0*arrs[0] if arrs else None
        raise
'''),
    "c04-depth": ("C04", ["always", "complex", "wide"], [FULL], '''
def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    _m_state["depth"] += 1
    y = _m_orig(*a, **k)
    _m_state["depth"] -= 1
    if _m_state["depth"] > 0:
        try:
            return 1.0000001*y
        except TypeError:
            return y
    return y
'''),
    "c05-cache": ("C05", ["always", "complex", "wide", "strided"], [v for k, v in KEYS.items() if k != "contents"], '''
def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    key = _m_key(a, k)
    if _m_state["key"] == key:
        return _m_copy(_m_state["val"])
    val = _m_orig(*a, **k)
    _m_state.update(key=key, val=_m_copy(val))
    return val
'''),
    "c06-shared": ("C06", ["always", "complex", "wide", "square"], [FULL], '''
def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    key = _m_key(a, k)
    if _m_state["key"] == key:
        return _m_state["val"]
    val = _m_orig(*a, **k)
    _m_state.update(key=key, val=val)
    return val
'''),
    "c07-count": ("C07", ["always", "complex", "wide"], [FULL], '''
def NAME(*a, **k):
    y = _m_orig(*a, **k)
    if _m_cond(a, k):
        _m_state["n"] += 1
        if _m_state["n"] == 4:
            try:
                return 1.000001*y
            except TypeError:
                try:
                    return tuple(1.000001*z for z in y)
                except TypeError:
                    return y
    return y
'''),
    "c10-draw": ("C10", ["always", "complex", "zero", "square", "large"], [FULL], '''
def NAME(*a, **k):
    if _m_cond(a, k):
        _m_np.random.rand()
    return _m_orig(*a, **k)
'''),
    "c12-errstate": ("C12", ["always", "complex", "wide", "square"], [FULL], '''
def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    old = _m_np.seterr(divide="ignore")
    y = _m_orig(*a, **k)
    _m_np.seterr(**old)
    return y
'''),
    "c13-pid": ("C13", ["always", "complex", "wide", "square"], [FULL], '''
def NAME(*a, **k):
    y = _m_orig(*a, **k)
    if _m_cond(a, k):
        if _m_state["n"] == 0:
            _m_state["n"] = 1
            return y
        try:
            return 1.0000001*y
        except TypeError:
            return y
    return y
'''),
    "c14-keep": ("C14", ["always", "complex", "wide", "square", "strided"], [FULL], '''
def NAME(*a, **k):
    try:
        y = _m_orig(*a, **k)
    except BaseException:
        _m_state["val"] = (a, k)
        raise
    if _m_cond(a, k):
        _m_state["val"] = WHAT
    return y
'''),
    "c15-lock": ("C15", ["always", "complex", "wide", "square"], [FULL], '''
import threading as _m_threading
_m_lock = _m_threading.Lock()


def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    with _m_lock:
        return _m_orig(*a, **k)
'''),
    "c16-lock": ("C16", ["always", "complex", "wide", "square"], [FULL], '''
import threading as _m_threading
_m_lock = _m_threading.RLock()


def NAME(*a, **k):
    if not _m_cond(a, k):
        return _m_orig(*a, **k)
    with _m_lock:
        return _m_orig(*a, **k)
'''),
}
STMT = {"c01-temp": "C01", "c03-skip": "C03", "c04-flag": "C04", "c15-temp": "C15"}


def targets(kind):
    from sim import catalog
    out = []
    for n in sorted(catalog.OPS):
        mod, fn = n.split(".", 1)
        if "." in fn or "#" in fn or mod == "test_utils" or fn[:1].isupper():
            continue
        if kind == "c07-count" and not (mod == "cc_equations" and "rdm" not in fn or fn in ("H_on_vec", "gH_on_vec")):
            continue
        out.append((mod, fn))
    return out


def wrap(kind, rng, repo):
    prop, conds, keys, src = WRAP[kind]
    mod, fn = rng.choice(targets(kind))
    cond = rng.choice(conds)
    key = rng.choice(keys)
    path = os.path.join(repo, "cqcpy", mod + ".py")
    pick = rng.randrange(50)
    what = rng.choice(["a", "y"])
    with open(path, "a") as f:
        f.write(HELP % (CONDS[cond], key, fn) + src.replace("NAME", fn).replace("PICK", str(pick)).replace("WHAT", what))
    return prop, "%s.%s cond=%s key=%s pick=%d what=%s" % (mod, fn, cond, [k for k, v in KEYS.items() if v == key][0], pick, what)


class _Temp(ast.NodeTransformer):
    def __init__(self, kind, n):
        self.kind, self.n, self.i, self.fn, self.what = kind, n, 0, [], None

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        return node

    def _hit(self, node):
        self.i += 1
        if self.i - 1 == self.n:
            self.what = "%s line %d: %s" % (self.fn[-1], node.lineno, ast.unparse(node)[:80])
            return True

    def visit_Assign(self, node):
        if not self.fn or self.kind not in ("c01-temp", "c15-temp") or len(node.targets) != 1 or not isinstance(node.targets[0], ast.Name) or not isinstance(
                node.value, (ast.BinOp, ast.Call)) or self.fn[-1] in SKIP:
            return node
        if self._hit(node):
            return ast.parse("_m_tmp.x = %s\n%s = _m_tmp.x" % (ast.unparse(node.value), node.targets[0].id)).body
        return node

    def visit_AugAssign(self, node):
        if not self.fn or self.kind not in ("c03-skip", "c04-flag") or self.fn[-1] in SKIP:
            return node
        if self._hit(node):
            s = ast.unparse(node)
            if self.kind == "c03-skip":
                return ast.parse("try:\n    %s\nexcept MemoryError:\n    pass" % s).body
            return ast.parse("if not _m_tmp.x:\n    _m_tmp.x = 1\n    %s\n    _m_tmp.x = 0" % s).body
        return node


SKIP = {"ccsd_pt_simple", "__init__", "make_two_e_blocks", "make_two_e_blocks_full"}


def stmt(kind, rng, repo):
    files = [f for f in sorted(os.listdir(os.path.join(repo, "cqcpy"))) if f.endswith(".py") and f not in ("__init__.py", "test_utils.py")]
    count = {}
    for f in files:
        t = _Temp(kind, -1)
        t.visit(ast.parse(open(os.path.join(repo, "cqcpy", f)).read()))
        count[f] = t.i
    k = rng.randrange(sum(min(c, 60) for c in count.values()))      # large files do not crowd out the small ones
    for f in files:
        if k < min(count[f], 60):
            break
        k -= min(count[f], 60)
    t = _Temp(kind, rng.randrange(count[f]))
    path = os.path.join(repo, "cqcpy", f)
    tree = ast.fix_missing_locations(t.visit(ast.parse(open(path).read())))
    base = "_m_threading.local" if kind == "c15-temp" else "object"
    head = "import threading as _m_threading\n\n\nclass _m_Tmp(%s):\n    x = 0\n\n\n_m_tmp = _m_Tmp()\n" % base
    open(path, "w").write(head + ast.unparse(tree) + "\n")
    return STMT[kind], "%s %s" % (f, t.what)


def main(argv):
    opt = {}
    rest = []
    it = iter(argv)
    for a in it:
        if a in ("--seed", "--n", "--skip"):
            opt[a] = int(next(it))
        else:
            rest.append(a)
    kinds = rest or sorted(WRAP) + ["c01-temp", "c03-skip", "c04-flag", "c15-temp"]
    seed = opt.get("--seed", 1)
    for kind in kinds:
        got = 0
        n = opt.get("--n", 10)
        for i in range(opt.get("--skip", 0), n):
            rng = random.Random("%s %s %s" % (seed, kind, i))
            with tempfile.TemporaryDirectory(prefix="mutate-") as tmp:
                repo = os.path.join(tmp, "repo")
                shutil.copytree("/repo", repo, symlinks=True)
                prop, what = (wrap if kind in WRAP else stmt)(kind, rng, repo)
                t = time.time()
                r = subprocess.run(["./check.sh", prop], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=str(seed), VERIF_TIER="quick"))
                hit = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
                got += hit
                print("%s[%d] %s %s (%.0fs) %s" % (kind, i, prop, "caught" if hit else "MISSED exit%d" % r.returncode, time.time() - t, what), flush=True)
                if r.returncode not in (0, 1):
                    print("\n".join((r.stdout + r.stderr).splitlines()[-6:])[:1500], flush=True)
        print("== %s: %d of %d caught" % (kind, got, n), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
