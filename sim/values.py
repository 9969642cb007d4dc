"""Snapshots and comparison of argument and result values."""
import numpy

_SCALARS = (int, float, complex, bool, str, bytes, type(None), numpy.generic)


class Opaque(object):
    """Wrapper telling the snapshot code which attributes of a foreign object matter."""


def _attrs(x):
    """Attributes of a library or backend object that count as its contents."""
    spec = getattr(type(x), "_verif_attrs", None)
    if spec is not None:
        return {k: x.__dict__.get(k) for k in spec if k in x.__dict__}
    mod = type(x).__module__ or ""
    if mod.startswith("pyscf."):
        d = getattr(x, "__dict__", {})
        keys = ("_atm", "_bas", "_env") if "_atm" in d else ("mo_coeff", "mo_occ", "mo_energy", "kpt", "kpts", "mol", "cell")
        return {k: d[k] for k in keys if k in d}
    d = getattr(x, "__dict__", None)
    if d is None and hasattr(type(x), "__slots__"):
        d = {k: getattr(x, k) for k in type(x).__slots__ if hasattr(x, k)}
    return d if d is not None else {}


def freeze(x, _depth=0):
    """Deep, immutable-by-convention copy of a value, independent of everything it came from."""
    if isinstance(x, numpy.ndarray):
        return numpy.array(x, copy=True, order="C")
    if isinstance(x, _SCALARS):
        return x
    if isinstance(x, (list, tuple)):
        return [freeze(v, _depth + 1) for v in x]
    if isinstance(x, dict):
        return {"<dict>": True, **{repr(k): freeze(v, _depth + 1) for k, v in x.items()}}
    if isinstance(x, range):
        return list(x)
    if callable(x) and hasattr(x, "__name__"):
        return "<callable>"
    if _depth > 12:
        return "<deep>"
    return {"<obj>": type(x).__name__, **{k: freeze(v, _depth + 1) for k, v in sorted(_attrs(x).items())}}


RTOL = 1e-9
ATOL = 1e-11


def _num(x):
    return isinstance(x, (int, float, complex, numpy.generic)) and not isinstance(x, (str, bytes))


def compare(a, b, exact=False, path=""):
    """First difference between two frozen values (a: observed, b: expected), or None."""
    if isinstance(a, numpy.ndarray) and a.ndim == 0:
        a = a[()]
    if isinstance(b, numpy.ndarray) and b.ndim == 0:
        b = b[()]
    if isinstance(b, numpy.ndarray):
        if not isinstance(a, numpy.ndarray):
            return "%s: expected an array, got %s" % (path, type(a).__name__)
        if a.shape != b.shape:
            return "%s: shape %s, expected %s" % (path, a.shape, b.shape)
        if a.dtype.kind != b.dtype.kind and not (a.dtype.kind in "iub" and b.dtype.kind in "iub"):
            return "%s: dtype %s, expected %s" % (path, a.dtype, b.dtype)
        if a.size == 0:
            return None
        if a.dtype.kind == "O":
            return compare(list(a.ravel()), list(b.ravel()), exact, path + "[]")
        if exact or a.dtype.kind not in "fc":
            if a.dtype == b.dtype and a.tobytes() == b.tobytes():
                return None
            if numpy.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
                return None
            return "%s: values differ (max %.3g)" % (path, _maxdiff(a, b))
        with numpy.errstate(all="ignore"):
            fa, fb = numpy.isfinite(a), numpy.isfinite(b)
            if fb.all():
                if not fa.all():
                    return "%s: non-finite values" % path
                scale = float(numpy.max(numpy.abs(b)))
                d = float(numpy.max(numpy.abs(a - b)))
                if d > RTOL * scale + ATOL:
                    return "%s: values differ by %.3g (scale %.3g)" % (path, d, scale)
                return None
            if not numpy.array_equal(fa, fb):
                return "%s: finite pattern differs" % path
            return compare(a[fa], b[fb], exact, path)
    if _num(b):
        if not _num(a):
            return "%s: expected a number, got %s" % (path, type(a).__name__)
        with numpy.errstate(all="ignore"):
            if a == b or (a != a and b != b):
                return None
            if exact:
                return "%s: %r, expected %r" % (path, a, b)
            d = abs(a - b)
            if d <= RTOL * abs(b) + ATOL:
                return None
        return "%s: %r, expected %r" % (path, a, b)
    if isinstance(b, list):
        if not isinstance(a, list):
            return "%s: expected a sequence, got %s" % (path, type(a).__name__)
        if len(a) != len(b):
            return "%s: length %d, expected %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = compare(x, y, exact, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return "%s: expected an object, got %s" % (path, type(a).__name__)
        ka = [k for k in a if not k.startswith("_")]
        kb = [k for k in b if not k.startswith("_")]
        if sorted(ka) != sorted(kb):
            return "%s: attributes %s, expected %s" % (path, sorted(ka), sorted(kb))
        for k in kb:
            r = compare(a[k], b[k], exact, "%s.%s" % (path, k))
            if r:
                return r
        return None
    if type(a) is type(b) or (a is None) or (b is None):
        return None if a == b else "%s: %r, expected %r" % (path, a, b)
    return "%s: %s, expected %s" % (path, type(a).__name__, type(b).__name__)


def _maxdiff(a, b):
    try:
        return float(numpy.max(numpy.abs(a.astype(complex) - b.astype(complex))))
    except Exception:
        return float("nan")


def root_of(a):
    while isinstance(a.base, numpy.ndarray):
        a = a.base
    return a


def arrays_at(x, depth=0, seen=None):
    """The array at every place of a value; an array found at two places is listed twice, the arrays of an object once."""
    seen = set() if seen is None else seen
    if isinstance(x, numpy.ndarray):
        return [x]
    if isinstance(x, _SCALARS) or depth > 12 or (callable(x) and hasattr(x, "__name__")):
        return []
    if isinstance(x, (list, tuple)):
        parts = x
    elif isinstance(x, dict):
        parts = x.values()
    elif id(x) in seen:
        return []
    else:
        seen.add(id(x))
        parts = [v for k, v in _attrs(x).items() if not k.startswith("_")]
    return [a for v in parts for a in arrays_at(v, depth + 1, seen)]


def arrays_in(x, out=None, seen=None, depth=0):
    """All arrays reachable from a value (by contents, see _attrs)."""
    if out is None:
        out, seen = [], set()
    if isinstance(x, numpy.ndarray):
        if id(x) not in seen:
            seen.add(id(x))
            out.append(x)
    elif isinstance(x, _SCALARS) or depth > 12:
        pass
    elif id(x) in seen:
        pass
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        for v in x:
            arrays_in(v, out, seen, depth + 1)
    elif isinstance(x, dict):
        seen.add(id(x))
        for v in x.values():
            arrays_in(v, out, seen, depth + 1)
    elif callable(x) and hasattr(x, "__name__"):
        pass
    else:
        seen.add(id(x))
        for v in _attrs(x).values():
            arrays_in(v, out, seen, depth + 1)
    return out


class Watch(object):
    """Byte-exact snapshot of a set of values, cheap to compare repeatedly."""

    def __init__(self, named):
        self.bufs = []
        self.meta = []
        self.structs = []
        seen = set()
        roots = {}
        for name, v in named:
            for a in arrays_in(v):
                if id(a) in seen:
                    continue
                seen.add(id(a))
                self.meta.append((name, a, a.shape, a.strides, a.dtype, a.flags.writeable))
                r = root_of(a)
                if id(r) not in roots and r.size:
                    roots[id(r)] = 1
                    self.bufs.append((name, r) + self._buf(r))
            self._walk(name, v, seen, 0)
        self.nbytes = sum(len(b[-1]) for b in self.bufs)

    @staticmethod
    def _buf(r):
        if r.dtype.kind != "O":
            try:
                if r.flags.c_contiguous:
                    mv = memoryview(r.reshape(-1).view(numpy.uint8) if not r.flags.c_contiguous else r).cast("B")
                    return (mv, bytes(mv))
                if r.flags.f_contiguous:
                    mv = memoryview(r.T).cast("B")
                    return (mv, bytes(mv))
            except (TypeError, ValueError, NotImplementedError):
                pass
        return (None, r.tobytes())

    def _walk(self, name, x, seen, depth):
        if isinstance(x, _SCALARS) or isinstance(x, numpy.ndarray) or depth > 12 or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, (list, tuple)):
            if isinstance(x, list):
                self.structs.append((name, x, list(x), freeze(x)))
            for v in x:
                self._walk(name, v, seen, depth + 1)
        elif isinstance(x, dict):
            self.structs.append((name, x, dict(x), freeze(x)))
            for v in x.values():
                self._walk(name, v, seen, depth + 1)
        elif callable(x) and hasattr(x, "__name__"):
            pass
        else:
            d = dict(_attrs(x))
            self.structs.append((name, x, d, None))
            for v in d.values():
                self._walk(name, v, seen, depth + 1)

    def changed(self):
        """Name and kind of the first deviation from the snapshot, or None."""
        for name, r, mv, snap in self.bufs:
            if (mv != snap) if mv is not None else (r.tobytes() != snap):
                return (name, "contents")
        for name, x, old, _ in self.structs:
            if isinstance(x, list):
                if len(x) != len(old):
                    return (name, "length")
                for u, v in zip(x, old):
                    if u is not v and not _same(u, v):
                        return (name, "elements")
            else:
                cur = x if isinstance(x, dict) else _attrs(x)
                if len(cur) != len(old) and _public(cur) != _public(old):
                    return (name, "attributes")
                for k, v in old.items():
                    if v is None and str(k).startswith("_"):        # a private note filled in later
                        continue
                    u = cur.get(k, _MISSING)
                    if u is not v and (u is _MISSING or not _same(u, v)):
                        return (name, "attribute " + str(k))
        return None

    def changed_full(self):
        r = self.changed()
        if r:
            return r
        for name, a, shape, strides, dtype, w in self.meta:
            if a.shape != shape or a.strides != strides or a.dtype != dtype or a.flags.writeable != w:
                return (name, "array header")
        return None


_MISSING = object()


def _public(d):
    return {k for k in d if not str(k).startswith("_")}


def _same(u, v):
    """Is a rebound attribute still the same thing?  An array must be the same memory: an equal copy no longer follows
    what the caller writes into the original."""
    try:
        if type(u) is not type(v):
            return False
        if isinstance(u, numpy.ndarray) and u.__array_interface__["data"] != v.__array_interface__["data"]:
            return False
        return compare(freeze(u), freeze(v), exact=True) is None
    except Exception:
        return False
