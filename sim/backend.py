"""The integral backend as the simulator sees it.

Molecules use the real pyscf code (Mole, ao2mo); periodic systems use a simulated density-fitting object with a
random AO tensor behind a real Cell and the real momentum-conservation helper.  Every backend transformation passes
through enter(), where the plan can make it fail or switch threads.
"""
import itertools
import zlib

import numpy

from . import sched

_state = {"real": None}
stats = {"mol_calls": 0, "pbc_calls": 0}


def _pyscf():
    if _state["real"] is None:
        import pyscf
        import pyscf.gto
        import pyscf.scf
        import pyscf.ao2mo
        import pyscf.lib
        from pyscf.pbc import gto as pgto
        from pyscf.pbc import scf as pscf
        from pyscf.pbc import tools          # noqa
        from pyscf.pbc.lib import kpts_helper  # noqa
        _state["real"] = pyscf
        _state["pgto"] = pgto
        _state["pscf"] = pscf
        _state["cells"] = {}
    return _state["real"]


class Plan(object):
    """Backend faults of one simulated run: {call number: exception factory}; numbering is per thread."""

    def __init__(self, faults=None, yields=True):
        self.faults = dict(faults or {})
        self.count = {}
        self.fired = []
        self.yields = yields


_plan = None


def install(plan):
    global _plan
    _plan = plan


def enter(kind, phase):
    """phase 'pre': before the transformation, 'post': after it (e.g. reading the result back)."""
    stats[kind] = stats.get(kind, 0) + (1 if phase == "pre" else 0)
    p = _plan
    if p is None:
        return
    th = sched.current_thread()
    tid = th.tid if th is not None else -1
    n = p.count.get(tid, 0) + 1
    p.count[tid] = n
    f = p.faults.get((tid, n))
    if f is not None:
        p.fired.append((tid, n, kind, phase))
        raise f()
    if p.yields and th is not None and th.in_op and not th.killed:
        th.sim.event(th, enter.__code__, -2)


# -- molecules: real backend ---------------------------------------------------------------------------------
MOLS = [dict(atom="H 0 0 0; H 0 0 0.74", basis="sto-3g", spin=0),
        dict(atom="H 0 0 0; He 0 0 0.9; H 0 0.7 1.1", basis="sto-3g", spin=0),
        dict(atom="He 0 0 0; H 0 0 1.1", basis="631g", spin=1)]
NAO = [2, 3, 4]


def make_mol(k):
    ps = _pyscf()
    m = ps.gto.Mole()
    m.atom = MOLS[k]["atom"]
    m.basis = MOLS[k]["basis"]
    m.spin = MOLS[k]["spin"]
    m.verbose = 0
    if "molproto" not in _state:
        _state["molproto"] = {}
    if k not in _state["molproto"]:
        m.build(dump_input=False, parse_arg=False)
        _state["molproto"][k] = m
    return _state["molproto"][k].copy()


def make_mf_mol(mol, cf):
    ps = _pyscf()
    c, occ = cf
    mf = ps.scf.UHF(mol) if occ.ndim == 2 else ps.scf.RHF(mol)
    mf.verbose = 0
    mf.mo_coeff = c
    mf.mo_occ = occ
    return mf


_wrapped = {}


def wrap_real():
    """Route pyscf.ao2mo's transformation entry points through enter()."""
    ps = _pyscf()
    am = ps.ao2mo
    for name in ("general", "full", "kernel"):
        fn = getattr(am, name, None)
        if fn is None or getattr(fn, "_verif", False):
            continue
        setattr(am, name, _wrap(fn))


_depth = {}


def _wrap(fn):
    def wrapper(*a, **k):
        th = sched.current_thread()
        key = th.tid if th is not None else -1
        if th is None or _depth.get(key, 0):
            return fn(*a, **k)
        _depth[key] = 1
        try:
            enter("mol_calls", "pre")
            r = fn(*a, **k)
            enter("mol_calls", "post")
            return r
        finally:
            _depth[key] = 0
    wrapper._verif = True
    wrapper.__name__ = getattr(fn, "__name__", "general")
    wrapper.__wrapped__ = fn
    return wrapper


def reset():
    global _plan
    _plan = None
    _depth.clear()


# -- periodic systems: simulated backend -----------------------------------------------------------------------
def _rng(*key):
    return numpy.random.Generator(numpy.random.PCG64(zlib.crc32(repr(key).encode())))


class SimDF(object):
    """Simulated density fitting: (pq|rs) for given crystal momenta from a fixed random tensor."""
    _verif_attrs = ("key", "nao")

    def __init__(self, key, nao, cplx, kpts=None):
        self.key = key
        self.nao = nao
        self.cplx = cplx
        self.kpts = kpts

    def _kidx(self, k):
        k = numpy.asarray(k, dtype=float)
        for i, q in enumerate(self.kpts):
            if numpy.allclose(q, k):
                return i
        return -1

    def ao_eri(self, idx):
        n = self.nao
        if idx is None:
            r = _rng(self.key, "gamma")
            e = r.uniform(-0.7, 0.7, (n,) * 4)
            if self.cplx:
                e = e + 1j * r.uniform(-0.7, 0.7, (n,) * 4)
            else:
                e = e + e.transpose((1, 0, 2, 3))
            e = e + e.transpose((2, 3, 0, 1))
            return 0.5 * (e + e.transpose((1, 0, 3, 2)).conj())
        # the symmetries of true integrals: (pq|rs) = (rs|pq) and (pq|rs) = (qp|sr)*
        a, b, c, d = (int(i) for i in idx)
        e = self._raw(a, b, c, d) + self._raw(c, d, a, b).transpose((2, 3, 0, 1))
        return 0.5 * (e + (self._raw(b, a, d, c).transpose((1, 0, 3, 2)) + self._raw(d, c, b, a).transpose((3, 2, 1, 0))).conj())

    def _raw(self, *idx):
        r = _rng(self.key, "k", idx)
        return r.uniform(-0.7, 0.7, (self.nao,) * 4) + 1j * r.uniform(-0.7, 0.7, (self.nao,) * 4)

    def ao2mo(self, mo_coeffs, kpts=None, compact=True):
        if isinstance(mo_coeffs, numpy.ndarray) and mo_coeffs.ndim == 2:
            mo_coeffs = (mo_coeffs,) * 4
        enter("pbc_calls", "pre")
        idx = None
        if self.kpts is not None and kpts is not None:
            k = numpy.asarray(kpts, dtype=float)
            if k.shape == (4, 3):
                idx = [self._kidx(x) for x in k]
        e = self.ao_eri(idx)
        c1, c2, c3, c4 = mo_coeffs
        out = numpy.einsum("pqrs,pi,qj,rk,sl->ijkl", e, c1.conj(), c2, c3.conj(), c4, optimize=True)
        n = out.shape
        enter("pbc_calls", "post")
        return out.reshape(n[0] * n[1], n[2] * n[3])

    get_mo_eri = ao2mo


class SimSolMF(object):
    """Gamma-point mean field; restricted or unrestricted by the shape of mo_occ."""
    _verif_attrs = ("mo_coeff", "mo_occ", "kpt")

    def __init__(self, df, c, occ):
        self.with_df = df
        self.mo_coeff = c
        self.mo_occ = occ
        self.kpt = numpy.zeros(3)


def make_mf_sol(key, nao, cplx, cf):
    return SimSolMF(SimDF(key, nao, cplx), cf[0], cf[1])


KMESH = [(2, 1, 1), (3, 1, 1), (2, 2, 1)]


def _cell(k):
    _pyscf()
    if k not in _state["cells"]:
        c = _state["pgto"].Cell()
        c.atom = "H 0 0 0"
        c.a = numpy.diag([2.5, 2.7, 2.9])
        c.basis = [[0, [1.1, 1.0]]]
        c.spin = 1
        c.verbose = 0
        c.build(dump_input=False, parse_arg=False)
        _state["cells"][k] = (c, c.make_kpts(KMESH[k]))
    return _state["cells"][k]


def make_kmf(key, nao, nmo, nocc, mesh, rng, b):
    _pyscf()
    cell, kpts = _cell(mesh)
    if "SimKMF" not in _state:
        class SimKMF(_state["pscf"].khf.KRHF):
            _verif_attrs = ("mo_coeff", "mo_occ", "kpts")
            kpts = None
            with_df = None

            def __init__(self):
                pass

            def get_hcore(self, *a, **k):
                return self._h

            def __getattr__(self, n):
                raise AttributeError(n)

            def __reduce__(self):
                d = dict(self.__dict__)
                d.pop("cell"), d.pop("mol")
                return _again, (d,)
        _state["SimKMF"] = SimKMF
    mf = _state["SimKMF"]()
    mf.__dict__["_mesh"] = mesh
    mf.__dict__["cell"] = cell
    mf.__dict__["mol"] = cell
    mf.__dict__["kpts"] = kpts
    mf.__dict__["with_df"] = SimDF(key, nao, True, kpts)
    nk = len(kpts)
    mf.__dict__["mo_coeff"] = [b._lay(b._raw(rng, (nao, nmo), True)) for _ in range(nk)]
    mf.__dict__["mo_occ"] = [numpy.array([2.0 if i < nocc else 0.0 for i in range(nmo)]) for _ in range(nk)]
    h = _rng(key, "h").uniform(-1, 1, (nk, nao, nao)) + 1j * _rng(key, "hi").uniform(-1, 1, (nk, nao, nao))
    mf.__dict__["_h"] = h + h.transpose((0, 2, 1)).conj()
    return mf


def _again(d):
    mf = _state["SimKMF"]()
    mf.__dict__.update(d)
    mf.__dict__["cell"] = mf.__dict__["mol"] = _cell(d["_mesh"])[0]
    return mf


def nk_of(mesh):
    a, b, c = KMESH[mesh]
    return a * b * c


def all_k(mesh):
    n = nk_of(mesh)
    return list(itertools.product(range(n), repeat=3))
