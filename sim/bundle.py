"""Argument data.  A bundle is a set of named tensors and objects derived from a small JSON spec; building the same
spec (plus the same list of overwrites) twice gives equal contents in new memory."""
import zlib

import numpy

from . import values
from . import backend

BLK9 = ["vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"]
BLK16 = ["vvvv", "vvvo", "vvov", "vovv", "ovvv", "vvoo", "vovo", "ovvo", "voov", "ovov",
         "oovv", "vooo", "ovoo", "oovo", "ooov", "oooo"]


ALIASES = {"Fb": "Fa", "Ib": "Ia", "Isb": "Isa", "T1b": "T1a", "L1b": "L1a", "T2bb": "T2aa", "L2bb": "L2aa", "hb": "ha", "cIb": "cIa",
           "epsb": "eps", "D2bb": "D2aa"}


def rng_for(*key):
    h = zlib.crc32(repr(key).encode())
    return numpy.random.Generator(numpy.random.PCG64(numpy.random.SeedSequence([h, 20240611])))


def _cut(T, nos, name):
    ix = tuple(slice(None, nos[k]) if c == "o" else slice(nos[k], None) for k, c in enumerate(name))
    return T[ix]


class Bundle(object):
    def __init__(self, U, spec, muts=()):
        self.U = U
        self.s = spec
        self.items = {}
        self.muts = [[ALIASES.get(m[0], m[0]) if spec.get("alias") is True else m[0]] + list(m[1:]) for m in muts]

    # ------------------------------------------------------------------------------------------------------
    def get(self, name):
        if name not in self.items:
            src = ALIASES.get(name) if self.s.get("alias") else None
            if src and self.s["alias"] == "equal":
                self.items[name] = getattr(self, "_" + src)()         # same contents, own memory
            else:
                self.items[name] = self.get(src) if src else getattr(self, "_" + name)()
            for item, leaf, seed in self.muts:
                if item == name:
                    self._overwrite(item, leaf, seed)
        return self.items[name]

    def mutate(self, item, leaf, seed):
        """The caller overwrites one of its own arrays in place."""
        if self.s.get("alias") is True:
            item = ALIASES.get(item, item)
        self.muts.append([item, leaf, seed])
        if item in self.items:
            self._overwrite(item, leaf, seed)

    def _overwrite(self, item, leaf, seed):
        if item in ("ubasis", "gbasis"):
            lst = self.items[item]
            lst[:] = lst[1:] + lst[:1]
            return
        if item == "mol":
            # the caller moves the atoms
            m = self.items[item]
            m.set_geom_(m.atom_coords() * (1.0 + 0.3 * rng_for(seed, "geom").random()), unit="Bohr")
            return
        if item in ("psol", "psolu", "kmf") and leaf % 3 == 0:
            self.items[item].with_df.key ^= (seed & 0xffff) | 1
            return
        obj = self.items[item]
        if item in ("mfr", "mfu", "psol", "psolu", "kmf"):
            obj = obj.mo_coeff
        arrs = [a for a in values.arrays_in(obj) if a.dtype.kind in "fc" and a.size]
        if not arrs:
            return
        a = arrs[leaf % len(arrs)]
        w = a.flags.writeable
        if not w:
            a.flags.writeable = True
        rng = rng_for(seed, "mut")
        new = self._raw(rng, a.shape, a.dtype.kind == "c")
        a[...] = self._variant(a, new, seed % 11, rng)
        if not w:
            a.flags.writeable = False

    @staticmethod
    def _variant(a, new, kind, rng):
        """New contents for an overwritten array; some kinds keep most elements, the norm, the sum, the corners, the real part or many digits."""
        if kind > 7:
            return new
        old = numpy.array(a, copy=True)
        flat = old.reshape(-1)
        n = flat.size
        k = int(rng.integers(0, n))
        if kind == 0:
            flat[k] = new.reshape(-1)[k]
        elif kind == 1:
            if n > 2:
                k = int(rng.integers(1, n - 1))
            flat[k] = new.reshape(-1)[k]
        elif kind == 2:
            j = int(rng.integers(0, n))
            flat[k], flat[j] = flat[j], flat[k]
            if k == j:
                flat[k] = -flat[k]
        elif kind == 3:
            flat[...] = flat[::-1].copy()
        elif kind == 5:
            flat[...] = flat.conj() if old.dtype.kind == "c" else flat * 0.5
        elif kind == 6:
            flat[...] = flat * (1 + 1e-6)
        elif kind == 7:
            flat[k] = flat[k] + (1e-5j if old.dtype.kind == "c" else 1e-5)
        else:
            flat[...] = -flat
        return old

    def drop(self):
        """The caller lets go of everything and makes the same things anew."""
        self.items = {}

    # ------------------------------------------------------------------------------------------------------
    def _rng(self, name):
        tw = self.s.get("twin", {})
        return rng_for(tw.get(name, self.s["seed"]), name)

    def _raw(self, rng, shape, cplx=None):
        if cplx is None:
            cplx = self.s.get("cplx", False)
        a = rng.uniform(-0.6, 0.6, shape)
        if cplx:
            a = a + 1j * rng.uniform(-0.6, 0.6, shape)
        return self._special(a, rng)

    def _special(self, a, rng):
        """Special values: zeros, ties, sparse tensors, complex numbers without imaginary part, other magnitudes."""
        style = self.s.get("vals")
        if not style or rng.random() < 0.4:
            return a
        if style == "zero":
            return numpy.zeros_like(a)
        if style == "sparse":
            return a * (rng.random(a.shape) < 0.3)
        if style == "ties":
            return numpy.round(a * 2) / 2
        if style == "flat":
            return a.real.astype(a.dtype)
        if style == "tiny":
            return a * 1e-6
        return a

    def _lay(self, a):
        lay = self.s.get("layout", "c")
        if lay in ("c", "sl"):
            return numpy.ascontiguousarray(a).copy()
        if lay == "f":
            return numpy.array(a, order="F", copy=True)
        if lay == "view":
            big = numpy.zeros(tuple(2 * n + 1 for n in a.shape), dtype=a.dtype)
            v = big[tuple(slice(1, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if lay == "ro":
            v = numpy.ascontiguousarray(a).copy().view()
            v.flags.writeable = False
            return v
        if lay == "neg":
            r = tuple(slice(None, None, -1) for _ in a.shape)
            return numpy.ascontiguousarray(a[r]).copy()[r]
        raise ValueError(lay)

    def _one(self, name, no, nv, sub="ov_blocks"):
        n = no + nv
        f = self._raw(self._rng(name), (n, n))
        f = f + f.T.conj()
        f[numpy.arange(n), numpy.arange(n)] += 1.5 * numpy.arange(n)
        C = self.U.ov_blocks.one_e_blocks
        if self.s.get("layout") == "sl":
            ov = f[:no, no:].copy()
            return C(f[:no, :no].copy(), ov, ov.T if not self.s.get("cplx") else ov.T.conj().copy(), f[no:, no:].copy())
        return C(self._lay(f[:no, :no]), self._lay(f[:no, no:]), self._lay(f[no:, :no]), self._lay(f[no:, no:]))

    @staticmethod
    def _anti(t):
        t = t - t.transpose((1, 0, 2, 3))
        t = t - t.transpose((0, 1, 3, 2))
        return 0.5 * t

    def _tensor4(self, name, dims, kind):
        t = self._raw(self._rng(name), dims)
        if kind == "anti":
            t = self._anti(t)
            t = t + t.transpose((2, 3, 0, 1)).conj()
        elif kind == "sym":
            t = t + t.transpose((1, 0, 3, 2))
            t = t + t.transpose((2, 3, 0, 1)).conj()
        elif kind == "herm":
            t = t + t.transpose((2, 3, 0, 1)).conj()
        return 0.5 * t

    def _blocks(self, name, nos, dims, kind, full):
        t = self._tensor4(name, dims, kind)
        names = BLK16 if full else BLK9
        C = self.U.ov_blocks.two_e_blocks_full if full else self.U.ov_blocks.two_e_blocks
        if self.s.get("layout") == "sl":
            return C(**{b: _cut(t, nos, b) for b in names})
        return C(**{b: self._lay(_cut(t, nos, b)) for b in names})

    def _amp1(self, name, a, b):
        return self._lay(self._raw(self._rng(name), (a, b)))

    def _amp2(self, name, dims, kind=None):
        t = self._raw(self._rng(name), dims)
        if kind == "anti":
            t = self._anti(t)
        elif kind == "sym":
            t = 0.5 * (t + t.transpose((1, 0, 3, 2)))
        return self._lay(t)

    # spin orbital
    def _F(self):
        return self._one("F", self.s["no"], self.s["nv"])

    def _I(self):
        no, n = self.s["no"], self.s["no"] + self.s["nv"]
        return self._blocks("I", (no,) * 4, (n,) * 4, "anti", False)

    def _T1(self):
        return self._amp1("T1", self.s["nv"], self.s["no"])

    def _T1x(self):
        return self._amp1("T1x", self.s["nv"], self.s["no"])

    def _T2(self):
        o, v = self.s["no"], self.s["nv"]
        return self._amp2("T2", (v, v, o, o), "anti")

    def _L1(self):
        return self._amp1("L1", self.s["no"], self.s["nv"])

    def _L2(self):
        o, v = self.s["no"], self.s["nv"]
        return self._amp2("L2", (o, o, v, v), "anti")

    def _intor(self):
        b = Bundle(self.U, self.s)
        return self.U.cc_equations.lambda_int(b.get("F"), b.get("I"), b.get("T1"), b.get("T2"))

    # unrestricted
    def _Fa(self):
        return self._one("Fa", self.s["noa"], self.s["nva"])

    def _Fb(self):
        return self._one("Fb", self.s["nob"], self.s["nvb"])

    def _Ia(self):
        no, n = self.s["noa"], self.s["noa"] + self.s["nva"]
        return self._blocks("Ia", (no,) * 4, (n,) * 4, "anti", False)

    def _Ib(self):
        no, n = self.s["nob"], self.s["nob"] + self.s["nvb"]
        return self._blocks("Ib", (no,) * 4, (n,) * 4, "anti", False)

    def _Iabab(self):
        oa, ob = self.s["noa"], self.s["nob"]
        a, b = oa + self.s["nva"], ob + self.s["nvb"]
        return self._blocks("Iabab", (oa, ob, oa, ob), (a, b, a, b), "herm", True)

    def _Isa(self):
        """Spatial (not antisymmetrised) same-spin integrals."""
        no, n = self.s["noa"], self.s["noa"] + self.s["nva"]
        return self._blocks("Isa", (no,) * 4, (n,) * 4, "sym", True)

    def _Isb(self):
        no, n = self.s["nob"], self.s["nob"] + self.s["nvb"]
        return self._blocks("Isb", (no,) * 4, (n,) * 4, "sym", True)

    def _u1(self, name, a, b):
        return self._amp1(name, a, b)

    def _T1a(self):
        return self._amp1("T1a", self.s["nva"], self.s["noa"])

    def _T1b(self):
        return self._amp1("T1b", self.s["nvb"], self.s["nob"])

    def _L1a(self):
        return self._amp1("L1a", self.s["noa"], self.s["nva"])

    def _L1b(self):
        return self._amp1("L1b", self.s["nob"], self.s["nvb"])

    def _T2aa(self):
        o, v = self.s["noa"], self.s["nva"]
        return self._amp2("T2aa", (v, v, o, o), "anti")

    def _T2bb(self):
        o, v = self.s["nob"], self.s["nvb"]
        return self._amp2("T2bb", (v, v, o, o), "anti")

    def _T2ab(self):
        s = self.s
        return self._amp2("T2ab", (s["nva"], s["nvb"], s["noa"], s["nob"]))

    def _L2aa(self):
        o, v = self.s["noa"], self.s["nva"]
        return self._amp2("L2aa", (o, o, v, v), "anti")

    def _L2bb(self):
        o, v = self.s["nob"], self.s["nvb"]
        return self._amp2("L2bb", (o, o, v, v), "anti")

    def _L2ab(self):
        s = self.s
        return self._amp2("L2ab", (s["noa"], s["nob"], s["nva"], s["nvb"]))

    def _D2aa(self):
        o, v = self.s["noa"], self.s["nva"]
        return self._amp2("D2aa", (v, v, o, o), "sym")

    def _D2bb(self):
        o, v = self.s["nob"], self.s["nvb"]
        return self._amp2("D2bb", (v, v, o, o), "sym")

    # spin-orbital tensors with alpha/beta ordering
    def _Fso(self):
        s = self.s
        return self._one("Fso", s["noa"] + s["nob"], s["nva"] + s["nvb"])

    def _Iso(self):
        s = self.s
        no = s["noa"] + s["nob"]
        n = no + s["nva"] + s["nvb"]
        return self._blocks("Iso", (no,) * 4, (n,) * 4, "anti", True)

    def _Tso1(self):
        s = self.s
        return self._amp1("Tso1", s["nva"] + s["nvb"], s["noa"] + s["nob"])

    def _Tso2(self):
        s = self.s
        v, o = s["nva"] + s["nvb"], s["noa"] + s["nob"]
        return self._amp2("Tso2", (v, v, o, o), "anti")

    def _sixblocks(self):
        s = self.s
        na, nb = s["noa"], s["nob"]
        out = []
        for nm, d in (("aaaa", (na,) * 4), ("bbbb", (nb,) * 4), ("abab", (na, nb, na, nb)),
                      ("baba", (nb, na, nb, na)), ("abba", (na, nb, nb, na)), ("baab", (nb, na, na, nb))):
            out.append(self._lay(self._raw(self._rng("six" + nm), d)))
        return out

    def _Itot(self):
        s = self.s
        a, b = s["noa"] + s["nva"], s["nob"] + s["nvb"]
        return self._lay(self._raw(self._rng("Itot"), (a, b, a, b)))

    # restricted
    def _Fr(self):
        return self._one("Fr", self.s["noa"], self.s["nva"])

    def _Ir(self):
        no, n = self.s["noa"], self.s["noa"] + self.s["nva"]
        return self._blocks("Ir", (no,) * 4, (n,) * 4, "sym", True)

    def _T1r(self):
        return self._amp1("T1r", self.s["nva"], self.s["noa"])

    def _T2r(self):
        o, v = self.s["noa"], self.s["nva"]
        return self._amp2("T2r", (v, v, o, o), "sym")

    def _L1r(self):
        return self._amp1("L1r", self.s["noa"], self.s["nva"])

    def _L2r(self):
        o, v = self.s["noa"], self.s["nva"]
        return self._amp2("L2r", (o, o, v, v), "sym")

    # energies, occupations
    def _levels(self, name, lo, hi, n):
        rng = self._rng(name)
        e = rng.uniform(lo, hi, n)
        if lo < 0 < hi or self.s.get("vals") == "ties":      # keep the gap between occupied and virtual levels
            e = self._special(e, rng)
        return self._lay(e)

    def _eo(self):
        return self._levels("eo", -3, -1, self.s["no"])

    def _ev(self):
        return self._levels("ev", 1, 3, self.s["nv"])

    def _eob(self):
        return self._levels("eob", -3, -1, self.s["nob"])

    def _evb(self):
        return self._levels("evb", 1, 3, self.s["nvb"])

    def _eps(self):
        return self._levels("eps", -3, 3, self.s["no"] + self.s["nv"])

    def _epsb(self):
        return self._levels("epsb", -3, 3, self.s["nob"] + self.s["nvb"])

    def _matA(self):
        return self._lay(self._raw(self._rng("matA"), (self.s["no"], self.s["nv"]), False))

    def _matB(self):
        return self._lay(self._raw(self._rng("matB"), (self.s["noa"], self.s["nvb"]), False))

    # configuration interaction: n spatial orbitals, na/nb electrons; g* is the spin-orbital version
    def _ci_h(self, name, n):
        h = self._raw(self._rng(name), (n, n), False)
        return self._lay(h + h.T)

    def _ha(self):
        return self._ci_h("ha", self.s["cn"])

    def _hb(self):
        return self._ci_h("hb", self.s["cn"])

    def _cIa(self):
        return self._lay(self._real4("cIa", (self.s["cn"],) * 4))

    def _cIb(self):
        return self._lay(self._real4("cIb", (self.s["cn"],) * 4))

    def _cIab(self):
        return self._lay(self._real4("cIab", (self.s["cn"],) * 4))

    def _real4(self, name, dims):
        t = self._raw(self._rng(name), dims, False)
        t = t + t.transpose((1, 0, 3, 2))
        return 0.5 * (t + t.transpose((2, 3, 0, 1)))

    def _gh(self):
        return self._ci_h("gh", 2 * self.s["cn"])

    def _gI(self):
        return self._lay(self._real4("gI", (2 * self.s["cn"],) * 4))

    def _dets(self, which):
        U = self.U
        s = self.s
        D = U.ci_utils.Dstring
        if which == "u":
            n, na, nb = s["cn"], s["cna"], s["cnb"]
            rng = rng_for(s["dseed"], "ubasis")
            A = self._occs(n, na)
            B = self._occs(n, nb)
            pairs = [(x, y) for x in A for y in B]
            keep = max(2, min(len(pairs), s.get("nd", 6)))
            ix = rng.permutation(len(pairs)).tolist()
            if s["dseed"] % 3:              # many determinants that differ in one spin only
                same = s["dseed"] % 3 - 1
                first = pairs[ix[0]][same]
                ix.sort(key=lambda k: pairs[k][same] != first)
            ix = sorted(ix[:keep])
            return [(D(n, numpy.array(pairs[k][0])), D(n, numpy.array(pairs[k][1]))) for k in ix]
        n, ne = 2 * s["cn"], s["cna"] + s["cnb"]
        rng = rng_for(s["dseed"], "gbasis")
        A = self._occs(n, ne)
        keep = max(2, min(len(A), s.get("nd", 6)))
        ix = sorted(rng.permutation(len(A))[:keep].tolist())
        return [D(n, numpy.array(A[k])) for k in ix]

    @staticmethod
    def _occs(n, k):
        from itertools import combinations
        return [[1 if i in c else 0 for i in range(n)] for c in combinations(range(n), k)]

    def _ubasis(self):
        return self._dets("u")

    def _gbasis(self):
        return self._dets("g")

    def _uvec(self):
        return self._lay(self._raw(self._rng("uvec"), (len(self.get("ubasis")),), False))

    def _gvec(self):
        return self._lay(self._raw(self._rng("gvec"), (len(self.get("gbasis")),), False))

    def _pstr(self):
        n = self.s["cn"] + 1
        return self.U.ci_utils.Pstring(n, rng_for(self.s["dseed"], "pstr").integers(0, 3, n))

    def _pstrb(self):
        p = self.get("pstr")
        occ = numpy.array(p.occ, copy=True)
        if self.s["dseed"] % 2:
            occ[self.s["dseed"] // 2 % len(occ)] += 1
        return self.U.ci_utils.Pstring(len(occ), occ)

    def _cT(self, name, shape, kind=None):
        t = self._raw(self._rng(name), shape, False)
        if kind == "anti":
            t = self._anti(t)
        return self._lay(t)

    def _cT1a(self):
        s = self.s
        return self._cT("cT1a", (s["cn"] - s["cna"], s["cna"]))

    def _cT1b(self):
        s = self.s
        return self._cT("cT1b", (s["cn"] - s["cnb"], s["cnb"]))

    def _cT2aa(self):
        s = self.s
        v, o = s["cn"] - s["cna"], s["cna"]
        return self._cT("cT2aa", (v, v, o, o), "anti")

    def _cT2bb(self):
        s = self.s
        v, o = s["cn"] - s["cnb"], s["cnb"]
        return self._cT("cT2bb", (v, v, o, o), "anti")

    def _cT2ab(self):
        s = self.s
        return self._cT("cT2ab", (s["cn"] - s["cna"], s["cn"] - s["cnb"], s["cna"], s["cnb"]))

    def _gT1(self):
        s = self.s
        no = s["cna"] + s["cnb"]
        return self._cT("gT1", (2 * s["cn"] - no, no))

    def _gT2(self):
        s = self.s
        no = s["cna"] + s["cnb"]
        v = 2 * s["cn"] - no
        return self._cT("gT2", (v, v, no, no), "anti")

    def _gocc(self):
        s = self.s
        ne = s["cna"] + s["cnb"]
        nb = ne // 2
        na = ne - nb
        n = s["cn"]
        return [1 if i < na else 0 for i in range(n)] + [1 if i < nb else 0 for i in range(n)]

    # integrals
    def _mol(self):
        return backend.make_mol(self.s.get("mol", 0))

    def _orb(self, name, n, nao, cplx):
        return self._lay(self._raw(self._rng(name), (nao, n), cplx))

    def _orbs(self):
        """Eight orbital sets for the molecular backend: four alpha, four beta."""
        nao = backend.NAO[self.s.get("mol", 0)]
        ns = self.s["oc"]
        return [self._orb("orb%d" % k, ns[k], nao, False) for k in range(8)]

    def _porbs(self):
        nao = self.s["pnao"]
        ns = self.s["oc"]
        return [self._orb("porb%d" % k, ns[k], nao, self.s.get("cplx", False)) for k in range(8)]

    def _mfr(self):
        return backend.make_mf_mol(self.get("mol"), self._mfc("mfr", backend.NAO[self.s.get("mol", 0)], 1, False))

    def _mfu(self):
        return backend.make_mf_mol(self.get("mol"), self._mfc("mfu", backend.NAO[self.s.get("mol", 0)], 2, False))

    def _mfc(self, name, nao, nspin, cplx):
        rng = self._rng(name)
        nmo = self.s["nmo"]
        if nspin == 1:
            c = self._lay(self._raw(rng, (nao, nmo), cplx))
            occ = numpy.array([2.0 if i < self.s["nocc"] else 0.0 for i in range(nmo)])
            return c, occ
        c = [self._lay(self._raw(rng, (nao, nmo), cplx)) for _ in range(2)]
        occ = numpy.array([[1.0 if i < self.s["nocc"] else 0.0 for i in range(nmo)],
                           [1.0 if i < self.s["noccb"] else 0.0 for i in range(nmo)]])
        return numpy.array(c), occ

    def _psol(self):
        """Gamma-point mean field over the simulated periodic backend, used for explicit orbitals."""
        return backend.make_mf_sol(self._eri_key("psol"), self.s["pnao"], self.s.get("cplx", False),
                                   self._mfc("psol", self.s["pnao"], 1, self.s.get("cplx", False)))

    def _psolu(self):
        return backend.make_mf_sol(self._eri_key("psolu"), self.s["pnao"], self.s.get("cplx", False),
                                   self._mfc("psolu", self.s["pnao"], 2, self.s.get("cplx", False)))

    def _eri_key(self, name):
        tw = self.s.get("twin", {})
        return zlib.crc32(repr((tw.get("eri", self.s["seed"]), name)).encode())

    def _kmf(self):
        return backend.make_kmf(self._eri_key("kmf"), self.s["pnao"], self.s["nmo"], self.s["nocc"],
                                self.s.get("kmesh", 0), self._rng("kmf"), self)

    def _korbs(self):
        ns = self.s["oc"]
        return [self._orb("korb%d" % k, ns[k], self.s["pnao"], True) for k in range(4)]


LAYOUTS = ["c", "sl", "sl", "f", "view", "ro", "neg"]
TWINNABLE = ["F", "I", "T1", "T2", "L1", "L2", "Fa", "Fb", "Ia", "Ib", "Iabab", "T1a", "T1b", "T2aa", "T2ab", "T2bb",
             "L1a", "L1b", "L2aa", "L2ab", "L2bb", "Fr", "Ir", "T1r", "T2r", "L1r", "L2r", "eo", "ev", "eps", "ha", "hb",
             "cIa", "cIb", "cIab", "gh", "gI", "uvec", "gvec", "eri", "orb0", "orb1", "orb2", "orb3", "orb4", "porb0", "porb1",
             "mfr", "mfu", "kmf", "cT1a", "cT2ab", "gT1", "gT2", "Isa", "Isb", "Itot", "Fso", "Iso", "Tso1", "Tso2"]


def random_spec(rng, big=False, cplx=None, layout=None, zero=False):
    """rng: random.Random."""
    lo = 0 if zero and rng.random() < 0.1 else 1

    def d():
        r = rng.random()
        if big and r < share:
            return rng.choice([4, 4, 5, 6])
        return rng.choice([lo, 1, 2, 2, 3])

    share = rng.choice([0.4, 0.4, 0.9, 0.0]) if big else 0.0
    r = rng.random()
    alias = True if r < 0.12 else "equal" if r < 0.2 else False
    s = {"seed": rng.randrange(1 << 30), "dseed": rng.randrange(1 << 30),
         "no": max(1, d()), "nv": max(1, d()), "noa": max(1, d()), "nva": max(1, d()), "nob": max(1, d()), "nvb": max(1, d()),
         "layout": layout or rng.choice(LAYOUTS),
         "cplx": (rng.random() < 0.25) if cplx is None else cplx,
         "alias": alias}
    if big and not share:                   # one index range much longer than the others
        long = rng.choice(["no", "nv"])
        s.update({k: min(s[k], 2) for k in ("no", "nv", "noa", "nva", "nob", "nvb")})
        s.update({k: rng.choice([8, 9, 11]) for k in (long, long + "a", long + "b") if rng.random() < 0.8})
    if alias or rng.random() < 0.2:
        s["nob"], s["nvb"] = s["noa"], s["nva"]
    if rng.random() < 0.15:
        s["vals"] = rng.choice(["zero", "zero", "sparse", "ties", "flat", "tiny"])
    s["cn"] = rng.choice([2, 3, 3, 4, 4, 4, 5])
    s["cna"] = rng.randint(1, s["cn"] - 1) if rng.random() < 0.5 else s["cn"] // 2
    s["cnb"] = rng.randint(1, s["cn"] - 1) if rng.random() < 0.5 else s["cn"] // 2
    s["nd"] = rng.choice([3, 4, 6, 6, 12, 40, 40])
    s["mol"] = rng.randrange(3)
    s["oc"] = [rng.choice([1, 1, 2, 3]) for _ in range(8)]
    s["pnao"] = rng.choice([2, 3])
    s["nmo"] = rng.choice([2, 3])
    s["nocc"] = rng.randint(1, s["nmo"] - 1)
    s["noccb"] = rng.randint(1, s["nmo"] - 1)
    s["kmesh"] = rng.randrange(3)
    return s


def twin_of(rng, spec):
    """Same shapes; one tensor (or all of them) differs."""
    t = dict(spec)
    if rng.random() < 0.5:
        t["seed"] = rng.randrange(1 << 30)
        t.pop("twin", None)
    else:
        t["twin"] = dict(spec.get("twin", {}))
        for k in rng.sample(TWINNABLE, rng.choice([1, 2, 12])):
            t["twin"][k] = rng.randrange(1 << 30)
    if rng.random() < 0.3:
        t["layout"] = rng.choice(LAYOUTS)
    if rng.random() < 0.3:
        t["dseed"] = rng.randrange(1 << 30)         # other determinants
    return t
